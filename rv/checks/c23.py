import inspect
import numpy as np
from .. import gen, compare, ref
RULE = ('The same chain (fresh or fabricated state, same keys) is run with automatic, disabled and explicit batch sizes (1, prime, not dividing, equal to, larger than the number of observations) for both aggregations, and with permuted observations, through the sampler and the interface; '
        'the recorded chains are compared up to rounding and to permutation. Where the aggregation functions can be called, counts are compared exactly and sums up to rounding with numpy. '
        'Distinct non-trivial cases: distinct (configuration, batch sizes or permutation) pairs with decision nodes.')
MIN = dict(batch_pairs=80, permutation_pairs=24, interface_permutations=8, distinct_batch_sizes=10, trees_with_decisions=12)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i in range(40 if big else 8):
        n = int(rng.choice([1, 2, 7, 13, 32, 97, 128, 300])) if i else 97
        out.append(dict(kind='chain', cfg=dict(n=n, p=int(rng.choice([1, 3])), ntree=int(rng.choice([1, 4, 20])), d=int(rng.choice([2, 4, 6])), minp=[None, 1, 2, 5][rng.integers(4)], kmax=int(rng.choice([3, 30, 300])),
                                               ratios=bool(i % 2)), reps=6 if big else 4, nvar=8 if big else 5, T=8, cost=6))
    for i in range(8 if big else 4):
        out.append(dict(kind='interface', reps=8 if big else 4, quants=bool(i % 2), cost=3))
    out.append(dict(kind='helpers', reps=300 if big else 70, cost=3))
    return out


def variants(n, rng, m):
    sizes = sorted({1, 2, 3, 7, max(1, n - 1), max(1, n), n + 1, 2 * n + 5, 10 ** 4, max(1, n // 2)})
    out = [('auto', 'auto')]
    for _ in range(m - 1):
        a = [None, 'auto', *sizes][rng.integers(len(sizes) + 2)]
        b = [None, 'auto', *sizes, *sizes][rng.integers(2 * len(sizes) + 2)]
        out.append((a, b))
    return out


def permuted(H, perm):
    """ undo a permutation of the observations in a history """
    out = dict(H)
    for f in ('leaf_indices', 'resid'):
        a = np.empty_like(np.asarray(H[f]))
        a[..., perm] = np.asarray(H[f])
        out[f] = a
    return out


def check_members(rec, A, B, what):
    """ if the trees agree, so must the cached membership and growability """
    if compare.discrete_mismatch(A, B) is None:
        rec.expect(np.array_equal(A['leaf_indices'], B['leaf_indices']), 'membership', f'{what}: same trees, different recorded leaf of the observations')


def run(job, rec):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    if job['kind'] == 'chain':
        cfg = dict(job['cfg'])
        n = cfg['n']
        runs = []
        m1, m2 = compare.Majority(rec, 'batch-size'), compare.Majority(rec, 'permutation')
        for rep in range(job['reps']):
            ds = gen.dataset(dict(cfg), rng)
            runs.append((ds, int(rng.integers(2 ** 31)), int(rng.integers(2 ** 31)), rep % 2))

        def start(ds, s2, fab, **over):
            st = drive.strong(drive.make_state(dict(cfg, rb=None, cb=None), ds, **over))
            return gen.fabricate(st, np.random.default_rng(s2)) if fab else st
        base = []
        for ds, seed, s2, fab in runs:
            st = start(ds, s2, fab)
            A = drive.route_scan(st, seed, job['T'])
            base.append((st, A))
            D = bool(ref.decision_mask(A['split_trees'].astype(np.int64)).any())
            rec.event('trees_with_decisions', D)
            perm = rng.permutation(n)
            st2 = dict(st)
            for f in ('X', 'y', 'resid', 'leaf_indices'):
                st2[f] = st[f][..., perm]
            B = permuted(drive.route_scan(st2, seed, job['T']), perm)
            what = f'observations permuted ({cfg})'
            m2.add(A, B, what)
            check_members(rec, A, B, what)
            rec.event('permutation_pairs')
            if D:
                rec.mark('perm', job['seed'], perm.tobytes())
        for rb, cb in variants(n, rng, job['nvar']):
            for (ds, seed, s2, fab), (st, A) in zip(runs, base):
                st3 = start(ds, s2, fab, resid_batch_size=rb, count_batch_size=cb)
                B = drive.route_scan(st3, seed, job['T'])
                what = f'batch sizes resid={rb} count={cb} against none ({cfg})'
                m1.add(A, B, what)
                check_members(rec, A, B, what)
                rec.event('batch_pairs')
                rec.mark('batch', rb, cb, n, seed)
                if 'ratios' in A and 'ratios' in B and compare.discrete_mismatch(A, B) is None:
                    d = compare.values_differ(A['ratios']['log_trans_prior'], B['ratios']['log_trans_prior'], 0)
                    rec.expect(d < 1e-4, 'counts', f'{what}: transition ratio (a function of counts) differs by {d:.3g}')
        rec.event('distinct_batch_sizes', job['nvar'])
        m1.finish()
        m2.finish()
        rec.sample(cfg=cfg, compared=m1.n + m2.n, diverged=m1.bad + m2.bad)
    elif job['kind'] == 'interface':
        maj = compare.Majority(rec, 'interface-permutation')
        spy = drive.spy_gbart()
        n, p = int(rng.choice([20, 60])), 3
        for rep in range(job['reps']):
            X = rng.normal(size=(p, n)).astype(np.float32)
            X[0] = np.round(X[0] * 2)
            y = (X[0] + .5 * np.sign(X[1]) + .4 * rng.normal(size=n)).astype(np.float32)
            T = rng.normal(size=(p, 5)).astype(np.float32)
            perm = rng.permutation(n)
            ik = dict(resid_batch_size=[None, 3][rep % 2], count_batch_size=[5, None][rep % 2], min_points_per_leaf=2)
            kw = dict(ntree=6, maxdepth=4, ndpost=5, nskip=5, usequants=job['quants'], numcut=20, seed=int(rng.integers(2 ** 31)), x_test=T, initkw=ik)
            bA, A = spy(X, y, **kw)
            bB, B = spy(X[:, perm], y[perm], **kw)
            if A is None:
                rec.event('not_observable')
                msg = None
            else:
                msg = maj.add(A, permuted(B, perm), 'interface with permuted observations')
            rec.event('interface_permutations')
            if msg is None:
                unp = np.empty_like(np.asarray(bB.yhat_train))
                unp[:, perm] = np.asarray(bB.yhat_train)
                d = max(compare.values_differ(bA.yhat_train, unp, 0), compare.values_differ(bA.yhat_test, bB.yhat_test, 0), compare.values_differ(bA.sigma, bB.sigma, 0))
                rec.expect(d < 5e-3 or A is None, 'interface-outputs', f'outputs with permuted observations differ by {d:.3g} of their scale')
                for k in ('offset', 'scale', 'lamda', 'sigest'):
                    rec.expect(np.allclose(getattr(bA, k), getattr(bB, k), rtol=1e-3, atol=1e-5), 'interface-prior', f'{k} depends on the order of observations')
            rec.mark('interface', perm.tobytes())
        maj.finish()
    else:
        cnt, sm = getattr(mcmcstep, 'count_datapoints_per_leaf', None), getattr(mcmcstep, 'sum_resid', None)

        def usable(f, names):
            return f is not None and list(inspect.signature(f).parameters) == names
        cnt = cnt if usable(cnt, ['leaf_indices', 'tree_size', 'batch_size']) else None
        sm = sm if usable(sm, ['resid', 'leaf_indices', 'tree_size', 'batch_size']) else None
        rec.expect(True, 'helpers', '')
        for rep in range(job['reps']):
            n = int(rng.choice([0, 1, 2, 3, 5, 7, 16, 97, 255, 256, 300, 1000]))
            size = int(2 ** rng.integers(1, 10))
            nt = int(rng.choice([1, 3, 17]))
            dt = np.uint8 if size <= 256 else np.uint16
            I = rng.integers(1, size, (nt, n)).astype(dt)
            if rng.integers(3) == 0:
                I[:] = rng.integers(1, size)
            bs = [None, 1, 2, 3, 7, max(1, n - 1), max(1, n), n + 1, 50, 10 ** 5][rng.integers(10)]
            if cnt is not None:
                got = np.asarray(cnt(jnp.asarray(I), size, bs))
                want = np.stack([np.bincount(i, minlength=size) for i in I])
                rec.event('counts_compared', got.size)
                rec.expect(got.shape == want.shape and np.array_equal(got, want), 'wrong-counts', f'counts of n={n} points in {size} leaves with batch size {bs} are wrong')
            if sm is not None:
                r = (rng.normal(size=n) * 10. ** rng.uniform(-3, 3)).astype(np.float32)
                if rng.integers(4) == 0:
                    r = np.abs(r) + 100
                got = np.asarray(sm(jnp.asarray(r), jnp.asarray(I[0]), size, bs), np.float64)
                want = np.bincount(I[0], r.astype(float), minlength=size)
                tol = np.bincount(I[0], np.abs(r).astype(float), minlength=size) * 1e-6 * (4 + np.sqrt(n)) + 1e-30
                rec.event('sums_compared', got.size)
                rec.expect(got.shape == want.shape and np.all(np.abs(got - want) <= tol), 'wrong-sums', f'sums of n={n} residuals in {size} leaves with batch size {bs} are wrong')
            rec.mark('helpers', n, size, nt, bs)
        if cnt is None or sm is None:
            rec.event('helpers_not_observable')
        # automatic batch sizes chosen for another platform are valid batch sizes
        choose = getattr(mcmcstep, '_choose_suffstat_batch_size', None)
        if usable(choose, ['resid_batch_size', 'count_batch_size', 'y', 'forest_size']):
            class Dev:
                platform = 'gpu'

            class Y:
                def __init__(self, n): self.size = n; self.shape = (n,)
                def devices(self): return {Dev()}
            for n in (0, 1, 2, 3, 5, 10, 1000, 10 ** 6, 10 ** 8):
                for f in (2, 2 ** 6 * 200, 2 ** 12 * 1000):
                    out = choose('auto', 'auto', Y(n), f)
                    rec.event('auto_choices')
                    rec.expect(all(x is None or (int(x) == x and x >= 1) for x in out), 'bad-auto', f'automatic batch sizes {out} for n={n}')

import numpy as np
from .. import gen, compare
RULE = ('run_mcmc and the interface are run over combinations of burn-in, saved samples and thinning (0 and 1 included) while a callback streams the whole state at every iteration; '
        'traces are compared bitwise with the streamed states, and runs of the same chain with different settings with each other. Distinct non-trivial cases: distinct (settings, dataset) runs.')
MIN = dict(runs=40, trace_rows_checked=400, cross_settings_rows=100, empty_traces=6, gbart_runs=4)
BURN = {'sigma2', 'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'}
MAIN = BURN | {'leaf_trees', 'var_trees', 'split_trees'}


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    combos = [(0, 0, 1), (0, 5, 1), (5, 0, 1), (1, 1, 1), (3, 4, 2), (0, 3, 3), (7, 2, 5), (2, 6, 1), (4, 1, 4), (1, 3, 2), (12, 8, 1), (0, 1, 7), (6, 0, 3), (0, 0, 2)]
    combos += [tuple(int(x) for x in (rng.integers(0, 10), rng.integers(0, 10), rng.integers(1, 6))) for _ in range(40 if big else 4)]
    cfgs = gen.configs(rng, 8, [])
    for c in cfgs:
        c.update(ntree=min(c['ntree'], 6), d=max(2, min(c['d'], 5)))
    for i in range(0, len(combos), 2):
        out.append(dict(kind='loop', cfg=cfgs[i // 2 % len(cfgs)], combos=combos[i:i + 2], reps=4, cost=2.5))
    for i in range(6 if big else 3):
        c = cfgs[i]
        out.append(dict(kind='cross', cfg=c, reps=6, N=12, settings=[(0, 12, 1), (4, 4, 2), (3, 3, 3), (6, 1, 6), (12, 0, 1), (0, 5, 2)], cost=4))
    for i in range(10 if big else 4):
        out.append(dict(kind='gbart', i=i, reps=2, cost=4))
    return out


def eq(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def check_traces(rec, st, final, burn, main, ev, nb, ns, sk, tag):
    rec.event('runs')
    rec.mark(tag, nb, ns, sk, np.asarray(st['y']).tobytes())
    tot = nb + ns * sk
    rec.expect(len(ev) == tot, 'iterations', f'burn-in {nb}, saved {ns}, thinning {sk}: {len(ev)} iterations were run, expected {tot}')
    extra = {'ratios'} if 'ratios' in st else set()
    rec.expect(set(burn) == BURN | extra, 'burnin-fields', f'burn-in trace has {sorted(set(burn) ^ (BURN | extra))} extra or missing')
    rec.expect(set(main) == MAIN | extra, 'main-fields', f'main trace has {sorted(set(main) ^ (MAIN | extra))} extra or missing')
    import jax
    for nm, tr, L in (('burn-in', burn, nb), ('main', main, ns)):
        for k, v in tr.items():
            want = st[k]
            for a, w in zip(jax.tree_util.tree_leaves(v), jax.tree_util.tree_leaves(want)):
                rec.expect(a.shape == (L,) + tuple(w.shape) and a.dtype == w.dtype, 'trace-layout', f'{nm} trace, {k}: shape {a.shape} {a.dtype}, expected {(L,) + tuple(w.shape)} {w.dtype}')
        if L == 0:
            rec.event('empty_traces')
    if len(ev) != tot:
        return
    S = [e['state'] for e in sorted(ev, key=lambda e: int(e['i_total']))]

    def rows(tr, its, nm):
        for k in tr:
            if not rec.expect(len(jax.tree_util.tree_leaves(tr[k])[0]) == len(its), 'trace-length', f'{nm} trace of {k} has the wrong length'):
                continue
            for r, i in enumerate(its):
                a = jax.tree_util.tree_map(lambda v: np.asarray(v)[r], tr[k])
                ok = all(eq(x, y) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(S[i][k])))
                rec.event('trace_rows_checked')
                if not rec.expect(ok, f'{nm}-row', f'burn-in {nb}, saved {ns}, thinning {sk}: row {r} of {k} in the {nm} trace is not the value after iteration {i}'):
                    break
    rows(burn, list(range(nb)), 'burn-in')
    rows(main, [nb + (j + 1) * sk - 1 for j in range(ns)], 'main')
    if tot:
        for k in ('leaf_trees', 'split_trees', 'var_trees', 'resid', 'sigma2', 'leaf_indices', 'grow_prop_count', 'prune_acc_count'):
            rec.expect(eq(final[k], S[-1][k]), 'final-state', f'{k} of the final state is not that after the last iteration')
        # successive states must differ: nothing is run twice or skipped
        sig = [float(s['sigma2']) for s in S]
        rec.expect(len(set(sig)) == len(sig), 'repeated-iteration', 'two iterations have the same noise variance')
    else:
        for k in ('leaf_trees', 'split_trees', 'resid', 'sigma2'):
            rec.expect(eq(final[k], st[k]), 'final-state', f'{k} changed without iterations')


def run(job, rec):
    import jax
    from bartz import mcmcloop
    from .. import drive, workload
    rng = np.random.default_rng(job['seed'])
    if job['kind'] == 'loop':
        for nb, ns, sk in job['combos']:
            for rep in range(job['reps']):
                ds = gen.dataset(job['cfg'], rng)
                st = drive.make_state(job['cfg'], ds)
                final, burn, main, ev = drive.route_loop(st, int(rng.integers(2 ** 31)), nb, ns, sk)
                check_traces(rec, st, final, burn, main, ev, nb, ns, sk, 'loop')
        rec.sample(kind='run_mcmc', settings=job['combos'])
    elif job['kind'] == 'cross':
        maj = compare.Majority(rec, 'settings-change-chain')
        for rep in range(job['reps']):
            ds = gen.dataset(job['cfg'], rng)
            st = drive.strong(drive.make_state(job['cfg'], ds))
            key = jax.random.key(int(rng.integers(2 ** 31)))
            base = None
            for nb, ns, sk in job['settings']:
                final, burn, main = mcmcloop.run_mcmc(st, nb, ns, sk, _nothing, key)
                main = {k: np.asarray(v) for k, v in main.items() if k != 'ratios'}
                if base is None:
                    base = main
                    continue
                pts = [nb + (j + 1) * sk - 1 for j in range(ns)]
                pts = [q for q in pts if q < job['N']]
                rec.event('cross_settings_rows', len(pts) + nb)
                rec.mark('cross', rep, nb, ns, sk, np.asarray(st['y']).tobytes())
                A = {k: v[pts] for k, v in base.items()}
                B = {k: v[:len(pts)] for k, v in main.items()}
                A['sigma2'] = np.concatenate([base['sigma2'][:nb], A['sigma2']])
                B['sigma2'] = np.concatenate([np.asarray(burn['sigma2']), B['sigma2']])
                maj.add(A, B, f'burn-in {nb}, saved {ns}, thinning {sk} against all saved')
        maj.finish()
    else:
        grb(job, rec, rng)


def _nothing(**kw):
    pass


def grb(job, rec, rng):
    import jax
    from .. import drive
    n, p = 32, 2
    maj = compare.Majority(rec, 'interface-settings-change-chain')
    settings = [(7, 4, 2), (0, 6, 1), (5, 3, 3), (11, 0, 1), (2, 9, 1), (8, 2, 1)]
    settings = [settings[(job['i'] + i) % 6] for i in range(3)]
    for rep in range(job['reps']):
        X = rng.normal(size=(p, n)).astype(np.float32)
        y = (X[0] * 2 + rng.normal(size=n)).astype(np.float32)
        seed = int(rng.integers(2 ** 31))
        base = None
        for nskip, ndpost, ke in settings:
            kw = dict(ntree=5, maxdepth=4, seed=seed)
            b, H = drive.spy_gbart()(X, y, ndpost=ndpost, nskip=nskip, keepevery=ke, **kw)
            if H is None:
                rec.event('gbart_not_observable')
                continue
            rec.event('gbart_runs')
            rec.mark('gbart', rep, nskip, ndpost, ke, job['i'])
            tot = nskip + ndpost * ke
            if not rec.expect(len(H['sigma2']) == 1 + tot, 'gbart-iterations', f'nskip {nskip}, ndpost {ndpost}, keepevery {ke}: {len(H["sigma2"]) - 1} iterations were run, expected {tot}'):
                continue
            sc = float(b.scale)
            sg = sc * np.sqrt(H['sigma2'][1:].astype(float))
            keep = [nskip + (j + 1) * ke - 1 for j in range(ndpost)]
            rec.expect(np.asarray(b.first_sigma).shape == (nskip,) and np.allclose(b.first_sigma, sg[:nskip], rtol=1e-5), 'first_sigma', f'first_sigma does not hold the burn-in iterations {nskip, ndpost, ke}')
            rec.expect(np.asarray(b.sigma).shape == (ndpost,) and np.allclose(b.sigma, sg[keep], rtol=1e-5), 'sigma', f'sigma does not hold the documented iterations {nskip, ndpost, ke}')
            # training fit of the saved iterations, from the residuals
            fit = float(b.offset) + sc * (H['y'].astype(float) - H['resid'][1:].astype(float))[keep]
            yt = np.asarray(b.yhat_train)
            rec.event('trace_rows_checked', ndpost)
            rec.expect(yt.shape == (ndpost, n) and np.allclose(yt, fit, atol=1e-3 * sc), 'yhat_train', f'yhat_train does not hold the fit after the documented iterations {nskip, ndpost, ke}')
            A = {k: v[1:] for k, v in H.items() if k in drive.FIELDS}
            if base is None or len(base['sigma2']) < len(A['sigma2']):
                longer, shorter = A, base
            else:
                longer, shorter = base, A
            if shorter is not None:
                L = len(shorter['sigma2'])
                maj.add({k: v[:L] for k, v in longer.items()}, shorter, f'nskip {nskip}, ndpost {ndpost}, keepevery {ke}')
            base = longer
    maj.finish()
    rec.sample(kind='gbart', settings=settings)

import numpy as np
from .. import compare
RULE = ('The regression interface is fitted on pairs of data sets related by a change of units of the response (powers of two, general positive affine maps, with default and explicit prior arguments) or of the predictors (random increasing maps with quantile cutpoints, '
        'positive affine maps with uniform ones, each predictor its own, or only one predictor), with the same seed, and chains streamed from the sampler and all outputs are compared. Distinct non-trivial cases: distinct (data, transformation) pairs where trees have decision nodes.')
MIN = dict(power_of_two_pairs=60, chains_compared=60, response_pairs=30, monotone_pairs=15, affine_pairs=15, single_predictor_pairs=8, trees_with_decisions=60)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i in range(32 if big else 8):
        out.append(dict(kind='response', n=int(rng.choice([7, 20, 45, 90])), p=int(rng.choice([1, 2, 4, 25])), ntree=int(rng.choice([1, 3, 12])), maxdepth=int(rng.choice([2, 4, 6])),
                        quants=bool(i % 2), reps=10 if big else 6, cost=3))
    for i in range(12 if big else 3):
        out.append(dict(kind='units', n=[30, 2, 77, 11][i % 4], p=[2, 3, 1, 40][i % 4], exps=60 if big else 24, cost=3))
    for i in range(32 if big else 8):
        out.append(dict(kind='predictors', n=int(rng.choice([20, 45, 90, 300])), p=int(rng.choice([1, 2, 4, 8])), ntree=int(rng.choice([1, 3, 12])), maxdepth=int(rng.choice([3, 4, 6])),
                        quants=bool(i % 2), numcut=int(rng.choice([1, 4, 30, 255])), reps=10 if big else 6, cost=3))
    return out


def outputs(b):
    g = lambda a: np.asarray(a, np.float64)
    return dict(yhat_train=g(b.yhat_train), yhat_train_mean=g(b.yhat_train_mean), yhat_test=g(b.yhat_test), yhat_test_mean=g(b.yhat_test_mean), sigma=g(b.sigma), first_sigma=g(b.first_sigma),
                offset=g(b.offset), scale=g(b.scale), lamda=g(b.lamda), sigest=g(b.sigest) if b.sigest is not None else None)


LOCATION = ('yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean', 'offset')


def increasing(x, rng, kind):
    """ a random strictly increasing map, evaluated on the values of x and kept strict in float32 """
    u, inv = np.unique(x, return_inverse=True)
    m = len(u)
    if kind == 0: # arbitrary positive gaps
        v = np.cumsum(np.exp(2 * rng.normal(size=m)))
        v = (v - v.mean()) * 10. ** rng.uniform(-2, 2)
    elif kind == 1:
        v = (u - u.min()) / (np.ptp(u) or 1)
        v = np.exp(5 * v)
    elif kind == 2:
        v = np.arange(m, dtype=float) - m // 2 # ranks
    elif kind == 3:
        z = (u - u.mean()) / (u.std() or 1)
        v = z ** 3 + .01 * z - 7
    else:
        v = u * float(2. ** rng.integers(-8, 9))
    v = v.astype(np.float32)
    if len(np.unique(v)) < m or np.any(np.diff(v) <= 0):
        v = (np.arange(m) * 3 - m).astype(np.float32)
    return v[inv].reshape(x.shape)


def finite(o):
    return all(v is None or np.all(np.isfinite(v)) for v in o.values())


def compare_outputs(A, B, a, c, rtol=3e-3):
    """ message if B is not A in units a, shifted by c """
    for k in A:
        if A[k] is None or B[k] is None:
            if (A[k] is None) != (B[k] is None):
                return f'{k} is None in one of the two'
            continue
        f = a ** 2 if k == 'lamda' else a
        want = A[k] * f + (c if k in LOCATION else 0)
        if want.shape != B[k].shape:
            return f'{k}: shapes {want.shape} and {B[k].shape}'
        # tolerance relative to the spread, plus the rounding of large shifts
        s = a * (float(A['scale']) * 2) if k in LOCATION else np.abs(want).max(initial=0)
        tol = rtol * s + 1e-5 * (np.abs(want).max(initial=0) if k in LOCATION else 0)
        if k in ('lamda', 'sigest', 'sigma', 'first_sigma', 'scale') and k != 'scale':
            tol *= 2
        if want.size and np.abs(want - B[k]).max() > tol:
            return f'{k} differs by {np.abs(want - B[k]).max():.3g} with tolerance {tol:.3g}: {B[k].ravel()[:3]}, expected {want.ravel()[:3]}'
    return None


def exact(rec, HA, HB, oA, oB, a, what):
    """ multiplication by a power of two commutes with floating point arithmetic """
    rec.event('power_of_two_pairs')
    if HA is not None and HB is not None:
        from .. import compare as cmp
        k = cmp.discrete_mismatch(HA, HB)
        rec.expect(k is None, 'power-of-two', f'{what}: tree structures differ from iteration {k}')
    for k in oA:
        if oA[k] is None or oB[k] is None:
            rec.expect(oA[k] is oB[k], 'power-of-two', f'{what}: {k} is None in one of the two')
            continue
        want = oA[k] * (a * a if k == 'lamda' else a)
        d = np.abs(oB[k] - want).max(initial=0) if want.shape == oB[k].shape else np.inf
        rec.expect(d <= 3e-6 * np.abs(want).max(initial=0), 'power-of-two', f'{what}: {k} is {oB[k].ravel()[:3]}, expected {want.ravel()[:3]}')


def units(job, rec, rng, drive):
    """ many changes of unit of one data set """
    n, p = job['n'], job['p']
    X = rng.normal(size=(p, n)).astype(np.float32)
    y = (X[0] + rng.normal(size=n) + 2 * rng.normal()).astype(np.float32)
    kw = dict(ntree=3, maxdepth=3, ndpost=3, nskip=2, numcut=10, seed=int(rng.integers(2 ** 31)), x_test=X[:, :2], initkw=dict(min_points_per_leaf=1))
    spy = drive.spy_gbart()
    bA, HA = spy(X, y, **kw)
    oA = outputs(bA)
    es = sorted(set(int(e) for e in np.linspace(-30, 30, job['exps'])))
    for e in es:
        a = 2. ** e
        bB, HB = spy(X, (y * np.float32(a)), **kw)
        exact(rec, HA, HB, oA, outputs(bB), a, f'response times 2^{e} (n={n}, p={p})')
        rec.mark('units', job['seed'], e)


def run(job, rec):
    from .. import drive, ref
    rng = np.random.default_rng(job['seed'])
    n, p, k = job['n'], job['p'], job['kind']
    if k == 'units':
        return units(job, rec, rng, drive)
    spy = drive.spy_gbart()
    maj = {}
    outmaj = {}

    def judge(name, HA, HB, oA, oB, a, c, what):
        m = maj.setdefault(name, compare.Majority(rec, name))
        msg = m.add(HA, HB, what) if HA is not None and HB is not None else None
        if HA is None or HB is None:
            rec.event('not_observable')
        # once the chains agree in the units of the sampler, the outputs must
        # agree in each: judged on their own
        msg2 = compare_outputs(oA, oB, a, c)
        L = outmaj.setdefault(name, [0, 0, None])
        L[0] += 1
        if msg2:
            L[1] += 1
            L[2] = L[2] or f'{what}: {msg2}'
            if msg is None:
                rec.event('outputs_only')
                if HA is not None and HB is not None:
                    rec.violate(f'{name}-outputs', f'the chains agree but {what}: {msg2}')
        rec.expect(True, name, '')
        if HA is not None:
            D = ref.decision_mask(np.asarray(HA['split_trees']).astype(np.int64)).any()
            rec.event('trees_with_decisions', bool(D))
            if D:
                rec.mark(name, what, job['seed'], L[0])

    for rep in range(job['reps']):
        X = rng.normal(size=(p, n)).astype(np.float32)
        if k == 'predictors' and job['quants'] and rng.integers(2): # with uniform ones, values on cutpoints could be moved by rounding
            X = np.round(X * float(rng.choice([2, 8]))).astype(np.float32)
        T = X[:, rng.integers(0, n, 8)].copy()
        if k == 'response' or not job['quants']:
            T = rng.normal(size=(p, 8)).astype(np.float32) * 2
        for j in range(p): # independent coordinates
            if k == 'predictors' and job['quants']:
                T[j] = X[j, rng.integers(0, n, 8)]
        y = (np.sign(X[0]) + .5 * X[-1] + .4 * rng.normal(size=n)).astype(np.float32)
        seed = int(rng.integers(2 ** 31))
        kw = dict(ntree=job['ntree'], maxdepth=job['maxdepth'], ndpost=6, nskip=5, keepevery=2, usequants=job['quants'], seed=seed, numcut=job.get('numcut', 50), initkw=dict(min_points_per_leaf=1 + int(n > 10)))
        if k == 'response':
            a = float([2. ** rng.integers(-30, 31), 10. ** rng.uniform(-3, 3), np.exp(rng.normal())][rep % 3])
            c = float([0, 0, 4 * rng.normal()][int(rng.integers(3))]) * a if rep % 3 else 0.
            base, alt = {}, {}
            how = rng.integers(4)
            if how == 1:
                base['sigest'] = float(np.exp(rng.normal() - 1))
                alt['sigest'] = base['sigest'] * a
            elif how == 2:
                base['lamda'] = float(np.exp(rng.normal() - 1))
                alt['lamda'] = base['lamda'] * a ** 2
            if rng.integers(3) == 0:
                base['offset'] = float(rng.normal())
                alt['offset'] = base['offset'] * a + c
            if rng.integers(3) == 0:
                base['k'] = alt['k'] = float(rng.choice([1, 3]))
            y2 = (y.astype(float) * a + c).astype(np.float32)
            bA, HA = spy(X, y, x_test=T, **kw, **base)
            bB, HB = spy(X, y2, x_test=T, **kw, **alt)
            rec.event('response_pairs')
            name = 'response-units'
            what = f'response times {a:.6g} plus {c:.6g} (n={n}, p={p}, {base})'
        else:
            if job['quants']:
                kw['sigest'] = float(np.exp(rng.normal() - 1)) # the regression is not invariant
            only = bool(rep % 3 == 2)
            X2, T2 = X.copy(), T.copy()
            rows = [int(rng.integers(p))] if only else range(p)
            kinds = []
            for j in rows:
                if job['quants']:
                    kd = int(rng.integers(5))
                    z = increasing(np.append(X[j], T[j]), rng, kd)
                else:
                    kd = float([2. ** rng.integers(-8, 9), 10. ** rng.uniform(-3, 3)][rng.integers(2)]), float([0, rng.normal() * 3][rng.integers(2)])
                    z = (np.append(X[j], T[j]).astype(float) * kd[0] + kd[1] * kd[0]).astype(np.float32)
                kinds.append(kd)
                X2[j], T2[j] = z[:n], z[n:]
            bA, HA = spy(X, y, x_test=T, **kw)
            bB, HB = spy(X2, y, x_test=T2, **kw)
            a, c = 1., 0.
            name = 'monotone-transformation' if job['quants'] else 'affine-transformation'
            rec.event('monotone_pairs' if job['quants'] else 'affine_pairs')
            rec.event('single_predictor_pairs', only)
            what = f'predictors {list(rows)} transformed with {kinds} (n={n}, p={p}, numcut={kw["numcut"]})'
            if HA is not None and HB is not None:
                others = [j for j in range(p) if j not in rows]
                rec.expect(np.array_equal(HA['X'][others], HB['X'][others]) and np.array_equal(HA['max_split'][others], HB['max_split'][others]), 'other-predictors', f'{what}: binning of other predictors changed')
                if job['quants']:
                    rec.expect(np.array_equal(HA['X'], HB['X']) and np.array_equal(HA['max_split'], HB['max_split']), 'binning-not-invariant', f'{what}: binned training values changed')
        oA, oB = outputs(bA), outputs(bB)
        if not (finite(oA) and finite(oB)):
            rec.violate('not-finite', f'{what}: outputs are not finite')
            continue
        judge(name, HA, HB, oA, oB, a, c, what)
        if k == 'response' and rep % 3 == 0 and 'offset' not in base: # a power of two: every operation commutes exactly
            exact(rec, HA, HB, oA, oB, a, what)
        if rep == 0:
            rec.sample(kind=k, what=what, sigma=oA['sigma'][:2], transformed=oB['sigma'][:2])
    for m in maj.values():
        m.finish()
    for name, (tot, bad, first) in outmaj.items():
        rec.expect(bad <= max(1, tot // 4), f'{name}-outputs', f'{bad} of {tot} pairs disagree: {first}')

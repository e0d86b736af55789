import contextlib, io, itertools
import numpy as np
RULE = ('A covering set of boundary values of every option (0, 1, 2, few observations; 1, many predictors; constant, huge, tiny, integer, tied predictors; 1 tree; depth 1, 2, large; 1, 255, 256, 65536 cutpoints; no burn-in; no or one saved sample; thinning; none, zero, one test points; '
        'both kinds of cutpoints; minimum leaf size none, 0, huge) is combined at random such that pairs of values recur, each fitted with the regression interface, and shapes and finiteness of all outputs, of the final state and of the traces are monitored. '
        'Distinct non-trivial cases: distinct option combinations run.')
MIN = dict(fits=40, no_observations=4, one_observation=4, two_observations=4, more_predictors=8, maxdepth_one=4, maxdepth_two=4, one_cutpoint=4, no_burnin=8, no_samples=4, constant_predictors=6, arrays_checked=600)

AXES = dict(
    n=[0, 1, 2, 3, 4, 9, 10, 31],
    p=[1, 2, 3, 40, 300],
    xkind=['normal', 'allconst', 'oneconst', 'binary', 'int', 'int8', 'uint8', 'huge', 'tiny', 'hugeconst', 'ties', 'offset', 'f64', 'negconst'],
    ykind=['normal', 'big', 'small', 'int', 'outlier', 'offset', 'binary', 'twovalues'],
    ntree=[1, 2, 5, 60],
    maxdepth=[1, 2, 3, 6, 10],
    numcut=[1, 2, 10, 255, 256, 65536],
    quants=[False, True],
    ndpost=[0, 1, 3, 8],
    nskip=[0, 1, 6],
    keepevery=[1, 2, 5],
    m=[None, 0, 1, 7],
    sigest=[None, None, None, .5],
    lamda=[None, None, None, .1],
    offset=[None, None, 0, 10.5],
    minp=['default', None, 0, 1, 1000],
    opt=['none', 'none', 'ratios', 'batch', 'f16'],
    prior=['default', 'default', 'base1', 'power0', 'steep', 'base0'],
)
# combinations that every run visits
FIXED = [dict(n=0, p=1), dict(n=0, p=3, quants=True), dict(n=1, p=1, quants=True), dict(n=1, p=3), dict(n=2, p=1, maxdepth=1), dict(n=2, p=1, quants=True, maxdepth=2), dict(n=2, p=5, numcut=1), dict(n=3, p=40, quants=True),
         dict(n=31, p=2, xkind='allconst', quants=True), dict(n=31, p=2, xkind='allconst', quants=False), dict(n=9, p=1, xkind='hugeconst', quants=True), dict(n=10, p=3, xkind='oneconst', quants=True, minp=None),
         dict(n=31, p=2, maxdepth=1, ntree=1), dict(n=31, p=2, maxdepth=2, ntree=1, minp=None), dict(n=31, p=2, numcut=1, quants=True), dict(n=31, p=2, numcut=65536, quants=False), dict(n=31, p=300, ntree=1), dict(n=4, p=1, xkind='binary', numcut=1, minp=0),
         dict(n=31, p=1, ndpost=0, nskip=0), dict(n=31, p=1, ndpost=0, nskip=6, m=7), dict(n=0, p=2, ndpost=0, nskip=0, m=0), dict(n=31, p=2, maxdepth=10, minp=None, ntree=2), dict(n=10, p=1, minp=1000), dict(n=1, p=40, ndpost=3)]


def jobs(tier, rng):
    big = tier == 'thorough'
    cfgs = []
    total = 500 if big else 56
    pools = {k: [] for k in AXES}
    for i in range(total):
        c = {}
        for k, vals in AXES.items():
            if not pools[k]:
                pools[k] = [vals[j] for j in rng.permutation(len(vals))]
            c[k] = pools[k].pop()
        if i < len(FIXED):
            c.update(FIXED[i])
        if rng.integers(2) or c['maxdepth'] == 10:
            c['ntree'] = min(c['ntree'], 5)
        cfgs.append(c)
    return [dict(kind='grid', cfgs=cfgs[i::8 * (5 if big else 3)], cost=1) for i in range(8 * (5 if big else 3))]


def data(c, rng):
    n, p, k = c['n'], c['p'], c['xkind']
    X = rng.normal(size=(p, n))
    if k == 'allconst':
        X[:] = rng.normal(size=(p, 1))
    elif k == 'negconst':
        X[:] = -3
    elif k == 'oneconst':
        X[-1] = .1
    elif k == 'binary':
        X = (X > 0) * 1.
    elif k in ('int', 'int8', 'uint8'):
        t = 'int32' if k == 'int' else k
        X = rng.integers(np.iinfo(t).min if t != 'int32' else -9, (np.iinfo(t).max if t != 'int32' else 9) + 1, (p, n)).astype(t)
    elif k == 'huge':
        X = X * 1e15
    elif k == 'tiny':
        X = X * 1e-15
    elif k == 'hugeconst':
        X[:] = 1e8
    elif k == 'ties':
        X = np.round(X)
    elif k == 'offset':
        X = X + 1e4
    if X.dtype.kind == 'f' and k != 'f64':
        X = X.astype(np.float32)
    y = rng.normal(size=n)
    k = c['ykind']
    if k == 'big':
        y *= 1e6
    elif k == 'small':
        y *= 1e-6
    elif k == 'int':
        y = np.round(y * 10)
    elif k == 'outlier' and n:
        y[0] = 1e3
    elif k == 'offset':
        y += 1e3
    elif k == 'binary':
        y = (y > 0) * 1.
    elif k == 'twovalues':
        y = np.where(y > 0, 3., 5.)
    if n >= 2 and np.ptp(y) == 0: # documented scale would be zero
        y[0] += 1 + abs(y[0])
    y = y.astype(np.int32) if k == 'int' else y.astype(np.float32)
    m = c['m']
    T = None
    if m is not None:
        T = X[:, rng.integers(0, n, m)] if n and rng.integers(2) else (rng.normal(size=(p, m)) * 3).astype(X.dtype)
    return X, y, T


def run(job, rec):
    import jax
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    for c in job['cfgs']:
        X, y, T = data(c, rng)
        n, p, m = c['n'], c['p'], c['m']
        kw = dict(ntree=c['ntree'], maxdepth=c['maxdepth'], numcut=c['numcut'], usequants=c['quants'], ndpost=c['ndpost'], nskip=c['nskip'], keepevery=c['keepevery'], seed=int(rng.integers(2 ** 31)))
        for k in ('sigest', 'lamda', 'offset'):
            if c[k] is not None:
                kw[k] = c[k]
        ik = {}
        if c['minp'] != 'default':
            ik['min_points_per_leaf'] = c['minp']
        if c['opt'] == 'ratios':
            ik['save_ratios'] = True
        elif c['opt'] == 'batch':
            ik.update(resid_batch_size=5, count_batch_size=4)
        elif c['opt'] == 'f16':
            ik['small_float'] = np.dtype('float16')
        if ik:
            kw['initkw'] = ik
        kw.update(dict(base1=dict(base=1, power=1), power0=dict(power=0, base=.7), steep=dict(power=20), base0=dict(base=0)).get(c['prior'], {}))
        if T is not None:
            kw['x_test'] = T
        what = ', '.join(f'{k}={v}' for k, v in c.items())
        rec.event('fits')
        for k, ok in dict(no_observations=n == 0, one_observation=n == 1, two_observations=n == 2, more_predictors=p > n, maxdepth_one=c['maxdepth'] == 1, maxdepth_two=c['maxdepth'] == 2, one_cutpoint=c['numcut'] == 1,
                          no_burnin=c['nskip'] == 0, no_samples=c['ndpost'] == 0, constant_predictors='const' in c['xkind']).items():
            rec.event(k, ok)
        rec.mark(what)
        try:
            with drive.captured() as calls, contextlib.redirect_stdout(io.StringIO()):
                if rng.integers(3) == 0:
                    kw['printevery'] = 1
                b = drive.gbart(X, y, **kw)
                jax.effects_barrier()
                yt, ym = np.asarray(b.yhat_train), np.asarray(b.yhat_train_mean)
        except Exception as e:
            import traceback
            rec.violate('raised', f'{type(e).__name__}: {str(e)[:200]} with {what}', traceback=traceback.format_exc()[-1500:])
            continue
        N, S = c['ndpost'], c['nskip']

        def check(name, a, shape, finite=True, positive=False):
            a = np.asarray(a)
            rec.event('arrays_checked')
            if rec.expect(a.shape == shape, 'shape', f'{name} has shape {a.shape}, documented {shape}, with {what}'):
                if finite:
                    rec.expect(bool(np.all(np.isfinite(a))), 'not-finite', f'{name} is not finite with {what}: {a.ravel()[:4]}')
                if positive:
                    rec.expect(bool(np.all(a > 0)), 'not-positive', f'{name} is not positive with {what}: {a.ravel()[:4]}')
        check('yhat_train', yt, (N, n))
        check('yhat_train_mean', ym, (n,), finite=N > 0)
        check('sigma', b.sigma, (N,), positive=True)
        check('first_sigma', b.first_sigma, (S,), positive=True)
        for k in ('offset', 'scale', 'lamda'):
            check(k, getattr(b, k), (), positive=k == 'scale')
        if 'lamda' in kw:
            rec.expect(b.sigest is None, 'sigest', 'sigest not None although lamda is given')
        else:
            check('sigest', b.sigest, ())
        if T is not None:
            check('yhat_test', b.yhat_test, (N, m))
            check('yhat_test_mean', b.yhat_test_mean, (m,), finite=N > 0)
        else:
            rec.expect(not hasattr(b, 'yhat_test'), 'shape', f'yhat_test set without test points with {what}')
        if rng.integers(3) == 0:
            check('predict() at no points', b.predict(X[:, :0]), (N, 0))
        P = X[:, :1] if n else np.zeros((p, 1), X.dtype)
        if rng.integers(3) == 0:
            check('predict() at one point', b.predict(P), (N, 1))
        rec.expect(b.ntree == c['ntree'] and b.maxdepth == c['maxdepth'], 'reported', 'ntree or maxdepth not reported')
        # inside of the sampler
        if calls:
            f, main, burn = calls[0]['final'], calls[0]['main'], calls[0]['burn']
            for k in ('resid', 'leaf_trees', 'sigma2'):
                rec.event('arrays_checked')
                rec.expect(bool(np.all(np.isfinite(np.asarray(f[k], np.float32)))), 'not-finite', f'{k} of the final state is not finite with {what}')
            check('saved leaves', np.asarray(main['leaf_trees'], np.float32), (N, c['ntree'], 2 ** c['maxdepth']))
            check('saved decision rules', main['split_trees'], (N, c['ntree'], 2 ** (c['maxdepth'] - 1)))
            check('burn-in variances', burn['sigma2'], (S,))
        else:
            rec.event('not_observable')
        if len(rec.samples) < 2:
            rec.sample(options=c, yhat_train=yt.shape, sigma=np.asarray(b.sigma)[:2])
        if rec.events['fits'] % 3 == 0:
            jax.clear_caches()

import numpy as np
from .. import gen, ref
RULE = ('Models are fitted through the regression interface on integer, float, skewed and tied predictors with both kinds of cutpoints, and predictions at hostile points (on cutpoints, out of range, duplicated, none) are compared with a float64 evaluation of the trace '
        'captured from the sampler, at points binned by counting cutpoints; evaluate_trace is also run directly on fabricated traces, with the batching memory limit injected or really exceeded. '
        'Distinct non-trivial cases: distinct (model, request) pairs where at least one tree has a decision node.')
MIN = dict(predictions_compared=3000, on_cutpoint_points=100, out_of_range_points=50, pointwise_requests=20, train_fits=10, empty_requests=3, direct_traces=8, direct_traces_above_256_trees=2, direct_traces_above_256_samples=1)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    kinds = ['intquant', 'gridunif', 'float', 'floatquant', 'intunif', 'skewquant']
    for i in range(36 if big else 12):
        out.append(dict(kind='fit', data=kinds[i % 6], cost=4, reps=6 if big else 3, n=int(rng.choice([12, 30, 60, 111])), p=int(rng.choice([1, 2, 3, 6])),
                        ntree=int(rng.choice([1, 2, 7, 20])), maxdepth=int(rng.choice([2, 3, 6, 9])), numcut=int(rng.choice([1, 3, 16, 255, 256, 300])),
                        ndpost=int(rng.choice([1, 5, 12])), keepevery=int(rng.choice([1, 2])), nskip=int(rng.choice([0, 5, 15])), tiny=i % 3 == 2,
                        small=i % 5 == 4))
    for i in range(16 if big else 4):
        out.append(dict(kind='trace', cost=2, reps=8 if big else 4))
    out.append(dict(kind='large', cost=6))
    for i in range(4 if big else 1): # many samples of one tree, one test point at a time
        out.append(dict(kind='fit', data=kinds[i], cost=4, reps=2, n=40, p=2, ntree=1, maxdepth=[6, 4, 9, 2][i], numcut=20, ndpost=300, keepevery=1, nskip=20, tiny=False, small=False))
    return out


def data(job, rng):
    n, p, k = job['n'], job['p'], job['data']
    if k == 'intquant' or k == 'intunif':
        hi = int(rng.choice([3, 20, 200]))
        X = rng.integers(-hi, hi + 1, (p, n)).astype(np.int32)
    elif k == 'gridunif':
        X = rng.integers(0, 65, (p, n)).astype(np.float32) / 4
        X[:, 0], X[:, 1] = 0, 16
    elif k == 'skewquant':
        X = np.exp(2 * rng.normal(size=(p, n))).astype(np.float32)
        X[:, rng.integers(n)] = 1
    else:
        X = rng.normal(size=(p, n)).astype(np.float32) * float(rng.choice([1e-3, 1, 1e3]))
    if p > 1 and k in ('gridunif', 'intunif', 'float') and rng.integers(2):
        X[-1] = X[-1, 0] # constant in training, the grid collapses on it
    y = (np.sign(X[0] - np.median(X[0])) * 2 + .3 * rng.normal(size=n)) * float(rng.choice([1e-2, 1, 300])) + float(rng.choice([0, 5, -2000]))
    return X, y.astype(np.float32)


def test_points(X, splits, ms, rng, m):
    """ training points, cutpoints and neighbours, out of range, duplicates """
    p, n = X.shape
    T = X[:, rng.integers(0, n, m)].copy()
    lo, hi = X.min(1), X.max(1)
    for j in range(p):
        used = splits[j, :ms[j]]
        for q in range(m):
            r = rng.integers(6)
            if r == 0 and len(used):
                T[j, q] = used[rng.integers(len(used))]
            elif r == 1:
                T[j, q] = [lo[j], hi[j]][rng.integers(2)]
            elif r == 2:
                w = (hi[j] - lo[j]) + 1
                T[j, q] = [lo[j] - w, hi[j] + w][rng.integers(2)]
            elif r == 3 and X.dtype.kind == 'f':
                T[j, q] = rng.uniform(lo[j], hi[j]) if hi[j] > lo[j] else lo[j]
    if m > 3:
        T[:, -1] = T[:, 0]
    return T


def binned(X, splits, ms):
    return np.stack([(np.asarray(splits[j, :ms[j]], float)[:, None] < X[j].astype(float)[None, :]).sum(0) for j in range(len(X))]).reshape(X.shape)


def reference(main, Xb, off, sc):
    L, V, S = (np.asarray(main[k]) for k in ('leaf_trees', 'var_trees', 'split_trees'))
    E = ref.evaluate_each(Xb, L, V, S)
    return off + sc * E.sum(1), np.abs(off) + np.abs(sc) * np.abs(E).sum(1)


def compare(rec, got, want, mag, key, what, **w):
    got = np.asarray(got)
    if not rec.expect(got.shape == want.shape, 'shape', f'{what}: shape {got.shape}, expected {want.shape}', **w):
        return
    rec.event('predictions_compared', got.size)
    if not got.size:
        rec.event('empty_requests')
        return
    d = np.abs(got.astype(float) - want) / (mag + 1e-30)
    b = np.unravel_index(d.argmax(), d.shape)
    rec.expect(d.max() <= 1e-5, key, f'{what}: sample {b[0]}, point {b[1]}: {got[b]!r}, the saved trees give {want[b]!r}', **w)


def run(job, rec):
    rng = np.random.default_rng(job['seed'])
    dict(fit=fit, trace=trace, large=large)[job['kind']](job, rec, rng)


def fit(job, rec, rng):
    from .. import drive
    import contextlib
    with (drive.small_batches(int(rng.choice([64, 300, 2000]))) if job['tiny'] else contextlib.nullcontext([])) as lim:
        for rep in range(job['reps']):
            one_fit(job, rec, rng, rep, drive)
    rec.event('limits_injected', len(lim))


def one_fit(job, rec, rng, rep, drive):
    import jax.numpy as jnp
    from bartz import prepcovars
    X, y = data(job, rng)
    n = job['n']
    q = job['data'] in ('intquant', 'floatquant', 'skewquant')
    f = prepcovars.quantilized_splits_from_matrix if q else prepcovars.uniform_splits_from_matrix
    splits, ms = (np.asarray(a) for a in f(jnp.asarray(X), job['numcut'] + 1))
    ms = ms.astype(int)
    T = test_points(X, splits, ms, rng, 23)
    if job['data'] in ('intunif', 'float'):
        # cutpoints not exact: keep away from them
        for j in range(job['p']):
            d = np.abs(T[j][:, None].astype(float) - splits[j].astype(float)).min(1, initial=np.inf)
            T[j, d < 1e-4 * (np.ptp(X[j].astype(float)) + 1e-30)] = X[j, 0]
    onc = sum(int(np.isin(T[j], splits[j, :ms[j]]).sum()) for j in range(job['p']))
    rec.event('on_cutpoint_points', onc)
    rec.event('constant_predictors', int((np.ptp(X, axis=1) == 0).sum()))
    rec.event('out_of_range_points', int(((T > X.max(1, keepdims=True)) | (T < X.min(1, keepdims=True))).sum()))
    ik = dict(min_points_per_leaf=int(rng.choice([0, 1, 2])))
    if job['small']:
        ik['small_float'] = jnp.dtype('float16')
    if rep % 2:
        ik = dict(min_points_per_leaf=ik['min_points_per_leaf'], **({'small_float': ik['small_float']} if 'small_float' in ik else {}))
    with drive.captured() as calls:
        b = drive.gbart(X, y, x_test=T, usequants=q, ntree=job['ntree'], maxdepth=job['maxdepth'], numcut=job['numcut'], ndpost=job['ndpost'],
                        nskip=job['nskip'], keepevery=job['keepevery'], seed=int(rng.integers(2 ** 31)), initkw=ik)
    if not calls:
        rec.event('not_observable')
        return
    main = {k: np.asarray(v) for k, v in calls[0]['main'].items() if k in ('leaf_trees', 'var_trees', 'split_trees')}
    off, sc = float(b.offset), float(b.scale)
    w = dict(data=job['data'], numcut=job['numcut'], tiny=job['tiny'])
    tag = (job['seed'], rep)
    grown = bool((main['split_trees'] != 0).any())
    if grown:
        rec.mark(tag, 'test'), rec.mark(tag, 'train')
    # training fit
    want, mag = reference(main, np.asarray(calls[0]['init']['X']), off, sc)
    compare(rec, b.yhat_train, want, mag, 'yhat_train', 'yhat_train', **w)
    rec.event('train_fits')
    Xb = binned(X, splits, ms)
    far = np.ones(n, bool)
    if job['data'] in ('intunif', 'float', 'gridunif'):
        for j in range(job['p']):
            far &= np.abs(X[j][:, None].astype(float) - splits[j].astype(float)).min(1, initial=np.inf) > 1e-5 * (np.ptp(X[j].astype(float)) + 1e-30)
    want2, mag2 = reference(main, Xb[:, far], off, sc)
    compare(rec, np.asarray(b.yhat_train)[:, far], want2, mag2, 'training-bins', 'yhat_train with predictors binned from scratch', **w)
    compare(rec, b.predict(X), np.asarray(b.yhat_train, float), mag, 'predict-train', 'predict(x_train) against yhat_train', **w)
    rec.expect(np.allclose(b.yhat_train_mean, np.asarray(b.yhat_train, float).mean(0), rtol=1e-4, atol=1e-5 * mag.max()) and np.shape(b.yhat_train_mean) == (n,), 'train-mean', 'yhat_train_mean is not the mean of yhat_train over the samples')
    # test
    Tb = binned(T, splits, ms)
    want, mag = reference(main, Tb, off, sc)
    compare(rec, b.yhat_test, want, mag, 'yhat_test', 'yhat_test', **w)
    rec.expect(np.allclose(b.yhat_test_mean, np.asarray(b.yhat_test, float).mean(0), rtol=1e-4, atol=1e-5 * mag.max()) and np.shape(b.yhat_test_mean) == (T.shape[1],), 'test-mean', 'yhat_test_mean is not the mean of yhat_test over the samples')
    compare(rec, b.predict(T), np.asarray(b.yhat_test, float), mag, 'predict-again', 'predict(x_test) against yhat_test', **w)
    # other requests made of the same points
    for what, cols in [('permuted', rng.permutation(T.shape[1])), ('one point', np.array([int(rng.integers(T.shape[1]))])), ('repeated', rng.integers(0, T.shape[1], 50)), ('ndpost', rng.integers(0, T.shape[1], job['ndpost'])), ('p', rng.integers(0, T.shape[1], job['p'])), ('ntree', rng.integers(0, T.shape[1], job['ntree'])), ('none', np.zeros(0, int))][:7 if rep == 0 else 4]:
        compare(rec, b.predict(T[:, cols]), want[:, cols], mag[:, cols], 'pointwise', f'predict at {what} points', **w)
        rec.event('pointwise_requests')
        if grown:
            rec.mark(tag, what)
    if T.dtype.kind == 'i' and rep == 0:
        compare(rec, b.predict(T.astype(np.float32)), want, mag, 'float-points', 'predict at the same points as floats', **w)
    if rep == 0:
        rec.sample(data=job['data'], n=n, trees=job['ntree'], on_cutpoints=onc, first_prediction=float(np.asarray(b.yhat_test).ravel()[0]), reference=float(want.ravel()[0]))


def fake_trace(rng, ns, ntree, h, p, ms):
    V, S = np.zeros((ns, ntree, h), int), np.zeros((ns, ntree, h), int)
    X0 = np.zeros((p, 0), int)
    for a in range(ns):
        for t in range(ntree):
            if a * ntree + t >= 700: # reuse
                V[a, t], S[a, t] = V[rng.integers(2), t], S[rng.integers(2), t]
                continue
            V[a, t], S[a, t], _ = gen.random_tree(X0, ms, None, h, rng, int(rng.choice([0, 1, 3, 20])))
    L = rng.normal(size=(ns, ntree, 2 * h)).astype(np.float32)
    return L, V, S


def trace(job, rec, rng):
    from bartz import mcmcloop
    from .. import drive
    import contextlib, jax.numpy as jnp
    for rep in range(job['reps']):
        ns, ntree = int(rng.choice([0, 1, 2, 7])), int(rng.choice([1, 2, 12, 13, 256, 257]))
        h = 2 ** int(rng.integers(0, 7))
        if rep == 2: # many samples of one small forest
            ns, ntree = int(rng.choice([257, 300, 600])), 1 + int(rng.integers(4) == 0)
        if rep == 0: # more trees than a byte counts, in one batch
            ns, ntree = 2, int(rng.choice([257, 258, 300]))
        p = int(rng.choice([1, 3, 256, 257]))
        kmax = int(rng.choice([1, 5, 255, 65535]))
        ms = rng.integers(1, kmax + 1, p)
        L, V, S = fake_trace(rng, ns, ntree, h, p, ms)
        m = int(rng.choice([0, 1, 17, 300])) if rep else 17
        if rep == 2:
            m = 1 + int(rng.integers(3) == 0)
        X = np.floor(rng.random((p, m)) * (ms[:, None] + 1)).astype(gen.dtype_for(kmax))
        tr = dict(leaf_trees=jnp.asarray(L), var_trees=jnp.asarray(V.astype(gen.dtype_for(p - 1))), split_trees=jnp.asarray(S.astype(gen.dtype_for(kmax))))
        if rep % 2:
            tr['sigma2'] = jnp.ones(ns)
        with (drive.small_batches(int(rng.choice([1, 500, 40000]))) if rep % 2 else contextlib.nullcontext()):
            got = mcmcloop.evaluate_trace(tr, jnp.asarray(X))
        E = ref.evaluate_each(X, L, V, S)
        compare(rec, got, E.sum(1), np.abs(E).sum(1), 'evaluate_trace', f'evaluate_trace of {ns} samples, {ntree} trees, depth {int(np.log2(2 * h))}, {m} points')
        rec.event('direct_traces')
        rec.event('direct_traces_above_256_samples', ns > 256 and ntree == 1 and m == 1)
        rec.event('direct_traces_above_256_trees', bool(ntree > 256 and not rep % 2 and m))
        rec.mark(job['seed'], rep)


def large(job, rec, rng):
    """ really exceed the batching memory limit """
    from bartz import mcmcloop
    import jax.numpy as jnp
    ntree, h, p, m = 260, 4, 2, 600000
    ms = np.array([255, 9])
    L, V, S = fake_trace(rng, 2, ntree, h, p, ms)
    X = np.floor(rng.random((p, m)) * (ms[:, None] + 1)).astype(np.uint8)
    tr = dict(leaf_trees=jnp.asarray(L), var_trees=jnp.asarray(V.astype(np.uint8)), split_trees=jnp.asarray(S.astype(np.uint8)))
    got = np.asarray(mcmcloop.evaluate_trace(tr, jnp.asarray(X)))
    cols = np.unique(np.r_[0, m - 1, rng.integers(0, m, 3000)])
    E = ref.evaluate_each(X[:, cols], L, V, S)
    rec.expect(got.shape == (2, m), 'shape', f'shape {got.shape}')
    compare(rec, got[:, cols], E.sum(1), np.abs(E).sum(1), 'evaluate_trace-large', 'evaluate_trace with more data than the memory limit')
    rec.event('large_traces')

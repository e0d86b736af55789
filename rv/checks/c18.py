import numpy as np
from .. import gen
RULE = ('Uniform cutpoints are computed for matrices of every numeric type, with wide, narrow (few representable numbers), constant, huge and offset ranges, 0 and up observations and 1 and up bins; the oracle is the exact grid in float64 with a tolerance of a few units in the last place; '
        'metamorphic reruns change everything but the extremes. Distinct non-trivial cases: distinct rows with at least one cutpoint.')
MIN = dict(rows_checked=800, cutpoints_checked=20000, narrow_rows=100, constant_rows=50, metamorphic=60, empty_calls=4)
DT = ['float32', 'float32', 'float32', 'int32', 'uint8', 'int8', 'int16', 'uint16', 'uint32']


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(dt=dt, reps=200 if big else 50, cost=1) for dt in DT]
    out += [dict(dt=dt, reps=120 if big else 30, x64=True, cost=1) for dt in ('float64', 'int64')]
    return out


def row(rng, dt, n):
    dt = np.dtype(dt)
    k = int(rng.integers(7))
    if dt.kind == 'f':
        a = float(rng.choice([-1, 1])) * 10. ** rng.uniform(-4, 6)
        if k == 0:
            x = np.full(n, a)
        elif k == 1: # narrow
            x = a + np.spacing(dt.type(abs(a))) * rng.integers(0, int(rng.choice([2, 5, 50, 1000])), n)
        elif k == 2:
            x = rng.uniform(-1, 1, n) * 1e38
        elif k == 3:
            x = rng.integers(0, 2, n)
        elif k == 4:
            x = a + rng.normal(size=n)
        else:
            x = rng.normal(size=n) * 10. ** rng.uniform(-3, 4)
        return np.asarray(x).astype(dt)
    i = np.iinfo(dt)
    if k == 0:
        return np.full(n, rng.integers(i.min, i.max, endpoint=True, dtype=dt.type))
    if k == 1:
        return rng.choice(np.array([i.min, i.max], dt), n)
    if k == 2:
        return rng.integers(0, 2, n).astype(dt)
    if k == 3:
        return rng.integers(max(-50, i.min), 50, n).astype(dt)
    return rng.integers(i.min, i.max, n, endpoint=True, dtype=dt.type)


def run(job, rec):
    from jax import numpy as jnp
    from bartz import prepcovars
    rng = np.random.default_rng(job['seed'])
    dt = job['dt']
    f = lambda X, b: tuple(np.asarray(a) for a in prepcovars.uniform_splits_from_matrix(jnp.asarray(X), b))
    for rep in range(job['reps']):
        n = int(rng.choice([1, 2, 3, 20, 100]))
        p = int(rng.choice([1, 6, 20]))
        b = int(rng.choice([1, 2, 3, 5, 17, 101, 255, 256, 257, 1000]))
        if rep == 0:
            b = 256
        if rep == 1:
            n = 0
        X = np.stack([row(rng, dt, n) for _ in range(p)])
        if rep % 4 == 3:
            X = gen.relate(rng, X)
            rec.event('related_rows', p)
        s, m = f(X, b)
        tag = f'{dt}, {n} points, {b} bins'
        if not rec.expect(s.shape == (p, b - 1) and m.shape == (p,) and m.dtype.kind == 'u' and s.dtype.kind == 'f', 'shape', f'{tag}: shapes {s.shape} {s.dtype}, {m.shape} {m.dtype}'):
            continue
        rec.expect((m == b - 1).all(), 'count', f'{tag}: number of cutpoints {m[:5].tolist()}, expected {b - 1}')
        if n == 0:
            rec.event('empty_calls')
            rec.expect(np.isfinite(s).all() and (np.diff(s, axis=1) >= 0).all(), 'empty', f'{tag}: cutpoints not finite or not sorted')
            continue
        eps = np.finfo(s.dtype).eps
        for j in range(p):
            lo, hi = float(X[j].min()), float(X[j].max())
            g = lo + (hi - lo) * np.arange(1, b) / b
            c = s[j].astype(float)
            M = max(abs(lo), abs(hi))
            rec.event('rows_checked')
            rec.event('cutpoints_checked', b - 1)
            ulp = eps * M
            if lo == hi:
                rec.event('constant_rows')
            elif hi - lo < 10 * b * ulp:
                rec.event('narrow_rows')
            if b > 1:
                rec.mark(str(dt), b, lo, hi)
            tol = 4 * ulp + 1e-37
            rec.expect(np.abs(c - g).max(initial=0) <= tol, 'even', lambda: f'{tag}, range [{lo!r}, {hi!r}]: cutpoint {int(np.abs(c - g).argmax())} is {c[np.abs(c - g).argmax()]!r}, the even grid has {g[np.abs(c - g).argmax()]!r}')
            rec.expect((np.diff(c) >= 0).all(), 'sorted', lambda: f'{tag}, range [{lo!r}, {hi!r}]: cutpoints not sorted')
            if X.dtype.kind == 'f' or M < 2 ** 24:
                rec.expect(((c >= lo) & (c <= hi)).all(), 'range', lambda: f'{tag}: cutpoints from {c.min()!r} to {c.max()!r} exceed the observed range [{lo!r}, {hi!r}]')
            if (hi - lo) / b > 16 * ulp:
                rec.expect(((c > lo) & (c < hi)).all(), 'excluded', f'{tag}: an observed extreme is a cutpoint: [{lo!r}, {hi!r}]')
        if rep == 3:
            rec.sample(dtype=str(dt), bins=b, low=lo, high=hi, cutpoints=c[:4])
        if n > 2 and rep % 2:
            Y = X.copy()
            for j in range(p):
                a, z = X[j].min(), X[j].max()
                Y[j] = X[j][rng.integers(0, n, n)]
                Y[j, :2] = [a, z] if rng.integers(2) else [z, a]
            s2, m2 = f(Y, b)
            rec.event('metamorphic')
            rec.expect(np.array_equal(s, s2) and np.array_equal(m, m2), 'extremes-only', f'{tag}: cutpoints depend on more than the extremes')
            Z = np.concatenate([X, Y], 1)
            s3, _ = f(Z, b)
            rec.expect(np.array_equal(s, s3), 'extremes-only', f'{tag}: cutpoints depend on the number of observations')
            if p > 1:
                W = np.concatenate([X[:1], np.stack([row(rng, dt, n) for _ in range(p - 1)])])
                s4, _ = f(W, b)
                rec.expect(np.array_equal(s[0], s4[0]), 'other-predictors', f'{tag}: cutpoints depend on other predictors')

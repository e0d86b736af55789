import numpy as np
from .. import gen
RULE = ('Quantile cutpoints are computed for matrices of every numeric type with all kinds of ties, adjacent and extreme values, sizes 0 and up and maximum numbers of bins below, at and above the number of distinct values; a monitor places each used cutpoint '
        'in the gaps between sorted distinct values in exact arithmetic; metamorphic reruns permute, repeat and mix rows. Distinct non-trivial cases: distinct rows with at least one used cutpoint.')
MIN = dict(rows_checked=1200, cutpoints_checked=20000, decimated_rows=200, full_rows=200, constant_rows=20, metamorphic=60, batched_calls=8, empty_calls=2)
DT = ['float32', 'int32', 'uint8', 'int8', 'int16', 'uint16', 'uint32', 'float16']


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(kind='rows', dt=dt, reps=150 if big else 36, cost=2) for dt in DT + ['float32', 'float32', 'int32']]
    out += [dict(kind='rows', dt=dt, x64=True, reps=100 if big else 16, cost=1.5) for dt in ('float64', 'int64')]
    out += [dict(kind='tiny', dt='float32', reps=12 if big else 4, cost=2) for _ in range(3)]
    out += [dict(kind='large', cost=2)]
    return out


def row(rng, dt, n):
    dt = np.dtype(dt)
    k = int(rng.integers(9))
    if dt.kind == 'f':
        sc = float(rng.choice([1e-5, 1, 1e5])) if dt.itemsize > 2 else 1
        x = rng.normal(size=n) * sc
        if k == 0:
            x = np.full(n, 1.5)
        elif k == 1:
            x = rng.integers(0, 2, n) * 3. - 1
        elif k == 2:
            x = np.round(x / sc * 3) / 3
        elif k == 3: # adjacent numbers
            b = dt.type(rng.choice([1, -1, 1000.]))
            x = (b + np.abs(np.spacing(b)).astype(dt) * rng.integers(0, max(2, n // 2), n).astype(dt)).astype(dt)
        elif k == 4 and dt.itemsize > 2: # huge
            x = rng.uniform(-1, 1, n) * float(np.finfo(dt).max) * .99
        elif k == 5:
            x = np.exp(3 * rng.normal(size=n)).clip(1e-3, 1e3)
        elif k == 6:
            x = np.arange(n) - n // 2
        elif k == 7:
            x = np.where(rng.random(n) < .9, 0, x)
        return x.astype(dt)
    i = np.iinfo(dt)
    if k == 0:
        x = np.full(n, 3)
    elif k == 1:
        x = rng.choice([i.min, i.max], n)
    elif k == 2:
        x = rng.integers(0, 5, n)
    elif k == 3:
        x = i.min + rng.integers(0, min(100, n + 2), n)
    elif k == 4:
        x = i.max - rng.integers(0, min(100, n + 2), n)
    elif k == 5:
        x = np.arange(n) % (i.max // 2)
    else:
        return rng.integers(i.min, i.max, n, endpoint=True, dtype=dt.type)
    return np.asarray(x).astype(dt)


def ex(a):
    return [int(v) if np.issubdtype(a.dtype, np.integer) else float(v) for v in a]


def huge(dt):
    dt = np.dtype(dt)
    return np.iinfo(dt).max if dt.kind in 'iu' else np.inf


def check_row(rec, x, s, m, max_bins, n, tag):
    u = ex(np.unique(x))
    D = len(u)
    L = max(0, min(max_bins, n) - 1)
    want = min(max(0, D - 1), L)
    rec.event('rows_checked')
    if not rec.expect(int(m) == want, 'count', f'{tag}: {int(m)} cutpoints for {D} distinct values and at most {max_bins} bins, expected {want}'):
        return
    c = ex(s[:want])
    rest = s[want:]
    rec.event('cutpoints_checked', want)
    if want == 0:
        rec.event('constant_rows')
    else:
        rec.mark(x.tobytes()[:400], max_bins, str(x.dtype))
    rec.expect(len(rest) == 0 or all(float(r) == float(huge(x.dtype)) for r in rest), 'padding', f'{tag}: unused entries are {rest[:5].tolist()}, expected the maximum of the type')
    if not rec.expect(all(a < b for a, b in zip(c, c[1:])), 'increasing', f'{tag}: cutpoints not strictly increasing: {c[:10]}'):
        return
    gaps = np.searchsorted(np.array(u, dtype=object) if x.dtype.itemsize == 8 else np.array(u), np.array(c, dtype=object) if x.dtype.itemsize == 8 else np.array(c), side='right') - 1 if want else np.zeros(0, int)
    gaps = [int(g) for g in gaps]
    ok = all(0 <= g < D - 1 and u[g] <= v < u[g + 1] for g, v in zip(gaps, c))
    if not rec.expect(ok and len(set(gaps)) == len(gaps), 'separation', lambda: f'{tag}: cutpoints {c[:6]} do not lie one per gap of the distinct values {u[:7]}'):
        return
    # roughly at the middle of the gap
    for g, v in zip(gaps, c):
        if isinstance(v, int):
            far = abs(2 * v - u[g] - u[g + 1]) > 2
        else:
            M = max(abs(u[g]), abs(u[g + 1]))
            far = M <= float(np.finfo(x.dtype).max) / 2 and abs(v - (u[g] / 2 + u[g + 1] / 2)) > 4 * float(np.spacing(x.dtype.type(M)))
        if far:
            rec.expect(False, 'midpoint', f'{tag}: cutpoint {v} between {u[g]} and {u[g + 1]} is not their midpoint')
            break
    else:
        rec.expect(True, 'midpoint', '')
    if D - 1 <= L:
        rec.event('full_rows')
        rec.expect(gaps == list(range(D - 1)), 'all-gaps', f'{tag}: not all gaps are used: {gaps[:20]} of {D - 1}')
    else:
        rec.event('decimated_rows')
        grid = -1 + (np.arange(L) + 1) * D / (L + 1)
        dev = np.abs(np.array(gaps) - grid)
        rec.expect(dev.max(initial=0) <= .5 + 4e-6 * D, 'even', lambda: f'{tag}: selected gaps {gaps[:20]} of {D - 1} are not the even grid {np.round(grid[:20], 2).tolist()}')


def run(job, rec):
    from jax import numpy as jnp
    from bartz import prepcovars
    from .. import drive
    import contextlib
    rng = np.random.default_rng(job['seed'])
    dt = job.get('dt')
    f = lambda X, b: tuple(np.asarray(a) for a in prepcovars.quantilized_splits_from_matrix(jnp.asarray(X), b))
    if job['kind'] == 'large':
        n = 70000
        X = np.stack([rng.normal(size=n), rng.integers(0, 3, n), np.arange(n)]).astype(np.float32)
        for b in (256, 257, 65537):
            s, m = f(X, b)
            for j in range(3):
                check_row(rec, X[j], s[j], m[j], b, n, f'{n} points')
        return
    for rep in range(job['reps']):
        n = int(rng.choice([1, 2, 3, 10, 40, 130, 255, 256, 257, 300]))
        if rep == 0:
            n = 0
        p = int(rng.choice([1, 4, 9]))
        X = np.stack([row(rng, dt, n) for _ in range(p)])
        if rep % 5 == 4:
            X = gen.relate(rng, X)
            rec.event('related_rows', p)
        b = int(rng.choice([1, 2, 3, 5, 9, 33, 100, 255, 256, 257, 1000, max(1, n), n + 1, max(1, n - 1)]))
        with (drive.small_batches(int(rng.choice([1, 300, 3000]))) if job['kind'] == 'tiny' else contextlib.nullcontext()):
            s, m = f(X, b)
        rec.event('batched_calls', job['kind'] == 'tiny')
        if n == 0:
            rec.event('empty_calls')
        tag = f'{dt}, {n} points, at most {b} bins'
        if not rec.expect(s.shape == (p, max(0, min(b, n) - 1)) and m.shape == (p,) and m.dtype.kind == 'u', 'shape', f'{tag}: shapes {s.shape}, {m.shape} {m.dtype}'):
            continue
        rec.expect(s.dtype == X.dtype, 'type', f'{tag}: cutpoints have type {s.dtype}')
        for j in range(p):
            check_row(rec, X[j], s[j], m[j], b, n, tag)
        if rep == 1:
            rec.sample(dtype=dt, n=n, max_bins=b, distinct=len(np.unique(X[0])), cutpoints=s[0, :5], number=int(m[0]))
        if n and rep % 2:
            # only the set of values matters
            Y = np.stack([X[j][rng.permutation(n)] for j in range(p)])
            s2, m2 = f(Y, b)
            rec.event('metamorphic')
            rec.expect(np.array_equal(s, s2) and np.array_equal(m, m2), 'order', f'{tag}: cutpoints depend on the order of the observations')
            if b <= n:
                Z = np.concatenate([X, X[:, rng.integers(0, n, 7)]], 1)
                s3, m3 = f(Z, b)
                rec.expect(np.array_equal(s, s3) and np.array_equal(m, m3), 'repetitions', f'{tag}: cutpoints depend on repetitions')
            if p > 1:
                W = X.copy()
                W[1:] = np.stack([row(rng, dt, n) for _ in range(p - 1)])
                s4, m4 = f(W, b)
                rec.expect(np.array_equal(s[0], s4[0]) and m[0] == m4[0], 'other-predictors', f'{tag}: cutpoints depend on other predictors')

import numpy as np
RULE = ('bin_predictors is run on rows of values at, just below and just above the cutpoints, duplicated, extreme and random, for all pairs of numeric types, every search method, ragged rows with padding, sizes down to 0, with the memory limit of the batching injected or not, '
        'and through the regression interface; the oracle counts the used cutpoints strictly below each value in exact arithmetic. Distinct non-trivial cases: distinct (types, method, sizes, data) calls with at least one used cutpoint.')
MIN = dict(values_checked=100000, values_on_cutpoints=5000, calls=300, batched_calls=20, empty_calls=5, methods=3, interface_fits=6)
PAIRS = [('float32', 'float32'), ('int32', 'int32'), ('uint8', 'uint8'), ('int8', 'int8'), ('int16', 'int16'), ('uint16', 'uint16'), ('uint32', 'uint32'),
         ('int32', 'float32'), ('float32', 'int32'), ('uint8', 'float32'), ('float16', 'float16'), ('uint8', 'int32'), ('float16', 'float32')]
PAIRS64 = [('float64', 'float64'), ('int64', 'int64'), ('float32', 'float64'), ('float64', 'float32'), ('int32', 'int64')]


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(kind='values', pairs=[pr], reps=150 if big else 36, cost=2) for pr in PAIRS]
    out += [dict(kind='values', pairs=PAIRS64, x64=True, reps=20 if big else 5, cost=2)]
    out += [dict(kind='tiny', reps=30 if big else 8, cost=2) for _ in range(6 if big else 3)]
    out += [dict(kind='interface', reps=12 if big else 5, cost=2) for _ in range(4 if big else 2)]
    return out


def cuts(rng, dt, k):
    """ sorted distinct cutpoints """
    dt = np.dtype(dt)
    if dt.kind == 'f':
        sc = float(rng.choice([1e-3, 1, 100])) if dt.itemsize > 2 else 1
        c = rng.normal(size=3 * k + 3) * sc
        if rng.integers(3) == 0:
            c = np.round(c / sc * 4) / 4 # exactly representable, with neighbours
        c = np.unique(c.astype(dt))
        if rng.integers(3) == 0 and len(c) > 2:
            a = c[rng.integers(len(c))]
            c = np.unique(np.r_[c, np.nextafter(a, dt.type(np.inf)), dt.type(0)])
        c = c[(c == 0) | (np.abs(c) > 1e-30 if dt.itemsize > 2 else np.abs(c) > 1e-4)]
    else:
        i = np.iinfo(dt)
        # mixed comparisons happen in float32: keep integers exactly representable
        lo, hi = max(i.min, -2 ** 24), min(i.max - 1, 2 ** 24)
        if rng.integers(2):
            lo, hi = max(lo, -3 * k - 5), min(hi, 3 * k + 5)
        c = np.unique(rng.integers(lo, hi, 3 * k + 3, endpoint=True)).astype(dt)
    k = min(k, len(c))
    return np.sort(rng.permutation(c)[:k])


def values(rng, dx, c, n):
    dx = np.dtype(dx)
    pool = []
    if dx.kind == 'f':
        f = c.astype(dx)
        pool = [f, np.nextafter(f, dx.type(np.inf)), np.nextafter(f, dx.type(-np.inf)), (rng.normal(size=8) * (1 + np.abs(f).max(initial=0))).astype(dx), np.array([0., -0.], dx)]
        fi = np.finfo(dx)
        pool.append(np.array([fi.max, fi.min], dx))
        v = np.concatenate(pool)
        if c.dtype.kind != 'f':
            v = v[v.astype(np.float64) < np.iinfo(c.dtype).max]
        v = v[np.isfinite(v) & ((v == 0) | (np.abs(v) > (1e-30 if dx.itemsize > 2 else 1e-4)))]
    else:
        i = np.iinfo(dx)
        f = np.clip(np.round(c.astype(np.float64)), i.min, min(i.max, 2 ** 62)).astype(np.int64)
        v = np.concatenate([f, f + 1, f - 1, rng.integers(-300, 300, 10)])
        full = [i.min, min(i.max, np.iinfo(c.dtype).max)] if c.dtype.kind != 'f' else [max(i.min, -2 ** 24), min(i.max, 2 ** 24)]
        v = np.concatenate([np.clip(v, full[0], full[1]), full]).astype(dx)
    out = v[rng.integers(0, len(v), n)]
    return np.sort(out) if rng.integers(4) == 0 else out


def exact(a):
    return a.astype(object) if a.dtype.kind in 'iu' and a.dtype.itemsize == 8 else a.astype(np.float64)


def oracle(X, S, used):
    out = np.zeros(X.shape, np.int64)
    for j in range(len(X)):
        out[j] = (exact(S[j, :used[j]])[:, None] < exact(X[j])[None, :]).sum(0)
    return out


def make(rng, dx, ds, p, n, m):
    big = np.iinfo(ds).max if np.dtype(ds).kind in 'iu' else np.inf
    S = np.full((p, m), big, ds)
    used = np.zeros(p, int)
    X = np.zeros((p, n), dx)
    for j in range(p):
        c = cuts(rng, ds, int(rng.integers(0, m + 1)) if rng.integers(3) else m)
        S[j, :len(c)] = c
        used[j] = len(c)
        X[j] = values(rng, dx, c, n)
    return X, S, used


def check(rec, X, S, used, kw, tag):
    from jax import numpy as jnp
    from bartz import prepcovars
    got = np.asarray(prepcovars.bin_predictors(jnp.asarray(X), jnp.asarray(S), **kw))
    want = oracle(X, S, used)
    rec.event('calls')
    rec.event('values_checked', X.size)
    if not X.size:
        rec.event('empty_calls')
    for j in range(len(X)):
        rec.event('values_on_cutpoints', int(np.isin(X[j], S[j, :used[j]]).sum()))
    if not rec.expect(got.shape == X.shape and got.dtype.kind == 'u', 'layout', f'{tag}: result {got.shape} {got.dtype}, expected {X.shape}, unsigned'):
        return
    bad = np.argwhere(got.astype(np.int64) != want)
    if not rec.expect(not len(bad), 'bin', lambda: (lambda j, i: f'{tag}: value {X[j, i]!r} with cutpoints {S[j, :used[j]][max(0, want[j, i] - 2):want[j, i] + 2].tolist()} (from {max(0, want[j, i] - 2)}): bin {got[j, i]}, expected {want[j, i]} of {used[j]}')(*bad[0])):
        return
    if used.any() and X.size:
        rec.mark(tag, X.tobytes()[:200], used.tolist())


def run(job, rec):
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    M = [{}, {}, dict(method='scan_unrolled'), dict(method='sort'), dict(method='compare_all')]
    if job['kind'] == 'values':
        seen = set()
        for dx, ds in job['pairs']:
            for rep in range(job['reps']):
                p, n, m = (int(rng.choice(a)) for a in ([1, 2, 5, 30], [1, 7, 60, 200], [1, 2, 5, 20, 254, 255, 256, 300]))
                if rep == 0:
                    n = 0
                if rep == 1:
                    p = 0
                if rep == 2:
                    m = 0
                if rep == 3:
                    p, n, m = 2, 50, 65536 if np.dtype(ds).itemsize > 1 and ds != 'float16' else 100
                kw = M[rep % 5]
                if kw and m > 1000:
                    kw = {}
                X, S, used = make(rng, dx, ds, p, n, m)
                check(rec, X, S, used, kw, f'{dx} values, {ds} cutpoints, {kw.get("method", "default")} search')
                if kw:
                    seen.add(kw['method'])
            rec.sample(types=(dx, ds), shape=(p, n, m), used=used[:5], values=X[0, :5] if p else [], cutpoints=S[0, :5] if p else [])
        rec.event('methods', len(seen))
    elif job['kind'] == 'tiny':
        for rep in range(job['reps']):
            with drive.small_batches(int(rng.choice([1, 100, 1000, 5000]))):
                p = int(rng.choice([1, 2, 7, 12, 30]))
                X, S, used = make(rng, 'float32', 'float32', p, 40, int(rng.choice([1, 10, 255, 256])))
                check(rec, X, S, used, {}, 'injected memory limit')
            rec.event('batched_calls')
    else:
        interface(job, rec, rng)


def interface(job, rec, rng):
    """ the binned training predictors given to the sampler """
    from jax import numpy as jnp
    from bartz import prepcovars
    from .. import drive
    for rep in range(job['reps']):
        p, n = int(rng.choice([1, 3])), int(rng.choice([5, 40]))
        q = bool(rep % 2)
        X = rng.integers(-20, 20, (p, n)).astype(np.int32) if rng.integers(2) else rng.normal(size=(p, n)).astype(np.float32)
        nc = int(rng.choice([1, 6, 255, 256]))
        with drive.captured() as calls:
            drive.gbart(X, rng.normal(size=n).astype(np.float32), usequants=q, numcut=nc, ndpost=0, nskip=0, ntree=2)
        if not calls:
            rec.event('not_observable')
            continue
        S, ms = (np.asarray(a) for a in (prepcovars.quantilized_splits_from_matrix if q else prepcovars.uniform_splits_from_matrix)(jnp.asarray(X), nc + 1))
        want = oracle(X, S, ms.astype(int))
        got = np.asarray(calls[0]['init']['X']).astype(int)
        rec.event('interface_fits')
        rec.mark('interface', X.tobytes(), nc)
        rec.expect(got.shape == want.shape and np.array_equal(got, want), 'interface-bins', f'training predictors binned with usequants={q}, numcut={nc}: {np.argwhere(got != want)[:3].tolist() if got.shape == want.shape else got.shape}')
        rec.expect((got <= np.asarray(calls[0]['init']['max_split'])[:, None]).all(), 'interface-range', 'bin above the number of cutpoints')

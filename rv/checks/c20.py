import numpy as np
RULE = ('unique is run on arrays of every numeric type with every pattern of ties, type extremes, infinities, signed zeros and the fill value among the values, sizes 0 and up, output lengths shorter, equal and longer than needed, called directly, compiled and vectorized; '
        'the oracle is a python set. Distinct non-trivial cases: distinct (array, length, fill value) calls with at least two distinct values.')
MIN = dict(calls=600, truncated=100, padded=200, exact=20, fill_among_values=60, empty_inputs=6, empty_outputs=6, vectorized=40)
DT = ['float32', 'float32', 'int32', 'uint8', 'int8', 'int16', 'uint16', 'uint32', 'float16', 'bfloat16']


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(dt=dt, reps=1500 if big else 250, cost=1) for dt in DT]
    out += [dict(dt=dt, reps=600 if big else 100, x64=True, cost=1) for dt in ('float64', 'int64', 'uint64')]
    return out


def run(job, rec):
    import jax
    from jax import numpy as jnp
    from bartz import jaxext
    rng = np.random.default_rng(job['seed'])
    dt = jnp.dtype(job['dt'])
    isf = jnp.issubdtype(dt, jnp.floating)
    hi = float(jnp.finfo(dt).max) if isf else int(jnp.iinfo(dt).max)
    lo = float(jnp.finfo(dt).min) if isf else int(jnp.iinfo(dt).min)

    def data(n):
        k = int(rng.integers(8))
        if k == 0:
            x = np.full(n, 7)
        elif k == 1:
            x = rng.choice(np.array([lo, hi, 0], dtype=object), n)
        elif k == 2:
            x = rng.permutation(n) % 120
        elif k == 3:
            x = rng.integers(0, 4, n)
        elif k == 4 and isf:
            x = rng.normal(size=n)
        elif k == 5 and isf:
            x = rng.choice([np.inf, -np.inf, 0., -0., 1.], n)
        elif k == 6:
            x = np.sort(rng.integers(0, 100, n))[::-1]
        else:
            x = rng.integers(max(lo, -60), 60, n) if isf or lo < 0 else rng.integers(0, 60, n)
        return np.array(list(x), dtype=dt) if k == 1 else np.asarray(x).astype(dt)

    def oracle(x, size, fill):
        u = sorted(set((float(v) if isf else int(v)) for v in x))[:size]
        return u + [fill] * (size - len(u)), len(u), len(set((float(v) if isf else int(v)) for v in x))
    for rep in range(job['reps']):
        n = int(rng.choice([0, 1, 2, 3, 9, 40, 256, 300]))
        x = data(n)
        nu = len(set(x.tolist()))
        size = int(rng.choice([0, 1, 2, max(0, nu - 1), nu, nu + 1, n, n + 5]))
        fills = [0, 1, 7, hi, lo] + ([np.inf, -np.inf] if isf else []) + ([x[0]] if n else [])
        fill = fills[rng.integers(len(fills))]
        fill = float(np.asarray(fill).astype(dt)) if isf else int(fill)
        vec = rep % 6 == 5 and n
        if vec:
            Xs = np.stack([x, data(n), data(n)])
            o, l = jax.vmap(lambda z: jaxext.unique(z, size, jnp.asarray(fill, dt)))(jnp.asarray(Xs))
            rows = [(Xs[i], np.asarray(o)[i], np.asarray(l)[i]) for i in range(3)]
            rec.event('vectorized')
        elif rep % 6 == 4:
            o, l = jax.jit(lambda z: jaxext.unique(z, size, jnp.asarray(fill, dt)))(jnp.asarray(x))
            rows = [(x, np.asarray(o), np.asarray(l))]
        else:
            o, l = jaxext.unique(jnp.asarray(x), size, jnp.asarray(fill, dt) if not (isinstance(fill, int) and abs(fill) < 2 ** 31) else fill)
            rows = [(x, np.asarray(o), np.asarray(l))]
        for z, o, l in rows:
            want, wl, tot = oracle(z, size, fill)
            rec.event('calls')
            rec.event('truncated', tot > size)
            rec.event('padded', tot < size)
            rec.event('exact', tot == size and n > 0)
            rec.event('fill_among_values', n > 0 and fill in z.tolist())
            rec.event('empty_inputs', n == 0)
            rec.event('empty_outputs', size == 0)
            if tot > 1 and size:
                rec.mark(z.tobytes(), size, fill, str(dt))
            tag = f'{dt}, {n} values ({tot} distinct), output of {size}, fill {fill}'
            if not rec.expect(o.shape == (size,) and o.dtype == dt and l.shape == () and l.dtype.kind in 'iu', 'layout', f'{tag}: output {o.shape} {o.dtype}, length {l.shape} {l.dtype}'):
                continue
            rec.expect(int(l) == wl, 'length', f'{tag}: reported length {int(l)}, expected {wl}')
            got = [float(v) if isf else int(v) for v in o]
            rec.expect(got == want, 'values', lambda: f'{tag}: {got[:12]}, expected {want[:12]}')
        if rep == 3:
            rec.sample(dtype=str(dt), n=n, distinct=nu, size=size, fill=fill, output=got[:6])

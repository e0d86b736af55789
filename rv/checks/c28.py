import numpy as np
RULE = ('The special functions are called on grids and random arguments of all broadcastable shape pairs and float types, directly, compiled, under one or more vectorized axes and inside loops, against scipy in float64 and against their inverse; '
        'type helpers are called at and around every power of two and on every type; compile-time dictionaries are sent through compiled, vectorized, differentiated and looped functions. Distinct non-trivial cases: distinct (function, shapes, transformation) calls and helper arguments.')
MIN = dict(special_values=5000, special_calls=200, transformed_calls=80, type_queries=200, leafdict_passes=20, round_trips=1500)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(kind='special', reps=150 if big else 40, cost=1) for _ in range(16 if big else 6)]
    out += [dict(kind='special', reps=40 if big else 12, x64=True, cost=1) for _ in range(2)]
    out += [dict(kind='types', cost=1), dict(kind='types', x64=True, cost=1), dict(kind='dict', cost=1), dict(kind='callback', reps=60 if big else 15, cost=1)]
    return out


SHAPES = [((), ()), ((5,), ()), ((), (5,)), ((5,), (5,)), ((4, 1), (3,)), ((3,), (4, 1)), ((2, 1, 3), (4, 1)), ((1,), (6,)), ((0,), (1,)), ((2, 3), (2, 3)), ((1, 1), (4,)), ((7, 1), (1, 5))]


def run(job, rec):
    dict(special=special, types=types, dict=dicts, callback=callback)[job['kind']](job, rec, np.random.default_rng(job['seed']))


def callback(job, rec, rng):
    """ host callbacks: broadcasting like numpy, apart from the arguments
    declared as excluded, which pass through unchanged """
    import jax
    from jax import numpy as jnp
    from bartz import jaxext
    if not hasattr(jaxext, 'pure_callback_ufunc'):
        rec.event('not_observable')
        return
    for rep in range(job['reps']):
        sa, sy = SHAPES[rep % len(SHAPES)]
        shapes = []
        table = rng.normal(size=[(7,), (3, 11), (), (13,)][rng.integers(4)]).astype(np.float32)
        where = int(rng.integers(3))

        def host(*args):
            args = [np.asarray(a) for a in args]
            t = args.pop(where)
            shapes.append((t.shape, np.broadcast_shapes(*(a.shape for a in args))))
            return (args[0] * 2 - args[1] + np.float32(t.sum())).astype(np.float32)

        def call(a, y, excluded):
            args = [a, y]
            args.insert(where, jnp.asarray(table))
            return jaxext.pure_callback_ufunc(host, jnp.float32, *args, excluded=excluded)
        a, y = (jnp.asarray(rng.normal(size=s), jnp.float32) for s in (sa, sy))
        want = np.asarray(a) * 2 - np.asarray(y) + np.float32(table.sum())
        for tr, f in dict(direct=lambda f: f, compiled=jax.jit).items():
            for ex in [(where,), [where], {where}]:
                shapes.clear()
                got = np.asarray(f(lambda a, y: call(a, y, ex))(a, y))
                rec.event('host_calls')
                rec.mark('callback', sa, sy, table.shape, where, tr, a.tobytes() if hasattr(a, 'tobytes') else rep)
                rec.expect(got.shape == want.shape and np.allclose(got, want, rtol=1e-5, atol=1e-5), 'excluded', f'host callback ({tr}) on shapes {sa}, {sy} with excluded argument of shape {table.shape}: wrong result of shape {got.shape}, expected {want.shape}')
                rec.expect(all(t == table.shape for t, _ in shapes), 'excluded', f'excluded argument of shape {table.shape} arrives on the host as {shapes[:1]}')
        # one vectorized axis
        got = np.asarray(jax.vmap(lambda a: call(a, y, (where,)))(jnp.stack([a, a + 1])))
        rec.event('host_calls')
        rec.expect(got.shape == (2, *want.shape) and np.allclose(got, np.stack([want, want + 2]), rtol=1e-5, atol=1e-5), 'excluded', f'vectorized host callback on shapes {sa}, {sy}: wrong result')
        # cast of the output
        g = jaxext.castto(np.add, np.float16)(np.float32(1), np.ones(3, np.float32)) if hasattr(jaxext, 'castto') else None
        rec.expect(g is None or (g.dtype == np.float16 and g.tolist() == [2, 2, 2]), 'castto', f'castto gives {g}')


def special(job, rec, rng):
    import jax
    from jax import numpy as jnp
    from bartz import jaxext
    import scipy.special as ss
    from scipy import stats
    f64 = bool(job.get('x64'))
    gam = jaxext.scipy.special.gammainccinv
    ppf = jaxext.scipy.stats.invgamma.ppf
    for rep in range(job['reps']):
        sa, sy = SHAPES[(rep + job['seed']) % len(SHAPES)]
        dt = np.float64 if f64 and rep % 2 else np.float32
        a = np.asarray(10 ** rng.uniform(-1, 2.5, sa)).astype(dt)
        y = np.asarray([rng.uniform(.001, .999, sy), np.full(sy, .9), 10 ** rng.uniform(-4, -1, sy), 1 - 10 ** rng.uniform(-3, -1, sy)][rng.integers(4)]).astype(dt)
        # avoid results that underflow
        want = ss.gammainccinv(a.astype(float), y.astype(float))
        tol = 3e-5 if dt == np.float32 else 1e-11

        def close(got, want, what, tr):
            got = np.asarray(got)
            rec.event('special_calls')
            rec.event('special_values', got.size)
            rec.event('transformed_calls', tr != 'direct')
            rec.mark(what, sa, sy, tr, a.tobytes())
            if rec.expect(got.shape == np.shape(want) and got.dtype == dt, 'layout', f'{what} ({tr}) of shapes {sa}, {sy}: result {got.shape} {got.dtype}, expected {np.shape(want)} {dt.__name__}'):
                w = np.asarray(want)
                ok = (np.abs(got - w) <= tol * np.abs(w) + 1e-35) | (np.abs(w) < 1e-30) | (np.abs(w) > 1e30)
                rec.expect(ok.all(), 'value', lambda: f'{what} ({tr}) of shapes {sa}, {sy}: {got[~ok].ravel()[0]!r}, expected {w[~ok].ravel()[0]!r}')
        A, Y = (jnp.asarray(a), jnp.asarray(y)) if rep % 3 else (a, y)
        wi = stats.invgamma.ppf(y.astype(float), a.astype(float))
        close(gam(A, Y), want, 'gammainccinv', 'direct')
        close(jax.jit(gam)(A, Y), want, 'gammainccinv', 'compiled')
        close(ppf(Y, A), wi, 'invgamma.ppf', 'direct')
        close(jax.jit(ppf)(Y, A), wi, 'invgamma.ppf', 'compiled')
        x = np.asarray(gam(A, Y), float)
        good = x > 1e-30
        back = ss.gammaincc(np.broadcast_to(a, x.shape).astype(float), x)
        yy = np.broadcast_to(y, x.shape)
        rec.event('round_trips', x.size)
        # conditioning: d log x -> d y
        sl = np.abs(x * np.exp(-x + (np.broadcast_to(a, x.shape).astype(float) - 1) * np.log(np.maximum(x, 1e-300)) - ss.gammaln(np.broadcast_to(a, x.shape).astype(float))))
        ok = np.abs(back - yy) <= tol * (1 + 10 * sl)
        rec.expect(ok[good].all(), 'inverse', 'gammaincc of the result is not the argument')
        # vectorization over any axis of either argument
        k = int(rng.integers(1, 4))
        Ak = np.stack([a * (1 + i) for i in range(k)]).astype(dt)
        Yk = np.stack([y ** (1 + i) for i in range(k)]).astype(dt)
        close(jax.vmap(gam)(jnp.asarray(Ak), jnp.asarray(Yk)), np.stack([ss.gammainccinv(Ak[i].astype(float), Yk[i].astype(float)) for i in range(k)]), 'gammainccinv', 'vectorized')
        close(jax.jit(jax.vmap(gam, in_axes=(0, None)))(jnp.asarray(Ak), jnp.asarray(y)), np.stack([ss.gammainccinv(Ak[i].astype(float), y.astype(float)) for i in range(k)]), 'gammainccinv', 'vectorized in the first')
        close(jax.vmap(ppf, in_axes=(0, None))(jnp.asarray(Yk), jnp.asarray(a)), np.stack([stats.invgamma.ppf(Yk[i].astype(float), a.astype(float)) for i in range(k)]), 'invgamma.ppf', 'vectorized in the quantile')
        nn = jax.vmap(jax.vmap(gam, in_axes=(None, 0)), in_axes=(0, None))(jnp.asarray(Ak), jnp.asarray(Yk))
        close(nn, np.stack([np.stack([ss.gammainccinv(Ak[i].astype(float), Yk[j].astype(float)) for j in range(k)]) for i in range(k)]), 'gammainccinv', 'vectorized twice')
        if rep == 0:
            rec.sample(shapes=(sa, sy), a=a, y=y, result=np.asarray(gam(A, Y)))
    _, r = jax.lax.scan(lambda c, v: (c, gam(v, jnp.float32(.3))), None, jnp.arange(1., 6.))
    rec.expect(np.allclose(r, ss.gammainccinv(np.arange(1, 6.), .3), rtol=3e-5), 'value', 'gammainccinv in a loop')


def types(job, rec, rng):
    import jax
    from jax import numpy as jnp
    from bartz import jaxext
    x64 = bool(job.get('x64'))
    U = [(2 ** 8, 'uint8'), (2 ** 16, 'uint16'), (2 ** 32, 'uint32'), (2 ** 64, 'uint64')]
    vals = sorted({0, 1} | {2 ** k + e for k in range(64) for e in (-1, 0, 1) if 0 <= 2 ** k + e < 2 ** 64} | {int(v) for v in rng.integers(0, 2 ** 33, 60)})
    for v in vals:
        want = next(n for b, n in U if v < b)
        got = jnp.dtype(jaxext.minimal_unsigned_dtype(v)).name
        rec.event('type_queries')
        rec.mark('minimal', v)
        rec.expect(got == want, 'minimal_unsigned_dtype', f'minimal_unsigned_dtype({v}) = {got}, expected {want}')
    rec.expect(jnp.dtype(jaxext.minimal_unsigned_dtype(np.int64(255))) == np.uint8 and jnp.dtype(jaxext.minimal_unsigned_dtype(np.int32(256))) == np.uint16, 'minimal_unsigned_dtype', 'with numpy integers')
    ints = ['int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32'] + (['int64', 'uint64'] if x64 else [])
    for t in ints:
        got = jnp.dtype(jaxext.signed_to_unsigned(jnp.dtype(t))).name
        want = t if t[0] == 'u' else 'u' + t
        rec.event('type_queries')
        rec.mark('unsigned', t)
        rec.expect(got == want, 'signed_to_unsigned', f'signed_to_unsigned({t}) = {got}')
        i = np.iinfo(t)
        a = np.array([i.min, -1 if i.min < 0 else 1, 0, 5, i.max], t)
        for f in (jaxext.ensure_unsigned, jax.jit(jaxext.ensure_unsigned)):
            e = np.asarray(f(jnp.asarray(a)))
            rec.event('type_queries')
            rec.expect(e.dtype == want and np.array_equal(e, a.astype(want)), 'ensure_unsigned', f'ensure_unsigned of {t}: {e.tolist()} {e.dtype}')
        for arr in (a, jnp.asarray(a), np.zeros((0, 2), t)):
            h = jaxext.huge_value(arr)
            rec.event('type_queries')
            rec.expect(int(h) == int(i.max), 'huge_value', f'huge_value of {t} is {h}')
    for t in ['float32', 'float16', 'bfloat16'] + (['float64'] if x64 else []):
        h = jaxext.huge_value(jnp.zeros(3, t))
        rec.event('type_queries')
        rec.expect(float(h) == np.inf, 'huge_value', f'huge_value of {t} is {h}')
    for bad in (np.float32, np.bool_):
        try:
            jaxext.signed_to_unsigned(jnp.dtype(bad))
            rec.expect(False, 'signed_to_unsigned', f'accepts {bad}')
        except Exception:
            rec.expect(True, 'signed_to_unsigned', '')
    fl = 'float64' if x64 else 'float32'
    for args, want in [(('float32',), 'float32'), (('float16',), 'float16'), (('float16', 'float32'), 'float32'), (('int32', 'float32'), 'float64' if False else 'float32'), (('int32',), None), (('uint8',), None), ((jnp.zeros(2, 'float16'), 'float32'), 'float32'), (('bfloat16',), 'bfloat16')]:
        got = jnp.dtype(jaxext.float_type(*args)).name
        rec.event('type_queries')
        rec.expect(jnp.issubdtype(jnp.dtype(got), jnp.floating) and (want is None or got == want), 'float_type', f'float_type{args} = {got}')
    g = jaxext.castto(lambda x, y=1: x * y, jnp.int16)
    rec.expect(np.asarray(g(jnp.arange(4.), y=2)).tolist() == [0, 2, 4, 6] and g(jnp.arange(4.)).dtype == jnp.int16, 'castto', 'castto')

    def doc(a, b):
        """ docs """
        return a * b
    v = jaxext.vmap_nodoc(doc, in_axes=(0, None))
    rec.expect(v.__doc__ == ' docs ' and np.array_equal(v(jnp.arange(6).reshape(2, 3), jnp.arange(3)), np.arange(6).reshape(2, 3) * np.arange(3)), 'vmap_nodoc', 'vmap_nodoc')
    rec.sample(minimal=[(v, jnp.dtype(jaxext.minimal_unsigned_dtype(v)).name) for v in (255, 256, 65535, 65536, 2 ** 32)])


def dicts(job, rec, rng):
    import jax
    from jax import numpy as jnp
    from bartz import jaxext
    for i in range(8):
        content = dict(a=i, b='x' * i, c=None, d=jnp.dtype('float16'), e=(1, 2))
        D = jaxext.LeafDict(content)
        st = dict(x=jnp.arange(4.), opt=D)
        tr = dict(
            jit=lambda: jax.jit(lambda s: dict(s, x=s['x'] + 1))(st),
            eager=lambda: jax.tree_util.tree_map(lambda v: v + 1, st),
            scan=lambda: jax.lax.scan(lambda s, _: (dict(s, x=s['x'] + 1), None), st, None, 1)[0],
            vmap=lambda: jax.vmap(lambda s: dict(s, x=s['x'] + 1))(st),
            cond=lambda: jax.lax.cond(True, lambda s: dict(s, x=s['x'] + 1), lambda s: s, st),
            twice=lambda: jax.jit(jax.vmap(lambda s: dict(s, x=s['x'] + 1)))(st))
        for k, f in tr.items():
            o = f()
            rec.event('leafdict_passes')
            rec.mark('dict', k, i)
            rec.expect(isinstance(o['opt'], jaxext.LeafDict) and dict(o['opt']) == content, 'leafdict', f'after {k} the dictionary is {o["opt"]!r}')
            rec.expect(np.array_equal(o['x'], np.arange(4.) + 1), 'leafdict', f'{k}: values')
        seen = []
        jax.jit(lambda s: seen.append(s['opt']['a']) or s)(st)
        rec.expect(seen == [i], 'leafdict-static', 'values are not available at compile time')
        rec.expect(len(jax.tree_util.tree_leaves(D)) == 0, 'leafdict', 'contains leaves')
        rec.expect(eval(repr(D).replace('LeafDict', '').replace("dtype('float16')", "jnp.dtype('float16')"), dict(jnp=jnp)) == content, 'leafdict-repr', repr(D))
        rec.expect(dict(content) == D and D['a'] == i, 'leafdict', 'dictionary behaviour')

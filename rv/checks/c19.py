import warnings
import numpy as np
RULE = ('Random functions over random pytrees (nested tuples, lists and dictionaries, mixed types and widths, batching axes of any position, unbatched arguments, scalars, empty arrays) are wrapped with random memory limits, with batched sizes 0, 1, primes, composites and powers; '
        'a probe inside the function records the shapes of the batches it is really given; outputs are compared with those of the plain function, and the number and bytes of the batches with exhaustive search over the divisors of the size. '
        'Distinct non-trivial cases: distinct (structure, size, limit) calls that really ran in more than one batch.')
MIN = dict(calls=350, multi_batch_calls=120, prime_sizes=20, zero_sizes=10, warnings_raised=20, one_batch_calls=50, leaves_compared=500, unbatched_arguments=60)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(kind='random', reps=200 if big else 60, cost=1) for _ in range(48 if big else 16)]
    out += [dict(kind='random', reps=20, x64=True, cost=1)]
    out += [dict(kind='divisors', part=i, parts=4, top=400 if big else 130, cost=2) for i in range(4)]
    return out


SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 14, 15, 16, 21, 22, 24, 25, 30, 31, 34, 35, 36, 49, 60, 62, 64, 77, 97, 100, 120, 121, 128, 210]
DTYPES = ['float32', 'float32', 'int32', 'uint8', 'int8', 'bool', 'float16', 'uint16', 'uint32']


def is_prime(n):
    return n > 1 and all(n % i for i in range(2, int(n ** .5) + 1))


def array(rng, size, axis, dt=None, empty=False):
    nd = int(rng.integers(1, 4))
    if axis is None:
        shape = tuple(int(rng.integers(0 if empty else 1, 4)) for _ in range(int(rng.integers(0, 3))))
    else:
        shape = [int(rng.integers(0 if empty else 1, 5)) for _ in range(nd)]
        shape.insert(axis % (nd + 1) if axis >= 0 else nd + 1 + axis, size)
        shape = tuple(shape)
    dt = dt or DTYPES[rng.integers(len(DTYPES))]
    a = rng.normal(size=shape) * 20
    return np.asarray(a % 2 > 1 if dt == 'bool' else np.abs(a) if dt.startswith('u') else a).astype(dt)


def nd_axis(rng):
    return int(rng.choice([0, 0, 0, 1, -1]))


def elementwise(a, i):
    from jax import numpy as jnp
    if a.dtype == bool:
        return ~a
    return [lambda: a * 3, lambda: a + a, lambda: jnp.where(a > 1, a, a * 0), lambda: a > 2, lambda: a.astype(jnp.float32) / 4][i % 5]()


def case(rng, size):
    """ a random function with its arguments and axes: elementwise over the
    batched axis, so that batching cannot change it """
    import jax
    from jax import numpy as jnp
    nargs = int(rng.integers(1, 4))
    args, axes = [], []
    empty = rng.integers(8) == 0

    def node(depth):
        k = int(rng.integers(0, 5 if depth < 2 else 1))
        if k == 4:
            items = [node(depth + 1) for _ in range(int(rng.integers(1, 3)))]
            t = int(rng.integers(3))
            if t == 0:
                return tuple(x for x, _ in items), tuple(a for _, a in items)
            if t == 1:
                return [x for x, _ in items], [a for _, a in items]
            return {f'k{i}': x for i, (x, _) in enumerate(items)}, {f'k{i}': a for i, (_, a) in enumerate(items)}
        ax = nd_axis(rng)
        return array(rng, size, ax, empty=empty), ax
    same = rng.integers(4) == 0
    for i in range(nargs):
        if i and not same and rng.integers(4) == 0:
            args.append(array(rng, size, None) if rng.integers(2) else 3)
            axes.append(None)
        elif same:
            args.append(array(rng, size, 0, empty=empty))
            axes.append(0)
        else:
            x, a = node(0)
            args.append(x), axes.append(a)
    isn = lambda x: x is None
    flat_ax = jax.tree_util.tree_flatten(axes, is_leaf=isn)[0]
    leaves = jax.tree_util.tree_leaves(args)
    picks = [i for i, a in enumerate(flat_ax) if a is not None]
    outs = [int(picks[rng.integers(len(picks))]) for _ in range(int(rng.integers(1, 4)))]
    ops = [int(rng.integers(5)) for _ in outs]
    # where the batched axis goes in each output
    oax = []
    for i in outs:
        nd = leaves[i].ndim
        oax.append(int(rng.integers(-nd, nd)) if not same and rng.integers(2) else 0)
    style = int(rng.integers(3))

    def func(*a):
        L = jax.tree_util.tree_leaves(list(a))
        res = []
        extra = [l for l, ax in zip(L, flat_ax) if ax is None]
        for i, op, o in zip(outs, ops, oax):
            r = elementwise(L[i], op)
            if extra and r.dtype != bool:
                r = jnp.where(jnp.sum(jnp.asarray(extra[0]).astype(jnp.int32)) % 3 > 0, r, r + r)
            res.append(jnp.moveaxis(r, flat_ax[i], o))
        if len(res) == 1 and style == 0:
            return res[0]
        if style == 1:
            return {f'o{i}': r for i, r in enumerate(res)}
        return tuple(res)
    if len(outs) == 1 and style == 0:
        out_axes = oax[0]
    elif style == 1:
        out_axes = {f'o{i}': o for i, o in enumerate(oax)}
    else:
        out_axes = tuple(oax)
    in_axes = tuple(axes)
    if same:
        in_axes, out_axes = 0, 0
    return func, args, in_axes, out_axes, flat_ax


def nbytes(shape, dtype):
    return int(np.prod(shape, dtype=np.int64)) * np.dtype(dtype).itemsize


def batched_bytes(args, flat_ax, out):
    import jax
    L = jax.tree_util.tree_leaves(args)
    b = sum(nbytes(np.shape(l), l.dtype) for l, a in zip(L, flat_ax) if a is not None)
    return b + sum(nbytes(o.shape, o.dtype) for o in jax.tree_util.tree_leaves(out))


def check(rec, rng, func, args, in_axes, out_axes, flat_ax, size, limit, tag):
    import jax
    from bartz import jaxext
    seen = []

    def probe(*a):
        L = jax.tree_util.tree_leaves(list(a))
        r = func(*a)
        seen.append(([np.shape(l) for l in L], batched_bytes(list(a), flat_ax, r)))
        return r
    want = func(*args)
    total = batched_bytes(args, flat_ax, want)
    ret = bool(rng.integers(2))
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter('always')
        g = jaxext.autobatch(probe, limit, in_axes, out_axes, True) if ret else jaxext.autobatch(probe, limit, in_axes, out_axes)
        got = g(*args)
    warned = any('max_io_nbytes' in str(w.message) for w in W)
    if ret:
        got, nb = got
        nb = int(nb)
    rec.event('calls')
    rec.event('unbatched_arguments', sum(a is None for a in flat_ax))
    a, b = jax.tree_util.tree_flatten(want), jax.tree_util.tree_flatten(got)
    if not rec.expect(a[1] == b[1], 'structure', f'{tag}: output structure {b[1]} instead of {a[1]}'):
        return
    for x, y in zip(a[0], b[0]):
        rec.event('leaves_compared')
        ok = x.shape == y.shape and x.dtype == y.dtype
        if rec.expect(ok, 'layout', f'{tag}: output {y.shape} {y.dtype}, the plain function gives {x.shape} {x.dtype}'):
            x, y = np.asarray(x), np.asarray(y)
            ok = np.array_equal(x, y) if x.dtype.kind != 'f' else np.allclose(x.astype(float), y.astype(float), rtol=4 * np.finfo(x.dtype).eps, atol=0)
            rec.expect(ok, 'values', f'{tag}: size {size}, limit {limit}: values differ from those of the plain function')
    # what was observed inside
    i = next(i for i, ax in enumerate(flat_ax) if ax is not None)
    lens = [s[0][i][flat_ax[i]] for s in seen]
    bl = lens[-1]
    bb = seen[-1][1]
    if size == 0:
        rec.event('zero_sizes')
        n_obs = 1
    else:
        if not rec.expect(bl > 0 and size % bl == 0, 'divides', f'{tag}: batches of {bl} do not divide {size}'):
            return
        n_obs = size // bl
    if ret:
        rec.expect(nb == n_obs, 'reported', f'{tag}: {nb} batches reported, batches of {bl} of {size} observed')
    rec.event('prime_sizes', is_prime(size))
    fits = size == 0 or bb <= limit
    possible = size == 0 or total // size <= limit
    rec.expect(fits or not possible, 'bound', f'{tag}: size {size}, {total} bytes in total, limit {limit}: batch of {bb} bytes, while {size} batches would fit')
    rec.expect(warned == (not fits), 'warning', f'{tag}: size {size}, {total} bytes, limit {limit}, batch of {bb} bytes: warning {"raised" if warned else "not raised"}')
    rec.event('warnings_raised', warned)
    if not fits:
        rec.expect(n_obs == size, 'best-effort', f'{tag}: limit cannot be respected, yet batches have {bl} > 1 elements')
    if total <= limit and size:
        rec.event('one_batch_calls')
        rec.expect(n_obs == 1, 'needless', f'{tag}: {n_obs} batches although everything fits the limit')
    if n_obs > 1:
        rec.event('multi_batch_calls')
        rec.mark(tag, size, limit, total, n_obs)


def run(job, rec):
    rng = np.random.default_rng(job['seed'])
    if job['kind'] == 'random':
        for rep in range(job['reps']):
            size = SIZES[rng.integers(len(SIZES))]
            func, args, ia, oa, fa = case(rng, size)
            total = batched_bytes(args, fa, func(*args))
            per = total // max(1, size)
            limit = int(rng.choice([1, max(1, per - 1), max(1, per), per + 1, max(1, 2 * per), max(1, 3 * per + 1), max(1, total // 2), max(1, total - 1), max(1, total), total + 1, 2 ** 29, max(1, int(total * rng.random()))]))
            check(rec, rng, func, args, ia, oa, fa, size, limit, f'{len(args)} arguments, axes {ia} -> {oa}')
            if rep == 0:
                rec.sample(size=size, limit=limit, total_bytes=total, in_axes=repr(ia), out_axes=repr(oa))
    else:
        # every size with every limit in elements
        import jax
        for size in range(job['part'], job['top'], job['parts']):
            a = rng.integers(0, 100, (size, 2)).astype(np.int32)
            lims = set(int(x) for x in rng.integers(1, max(2, size + 1), 3)) | {max(1, size // 2), max(1, size // 3)}
            f = lambda x: x[:, 0] + x[:, 1]
            for k in sorted(lims):
                check(rec, rng, f, [a], 0, 0, [0], size, 12 * k + int(rng.integers(0, 12)), 'sum of columns')

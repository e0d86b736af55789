import itertools
import numpy as np
from .. import gen, ref
RULE = ('Every tree shape of depth 1 to 4 (all 1 + 2 + 5 + 26 sets of decision nodes) and all 677 of depth 5 are given random rules with junk in all unused variable and leaf slots and run through every structure query; random trees go to depth 10, '
        'with every index and cutpoint type, against an independent node-by-node traversal in numpy. Distinct non-trivial cases: distinct (tree shape, types) evaluated.')
MIN = dict(trees_traversed=5000, shapes_enumerated=700, points_traversed=50000, forests_evaluated=60, tree_depths_sizes=11, empty_requests=2, deep_trees=100, looped_trees=3000)


def shapes(h, i=1):
    """ all sets of decision nodes of trees with h slots """
    if i >= h:
        return [()]
    out = [()]
    L, R = shapes(h, 2 * i), shapes(h, 2 * i + 1)
    return out + [(i,) + a + b for a in L for b in R]


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(kind='shapes', d=d, cost=2) for d in (1, 2, 3, 4, 5)]
    pairs = [(v, s) for v in (1, 255, 256, 257, 65537) for s in (3, 255, 256, 65535, 70000)]
    for i in range(0, len(pairs), 4 if not big else 1):
        out.append(dict(kind='types', pairs=pairs[i:i + (4 if not big else 1)], reps=2 if not big else 12, cost=3))
    for i in range(16 if big else 4):
        out.append(dict(kind='random', reps=20 if big else 6, cost=3))
    out.append(dict(kind='depths', cost=1))
    out.append(dict(kind='many', cost=2))
    for i in range(8 if big else 2):
        out.append(dict(kind='loops', cost=3, reps=16 if big else 6))
    out.append(dict(kind='random', reps=6, x64=True, cost=2))
    return out


def pad1(h):
    return h


def check_structure(rec, S, tag):
    """ S (m, h): structure queries on each tree """
    import jax
    from jax import numpy as jnp
    from bartz import grove
    m, h = S.shape
    Sj = jnp.asarray(S)
    got = np.asarray(jax.vmap(grove.is_actual_leaf)(Sj))
    gotb = np.asarray(jax.vmap(lambda s: grove.is_actual_leaf(s, add_bottom_level=True))(Sj))
    gotp = np.asarray(jax.vmap(grove.is_leaves_parent)(Sj))
    lm = ref.leaf_mask(S)
    for name, g, w in (('is_actual_leaf', got, lm[:, :h]), ('is_actual_leaf-bottom', gotb, lm), ('is_leaves_parent', gotp, ref.leaf_parents(S))):
        if not rec.expect(g.shape == w.shape and g.dtype == bool, name, f'{name}: shape {g.shape} {g.dtype}, expected {w.shape} bool'):
            continue
        # slot 0 is unused; whatever is reported there must be False (documented: the root is at 1)
        bad = g != w
        k = int(bad.any(1).argmax())
        rec.event('structure_queries', m)
        rec.expect(not bad.any(), name, lambda: f'{name}: {tag}, tree {ref.render(np.zeros(h, int), S[k])}: reported nodes {np.flatnonzero(g[k]).tolist()}, actual {np.flatnonzero(w[k]).tolist()}')
    # unbatched call
    k = m - 1
    a = np.asarray(grove.is_actual_leaf(Sj[k], add_bottom_level=True))
    rec.expect(np.array_equal(a, lm[k]), 'is_actual_leaf-single', 'single call differs from the vectorized one')
    a = np.asarray(grove.is_leaves_parent(Sj[k]))
    rec.expect(np.array_equal(a, ref.leaf_parents(S)[k]), 'is_leaves_parent-single', 'single call differs from the vectorized one')
    rec.expect(grove.tree_depth(Sj) == int(np.log2(h)), 'tree_depth', f'tree_depth of arrays of {S.shape} is {grove.tree_depth(Sj)}')
    rec.expect(grove.tree_depth(Sj[None, 0]) == int(np.log2(h)), 'tree_depth', 'tree_depth of ND array')
    rec.expect(grove.tree_depth(Sj[0]) == int(np.log2(h)), 'tree_depth', 'tree_depth of one tree')


def check_forest(rec, X, L, V, S, tag, rng, light=False):
    import jax
    from jax import numpy as jnp
    from bartz import grove
    m, h = S.shape
    n = X.shape[1]
    want = ref.traverse(X, V, S)
    Xj, Lj, Vj, Sj = (jnp.asarray(a) for a in (X, L, V, S))
    got = np.asarray(grove.traverse_forest(Xj, Vj, Sj))
    rec.event('trees_traversed', m)
    rec.event('points_traversed', want.size)
    if not n:
        rec.event('empty_requests')
    if rec.expect(got.shape == want.shape and got.dtype.kind == 'u', 'traverse-layout', f'traverse_forest: {got.shape} {got.dtype}, expected {want.shape} unsigned'):
        bad = np.argwhere(got.astype(np.int64) != want)
        rec.expect(not len(bad), 'traverse', lambda: (lambda t, q: f'{tag}: tree {ref.render(V[t], S[t])} at point {X[:, q][:12].tolist()}: leaf {got[t, q]}, expected {want[t, q]}')(*bad[0]))
    if n and not light:
        t, q = int(rng.integers(m)), int(rng.integers(n))
        one = int(grove.traverse_tree(Xj[:, q], Vj[t], Sj[t]))
        rec.expect(one == want[t, q], 'traverse_tree', f'{tag}: traverse_tree gives {one}, expected {want[t, q]}')
        one = int(jax.jit(grove.traverse_tree)(Xj[:, q], Vj[t], Sj[t]))
        rec.expect(one == want[t, q], 'traverse_tree', f'{tag}: compiled traverse_tree gives {one}, expected {want[t, q]}')
    E = np.take_along_axis(L.astype(np.float64), want, axis=-1)
    each = np.asarray(grove.evaluate_forest(Xj, Lj, Vj, Sj, sum_trees=False))
    rec.event('forests_evaluated')
    if rec.expect(each.shape == (m, n) and each.dtype == L.dtype, 'evaluate-layout', f'evaluate_forest by tree: {each.shape} {each.dtype}, expected {(m, n)} {L.dtype}'):
        rec.expect(np.array_equal(each.astype(np.float64), E), 'evaluate', f'{tag}: evaluate_forest by tree does not return the values of the leaves')
    dts = [np.float32, None] + ([np.float16] if not light else []) + ([np.float64] if jax.config.jax_enable_x64 else [])
    for dt in dts:
        tot = np.asarray(grove.evaluate_forest(Xj, Lj, Vj, Sj, dt) if dt is not None else grove.evaluate_forest(Xj, Lj, Vj, Sj))
        wdt = np.dtype(dt) if dt is not None else L.dtype
        if not rec.expect(tot.shape == (n,) and tot.dtype == wdt, 'evaluate-layout', f'evaluate_forest summed as {dt}: {tot.shape} {tot.dtype}'):
            continue
        eps = max(np.finfo(wdt).eps, np.finfo(L.dtype).eps if dt is None else 0)
        err = np.abs(tot.astype(np.float64) - E.sum(0))
        ok = (err <= eps * (m + 4) * np.abs(E).sum(0) + 1e-30) if wdt != np.float16 else (err <= eps * (m + 4) * np.abs(E).sum(0) + 1e-6)
        rec.expect(ok.all(), 'evaluate-sum', f'{tag}: evaluate_forest summed as {dt}: error {err.max(initial=0):.3g}')


def loops(job, rec, rng):
    """ the same queries inside compiled loops over many small forests """
    import jax
    from jax import numpy as jnp, lax
    from bartz import grove

    def queries(X, L, V, S):
        return (grove.traverse_forest(X, V, S), grove.evaluate_forest(X, L, V, S, sum_trees=False), grove.evaluate_forest(X, L, V, S),
                jax.vmap(lambda s: grove.is_actual_leaf(s, add_bottom_level=True))(S), jax.vmap(grove.is_leaves_parent)(S))

    @jax.jit
    def scan(X, L, V, S):
        return lax.scan(lambda _, a: (None, queries(X, *a)), None, (L, V, S))[1]

    @jax.jit
    def nested(X, L, V, S):
        return lax.scan(lambda _, a: (None, lax.scan(lambda _, b: (None, queries(X, *(c[None] for c in b))), None, a)[1]), None, (L, V, S))[1]

    @jax.jit
    def over_points(X, L, V, S): # one point at a time
        return lax.scan(lambda _, x: (None, queries(x[:, None], L[0], V[0], S[0])[:3]), None, X.T)[1]

    for rep in range(job['reps']):
        T, m, n = int(rng.choice([257, 300, 520])), [1, 1, 3][rep % 3], [1, 2, 1, 1, 7][rep % 5]
        h, p, kmax = 2 ** int(rng.integers(0, 9)), int(rng.choice([1, 2, 300])), int(rng.choice([1, 5, 255, 300]))
        ms = np.full(p, kmax)
        F = [junk_tree(np.zeros((p, 0), int), ms, h, rng, int(rng.choice([0, 1, 3, 9]))) for _ in range(50)]
        pick = rng.integers(0, 50, (T, m))
        V, S = np.stack([f[0] for f in F])[pick], np.stack([f[1] for f in F])[pick]
        L = rng.normal(size=(T, m, 2 * h)).astype(np.float32)
        X = rng.integers(0, kmax + 1, (p, n))
        args = [jnp.asarray(a) for a in (X.astype(dt(kmax)), L, V.astype(dt(p - 1)), S.astype(dt(kmax)))]
        I = ref.traverse(X, V, S)
        E = np.take_along_axis(L.astype(float), I, axis=-1)
        lm, lp = ref.leaf_mask(S), ref.leaf_parents(S)
        tag = f'loop over {T} forests of {m} trees of depth {int(np.log2(2 * h))}, {n} points, {p} predictors, {kmax} cutpoints'
        for name, f in (('scan', scan), ('nested', nested)):
            i, e, t, a, b = (np.asarray(q) for q in f(*args))
            i, e, a, b = (q.reshape(w.shape) for q, w in ((i, I), (e, E), (a, lm), (b, lp)))
            t = t.reshape(T, n) if name == 'scan' else t.reshape(T, m, n)
            wt = E.sum(1) if name == 'scan' else E
            for what, bad in (('traverse', i != I), ('evaluate', e != E), ('evaluate-sum', np.abs(t - wt) > 1e-5), ('is_actual_leaf', a != lm), ('is_leaves_parent', b != lp)):
                rec.expect(not bad.any(), f'{what}-{name}', lambda: f'{what} in a {name} {tag}: wrong for {int(bad.any(tuple(range(1, bad.ndim))).sum())} forests, first {int(bad.any(tuple(range(1, bad.ndim))).argmax())}')
        rec.event('looped_trees', T * m)
        rec.mark('loops', T, m, n, h, p, kmax)
        X = rng.integers(0, kmax + 1, (p, T))
        i, e, t = (np.asarray(q) for q in over_points(jnp.asarray(X.astype(dt(kmax))), *args[1:]))
        I = ref.traverse(X, V[0], S[0]) # (m, T)
        E = np.take_along_axis(L[0].astype(float), I, axis=-1)
        rec.expect(np.array_equal(i[:, :, 0].T, I) and np.array_equal(e[:, :, 0].T, E) and np.abs(t[:, 0] - E.sum(0)).max() < 1e-5, 'over-points', f'{tag}, one point at a time: wrong')


def junk_tree(X0, ms, h, rng, grow):
    V, S, _ = gen.random_tree(X0, ms, None, h, rng, grow)
    return V, S


def dt(m):
    return gen.dtype_for(m)


def run(job, rec):
    from jax import numpy as jnp
    from bartz import grove
    rng = np.random.default_rng(job['seed'])
    k = job['kind']
    if k == 'depths':
        for d in range(0, 13):
            L = 2 ** d
            got = np.asarray(grove.tree_depths(L))
            want = np.array([0] + [ref.depth_of(i) for i in range(1, L)])
            rec.event('tree_depths_sizes')
            rec.mark('depths', d)
            rec.expect(got.shape == (L,) and got.dtype.kind == 'u' and np.array_equal(got, want), 'tree_depths', f'tree_depths({L}) = {got[:20].tolist()}...')
            if d >= 1:
                for tp in (np.float32, np.uint8, bool, np.float16):
                    t = grove.make_tree(d, tp)
                    rec.expect(t.shape == (L,) and t.dtype == tp and not np.asarray(t).any(), 'make_tree', f'make_tree({d}, {tp})')
                    rec.expect(grove.tree_depth(t) == d, 'tree_depth', f'tree_depth of a tree of depth {d}: {grove.tree_depth(t)}')
                    rec.expect(grove.tree_depth(jnp.zeros((3, 7, L))) == d, 'tree_depth', 'tree_depth of a 3D array')
        return
    if k == 'many':
        for m in (1, 255, 256, 257, 65537):
            h, p, n = 2, 2, 3
            X = rng.integers(0, 4, (p, n)).astype(np.uint8)
            V = rng.integers(0, p, (m, h)).astype(np.uint8)
            S = np.zeros((m, h), np.uint8)
            S[:, 1] = rng.integers(0, 4, m)
            L = rng.normal(size=(m, 2 * h)).astype(np.float32)
            check_forest(rec, X, L, V, S, f'{m} trees', rng, light=True)
            rec.mark('many', m)
        return
    if k == 'loops':
        loops(job, rec, rng)
        return
    if k == 'shapes':
        d = job['d']
        h = 2 ** (d - 1)
        sh = shapes(h)
        for rep in range(3 if d < 5 else 1):
            p = 5
            ms = np.array([255, 200, 3, 254, 255])
            m = len(sh)
            V = rng.integers(0, 256, (m, h))
            S = np.zeros((m, h), int)
            for t, nodes in enumerate(sh):
                for i in sorted(nodes):
                    V[t, i] = rng.integers(0, p)
                    S[t, i] = rng.integers(1, ms[V[t, i]] + 1)
            L = rng.normal(size=(m, 2 * h)).astype(np.float32)
            X = np.floor(rng.random((p, 40)) * (ms[:, None] + 1)).astype(np.uint8)
            X[:, :4] = np.array([[0, 255, 1, 254]])
            S = S.astype(np.uint8)
            V = V.astype(np.uint8)
            rec.event('shapes_enumerated', m)
            for t in range(m):
                rec.mark('shape', d, sh[t])
            check_structure(rec, S, f'depth {d}')
            check_forest(rec, X, L, V, S, f'depth {d}', rng, light=rep > 0)
        rec.sample(depth=d, shapes=len(sh), example=ref.render(V[-1], S[-1], L[-1]))
        return
    combos = job['pairs'] if k == 'types' else [(int(rng.choice([1, 2, 5, 30, 300])), int(rng.choice([1, 2, 10, 255, 256, 1000, 65535, 65536]))) for _ in range(job['reps'])]
    for p, kmax in combos:
        for rep in range(job['reps'] if k == 'types' else 1):
            d = int(rng.integers(2, 11))
            h = 2 ** (d - 1)
            m = int(rng.choice([1, 4, 17]))
            ms = rng.integers(1, kmax + 1, p)
            ms[rng.integers(p)] = kmax
            X0 = np.zeros((p, 0), int)
            T = [junk_tree(X0, ms, h, rng, int(rng.choice([0, 1, 4, 15, 60]))) for _ in range(m)]
            V, S = np.stack([t[0] for t in T]), np.stack([t[1] for t in T])
            # a maximally deep path ending in the last leaf
            v = int(ms.argmax())
            i, s = 1, 1
            V[0], S[0] = rng.integers(0, p, h), 0
            while i < h and s <= ms[v]:
                V[0, i], S[0, i] = v, s
                i, s = 2 * i + 1, s + 1
            # predictors out of the training bins go through the same comparisons
            n = int(rng.choice([0, 1, 60])) if k == 'random' else 60
            X = np.floor(rng.random((p, n)) * (ms[:, None] + 1)).astype(int)
            if n > 3:
                X[:, 0], X[:, 1] = 0, ms
                # points on the cutpoints used by the trees and just below
                us = S[S > 0]
                if len(us):
                    X[:, 2] = np.minimum(us[rng.integers(len(us))], ms)
                    X[:, 3] = np.minimum(us[rng.integers(len(us))] - 1, ms)
            L = rng.normal(size=(m, 2 * h)).astype(np.float16 if rng.integers(4) == 0 else np.float32)
            vt, st = dt(p - 1), dt(kmax)
            tag = f'{p} predictors ({vt}), {kmax} cutpoints ({st}), depth {d}'
            rec.mark(p, kmax, d, m, n, rep)
            rec.event('deep_trees', m if d > 5 else 0)
            check_structure(rec, S.astype(st), tag)
            check_forest(rec, X.astype(st), L, V.astype(vt), S.astype(st), tag, rng)
            # predictors stored in another type than the cutpoints
            xt = ['uint8', 'int8', 'int16', 'int32', 'uint16'][rep % 5]
            rec.event('mixed_types')
            check_forest(rec, np.minimum(X, np.iinfo(xt).max).astype(xt), L, V.astype(vt), S.astype(st), f'{tag}, predictors of type {xt}', rng, light=True)
    rec.sample(types=tag, example=ref.render(V[0], S[0])[:200])

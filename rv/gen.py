""" Workload generator: configurations biased to boundaries, hostile data. """
import numpy as np

SPLIT_DT = {255: 'uint8', 65535: 'uint16'}


def dtype_for(m):
    return 'uint8' if m < 256 else 'uint16' if m < 65536 else 'uint32'


# static configurations that every MCMC check visits: each pins a boundary
CORE = [
    dict(n=30, p=2, ntree=5, d=6, minp=5),                               # the defaults of the interface
    dict(n=100, p=3, ntree=20, d=6, minp=5, kmax=255),
    dict(n=64, p=3, ntree=3, d=4, minp=None, kmax=4),                    # no constraint, rules run out
    dict(n=33, p=1, ntree=2, d=5, minp=0, kmax=2),                       # one predictor, exhausted quickly
    dict(n=120, p=2, ntree=1, d=8, minp=1, kmax=255),                    # leaf index reaches 255
    dict(n=150, p=2, ntree=2, d=9, minp=1, kmax=300),                    # leaf index needs uint16, cutpoints need uint16
    dict(n=40, p=256, ntree=4, d=4, minp=2, kmax=3),                     # predictor index reaches 255
    dict(n=40, p=257, ntree=4, d=4, minp=2, kmax=3),                     # predictor index needs uint16
    dict(n=29, p=2, ntree=257, d=3, minp=2, kmax=5),                     # tree index needs uint16
    dict(n=50, p=4, ntree=10, d=2, minp=1, kmax=3),                      # stumps and single splits
    dict(n=23, p=2, ntree=3, d=1, minp=1, kmax=3),                       # roots only
    dict(n=9, p=2, ntree=4, d=6, minp=5),                                # too few points to ever split
    dict(n=10, p=2, ntree=6, d=6, minp=5, kmax=9),                       # exactly two leaves possible
    dict(n=1, p=2, ntree=3, d=4, minp=None, kmax=3),
    dict(n=1, p=2, ntree=300, d=4, minp=None, kmax=3),                   # more trees than a byte counts, one point
    dict(n=0, p=2, ntree=3, d=4, minp=None, kmax=3),
    dict(n=0, p=3, ntree=3, d=4, minp=5, kmax=3),
    dict(n=97, p=3, ntree=7, d=5, minp=3, kmax=10, rb=None, cb=None),
    dict(n=97, p=3, ntree=7, d=5, minp=3, kmax=10, rb=1, cb=1),
    dict(n=97, p=3, ntree=7, d=5, minp=3, kmax=10, rb=16, cb=16),        # does not divide n
    dict(n=97, p=3, ntree=7, d=5, minp=3, kmax=10, rb=97, cb=200),
    dict(n=260, p=2, ntree=4, d=5, minp=5, kmax=20),                     # counts above 255
    dict(n=300, p=3, ntree=3, d=7, minp=1, kmax=65535),
    dict(n=150, p=2, ntree=6, d=5, minp=1, kmax=700, types=('uint8', 'uint16')), # predictors in a narrower type than the cutpoints
    dict(n=60, p=3, ntree=6, d=5, minp=2, kmax=6, small='float16'),
]


def random_cfg(rng):
    c = dict(n=int(rng.choice([2, 3, 7, 11, 20, 31, 32, 50, 65, 80, 130, 200])),
             p=int(rng.choice([1, 2, 3, 5, 8, 20])),
             ntree=int(rng.choice([1, 2, 3, 5, 8, 13, 30, 50])),
             d=int(rng.choice([2, 3, 4, 5, 6, 7, 8])),
             minp=[None, 0, 1, 2, 3, 5, 10][rng.integers(7)],
             kmax=int(rng.choice([1, 2, 3, 5, 9, 30, 100, 255, 256, 1000])))
    b = [('auto', 'auto'), ('auto', 'auto'), (None, None), (1, None), (7, 3), (32, 32), (None, 8), (5, None)]
    c['rb'], c['cb'] = b[rng.integers(len(b))]
    return c


def configs(rng, nrandom, core=None):
    out = [dict(c) for c in (CORE if core is None else core)]
    out += [random_cfg(rng) for _ in range(nrandom)]
    for c in out:
        c.setdefault('kmax', 10)
        c.setdefault('rb', 'auto')
        c.setdefault('cb', 'auto')
        c['ratios'] = bool(rng.integers(2))
        if 'types' not in c and rng.integers(3 if c['kmax'] < 256 else 2) == 0:
            # integer types other than the smallest ones, and predictors
            # in a narrower type than the cutpoints
            xt = ['uint8', 'uint8', 'uint16', 'int32', 'int16', 'int8'][rng.integers(6)] if c['kmax'] < 60000 else 'uint16'
            st = [t for t in ('uint8', 'int16', 'uint16', 'int32') if np.iinfo(t).max > c['kmax'] or np.iinfo(t).max == c['kmax'] and t[0] == 'u']
            c['types'] = (xt, str(rng.choice(st)))
        c['cost'] = 1 + c['ntree'] / 60 + c['d'] / 10 + c['p'] / 200
    return out


P_KINDS = ['default', 'flat', 'greedy', 'shy', 'random', 'certain']
X_KINDS = ['uniform', 'binary', 'coarse', 'dupcols', 'skewed', 'extremes', 'const', 'single', 'sorted']
Y_KINDS = ['noise', 'step', 'linear', 'heavy', 'outlier', 'zero', 'interaction']


def dataset(cfg, rng, allow_const=True, zero_cut=False):
    """ binned predictors, response and prior for one configuration """
    n, p, d, kmax = cfg['n'], cfg['p'], cfg['d'], cfg['kmax']
    xk = X_KINDS[rng.integers(len(X_KINDS))]
    ms = np.full(p, kmax)
    if rng.integers(2):
        ms = rng.integers(1, kmax + 1, p)
        ms[rng.integers(p)] = kmax
    if zero_cut and p > 1:
        ms[rng.integers(p)] = 0
    U = rng.random((p, n))
    X = np.floor(U * (ms[:, None] + 1)).astype(int)
    if xk == 'binary':
        X = (U > .5) * ms[:, None]
    elif xk == 'coarse':
        X = np.minimum(np.floor(U * 4).astype(int), ms[:, None])
    elif xk == 'dupcols':
        X = np.minimum(np.floor(U[:1] * (ms[0] + 1)).astype(int), ms[:, None])
    elif xk == 'skewed':
        X = np.floor(U ** 4 * (ms[:, None] + 1)).astype(int)
    elif xk == 'extremes':
        X = np.where(U < .4, 0, np.where(U > .6, ms[:, None], X))
    elif xk == 'const' and allow_const:
        X[rng.integers(p)] = 0
    elif xk == 'single' and n:
        X = np.zeros((p, n), int)
        X[:, 0] = ms
    elif xk == 'sorted':
        X = np.sort(X, axis=1)
    yk = Y_KINDS[rng.integers(len(Y_KINDS))]
    e = rng.normal(size=n)
    x0 = X[0] / max(1, ms[0])
    if yk == 'noise':
        y = e
    elif yk == 'step':
        y = 2. * (x0 > .5) - 1 + .1 * e
    elif yk == 'linear':
        y = 3 * x0 - 1.5 + .3 * e
    elif yk == 'heavy':
        y = rng.standard_t(1.5, size=n).clip(-30, 30)
    elif yk == 'outlier':
        y = .2 * e
        if n:
            y[rng.integers(n)] += 25
    elif yk == 'zero':
        y = np.zeros(n)
    else:
        x1 = X[-1] / max(1, ms[-1])
        y = np.where((x0 > .5) ^ (x1 > .5), 1., -1.) + .2 * e
    pk = P_KINDS[rng.integers(len(P_KINDS))]
    dd = np.arange(d - 1)
    pn = {'default': .95 / (1. + dd) ** 2, 'flat': np.full(d - 1, .5), 'greedy': np.full(d - 1, .98),
          'shy': .3 / (1. + dd) ** 3, 'random': rng.uniform(.05, .95, d - 1),
          'certain': np.where(dd == 0, .999, .7)}[pk]
    alpha = float(rng.choice([.5, 1.5, 1.5, 5, 50]))
    beta = alpha * float(rng.choice([1e-2, .1, .5, 1, 10]))
    xt, st = cfg.get('types') or (dtype_for(kmax), dtype_for(kmax))
    X = np.minimum(X, np.iinfo(xt).max)
    if cfg.get('alpha'):
        alpha, beta = cfg['alpha'], cfg['alpha']
    return dict(X=X.astype(xt), y=y.astype(np.float32), max_split=ms.astype(st),
                p_nonterminal=pn, alpha=alpha, beta=beta, kinds=(xk, yk, pk))


def random_tree(X, max_split, minp, h, rng, ngrow, junk=True, deep=False):
    """ a random valid tree: (var, split, leaf index of each point) """
    from . import ref
    p, n = X.shape
    var = rng.integers(0, p, h) if junk else np.zeros(h, int)
    split = np.zeros(h, int)
    used = np.zeros(h, bool)
    idx = np.ones(n, int)
    leaves = [1]
    cur = 1
    for _ in range(ngrow):
        cand = [i for i in leaves if i < h]
        if not cand:
            break
        i = cand[rng.integers(len(cand))] if rng.random() < .7 else max(cand)
        if deep and cur < h: # a path down to the bottom level that carries as many points as possible
            best = None
            for v in ref.allowed_vars(np.where(used, var, -1), split, max_split, cur):
                l, r = ref.split_bounds(np.where(used, var, -1), split, max_split, cur, v)
                for s in {l, r - 1, int(rng.integers(l, r)), int(rng.integers(l, r))} | set(int(a) for a in np.quantile(X[v][idx == cur], [.1, .9], method='nearest') if l <= a < r) if (idx == cur).any() else {l, r - 1}:
                    here = idx == cur
                    nr = int((here & (X[v] >= s)).sum())
                    nl = int(here.sum()) - nr
                    if minp and min(nl, nr) < minp:
                        continue
                    q = (max(nl, nr), rng.random(), v, s, nr > nl or (nr == nl and bool(rng.integers(2))))
                    if best is None or q > best:
                        best = q
            if best is None:
                cur = h
            else:
                _, _, v, s, right = best
                here = idx == cur
                go = here & (X[v] >= s)
                var[cur], split[cur], used[cur] = v, s, True
                idx = np.where(here, 2 * cur + go, idx)
                leaves.remove(cur)
                leaves += [2 * cur, 2 * cur + 1]
                cur = 2 * cur + right
            continue
        vv = np.where(used, var, -1)
        ok = ref.allowed_vars(vv, split, max_split, i)
        if not ok:
            continue
        v = ok[rng.integers(len(ok))]
        l, r = ref.split_bounds(vv, split, max_split, i, v)
        s = [l, r - 1, rng.integers(l, r), rng.integers(l, r)][rng.integers(4)]
        here = idx == i
        right = here & (X[v] >= s)
        if minp and (right.sum() < minp or (here & ~right).sum() < minp):
            continue
        var[i], split[i], used[i] = v, s, True
        idx = np.where(here, 2 * i + right, idx)
        leaves.remove(i)
        leaves += [2 * i, 2 * i + 1]
    return var, split, idx


def fabricate(state, rng, depth='mixed', leafscale=1., sigma2=None):
    """
    A consistent state in the middle of a hypothetical run: random valid trees
    of the same sizes as in `state`, with everything cached recomputed by the
    reference model, and arbitrary values in the unused slots.
    """
    import jax
    from jax import numpy as jnp
    from . import ref
    st = dict(state)
    X = np.asarray(st['X']).astype(np.int64)
    ms = np.asarray(st['max_split']).astype(np.int64)
    minp = None if st['min_points_per_leaf'] is None else int(st['min_points_per_leaf'])
    ntree, h = st['split_trees'].shape
    n = X.shape[1]
    V, S = np.zeros((ntree, h), int), np.zeros((ntree, h), int)
    I = np.ones((ntree, n), int)
    for t in range(ntree):
        g = int(rng.choice([0, 1, 2, 3, 6, h])) if depth == 'mixed' else depth
        deep = depth == 'mixed' and (h > 64 or rng.random() < .3)
        V[t], S[t], I[t] = random_tree(X, ms, minp, h, rng, max(min(g, 60), 10 * deep), deep=deep)
    lf = st['leaf_trees'].dtype
    L = (rng.normal(size=(ntree, 2 * h)) * leafscale / np.sqrt(ntree)).astype(lf)
    F = np.take_along_axis(L.astype(np.float64), I, axis=1).sum(0)
    st['leaf_trees'] = jnp.asarray(L)
    st['var_trees'] = jnp.asarray(V.astype(st['var_trees'].dtype))
    st['split_trees'] = jnp.asarray(S.astype(st['split_trees'].dtype))
    st['leaf_indices'] = jnp.asarray(I.astype(st['leaf_indices'].dtype))
    st['resid'] = jnp.asarray((np.asarray(st['y']).astype(np.float64) - F).astype(st['resid'].dtype))
    if minp is not None:
        cnt = np.stack([np.bincount(i, minlength=2 * h) for i in I])[:, :h]
        st['affluence_trees'] = jnp.asarray(cnt >= 2 * minp)
    s2 = sigma2 if sigma2 is not None else float(np.exp(rng.normal(-1, 1)))
    st['sigma2'] = jnp.asarray(s2, st['sigma2'].dtype)
    return st


def relate(rng, X):
    """ make the rows of a matrix share some of their features """
    p, n = X.shape
    k = int(rng.integers(7))
    X = X.copy()
    if p < 2 or n < 1:
        return X
    if k == 0: # same row
        X[:] = X[0]
    elif k == 1: # same values in another order
        for j in range(1, p):
            X[j] = rng.permutation(X[0])
    elif k in (2, 3, 4): # same minimum, maximum or both; finite values only change by being clipped
        lo, hi = np.sort(X, axis=1)[:, 0].max(), np.sort(X, axis=1)[:, -1].min()
        if k != 3:
            X = np.maximum(X, lo)
            X[:, rng.integers(n)] = lo
        if k != 2 and (k == 3 or hi > lo):
            X = np.minimum(X, hi)
            X[:, rng.integers(n)] = hi
            if k == 4 and n > 1:
                X[:, 0], X[:, -1] = lo, hi
    elif k == 5: # nested sets of values
        for j in range(1, p):
            X[j] = X[0][rng.integers(0, max(1, n - j), n)]
    else: # one row different
        o = X[-1].copy()
        X[:] = X[0]
        X[rng.integers(p)] = o
    return X

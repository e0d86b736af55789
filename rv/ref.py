"""
Reference model of decision forests, in plain numpy / float64. Written from the
documented representation (heap order, root at 1, x < split goes left, split 0
marks a leaf), sharing no code with the package under test.
"""
import numpy as np


def depth_of(i):
    return int(i).bit_length() - 1


def traverse(X, var, split):
    """ X (p, n), var/split (..., h) -> leaf index (..., n) """
    X = np.asarray(X)
    var = np.asarray(var).astype(np.int64)
    split = np.asarray(split).astype(np.int64)
    p, n = X.shape
    h = split.shape[-1]
    lead = split.shape[:-1]
    v = var.reshape(-1, h)
    s = split.reshape(-1, h)
    m = len(s)
    idx = np.ones((m, n), np.int64)
    rows = np.arange(m)[:, None]
    cols = np.arange(n)[None, :]
    Xi = X.astype(np.int64)
    while True:
        inside = idx < h
        ci = np.where(inside, idx, 0)
        sp = np.where(inside, s[rows, ci], 0)
        go = sp != 0
        if not go.any():
            break
        vv = np.clip(v[rows, ci], 0, p - 1)
        right = Xi[vv, cols] >= sp
        idx = np.where(go, 2 * idx + right, idx)
    return idx.reshape(lead + (n,))


def evaluate_each(X, leaf, var, split):
    """ value of each tree at each point, float64 """
    idx = traverse(X, var, split)
    return np.take_along_axis(np.asarray(leaf).astype(np.float64), idx, axis=-1)


def leaf_mask(split):
    """ actual leaves, incl. the bottom level: (..., h) -> (..., 2h) """
    split = np.asarray(split)
    h = split.shape[-1]
    out = np.zeros(split.shape[:-1] + (2 * h,), bool)
    reach = np.zeros_like(out)
    reach[..., 1] = True
    for i in range(1, 2 * h):
        if i > 1:
            par = i >> 1
            reach[..., i] = reach[..., par] & (split[..., par] != 0)
        here = split[..., i] != 0 if i < h else np.zeros(split.shape[:-1], bool)
        out[..., i] = reach[..., i] & ~here
    return out


def decision_mask(split):
    """ reachable decision nodes (..., h) """
    split = np.asarray(split)
    h = split.shape[-1]
    reach = np.zeros(split.shape, bool)
    for i in range(1, h):
        if i == 1:
            reach[..., 1] = split[..., 1] != 0
        else:
            reach[..., i] = reach[..., i >> 1] & (split[..., i] != 0)
    return reach


def leaf_parents(split):
    """ decision nodes with two leaf children (..., h) """
    split = np.asarray(split)
    h = split.shape[-1]
    dec = decision_mask(split)
    out = np.zeros(split.shape, bool)
    for i in range(1, h):
        if 2 * i >= h:
            out[..., i] = dec[..., i]
        else:
            out[..., i] = dec[..., i] & (split[..., 2 * i] == 0) & (split[..., 2 * i + 1] == 0)
    return out


def split_bounds(var, split, max_split, node, ref):
    """ half-open range [l, r) of cutpoints of variable `ref` at `node` """
    l, r = 1, int(max_split[ref]) + 1
    i = int(node)
    while i > 1:
        par = i >> 1
        if int(var[par]) == ref:
            if i & 1:
                l = max(l, int(split[par]) + 1)
            else:
                r = min(r, int(split[par]))
        i = par
    return l, r


def allowed_vars(var, split, max_split, node):
    p = len(max_split)
    anc = set()
    i = int(node) >> 1
    while i >= 1:
        anc.add(int(var[i]))
        i >>= 1
    bad = set()
    for a in anc:
        if a < p:
            l, r = split_bounds(var, split, max_split, node, a)
            if r <= l:
                bad.add(a)
    return [v for v in range(p) if v not in bad and int(max_split[v]) > 0]


def tree_defects(var, split, max_split):
    """ list of (mechanism, text) for one tree """
    var = np.asarray(var).astype(np.int64)
    split = np.asarray(split).astype(np.int64)
    h = len(split)
    p = len(max_split)
    out = []
    if split[0] != 0:
        out.append(('unused-node', f'slot 0 holds split {split[0]}'))
    for i in np.flatnonzero(split):
        if i == 0:
            continue
        if i > 1 and split[i >> 1] == 0:
            out.append(('stray-node', f'decision node {i} below a leaf'))
            continue
        v = var[i]
        if not 0 <= v < p:
            out.append(('invalid-variable', f'node {i} splits on predictor {v}, there are {p}'))
            continue
        if not 1 <= split[i] <= max_split[v]:
            out.append(('cutpoint-range', f'node {i}: cutpoint {split[i]} of predictor {v} not in 1..{max_split[v]}'))
            continue
        l, r = split_bounds(var, split, max_split, i, v)
        if not l <= split[i] < r:
            out.append(('empty-branch', f'node {i}: cutpoint {split[i]} of predictor {v} outside [{l},{r}) left by its ancestors'))
    return out


def render(var, split, leaf=None):
    """ compact text of a tree, for samples and witnesses """
    h = len(split)

    def go(i):
        if i < h and split[i]:
            return f'({int(var[i])}<{int(split[i])} {go(2 * i)} {go(2 * i + 1)})'
        return f'{float(leaf[i]):.3g}' if leaf is not None else '.'
    return go(1)


def enumerate_trees(X, max_split, pn, minp, h, limit=200000):
    """
    All valid trees with the log prior of each (unnormalised): product over
    decision nodes of p / (available predictors * available cutpoints) and over
    leaves of 1 - p, restricted to at least minp points per leaf.
    Returns var (m, h), split (m, h), leaf indices (m, n), logprior (m,)
    """
    X = np.asarray(X).astype(np.int64)
    p, n = X.shape
    pn = np.append(np.asarray(pn, float), 0.)
    minp = minp or 0

    def sub(i, pts, anc):
        """ list of (logweight, rules dict, [(leaf, pts)]) for the subtree at i """
        d = depth_of(i)
        q = pn[d] if i < h else 0.
        out = []
        if i == 1 or pts.sum() >= minp:
            out.append((np.log1p(-q), {}, [(i, pts)]))
        if i >= h or pts.sum() < 2 * minp:
            return out
        rng = []
        for v in range(p):
            l, r = 1, int(max_split[v]) + 1
            for (av, s, right) in anc:
                if av == v:
                    if right:
                        l = max(l, s + 1)
                    else:
                        r = min(r, s)
            if l < r:
                rng.append((v, l, r))
        for v, l, r in rng:
            w = np.log(q / len(rng) / (r - l))
            for s in range(l, r):
                right = X[v] >= s
                lp, rp = pts & ~right, pts & right
                if lp.sum() < minp or rp.sum() < minp:
                    continue
                A = sub(2 * i, lp, anc + [(v, s, False)])
                B = sub(2 * i + 1, rp, anc + [(v, s, True)])
                for wa, ra, la in A:
                    for wb, rb, lb in B:
                        out.append((w + wa + wb, {i: (v, s), **ra, **rb}, la + lb))
                        if len(out) > limit:
                            raise RuntimeError('too many trees')
        return out
    T = sub(1, np.ones(n, bool), [])
    m = len(T)
    V, S, I, W = np.zeros((m, h), int), np.zeros((m, h), int), np.ones((m, n), int), np.zeros(m)
    for k, (w, rules, leaves) in enumerate(T):
        W[k] = w
        for i, (v, s) in rules.items():
            V[k, i], S[k, i] = v, s
        for i, pts in leaves:
            I[k, pts] = i
    return V, S, I, W


def log_marginal(I, y, sigma2, tau2, h):
    """ log p(y | tree) with leaves integrated out, up to a constant; (m,) """
    m, n = I.shape
    flat = (I + np.arange(m)[:, None] * 2 * h).ravel()
    cnt = np.bincount(flat, minlength=m * 2 * h).reshape(m, 2 * h)
    sm = np.bincount(flat, weights=np.tile(y, m), minlength=m * 2 * h).reshape(m, 2 * h)
    return (.5 * np.log(sigma2 / (sigma2 + cnt * tau2)) + .5 * tau2 / sigma2 * sm ** 2 / (sigma2 + cnt * tau2)).sum(1)

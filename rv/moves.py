""" Reference for proposals and Metropolis-Hastings ratios, float64. """
import functools
import numpy as np
from . import ref, monitors


def prior_pn(pn, h):
    """ probability of a decision node at each node index < 2h, 0 at the bottom """
    d = np.array([ref.depth_of(max(1, i)) for i in range(2 * h)])
    q = np.concatenate([np.asarray(pn, float)[:max(1, int(np.log2(h)) + 1)], [0.]])
    out = np.zeros(2 * h)
    for i in range(2 * h):
        out[i] = q[d[i]] if i < h and d[i] < len(q) else 0
    return out


def log_ratios(var, split, node, grow, gvar, gsplit, X, part, sigma2, pn, minp):
    """
    Log transition+prior ratio and log likelihood ratio of the moves, in grow
    orientation, vectorised over trees. `part` (ntree, n) is the residual
    excluding each tree when its turn comes. Rows with node outside the tree
    are meaningless.
    """
    ntree, h = split.shape
    rows = np.arange(ntree)
    V, S = var.astype(np.int64).copy(), split.astype(np.int64).copy()
    ok = (node >= 1) & (node < h)
    nd = np.where(ok, node, 0)
    p = X.shape[0]
    small, big = S.copy(), S.copy()
    small[rows, nd] = np.where(ok, 0, small[rows, nd])
    bigv = V.copy()
    bigv[rows, nd] = np.where(ok & grow, np.clip(gvar, 0, p - 1), bigv[rows, nd])
    big[rows, nd] = np.where(ok & grow, np.maximum(gsplit, 1), big[rows, nd])
    cs = monitors.counts(ref.traverse(X, V, small), 2 * h)
    idb = ref.traverse(X, bigv, big)
    cb = monitors.counts(idb, 2 * h)

    def growable(split, cnt):
        g = ref.leaf_mask(split)[:, :h].copy()
        if h == 1:
            g[:] = False
        if minp is not None:
            g &= cnt[:, :h] >= 2 * minp
        return g
    q = prior_pn(pn, h)
    gs = growable(small, cs)
    gs[rows, nd] |= ok # the big tree satisfies the constraint
    with np.errstate(all='ignore'):
        choose = q[nd] / (gs * q[:h]).sum(1)
        pgrow = np.where(ref.decision_mask(small).any(1), .5, 1.)
        pprune = np.where(growable(big, cb).any(1), .5, 1.)
        nprun = ref.leaf_parents(big).sum(1)
        prior = q[nd] / (1 - q[nd]) * (1 - q[np.minimum(2 * nd, 2 * h - 1)]) ** 2
        ltp = np.log(prior) + np.log(pprune / nprun) - np.log(pgrow * choose)
        l, r = 2 * nd, 2 * nd + 1
        nl, nr = cb[rows, l], cb[rows, r]
        Sl = np.where(idb == l[:, None], part, 0).sum(1)
        Sr = np.where(idb == r[:, None], part, 0).sum(1)
        A = np.where((idb == l[:, None]) | (idb == r[:, None]), np.abs(part), 0).sum(1)
        t2 = 1 / ntree
        nt = nl + nr
        lk = .5 * np.log(sigma2 * (sigma2 + nt * t2) / (sigma2 + nl * t2) / (sigma2 + nr * t2)) + t2 / (2 * sigma2) * (
            Sl ** 2 / (sigma2 + nl * t2) + Sr ** 2 / (sigma2 + nr * t2) - (Sl + Sr) ** 2 / (sigma2 + nt * t2))
    return dict(ltp=ltp, llk=lk, nl=nl, nr=nr, abs=A, ok=ok)


def lk_tolerance(R, part, leaf_old_max, sigma2, ntree, eps):
    """ rounding of the likelihood ratio computed in precision eps """
    t2 = 1 / ntree
    nt = R['nl'] + R['nr']
    amp = (R['abs'] + nt * leaf_old_max + 1e-30)
    lo = np.maximum(1, np.minimum(R['nl'], R['nr']))
    return 1e-3 + 40 * eps * (1 + np.sqrt(ntree)) * t2 / sigma2 * amp ** 2 / (sigma2 + lo * t2)


def partial_residuals(X, before, after, resid0):
    """ residual excluding tree t when its turn comes; (ntree, n) """
    old = ref.evaluate_each(X, before['leaf_trees'], before['var_trees'], before['split_trees'])
    new = ref.evaluate_each(X, after['leaf_trees'], after['var_trees'], after['split_trees'])
    done = np.cumsum(old - new, axis=0)
    return resid0.astype(np.float64) + old + np.concatenate([np.zeros((1, resid0.size)), done[:-1]])

"""
Online monitors of MCMC histories. Each takes the recorded history H (see
drive.history: every field has one row per iteration, row 0 is the state before
the first) and reports on a Recorder. The oracles are written from the
documented meaning of the state, see ref.py.
"""
import numpy as np
from . import ref


def _np(x):
    return np.asarray(x)


def rows_tag(H, k, t=None):
    w = dict(iteration=int(k))
    if t is not None:
        w['tree'] = int(t)
        w['before'] = ref.render(H['var_trees'][max(0, k - 1), t], H['split_trees'][max(0, k - 1), t], H['leaf_trees'][max(0, k - 1), t])
        w['after'] = ref.render(H['var_trees'][k, t], H['split_trees'][k, t], H['leaf_trees'][k, t])
    return w


def moves_made(H):
    """ decision masks, grown and pruned node per (row, tree), 0 if none """
    D = ref.decision_mask(H['split_trees'])
    add = D[1:] & ~D[:-1]
    rem = D[:-1] & ~D[1:]
    return D, add, rem


def mark_history(H, rec):
    """ count the non-trivial things that this history exercised """
    D, add, rem = moves_made(H)
    g, p = add.any(-1), rem.any(-1)
    T, ntree = g.shape
    rec.event('iterations', T)
    rec.event('tree_updates', T * ntree)
    rec.event('grows_accepted', g.sum())
    rec.event('prunes_accepted', p.sum())
    rec.event('proposals_rejected', int(H['grow_prop_count'][1:].sum() + H['prune_prop_count'][1:].sum()) - int(g.sum() + p.sum()))
    h = D.shape[-1]
    if h > 1:
        u = np.unique(np.where(H['split_trees'][1:].reshape(-1, h) != 0, H['split_trees'][1:].reshape(-1, h).astype(np.int64) * 100003
                               + H['var_trees'][1:].reshape(-1, h), 0), axis=0)
        rec.event('distinct_trees', len(u))
        X = H['X']
        tag = hash((X.shape, X.tobytes()))
        for r in u[:400]:
            if r[1]:
                rec.mark(tag, r.tobytes())
        deepest = int(np.flatnonzero(D.reshape(-1, h).any(0)).max(initial=0))
        rec.events['deepest_decision_node_index'] = max(rec.events['deepest_decision_node_index'], deepest)


def sample_history(H, rec, **kw):
    D = ref.decision_mask(H['split_trees'][-1]).sum(-1)
    t = int(D.argmax())
    rec.sample(shape=dict(n=int(H['X'].shape[1]), p=int(H['X'].shape[0]), trees=len(D), iterations=len(H['sigma2']) - 1),
               largest_final_tree=ref.render(H['var_trees'][-1, t], H['split_trees'][-1, t], H['leaf_trees'][-1, t])[:300], **kw)


# ------------------------------------------------------------------ C01

def resid(H, rec):
    y = H['y'].astype(np.float64)
    R = H['resid']
    eps = np.finfo(R.dtype).eps
    K = R.shape[0]
    ntree = H['split_trees'].shape[1]
    F = np.empty((K, y.size))
    big = np.empty(K)
    mask = ref.leaf_mask(H['split_trees'])
    for k in range(K):
        v = ref.evaluate_each(H['X'], H['leaf_trees'][k], H['var_trees'][k], H['split_trees'][k])
        F[k] = v.sum(0)
        big[k] = np.abs(v).max(initial=0)
        if not np.isfinite(H['leaf_trees'][k][mask[k]]).all():
            rec.violate('leaf-not-finite', f'iteration {k}: a leaf value is not finite', iteration=k)
            return
    err = np.abs(R.astype(np.float64) - (y - F)).max(1, initial=0)
    scale = np.maximum.accumulate(np.maximum(np.abs(R.astype(np.float64)).max(1, initial=0), 2 * big + np.abs(y).max(initial=0)))
    off = H.get('updates_before', 0)
    u = (off + np.arange(K)) * float(ntree)
    tol = eps * scale * np.minimum(4 * u + 32, 60 * np.sqrt(u) + 100)
    rec.event('residual_vectors_checked', K)
    rec.event('residuals_checked', K * y.size)
    with np.errstate(invalid='ignore'):
        bad = ~(err <= tol)
    if y.size:
        rec.expect(not bad.any(), 'residual-drift',
                   lambda: f'iteration {int(bad.argmax())} of {K - 1}: |resid - (y - forest)| up to {err[bad.argmax()]:.3g}, tolerance {tol[bad.argmax()]:.3g}, '
                   f'scale {scale[bad.argmax()]:.3g}', **rows_tag(H, int(bad.argmax())))
    # jumps: the error can grow only by rounding from an iteration to the next
    if y.size and K > 1:
        E = R.astype(np.float64) - (y - F)
        jump = np.abs(np.diff(E, axis=0)).max(1, initial=0)
        jtol = eps * scale[1:] * (4 * ntree + 32)
        with np.errstate(invalid='ignore'):
            jb = ~(jump <= jtol)
        rec.expect(not jb.any(), 'residual-jump',
                   lambda: f'iteration {int(jb.argmax()) + 1}: the error of the residuals jumps by {jump[jb.argmax()]:.3g} in one iteration, rounding allows {jtol[jb.argmax()]:.3g}',
                   **rows_tag(H, int(jb.argmax()) + 1))
        if err.max() > 0:
            rec.event('residual_rows_with_rounding', int((err > 0).sum()))


# ------------------------------------------------------------------ C02

def cache(H, rec):
    idx = ref.traverse(H['X'], H['var_trees'], H['split_trees'])
    got = H['leaf_indices'].astype(np.int64)
    rec.event('leaf_memberships_checked', idx.size)
    rec.event('leaf_memberships_above_255', int((idx > 255).sum()))
    rec.event('leaf_memberships_at_bottom_level', int((idx >= H['split_trees'].shape[-1]).sum()))
    bad = idx != got
    if idx.size:
        k, t, i = np.unravel_index(int(bad.argmax()), bad.shape)
        rec.expect(not bad.any(), 'leaf-index', lambda: f'iteration {k}, tree {t}, point {i}: recorded leaf {got[k, t, i]}, the tree sends it to {idx[k, t, i]} '
                   f'({int(bad.sum())} wrong in total)', **rows_tag(H, k, t))
    mp = H['minp']
    aff = H.get('affluence_trees')
    if mp is None:
        rec.expect(aff is None, 'affluence-presence', 'growability flags present without a minimum')
    else:
        if not rec.expect(aff is not None, 'affluence-presence', 'growability flags missing'):
            return
        h = H['split_trees'].shape[-1]
        leaf = ref.leaf_mask(H['split_trees'])[..., :h]
        cnt = counts(idx, 2 * h)[..., :h]
        want = cnt >= 2 * mp
        bad = leaf & (aff != want)
        rec.event('growability_flags_checked', int(leaf.sum()))
        rec.event('growability_flags_at_exact_threshold', int((leaf & (cnt == 2 * mp)).sum()))
        rec.event('growability_flags_one_below', int((leaf & (cnt == 2 * mp - 1)).sum()))
        k, t, i = np.unravel_index(int(bad.argmax()), bad.shape)
        rec.expect(not bad.any(), 'affluence', lambda: f'iteration {k}, tree {t}, leaf {i} with {cnt[k, t, i]} points: flag {bool(aff[k, t, i])}, minimum per leaf {mp}',
                   **rows_tag(H, k, t))


def counts(idx, size):
    """ (..., n) leaf indices -> (..., size) counts """
    lead, n = idx.shape[:-1], idx.shape[-1]
    m = int(np.prod(lead))
    flat = idx.reshape(m, n) + np.arange(m)[:, None] * size
    return np.bincount(flat.ravel(), minlength=m * size).reshape(lead + (size,))


CONST = ('X', 'y', 'max_split', 'p_nonterminal', 'p_propose_grow', 'sigma2_alpha', 'sigma2_beta', 'min_points_per_leaf')


def constants(state0, state1, rec):
    for k in CONST:
        if k not in state0:
            continue
        a, b = state0[k], state1.get(k)
        if a is None or b is None:
            rec.expect(a is None and b is None, 'constant-field', f'field {k} changed: {a} -> {b}')
        else:
            a, b = _np(a), _np(b)
            rec.expect(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True), 'constant-field', f'field {k} changed during sampling')
    rec.expect(dict(state0['opt']) == dict(state1['opt']), 'constant-field', 'options changed during sampling')


# ------------------------------------------------------------------ C03

def forest_defects(var, split, max_split):
    """ vectorised tree_defects: dict mechanism -> bool (m, h) """
    h = split.shape[-1]
    S = split.reshape(-1, h).astype(np.int64)
    V = var.reshape(-1, h).astype(np.int64)
    ms = np.asarray(max_split).astype(np.int64)
    p = len(ms)
    m = len(S)
    out = {k: np.zeros((m, h), bool) for k in ('unused-node', 'stray-node', 'invalid-variable', 'cutpoint-range', 'empty-branch')}
    out['unused-node'][:, 0] = (S[:, 0] != 0) if h > 1 else False
    for i in range(1, h):
        here = S[:, i] != 0
        if not here.any():
            continue
        if i > 1:
            stray = here & (S[:, i >> 1] == 0)
            out['stray-node'][:, i] = stray
            here &= ~stray
        inv = here & ((V[:, i] < 0) | (V[:, i] >= p))
        out['invalid-variable'][:, i] = inv
        here &= ~inv
        lim = ms[np.clip(V[:, i], 0, p - 1)]
        rng = here & ((S[:, i] < 1) | (S[:, i] > lim))
        out['cutpoint-range'][:, i] = rng
        here &= ~rng
        l, r = np.ones(m, np.int64), lim + 1
        j = i
        while j > 1:
            par = j >> 1
            same = V[:, par] == V[:, i]
            if j & 1:
                l = np.where(same, np.maximum(l, S[:, par] + 1), l)
            else:
                r = np.where(same, np.minimum(r, S[:, par]), r)
            j = par
        out['empty-branch'][:, i] = here & ((S[:, i] < l) | (S[:, i] >= r))
    return out


def trees(H, rec):
    S, V = H['split_trees'], H['var_trees']
    K, ntree, h = S.shape
    d = forest_defects(V, S, H['max_split'])
    dec = ref.decision_mask(S)
    rec.event('trees_checked', K * ntree)
    rec.event('decision_rules_checked', int(dec.sum()))
    if h > 1:
        lim = np.asarray(H['max_split']).astype(np.int64)
        rec.event('rules_on_single_cutpoint_predictors', int((dec & (lim[np.clip(V, 0, len(lim) - 1)] == 1)).sum()))
    for key, m in d.items():
        m = m.reshape(K, ntree, h)
        if m.any():
            k, t, i = np.unravel_index(int(m.argmax()), m.shape)
        else:
            k = t = i = 0
        rec.expect(not m.any(), key, lambda: f'iteration {k}, tree {t}: ' + '; '.join(x for _, x in ref.tree_defects(V[k, t], S[k, t], H['max_split']))[:600],
                   **(rows_tag(H, k, t) if m.any() else {}))
    rec.expect(H['leaf_trees'].shape[-1] == 2 * h, 'sizes', 'leaf array is not twice the split array')
    leaf = ref.leaf_mask(S)
    fin = np.isfinite(H['leaf_trees'].astype(np.float64))
    rec.expect(bool((fin | ~leaf).all()), 'leaf-not-finite', 'a leaf value is not finite')
    s2 = H['sigma2'].astype(np.float64)
    rec.expect(bool((np.isfinite(s2) & (s2 > 0)).all()), 'variance-not-finite', f'noise variance not finite and positive: {s2.min()} {s2.max()}')


def exhausted(H, rec):
    """ evidence: leaves where no rule, or no rule on some predictor, is left """
    S, V = H['split_trees'][-1], H['var_trees'][-1]
    h = S.shape[-1]
    lm = ref.leaf_mask(S)[:, :h]
    for t in range(min(len(S), 10)):
        for i in np.flatnonzero(lm[t]):
            a = ref.allowed_vars(V[t], S[t], H['max_split'], i)
            if len(a) < len(H['max_split']):
                rec.event('leaves_with_an_exhausted_predictor')
            if not a:
                rec.event('leaves_without_any_rule')


# ------------------------------------------------------------------ C04

def minpoints(H, rec):
    mp = H['minp'] or 0
    S = H['split_trees']
    K, ntree, h = S.shape
    idx = ref.traverse(H['X'], H['var_trees'], S)
    cnt = counts(idx, 2 * h)
    leaf = ref.leaf_mask(S)
    grown = ref.decision_mask(S).any(-1)
    rec.event('leaves_checked', int((leaf & grown[..., None]).sum()))
    if mp:
        rec.event('leaves_at_exact_minimum', int((leaf & grown[..., None] & (cnt == mp)).sum()))
        bad = leaf & grown[..., None] & (cnt < mp)
        k, t, i = np.unravel_index(int(bad.argmax()), bad.shape)
        rec.expect(not bad.any(), 'too-few-points', lambda: f'iteration {k}, tree {t}: leaf {i} has {cnt[k, t, i]} points, minimum {mp}', **rows_tag(H, k, t))
        if H['X'].shape[1] < 2 * mp:
            rec.event('histories_too_short_to_split')
            rec.expect(not grown.any(), 'split-without-points', f'{H["X"].shape[1]} observations, minimum {mp}, yet a tree has a decision node')
    else:
        rec.event('empty_leaves_seen', int((leaf & grown[..., None] & (cnt == 0)).sum()))
        rec.expect(True, '', '')


# ------------------------------------------------------------------ C05

def transitions(H, rec):
    S, V = H['split_trees'].astype(np.int64), H['var_trees'].astype(np.int64)
    K, ntree, h = S.shape
    D, add, rem = moves_made(H)
    na, nr = add.sum(-1), rem.sum(-1)
    rec.event('tree_transitions_checked', (K - 1) * ntree)

    def first(m):
        return np.unravel_index(int(m.argmax()), m.shape)
    bad = (na + nr) > 1
    k, t = first(bad)
    rec.expect(not bad.any(), 'more-than-one-move', lambda: f'iteration {k + 1}, tree {t}: {na[k, t]} decision nodes added and {nr[k, t]} removed', **rows_tag(H, k + 1, t))
    # the removed node had two leaf children, the added one has two leaf children
    lp0, lp1 = ref.leaf_parents(S[:-1]), ref.leaf_parents(S[1:])
    bad = (rem & ~lp0).any(-1) | (add & ~lp1).any(-1)
    k, t = first(bad)
    rec.expect(not bad.any(), 'not-a-grow-or-prune', lambda: f'iteration {k + 1}, tree {t}: the changed node is not a parent of two leaves', **rows_tag(H, k + 1, t))
    common = D[1:] & D[:-1]
    ch = (common & ((S[1:] != S[:-1]) | (V[1:] != V[:-1]))).any(-1)
    k, t = first(ch)
    rec.expect(not ch.any(), 'rule-changed', lambda: f'iteration {k + 1}, tree {t}: a decision rule changed without being grown', **rows_tag(H, k + 1, t))
    rec.event('kept_rules_checked', int(common.sum()))
    ng, npr = (na > 0).sum(1), (nr > 0).sum(1)
    for name, want in (('grow_acc_count', ng), ('prune_acc_count', npr)):
        got = H[name][1:].astype(np.int64)
        b = got != want
        k = int(b.argmax())
        rec.expect(not b.any(), 'acceptance-count', lambda: f'iteration {k + 1}: {name} is {got[k]}, but {want[k]} trees changed so', iteration=k + 1)
    gp, pp = H['grow_prop_count'][1:].astype(np.int64), H['prune_prop_count'][1:].astype(np.int64)
    b = (ng > gp) | (npr > pp) | (gp < 0) | (pp < 0)
    k = int(b.argmax())
    rec.expect(not b.any(), 'accepted-exceeds-proposed', lambda: f'iteration {k + 1}: accepted {ng[k]}+{npr[k]}, proposed {gp[k]}+{pp[k]}')
    can, grow_only, prune_only = possible(H)
    tot = can[:-1].sum(1)
    b = gp + pp != tot
    k = int(b.argmax())
    rec.expect(not b.any(), 'proposal-count', lambda: f'iteration {k + 1}: {gp[k]} grow and {pp[k]} prune proposals, but {tot[k]} trees have a possible move')
    lo, hi = grow_only[:-1].sum(1), (can & ~prune_only)[:-1].sum(1)
    b = (gp < lo) | (gp > hi)
    k = int(b.argmax())
    rec.expect(not b.any(), 'proposal-kind', lambda: f'iteration {k + 1}: {gp[k]} grow proposals, but between {lo[k]} and {hi[k]} are possible')
    rec.event('trees_with_no_possible_move', int((~can).sum()))
    rec.event('trees_that_can_only_prune', int(prune_only.sum()))


def possible(H):
    S = H['split_trees']
    h = S.shape[-1]
    leaf = ref.leaf_mask(S)[..., :h].copy()
    if h == 1:
        leaf[...] = False
    leaf[..., 0] = False
    if H['minp'] is not None:
        cnt = counts(ref.traverse(H['X'], H['var_trees'], S), 2 * h)[..., :h]
        leaf &= cnt >= 2 * H['minp']
    growable = leaf.any(-1)
    prunable = ref.decision_mask(S).any(-1)
    return growable | prunable, growable & ~prunable, prunable & ~growable


# ------------------------------------------------------------------ C08, C09

def leaf_draws(H):
    """
    Standardised leaf draws at every iteration. Returns a dict of equal length
    arrays: z, step, tree, node, count, kind (0 kept, 1 grown, 2 pruned), shift
    (posterior mean in sd units).
    """
    K, ntree, h = H['split_trees'].shape
    D, add, rem = moves_made(H)
    X = H['X']
    out = {k: [] for k in ('z', 'step', 'tree', 'node', 'count', 'kind', 'shift', 'amp')}
    old = ref.evaluate_each(X, H['leaf_trees'][0], H['var_trees'][0], H['split_trees'][0])
    for k in range(1, K):
        idx = ref.traverse(X, H['var_trees'][k], H['split_trees'][k])
        leafv = H['leaf_trees'][k].astype(np.float64)
        new = np.take_along_axis(leafv, idx, axis=-1)
        r = H['resid'][k - 1].astype(np.float64)
        # residual excluding tree t, when its turn comes
        done = np.cumsum(old - new, axis=0)
        part = r + old + np.concatenate([np.zeros((1, r.size)), done[:-1]])
        m = ntree
        flat = idx + np.arange(m)[:, None] * 2 * h
        cnt = np.bincount(flat.ravel(), minlength=m * 2 * h).reshape(m, 2 * h)
        sm = np.bincount(flat.ravel(), weights=part.ravel(), minlength=m * 2 * h).reshape(m, 2 * h)
        s2 = float(H['sigma2'][k - 1])
        prec = cnt / s2 + ntree
        mean = sm / s2 / prec
        sd = 1 / np.sqrt(prec)
        lm = ref.leaf_mask(H['split_trees'][k])
        t, i = np.nonzero(lm)
        out['z'].append(((leafv - mean) / sd)[t, i])
        out['shift'].append((mean / sd)[t, i])
        out['amp'].append((np.abs(part).max(initial=0) * np.sqrt(cnt + 1.) / np.sqrt(s2))[t, i] + (np.abs(leafv) / sd)[t, i])
        out['step'].append(np.full(t.size, k))
        out['tree'].append(t)
        out['node'].append(i)
        out['count'].append(cnt[t, i])
        kind = np.zeros(t.size, int)
        if h > 1:
            g = add[k - 1][t, np.minimum(i >> 1, h - 1)] & (i > 1)
            p = rem[k - 1][t, np.where(i < h, i, 0)] & (i < h)
            kind[g] = 1
            kind[p] = 2
        out['kind'].append(kind)
        old = new
    return {k: np.concatenate(v) if v else np.zeros(0) for k, v in out.items()}


def sigma_pit(H):
    from scipy import stats
    r = H['resid'][1:].astype(np.float64)
    a = H['alpha'] + r.shape[1] / 2
    b = H['beta'] + (r * r).sum(1) / 2
    s2 = H['sigma2'][1:].astype(np.float64)
    return stats.gamma.cdf(b / s2, a), a, b

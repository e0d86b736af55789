import contextlib, io, re
import numpy as np
from .. import gen, ref
RULE = ('Forests are fabricated at random (all sizes and integer types, junk in unused slots) with or without planted defects, alone and combined, and passed to the structural checker, the depth and points-per-leaf distributions and the text rendering, whose answers are compared with direct counts; '
        'fitted models are queried for the same summaries, proposal and acceptance rates, the onset of defects (planted in the saved trace), residual comparison and renderings. Distinct non-trivial cases: distinct trees checked, and models.')
MIN = dict(trees_checked=2000, defective_trees=800, depth_rows=200, leaf_count_rows=200, renderings=40, models=6, full_trees=4, looped_trees=1000)
DEFECTS = ('check_types', 'check_sizes', 'check_unused_node', 'check_leaf_values', 'check_stray_nodes')


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(kind='forests', reps=12 if big else 5, cost=2) for _ in range(24 if big else 7)]
    out += [dict(kind='full', d=d, n=n, cost=2) for d, n in ((9, 3), (10, 20), (10, 1500), (11, 0))]
    out += [dict(kind='loops', cost=2, reps=12 if big else 4) for _ in range(4 if big else 1)]
    out += [dict(kind='render', reps=24 if big else 8, cost=2) for _ in range(12 if big else 6)]
    out += [dict(kind='model', i=i, cost=3) for i in range(16 if big else 6)]
    return out


def forest(rng, ntree, d, p, n, kmax):
    h = 2 ** (d - 1)
    ms = rng.integers(1, kmax + 1, p)
    X = np.floor(rng.random((p, n)) * (ms[:, None] + 1)).astype(int)
    V, S = np.zeros((ntree, h), int), np.zeros((ntree, h), int)
    for t in range(ntree):
        V[t], S[t], _ = gen.random_tree(X, ms, 0, h, rng, int(rng.choice([0, 1, 2, 5, 12, 40])))
    V[:, 0] = 0
    L = rng.normal(size=(ntree, 2 * h)).astype(np.float32)
    st = gen.dtype_for(kmax)
    return X.astype(st), ms.astype(st), V.astype(gen.dtype_for(p - 1)), S.astype(st), L


def depths(S):
    """ depth of each tree (T, ntree, h) """
    m = ref.leaf_mask(S)
    dep = np.array([0] + [int(np.log2(i)) for i in range(1, m.shape[-1])])
    return np.where(m, dep, 0).max(-1)


def leaf_counts(X, V, S):
    """ number of points of each actual leaf of a tree """
    I = ref.traverse(X, V, S)
    return np.bincount(I, minlength=2 * len(S))[ref.leaf_mask(S[None])[0]]


def distr(counts, n):
    return np.bincount(counts, minlength=n + 1)


def flagged(debug, code):
    return set(debug.describe_error(int(code)))


def plant(rng, kinds, V, S, L):
    """ plant single-tree value defects in place; False if not possible """
    h = S.shape[-1]
    for k in kinds:
        if k == 'check_unused_node':
            if rng.integers(2):
                S[0] = rng.integers(1, np.iinfo(S.dtype).max + 1)
            else:
                V[0] = rng.integers(1, np.iinfo(V.dtype).max + 1)
        elif k == 'check_leaf_values':
            S0 = S.copy()
            S0[0] = 0
            act = np.flatnonzero(ref.leaf_mask(S0[None])[0])
            L[act[rng.integers(len(act))]] = [np.nan, np.inf, -np.inf][rng.integers(3)]
        elif k == 'check_stray_nodes':
            S0 = S.copy()
            cand = [i for i in range(2, h) if S0[i >> 1] == 0 and i >> 1 >= 1 and S0[i] == 0]
            if not cand:
                return False
            i = [cand[-1], cand[0], cand[rng.integers(len(cand))]][rng.integers(3)]
            S[i] = [1, np.iinfo(S.dtype).max, np.iinfo(S.dtype).max // 2 + 1][rng.integers(3)]
    return True


def run(job, rec):
    import jax
    from jax import numpy as jnp
    from bartz import debug
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    J = jnp.asarray
    if job['kind'] == 'forests':
        known = [f.__name__ for f in debug.check_functions] if hasattr(debug, 'check_functions') else []
        named = set(DEFECTS) <= set(known)
        for rep in range(job['reps']):
            d, p = int(rng.choice([2, 3, 5, 6, 8, 9])), int(rng.choice([1, 2, 5, 256, 257]))
            n, T, nt = int(rng.choice([0, 1, 7, 40, 300])), 4, int(rng.choice([3, 30]))
            kmax = int(rng.choice([1, 3, 255, 256, 65535]))
            forests = [forest(rng, nt, d, p, n, kmax) for _ in range(T)]
            ms, X = forests[0][1], forests[0][0]
            V, S, L = (np.stack([f[i] for f in forests]) for i in (2, 3, 4))
            # trees of other draws may exceed max_split, which is none of the defects
            want = [[set() for _ in range(nt)] for _ in range(T)]
            V1, S1, L1 = V.copy(), S.copy(), L.copy()
            pool = list(DEFECTS[2:])
            for t in range(T):
                for j in range(nt):
                    if rng.random() < .5:
                        m = int(rng.choice([1, 1, 2, 3]))
                        ks = [pool[i] for i in sorted(rng.permutation(3)[:m])]
                        ks = [k for k in ks if plant(rng, [k], V1[t, j], S1[t, j], L1[t, j])]
                        want[t][j] |= set(ks)
            glob = set()
            r = rng.integers(5)
            vt, stt = V1.dtype, S1.dtype
            if r == 0:
                V1 = V1.astype(np.uint32 if vt != np.uint32 else np.uint16)
                glob.add('check_types')
            elif r == 1:
                S1 = S1.astype({'uint8': np.uint16, 'uint16': np.uint32, 'uint32': np.uint16}[str(stt)])
                glob.add('check_types')
            elif r == 2:
                L1 = np.concatenate([L1, np.zeros_like(L1[..., :1])], -1) if rng.integers(2) else np.concatenate([L1, np.zeros_like(L1)], -1)
                glob.add('check_sizes')
            codes = np.asarray(debug.check_trace(dict(leaf_trees=J(L1), var_trees=J(V1), split_trees=J(S1)), dict(max_split=J(ms))))
            ok = rec.expect(codes.shape == (T, nt), 'shape', f'check_trace returned shape {codes.shape}')
            for t in range(T if ok else 0):
                for j in range(nt):
                    w = want[t][j] | glob
                    rec.event('trees_checked')
                    rec.event('defective_trees', bool(w))
                    rec.mark(S1[t, j].tobytes(), V1[t, j].tobytes(), sorted(w))
                    got = flagged(debug, codes[t, j]) if named else None
                    good = got == w if named else (codes[t, j] != 0) == bool(w)
                    rec.expect(good, 'checker', f'checker code {codes[t, j]} ({got}), planted defects {sorted(w)} (depth {d}, {p} predictors, {stt} cutpoints)')
            one = np.asarray(debug.check_tree(J(L1[0, 0]), J(V1[0, 0]), J(S1[0, 0]), J(ms))) if hasattr(debug, 'check_tree') else codes[0, 0]
            rec.expect(int(one) == int(codes[0, 0]), 'checker', 'check_tree and check_trace disagree')
            # distributions on the valid trees
            D = np.asarray(debug.trace_depth_distr(J(S)))
            wd = np.stack([np.bincount(x, minlength=d) for x in depths(S)])
            rec.event('depth_rows', T * nt)
            rec.expect(D.shape == wd.shape and np.array_equal(D, wd), 'depths', f'depth distribution {D.tolist()}, expected {wd.tolist()}')
            Vv = np.minimum(V, p - 1)
            Pn = np.asarray(debug.trace_points_per_leaf_distr(dict(leaf_trees=J(L), var_trees=J(Vv), split_trees=J(S)), J(X)))
            for t in range(T):
                w = sum(distr(leaf_counts(X, Vv[t, j], S[t, j]), n) for j in range(nt))
                rec.event('leaf_count_rows', nt)
                rec.expect(Pn[t].shape == w.shape and np.array_equal(Pn[t], w), 'points-per-leaf', f'points-per-leaf distribution wrong for n={n}, depth {d}, {nt} trees: {Pn[t][:8].tolist()} instead of {w[:8].tolist()}')
        rec.sample(depth=d, predictors=p, trees=T * nt, planted=[sorted(w) for w in want[0][:5]], global_=sorted(glob))
    elif job['kind'] == 'full':
        d, n = job['d'], job['n']
        h = 2 ** (d - 1)
        for rep in range(2):
            ms = np.full(2, h - 1 if h <= 256 else 65535).astype(np.uint16)
            X = rng.integers(0, int(ms[0]) + 1, (2, n)).astype(np.uint16)
            V, S = np.zeros((3, h), np.uint8), np.zeros((3, h), np.uint16)
            for t in range(3): # complete trees
                def fill(i, lo, hi):
                    if i >= h:
                        return
                    mid = (lo + hi + 1) // 2
                    S[t, i] = mid
                    fill(2 * i, lo, mid - 1)
                    fill(2 * i + 1, mid, hi)
                fill(1, 0, int(ms[0]))
                if t == 2: # remove a branch
                    S[t, 3] = 0
                    for i in range(4, h):
                        if i >> (int(i).bit_length() - 2) == 3:
                            S[t, i] = 0
            L = rng.normal(size=(3, 2 * h)).astype(np.float32)
            tr = dict(leaf_trees=J(L[None]), var_trees=J(V[None]), split_trees=J(S[None]))
            rec.event('full_trees', 2)
            rec.mark('full', d, n, rep)
            D = np.asarray(debug.trace_depth_distr(tr['split_trees']))[0]
            rec.expect(D.tolist() == np.bincount(depths(S[None])[0], minlength=d).tolist(), 'depths', f'depth distribution of complete trees {D.tolist()}')
            Pn = np.asarray(debug.trace_points_per_leaf_distr(tr, J(X)))[0]
            w = sum(distr(leaf_counts(X, V[t], S[t]), n) for t in range(3))
            rec.expect(np.array_equal(Pn, w), 'points-per-leaf', f'points-per-leaf distribution of complete trees with {2 * h} leaves and {n} points: {Pn[:6].tolist()} instead of {w[:6].tolist()}')
            code = np.asarray(debug.check_trace(tr, dict(max_split=J(ms))))
            rec.expect(not code.any(), 'checker', f'complete valid trees flagged with code {code.max()}')
    elif job['kind'] == 'loops': # long traces of small forests
        for rep in range(job['reps']):
            d, p, n, nt, T = int(rng.choice([2, 3, 6, 8, 9])), int(rng.choice([1, 3, 257])), [1, 1, 2][rep % 3], [1, 2][rep % 2], int(rng.choice([257, 300, 513]))
            X, ms, V, S, L = forest(rng, 40, d, p, n, int(rng.choice([3, 255, 256])))
            k = rng.integers(0, 40, (T, nt))
            tr = dict(leaf_trees=J(L[k]), var_trees=J(V[k]), split_trees=J(S[k]))
            D = np.asarray(debug.trace_depth_distr(tr['split_trees']))
            wd = np.stack([np.bincount(x, minlength=d) for x in depths(S[k])])
            rec.expect(np.array_equal(D, wd), 'depths', f'depth distribution of a trace of {T} samples of {nt} trees wrong')
            Pn = np.asarray(debug.trace_points_per_leaf_distr(tr, J(X)))
            each = np.stack([distr(leaf_counts(X, V[i], S[i]), n) for i in range(40)])
            bad = (Pn != each[k].sum(1)).any(1)
            rec.expect(not bad.any(), 'points-per-leaf', lambda: f'points-per-leaf distribution of a trace of {T} samples of {nt} trees with {n} points wrong for {int(bad.sum())} samples, first {int(bad.argmax())}')
            code = np.asarray(debug.check_trace(tr, dict(max_split=J(ms))))
            rec.expect(not code.any(), 'checker', 'valid trees of a long trace flagged')
            rec.event('looped_trees', T * nt)
            rec.mark('loops', rep, d, p, n, nt, T)
    elif job['kind'] == 'render':
        for rep in range(job['reps']):
            d, p = int(rng.choice([1, 2, 3, 4, 5])), int(rng.choice([1, 3, 300]))
            if d == 1:
                X, ms, V, S = None, None, np.zeros((1, 1), np.uint8), np.zeros((1, 1), np.uint8)
                L = rng.normal(size=(1, 2)).astype(np.float32)
            else:
                X, ms, V, S, L = forest(rng, 1, d, p, 20, int(rng.choice([3, 255, 1000])))
            L = (L * 10. ** rng.integers(-4, 5, L.shape)).astype(np.float32)
            render(rec, lambda a: debug.print_tree(J(L[0]), J(V[0]), J(S[0]), *a), L[0], V[0], S[0])
    else:
        model(job, rec, rng, drive, debug, J, jax)


def expected_nodes(L, V, S, everything):
    """ preorder list of (depth, index, category, var, split, value) """
    out = []

    def go(i, dep, unused):
        if i >= len(L):
            return
        v, s = (int(V[i]), int(S[i])) if i < len(S) else (0, 0)
        leaf = s == 0
        out.append((dep, i, 'unused' if unused else 'leaf' if leaf else 'decision', v, s, float(L[i])))
        if leaf and not everything:
            return
        go(2 * i, dep + 1, unused or leaf)
        go(2 * i + 1, dep + 1, unused or leaf)
    go(1, 0, False)
    return out


LINE = re.compile(r'^\s*(\d+) (.*?)((?:unused|leaf|decision)?\(.*\)|[-+]?(?:\d|nan|inf)\S*)\s*$')


def render(rec, call, L, V, S):
    for everything in (False, True):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            call((everything,) if everything else ())
        lines = [l for l in buf.getvalue().split('\n') if l.strip()]
        want = expected_nodes(L, V, S, everything)
        rec.event('renderings')
        rec.mark('render', S.tobytes(), V.tobytes(), L.tobytes(), everything)
        if not rec.expect(len(lines) == len(want), 'rendering', f'rendering has {len(lines)} nodes, the tree {len(want)}'):
            continue
        for line, (dep, i, cat, v, s, val) in zip(lines, want):
            m = LINE.match(line)
            if not m:
                rec.expect(False, 'rendering', f'cannot find a node in the line {line!r}')
                continue
            idx, draw, body = int(m[1]), m[2], m[3]
            ok = idx == i
            nums = [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)', re.sub(r'^[a-z]+', '', body))]
            if everything:
                ok = ok and body.startswith(cat) and len(nums) == 3 and nums[:2] == [v, s] and np.isclose(nums[2], val, rtol=1e-4)
            elif cat == 'leaf':
                ok = ok and len(nums) == 1 and np.isclose(nums[0], val, rtol=.06, atol=1e-30)
            else:
                ok = ok and nums == [v, s]
            # the drawing: the root has none, right children close a branch
            if dep:
                ok = ok and ('└' in draw) == bool(i & 1) and ('├' in draw) == (not i & 1)
                ok = ok and draw.count('│') == sum(1 for q in range(1, dep) if not (i >> q) & 1)
            rec.expect(ok, 'rendering', f'line {line!r} for node {i}: {cat} predictor {v} cutpoint {s} value {val:.4g}')


def model(job, rec, rng, drive, debug, J, jax):
    i = job['i']
    n, p = int(rng.choice([12, 40, 80])), int(rng.choice([1, 3]))
    X = rng.normal(size=(p, n)).astype(np.float32)
    y = (np.sign(X[0]) + .4 * rng.normal(size=n)).astype(np.float32)
    nd = 9
    with drive.captured() as calls:
        b = drive.gbart(X, y, ntree=int(rng.choice([2, 7, 30])), maxdepth=int(rng.choice([2, 4, 6])), ndpost=nd, nskip=4, keepevery=1 + i % 3, seed=int(rng.integers(1000)), usequants=bool(i % 2), initkw=dict(min_points_per_leaf=[None, 2, 5][i % 3]))
    if not calls:
        rec.event('not_observable')
        rec.expect(True, '', '')
        return
    rec.event('models')
    main = {k: np.asarray(v) for k, v in calls[0]['main'].items()}
    fin = calls[0]['final']
    S, V = main['split_trees'].astype(int), main['var_trees'].astype(int)
    Xb = np.asarray(fin['X'])
    rec.mark('model', S.tobytes())
    has = lambda m: callable(getattr(b, m, None))
    tot = {k: main[f'{k}_count'].astype(np.int64).sum() for k in ('grow_prop', 'grow_acc', 'prune_prop', 'prune_acc')}
    with np.errstate(all='ignore'):
        acc = np.array([tot['grow_acc'] / np.float64(tot['grow_prop']), tot['prune_acc'] / np.float64(tot['prune_prop'])])
        prop = np.array([tot['grow_prop'], tot['prune_prop']]) / np.float64(tot['grow_prop'] + tot['prune_prop'])

    def close(name, want):
        if has(name):
            got = np.asarray([float(x) for x in getattr(b, name)()])
            rec.event('rates_checked')
            rec.expect(np.allclose(got, want, rtol=1e-4, equal_nan=True), 'rates', f'{name} is {got.tolist()}, from the recorded counts {want.tolist()}')
    close('_avg_acc', acc)
    close('_avg_prop', prop)
    close('_avg_move', acc * prop)
    if has('_depth_distr'):
        D = np.asarray(b._depth_distr())
        w = np.stack([np.bincount(x, minlength=b.maxdepth) for x in depths(S)])
        rec.event('depth_rows', len(w))
        rec.expect(D.shape == w.shape and np.array_equal(D, w), 'depths', f'depth distribution of the model is wrong: {D[0].tolist()} instead of {w[0].tolist()}')
    if has('_points_per_leaf_distr'):
        P = np.asarray(b._points_per_leaf_distr())
        for t in range(nd):
            w = sum(distr(leaf_counts(Xb, V[t, j], S[t, j]), n) for j in range(b.ntree))
            rec.event('leaf_count_rows', b.ntree)
            rec.expect(P.shape == (nd, n + 1) and np.array_equal(P[t], w), 'points-per-leaf', f'points-per-leaf distribution of sample {t} is wrong')
    if has('_compare_resid'):
        r1, r2 = (np.asarray(r, float) for r in b._compare_resid())
        F = ref.evaluate_each(Xb, np.asarray(fin['leaf_trees'])[None], np.asarray(fin['var_trees'])[None], np.asarray(fin['split_trees'])[None]).sum(1)[0]
        rec.expect(np.allclose(r1, np.asarray(fin['resid']), atol=1e-6) and np.allclose(r2, np.asarray(fin['y'], float) - F, atol=1e-4), 'resid-comparison', 'the two reported residuals are not the stored ones and response minus forest')
    if has('_sigma_harmonic_mean'):
        a, bt = float(fin['sigma2_alpha']), float(fin['sigma2_beta'])
        r = np.asarray(fin['resid'], float)
        for prior in (True, False):
            w = np.sqrt(bt / a if prior else (bt + r @ r / 2) / (a + n / 2)) * float(b.scale)
            g = float(b._sigma_harmonic_mean(prior=prior))
            rec.expect(np.isclose(g, w, rtol=1e-4), 'harmonic-mean', f'harmonic mean with prior={prior} is {g}, expected {w}')
    if has('_show_tree'):
        for q in range(3):
            t, j = int(rng.integers(nd)), int(rng.integers(b.ntree))
            render(rec, lambda a: b._show_tree(t, j, *a), main['leaf_trees'][t, j], V[t, j], S[t, j])
    # defects planted in the saved trace are reported where they are, and their onset
    if has('_check_trees') and has('_tree_goes_bad') and isinstance(getattr(b, '_main_trace', None), dict):
        clean = np.asarray(b._check_trees())
        rec.expect(clean.shape == (nd, b.ntree) and not clean.any(), 'checker', 'the self-check reports problems in a valid model')
        bad = np.zeros((nd, b.ntree), bool)
        L = main['leaf_trees'].copy()
        for q in range(4):
            j = int(rng.integers(b.ntree))
            t0, t1 = sorted(rng.integers(0, nd + 1, 2))
            bad[t0:t1, j] = True
        bad[0, 0] = True
        for t, j in zip(*np.nonzero(bad)):
            act = np.flatnonzero(ref.leaf_mask(S[t, j][None])[0])
            L[t, j, act[rng.integers(len(act))]] = np.nan
        b._main_trace = dict(b._main_trace, leaf_trees=J(L))
        got = np.asarray(b._check_trees()) != 0
        rec.event('trees_checked', got.size)
        rec.event('defective_trees', bad.sum())
        rec.expect(np.array_equal(got, bad), 'checker', 'the self-check of the model does not report exactly the trees with planted defects')
        on = np.asarray(b._tree_goes_bad()).astype(bool)
        before = np.concatenate([np.zeros((1, b.ntree), bool), bad[:-1]])
        rec.expect(np.array_equal(on, bad & ~before), 'onset', 'onset of defects reported at wrong samples')
    rec.sample(rates=acc, proposals=prop, ntree=b.ntree, maxdepth=b.maxdepth)

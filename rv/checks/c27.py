import inspect
import numpy as np
from .. import gen, ref
RULE = ('Proposals for all trees are drawn thousands of times from each of many fabricated states (all sizes and integer types, exhausted predictors, predictors without cutpoints, scarce points, uneven depth priors); each draw is checked against the exact support, and the exact probabilities are tested '
        'per tree (multinomial) and pooled (randomized probability transforms, uniform if the law holds); correlations are tested between the parts of a proposal, between trees, and with the acceptance variate. '
        'Distinct non-trivial cases: distinct (tree, data) pairs from which proposals were drawn.')
MIN = dict(proposals=400000, trees_both_possible=60, trees_only_grow=20, trees_only_prune=20, trees_no_move=10, leaf_tables=60, variable_tables=100, cutpoint_tables=100, prune_tables=40, exhausted_leaves=5, statistical_tests=25)
CFGS = [dict(n=60, p=3, ntree=12, d=6, minp=5, kmax=255), dict(n=64, p=3, ntree=12, d=5, minp=None, kmax=4), dict(n=40, p=1, ntree=8, d=4, minp=None, kmax=3), dict(n=150, p=2, ntree=6, d=8, minp=1, kmax=65535),
        dict(n=40, p=256, ntree=6, d=4, minp=2, kmax=3), dict(n=40, p=257, ntree=6, d=4, minp=2, kmax=3), dict(n=30, p=2, ntree=30, d=3, minp=2, kmax=2), dict(n=50, p=4, ntree=20, d=2, minp=1, kmax=3),
        dict(n=12, p=2, ntree=20, d=4, minp=5, kmax=10), dict(n=30, p=5, ntree=12, d=7, minp=0, kmax=2), dict(n=80, p=2, ntree=10, d=6, minp=3, kmax=256), dict(n=23, p=2, ntree=5, d=1, minp=1, kmax=3)]


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i in range(48 if big else 12):
        c = dict(CFGS[i % 12]) if i < 24 else gen.random_cfg(rng)
        c['ntree'] = min(c['ntree'], 30)
        out.append(dict(kind='moves', cfg=c, reps=12 if big else 6, K=3000 if big else 1200, cost=3, x64=i % 16 == 5))
    out.append(dict(kind='helpers', reps=120 if big else 40, cost=2))
    return out


def usable(f, names):
    return f is not None and list(inspect.signature(f).parameters) == names


def table(rec, rng, name, choice, support, probs, what, pit=True):
    """ choice (K,) drawn from support with probs: exact support, multinomial,
    and pooled randomized transform """
    from scipy import stats
    support, probs = np.asarray(support), np.asarray(probs, float)
    o = np.argsort(support)
    support, probs = support[o], probs[o] / probs.sum()
    pos = np.searchsorted(support, choice).clip(0, len(support) - 1)
    inside = support[pos] == choice
    rec.expect(bool(inside.all() and (probs[pos] > 0).all()), name + '-support', lambda: f'{what}: chose {sorted(set(np.asarray(choice)[~inside | (probs[pos] <= 0)].tolist()))[:5]}, outside of the possible values {support[probs > 0][:20].tolist()}')
    K = len(choice)
    if not inside.all() or not K:
        return np.full(K, .5)
    cum = np.concatenate([[0], np.cumsum(probs)])
    u = cum[pos] + probs[pos] * rng.random(K)
    if (probs > 0).sum() > 1:
        rec.put('pit ' + name, u)
        cnt = np.bincount(pos, minlength=len(support))
        e, E, C, ae, ac = probs * K, [], [], 0., 0
        for a, c in zip(e, cnt):
            ae += a
            ac += c
            if ae >= 10:
                E.append(ae), C.append(ac)
                ae, ac = 0., 0
        if E:
            E[-1] += ae
            C[-1] += ac
        if len(E) > 1:
            x = ((np.array(C) - E) ** 2 / E).sum()
            p = stats.chi2.sf(x, len(E) - 1)
            rec.event(name + '_tables')
            rec.put('chi2 ' + name, [[x, len(E) - 1]])
            rec.expect(p > 1e-13, name + '-frequencies', f'{what}: frequencies {np.round(np.array(C) / K, 4)[:12].tolist()}, documented {np.round(np.array(E) / K, 4)[:12].tolist()}, p = {p:.3g}')
    return u


def run(job, rec):
    import jax
    from jax import numpy as jnp, random
    from bartz import mcmcstep
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    if job['kind'] == 'helpers':
        return helpers(job, rec, rng, jax, jnp, mcmcstep)
    cfg, K = job['cfg'], job['K']
    draw = jax.jit(jax.vmap(lambda st, key: {k: v for k, v in mcmcstep.sample_moves(st, key).items() if k in ('allowed', 'grow', 'node', 'left', 'right', 'grow_var', 'grow_split', 'logu', 'num_growable')}, in_axes=(None, 0)))
    for rep in range(job['reps']):
        ds = gen.dataset(cfg, rng, zero_cut=rep % 3 == 2)
        pn = np.array(ds['p_nonterminal'], float)
        if rep % 4 == 1 and len(pn) > 1: # uneven, also increasing with depth
            pn = rng.permutation(np.linspace(.05, .95, len(pn)))
        elif rep % 4 == 3 and len(pn) > 1:
            pn = np.geomspace(.9, 1e-3, len(pn))
        ds['p_nonterminal'] = pn
        st = drive.strong(drive.make_state(dict(cfg, rb=None, cb=None), ds))
        if rep % 6 != 5:
            st = gen.fabricate(st, rng)
        M = {k: np.asarray(v) for k, v in draw(st, random.split(random.key(job['seed'] + rep), K)).items()}
        rec.event('proposals', M['node'].size)
        V, S, X, ms = (np.asarray(st[k]).astype(np.int64) for k in ('var_trees', 'split_trees', 'X', 'max_split'))
        ntree, h = S.shape
        minp = cfg['minp']
        pnf = np.asarray(st['p_nonterminal'], float)
        I = ref.traverse(X, V, S)
        U = {}
        LM, PM = ref.leaf_mask(S), ref.leaf_parents(S)
        lu = M['logu'].astype(float)
        rec.expect(bool(np.all(lu <= 0) and np.all(np.isfinite(lu))), 'variate-range', f'acceptance variate outside (0, 1]: log range [{lu.min()}, {lu.max()}]')
        rec.put('pit variate', np.exp(lu).ravel())
        for t in range(ntree):
            what = f'tree {ref.render(V[t], S[t])} with {X.shape[0]} predictors, {cfg}'
            cnt = np.bincount(I[t], minlength=2 * h)
            g = LM[t, :h].copy()
            g[0] = False
            if h == 1:
                g[:] = False
            if minp is not None:
                g &= cnt[:h] >= 2 * minp
            gl = np.flatnonzero(g)
            pr = np.flatnonzero(PM[t][:h])
            grow, node, allowed = M['grow'][:, t].astype(bool), M['node'][:, t].astype(np.int64), M['allowed'][:, t].astype(bool)
            rec.mark(V[t].tobytes(), S[t].tobytes(), job['seed'], rep)
            if 'num_growable' in M:
                rec.expect(bool(np.all(M['num_growable'][:, t] == len(gl))), 'growable-count', f'{what}: {M["num_growable"][0, t]} growable leaves, there are {len(gl)}')
            if not len(gl) and not len(pr):
                rec.event('trees_no_move')
                rec.expect(not allowed.any(), 'impossible-move', f'{what}: a move is proposed but none is possible')
                continue
            rec.expect(bool(allowed.all()), 'move-missing', f'{what}: no move proposed {int((~allowed).sum())} times of {K}, although one is possible')
            if len(gl) and len(pr):
                rec.event('trees_both_possible')
                U['kind', t] = table(rec, rng, 'kind', grow.astype(int), [0, 1], [.5, .5], what)
            else:
                rec.event('trees_only_grow' if len(gl) else 'trees_only_prune')
                rec.expect(bool(np.all(grow == bool(len(gl)))), 'kind', f'{what}: {"grow" if len(gl) else "prune"} is the only possible move, but the other one is proposed {int((grow != bool(len(gl))).sum())} times of {K}')
            if not np.all(grow | bool(len(pr))) or not np.all(~grow | bool(len(gl))):
                continue
            rec.expect(bool(np.all(M['left'][:, t] == 2 * M['node'][:, t].astype(np.int64)) and np.all(M['right'][:, t] == 2 * M['node'][:, t].astype(np.int64) + 1)) if 'left' in M else True, 'children', f'{what}: wrong children of the node to change')
            ul, up = np.full(K, np.nan), np.full(K, np.nan)
            if len(gl):
                w = pnf[[ref.depth_of(i) for i in gl]]
                if w.sum() > 0:
                    ul[grow] = table(rec, rng, 'leaf', node[grow], gl, w, 'leaf to grow in ' + what)
                    U['leaf', t] = ul
            if len(pr):
                up[~grow] = table(rec, rng, 'prune', node[~grow], pr, np.ones(len(pr)), 'node to prune in ' + what)
                U['prune', t] = up
            uv, us = np.full(K, np.nan), np.full(K, np.nan)
            var, split = M['grow_var'][:, t].astype(np.int64), M['grow_split'][:, t].astype(np.int64)
            dec = ref.decision_mask(S[t][None])[0][:h]
            vv = np.where(dec, V[t], -1)
            for i in gl:
                sel = grow & (node == i)
                if not sel.any():
                    continue
                ok = ref.allowed_vars(vv, S[t], ms, i)
                if not ok:
                    rec.event('exhausted_leaves')
                    continue
                uv[sel] = table(rec, rng, 'variable', var[sel], ok, np.ones(len(ok)), f'predictor for leaf {i} of ' + what)
                for v in set(var[sel].tolist()) & set(ok):
                    l, r = ref.split_bounds(vv, S[t], ms, i, v)
                    s2 = sel & (var == v)
                    us[s2] = table(rec, rng, 'cutpoint', split[s2], np.arange(l, r), np.ones(r - l), f'cutpoint of predictor {v} in [{l},{r}) for leaf {i} of ' + what)
            U['variable', t], U['cutpoint', t], U['variate', t] = uv, us, np.exp(lu[:, t])
        # independence within a proposal and between trees
        parts = ('kind', 'leaf', 'prune', 'variable', 'cutpoint', 'variate')
        for t in range(ntree):
            for a in range(len(parts)):
                for b in range(a):
                    x, y = U.get((parts[a], t)), U.get((parts[b], t))
                    if x is not None and y is not None:
                        ok = np.isfinite(x) & np.isfinite(y)
                        rec.put(f'prod {parts[b]} {parts[a]}', ((x - .5) * (y - .5) * 12)[ok])
        for nm in parts:
            for lag in (1, 2, 5):
                for t in range(ntree - lag):
                    x, y = U.get((nm, t)), U.get((nm, t + lag))
                    if x is not None and y is not None:
                        ok = np.isfinite(x) & np.isfinite(y)
                        rec.put(f'trees {nm}', ((x - .5) * (y - .5) * 12)[ok])
            for t in range(ntree): # between keys
                x = U.get((nm, t))
                if x is not None:
                    z = (x[1:] - .5) * (x[:-1] - .5) * 12
                    rec.put(f'keys {nm}', z[np.isfinite(z)])
        if rep == 0:
            rec.sample(cfg=cfg, tree=ref.render(V[0], S[0]), first_proposal={k: v[0, 0] for k, v in M.items()})


def helpers(job, rec, rng, jax, jnp, mcmcstep):
    """ the random choice functions alone, on hostile arguments """
    from jax import random
    K = 2000
    keys = lambda: random.split(random.key(int(rng.integers(2 ** 31))), K) # fresh, the draws are pooled
    f = getattr(mcmcstep, 'randint_masked', None)
    if usable(f, ['key', 'mask']):
        for size in (1, 2, 7, 64, 255, 256, 257):
            fv = jax.jit(jax.vmap(f, in_axes=(0, None)))
            for kind in range(5):
                m = rng.random(size) < [.5, .1, .9, 0, 1][kind]
                got = np.asarray(fv(keys(), jnp.asarray(m))).astype(np.int64)
                if m.any():
                    table(rec, rng, 'masked', got, np.flatnonzero(m), np.ones(m.sum()), f'random choice among {m.sum()} of {size}')
                else:
                    rec.expect(bool(np.all(got == size)), 'masked-support', f'random choice among none of {size} gives {got[0]}')
    f = getattr(mcmcstep, 'categorical', None)
    if usable(f, ['key', 'distr']):
        for size in (1, 2, 16, 128, 512):
            fv = jax.jit(jax.vmap(f, in_axes=(0, None)))
            for kind in range(4):
                w = rng.random(size) ** 3 * (rng.random(size) < .6)
                if kind == 1:
                    w[:] = 0
                    w[rng.integers(size)] = 1e-3
                elif kind == 2:
                    w = np.r_[np.zeros(size // 2), np.full(size - size // 2, 7.)]
                w = w.astype(np.float32)
                if w.sum() > 0:
                    got, norm = (np.asarray(a) for a in fv(keys(), jnp.asarray(w)))
                    table(rec, rng, 'categorical', got.astype(np.int64), np.arange(size), w, f'choice among {size} weights')
                    rec.expect(np.allclose(norm, w.sum(), rtol=1e-4), 'norm', f'normalization {norm[0]} of weights with sum {w.sum()}')
    f = getattr(mcmcstep, 'randint_exclude', None)
    if usable(f, ['key', 'sup', 'exclude']):
        for rep in range(job['reps']):
            sup = int(rng.choice([1, 2, 5, 20, 256]))
            ex = rng.integers(0, int(sup * 1.3) + 2, int(rng.choice([1, 2, 6])))
            if rep % 8 == 0:
                sup = int(rng.choice([1, 2, 4]))
                ex = rng.permutation(np.arange(6) % (sup + 1))
            fv = jax.jit(jax.vmap(f, in_axes=(0, None, None)), static_argnums=1)
            got = np.asarray(fv(keys(), sup, jnp.asarray(ex))).astype(np.int64)
            ok = np.setdiff1d(np.arange(sup), ex)
            if len(ok):
                table(rec, rng, 'exclude', got, ok, np.ones(len(ok)), f'random integer below {sup} excluding {ex.tolist()}')
            else:
                rec.expect(bool(np.all(got == sup)), 'exclude-support', f'random integer below {sup} excluding all gives {got[0]}')
    f = getattr(mcmcstep, 'split_range', None)
    if usable(f, ['var_tree', 'split_tree', 'max_split', 'node_index', 'ref_var']):
        for rep in range(job['reps']):
            d, p, kmax = int(rng.choice([2, 3, 6, 8])), int(rng.choice([1, 2, 5, 256])), int(rng.choice([1, 2, 5, 255, 256, 65535]))
            h = 2 ** (d - 1)
            ms = rng.integers(0, kmax + 1, p)
            ms[0] = kmax
            X = np.zeros((p, 0), int)
            V, S, _ = gen.random_tree(X, ms, 0, h, rng, int(rng.choice([1, 3, 9, 40])))
            st = gen.dtype_for(kmax)
            dec = ref.decision_mask(S[None])[0][:h]
            nodes = [i for i in range(1, h) if dec[i] or i == 1 or dec[i >> 1]]
            rv = np.unique(np.r_[V[dec], 0, p - 1])[:20]
            l, r = jax.vmap(jax.vmap(f, in_axes=(None, None, None, None, 0)), in_axes=(None, None, None, 0, None))(
                jnp.asarray(V.astype(gen.dtype_for(p - 1))), jnp.asarray(S.astype(st)), jnp.asarray(ms.astype(st)), jnp.asarray(nodes), jnp.asarray(rv))
            l, r = np.asarray(l).astype(np.int64), np.asarray(r).astype(np.int64)
            vv = np.where(dec, V, -1)
            for a, i in enumerate(nodes):
                for b, v in enumerate(rv):
                    L, R = ref.split_bounds(vv, S, ms, i, v)
                    rec.event('ranges_checked')
                    same = (l[a, b], r[a, b]) == (L, R) or (R <= L and r[a, b] <= l[a, b])
                    rec.expect(bool(same), 'range', f'range of cutpoints of predictor {v} at node {i} of {ref.render(V, S)} with {ms[v]} cutpoints is [{l[a, b]},{r[a, b]}), expected [{L},{R})')
    rec.expect(True, '', '')


def final(agg):
    from scipy import stats
    from .. import stat
    for k in sorted(agg.data):
        if k.startswith('pit '):
            stat.uniform(agg, k, agg.pooled(k), 'distribution')
        elif k.startswith('chi2 '):
            a = np.concatenate([np.asarray(x).reshape(-1, 2) for x in agg.data[k]])
            x, d = a.sum(0)
            # the statistic of a multinomial has slightly larger variance
            z = (x - d) / np.sqrt(2 * d * 1.1)
            stat.judge(agg, k, 2 * stats.norm.sf(max(0, z)) if d > 200 else stats.chi2.sf(x, d), 'frequencies', 'frequencies differ from the documented ones', tables=len(a), chi2=float(x), dof=int(d))
        elif k.split()[0] in ('prod', 'trees', 'keys'):
            stat.meanzero(agg, k, agg.pooled(k), 'dependence')

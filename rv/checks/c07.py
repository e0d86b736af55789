"""
Stationarity monitors on ensembles of independent real chains.

exact: one tree, fixed noise variance; the posterior over all trees is
  enumerated, chains start from it and are advanced by the real tree sampler;
  the visited trees must still follow it.
joint: forests and variances from the exact prior, data simulated from them,
  advanced by the real full step; every statistic of (parameters, data) must
  keep its expectation (Geweke's joint distribution test).
loop: the same through run_mcmc.
"""
import functools
import numpy as np
from .. import gen, ref, stat, monitors
RULE = ('Ensembles of independent chains started in exact equilibrium (enumerated posterior, or prior with simulated data) and advanced by the real sampler, over small models with '
        'random data, tree priors, cutpoints, minimum points per leaf (none, 0, 1, 2, 3), numbers of trees, observations (0 included). '
        'Distinct non-trivial cases: distinct (model, tree with at least one decision node) visited at the end of a chain.')
MIN = dict(exact_chains=50000, joint_chains=50000, trees_visited=500, models=20)


def model(rng, joint):
    d = int(rng.choice([2, 3, 3, 4]))
    p = int(rng.choice([1, 2, 3]))
    if d == 4:
        ms = rng.choice([1, 2], p) if p < 3 else np.ones(p, int)
    else:
        ms = rng.integers(1, 5, p)
    if rng.random() < .2 and p > 1:
        ms[rng.integers(p)] = 0
    n = int(rng.choice([0, 6, 9, 14, 20])) if joint else int(rng.choice([6, 9, 14, 20]))
    minp = [None, 0, 1, 2, 3][rng.integers(5)]
    return dict(d=d, p=p, ms=[int(x) for x in ms], n=n, minp=minp, ntree=int(rng.choice([1, 2, 3, 5])) if joint else 1)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i in range(40 if big else 12):
        m = model(rng, False)
        if i < 3:
            m['minp'] = [2, 3, None][i]
        out.append(dict(kind='exact', m=m, reps=10 if big else 4, M=20000 if big else 8192, T=60 if i % 2 else 12, cost=2))
    for i in range(60 if big else 16):
        m = model(rng, True)
        if i < 4:
            m.update(n=[0, 0, 14, 14][i], minp=[None, 3, 2, 3][i], ntree=[2, 1, 3, 5][i])
        out.append(dict(kind='joint' if i % 5 else 'loop', m=m, reps=8 if big else 4, M=16384 if big else 4096, T=25 if i % 2 else 6, cost=3))
    return out


@functools.cache
def ensemble(kind, T):
    import jax
    from jax import lax, random
    from bartz import mcmcstep, mcmcloop

    def fix(s, s1):
        return jax.tree_util.tree_map(lambda a, b: b.astype(a.dtype), s, s1)

    def one(s, key):
        if kind == 'loop':
            s, _, _ = mcmcloop.run_mcmc(s, T // 2, 1, T - T // 2, _nothing, key)
        else:
            f = mcmcstep.sample_trees if kind == 'exact' else mcmcstep.step
            s, _ = lax.scan(lambda s, k: (fix(s, f(s, k)), None), s, random.split(key, T))
        return {k: s[k] for k in ('leaf_trees', 'var_trees', 'split_trees', 'sigma2', 'resid')}
    return jax.jit(jax.vmap(one))


def _nothing(**kw):
    pass


def chains(st, V, S, I, L, y, s2, seed, kind, T):
    """ M copies of the state with given trees (M, ntree, .) """
    import jax
    from jax import numpy as jnp
    M, ntree, h = S.shape
    F = np.take_along_axis(L, I, axis=2).sum(1)
    b = {}
    for k, v in st.items():
        if v is None or k == 'opt':
            b[k] = v
        else:
            b[k] = jax.tree_util.tree_map(lambda v: jnp.broadcast_to(v, (M,) + v.shape), v)
    b['y'] = jnp.asarray(y, st['y'].dtype)
    b['resid'] = jnp.asarray(y - F, st['resid'].dtype)
    b['leaf_trees'] = jnp.asarray(L, st['leaf_trees'].dtype)
    b['var_trees'] = jnp.asarray(V, st['var_trees'].dtype)
    b['split_trees'] = jnp.asarray(S, st['split_trees'].dtype)
    b['leaf_indices'] = jnp.asarray(I, st['leaf_indices'].dtype)
    b['sigma2'] = jnp.asarray(s2, st['sigma2'].dtype)
    if st['affluence_trees'] is not None:
        cnt = monitors.counts(I, 2 * h)[..., :h]
        b['affluence_trees'] = jnp.asarray(cnt >= 2 * int(st['min_points_per_leaf']))
    out = ensemble(kind, T)(b, jax.random.split(jax.random.key(seed), M))
    return {k: np.asarray(v) for k, v in out.items()}


def setup(m, rng, y=None):
    from .. import drive
    n, p, d = m['n'], m['p'], m['d']
    ms = np.array(m['ms'])
    X = np.floor(rng.random((p, n)) * (ms[:, None] + 1)).astype(int)
    pn = rng.uniform(.15, .9, d - 1)
    alpha = float(rng.choice([1.5, 3., 6.]))
    beta = alpha * float(np.exp(rng.normal(-1.2, .8)))
    ds = dict(X=X.astype(np.uint8), y=(np.zeros(n) if y is None else y).astype(np.float32), max_split=ms.astype(np.uint8), p_nonterminal=pn, alpha=alpha, beta=beta)
    st = drive.strong(drive.make_state(dict(ntree=m['ntree'], minp=m['minp']), ds))
    return X, ms, pn, alpha, beta, st


def run(job, rec):
    rng = np.random.default_rng(job['seed'])
    m, M, T = job['m'], job['M'], job['T']
    h = 2 ** (m['d'] - 1)
    ntree, n = m['ntree'], m['n']
    name = f'{job["kind"]} {job["_i"]}'
    for rep in range(job['reps']):
        y = np.zeros(n)
        X, ms, pn, alpha, beta, st = setup(m, rng)
        V, S, I, W = ref.enumerate_trees(X, ms, pn, m['minp'], h)
        P = np.exp(W - W.max())
        P /= P.sum()
        rec.event('models')
        rec.event('trees_in_models', len(P))
        seed = int(rng.integers(2 ** 31))
        look = {(V[i][S[i] != 0].tobytes(), S[i].tobytes()): i for i in range(len(P))}
        if job['kind'] == 'exact':
            s2 = float(np.exp(rng.normal(-.7, .7)))
            leaf = rng.normal(size=2 * h)
            y = leaf[I[rng.integers(len(P))]] + np.sqrt(s2) * rng.normal(size=n)
            W2 = W + ref.log_marginal(I, y, s2, 1., h)
            Q = np.exp(W2 - W2.max())
            Q /= Q.sum()
            t = rng.choice(len(Q), M, p=Q)
            cnt = monitors.counts(I, 2 * h)[t]
            flat = I + np.arange(len(I))[:, None] * 2 * h
            sm = np.bincount(flat.ravel(), weights=np.tile(y, len(I)), minlength=len(I) * 2 * h).reshape(len(I), 2 * h)[t]
            prec = cnt / s2 + 1
            L = sm / s2 / prec + rng.normal(size=prec.shape) / np.sqrt(prec)
            out = chains(st, V[t][:, None], S[t][:, None], I[t][:, None], L[:, None], np.broadcast_to(y, (M, n)), np.full(M, s2), seed, 'exact', T)
            fin = classify(out, look, rec)
            if fin is None:
                continue
            fin = fin[:, 0]
            rec.event('exact_chains', M)
            c = np.bincount(fin, minlength=len(Q))
            rec.event('trees_visited', int((c > 0).sum()))
            rec.event('chains_that_moved', int((fin != t).sum()))
            for i in np.flatnonzero(c)[:2000]:
                if S[i].any():
                    rec.mark(name, rep, i)
            stat.multinomial(rec, f'{name}.{rep} tree posterior', c, Q, key='tree-posterior')
            # structure summaries, paired
            size = (S != 0).sum(1)
            stat.meanzero(rec, f'{name}.{rep} tree size', size[fin].astype(float) - size[t], key='tree-posterior')
            rec.put('exact size', (size[fin].astype(float) - size[t]))
            # leaves given the tree, at two fixed points
            if rep == 0:
                rec.sample(model=m, trees=len(Q), chains=M, iterations=T, top_probability=float(Q.max()), visited=int((c > 0).sum()))
        else:
            t = rng.choice(len(P), (M, ntree), p=P)
            s2 = beta / rng.gamma(alpha, size=M)
            L = rng.normal(size=(M, ntree, 2 * h)) / np.sqrt(ntree)
            F = np.take_along_axis(L, I[t], axis=2).sum(1)
            y = F + np.sqrt(s2)[:, None] * rng.normal(size=(M, n))
            out = chains(st, V[t], S[t], I[t], L, y, s2, seed, job['kind'], T)
            fin = classify(out, look, rec)
            if fin is None:
                continue
            rec.event('joint_chains', M)
            rec.event('trees_visited', len(np.unique(fin)))
            rec.event('chains_that_moved', int((fin != t).any(1).sum()))
            for i in np.unique(fin)[:2000]:
                if S[i].any():
                    rec.mark(name, rep, i)
            for k, v in functionals(fin, out, V, S, I, y, h).items():
                d = v - functionals_cache(t, L, s2, V, S, I, y, h)[k]
                rec.put(f'joint {name} {k}', d)
                rec.put(f'alljoint {k}', d / max(1e-9, v.std()))
            u = np.unique(t)
            if len(P) > 1:
                for nm, col in (('first', 0), ('last', -1)):
                    stat.multinomial(rec, f'{name}.{rep} tree prior, {nm} tree', np.bincount(fin[:, col], minlength=len(P)), P, key='tree-prior')
            from scipy import stats
            stat.uniform(rec, f'{name}.{rep} variance prior', stats.gamma.cdf(beta / out['sigma2'].astype(float), alpha), key='variance-prior')
            if rep == 0:
                rec.sample(model=m, trees_per_slot=len(P), chains=M, iterations=T)


def classify(out, look, rec):
    S, V = out['split_trees'], out['var_trees']
    M, ntree, h = S.shape
    Sf, Vf = S.reshape(-1, h).astype(int), V.reshape(-1, h).astype(int)
    u, inv = np.unique(np.concatenate([Sf, np.where(Sf != 0, Vf, 0)], axis=1), axis=0, return_inverse=True)
    ids = np.empty(len(u), int)
    for i, r in enumerate(u):
        s, v = r[:h], r[h:]
        j = look.get((v[s != 0].tobytes(), s.tobytes()))
        if j is None:
            rec.expect(False, 'impossible-tree', f'visited a tree of probability zero: {ref.render(v, s)}')
            return None
        ids[i] = j
    return ids[inv.reshape(-1)].reshape(M, ntree)


_cache = {}


def functionals_cache(t, L, s2, V, S, I, y, h):
    k = id(t)
    if _cache.get('k') != k:
        _cache.update(k=k, v=functionals(t, dict(leaf_trees=L, sigma2=s2), V, S, I, y, h), t=t)
    return _cache['v']


def functionals(t, out, V, S, I, y, h):
    """ statistics of parameters and data, with light tails """
    L, s2 = out['leaf_trees'].astype(float), out['sigma2'].astype(float)
    M, ntree = t.shape
    n = y.shape[1]
    size = (S != 0).sum(1)
    lv = np.array([sum(1 for i in range(1, h) if S[k, i] and i >= h // 2) for k in range(len(S))])
    sz = size[t]
    f = {}
    f['size'] = sz.sum(1).astype(float)
    f['size2'] = (sz ** 2).sum(1).astype(float)
    f['size first'] = sz[:, 0].astype(float)
    f['size last'] = sz[:, -1].astype(float)
    f['stumps'] = (sz == 0).sum(1).astype(float)
    f['deepest level'] = lv[t].sum(1).astype(float)
    f['root cut'] = S[t][:, :, 1].sum(1).astype(float) if h > 1 else np.zeros(M)
    f['root var'] = (V[t][:, :, 1] * (S[t][:, :, 1] > 0)).sum(1).astype(float) if h > 1 else np.zeros(M)
    f['log sigma2'] = np.log(s2)
    f['log sigma2 squared'] = np.log(s2) ** 2
    f['log sigma2 * size'] = np.log(s2) * (sz.sum(1) - size.mean())
    if n:
        Ft = np.take_along_axis(L, I[t], axis=2)
        F = Ft.sum(1)
        f['f'] = F.mean(1)
        f['f0 squared'] = F[:, 0] ** 2
        f['f last squared'] = F[:, -1] ** 2
        f['f0 f1'] = F[:, 0] * F[:, 1]
        f['spread'] = F.std(1)
        f['tanh y f'] = np.tanh(y * F).mean(1)
        f['sign resid'] = np.sign(y - F).mean(1)
        r2 = ((y - F) ** 2).sum(1)
        f['log resid2'] = np.log(r2 + 1e-12)
        f['log resid2 - log sigma2'] = np.log(r2 + 1e-12) * np.log(s2)
        f['f first tree squared'] = (Ft[:, 0] ** 2).mean(1)
        f['f last tree squared'] = (Ft[:, -1] ** 2).mean(1)
        f['cross tree'] = (Ft[:, 0] * Ft[:, -1]).mean(1)
        f['first leaf, size'] = Ft[:, 0, 0] * (sz[:, 0] - size.mean())
        f['size * y spread'] = sz.sum(1) * np.log(y.std(1) + 1e-9)
        f['nodes in common'] = (I[t][:, 0] == I[t][:, -1]).mean(1).astype(float)
    return f


def final(agg):
    for k in sorted(agg.data):
        if k.startswith(('joint ', 'alljoint ')):
            stat.meanzero(agg, k, agg.pooled(k), key='joint-distribution')

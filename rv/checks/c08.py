import numpy as np
from .. import workload, monitors, stat, gen
RULE = workload.RULE + (' Every leaf value of every tree after every iteration is standardised with its exact conditional mean and standard deviation; the draws are judged pooled and by group '
                        '(kept/grown/pruned leaf, depth, count, first/last tree, configuration) and for independence between siblings, trees, iterations, and from the noise variance draw.')
MIN = dict(leaf_draws=100000, empty_leaf_draws=500, grown_leaf_draws=3000, sharp_draws=3000, pruned_leaf_draws=1500)


def jobs(tier, rng):
    out = workload.jobs(tier, rng)
    for i in range(12 if tier == 'thorough' else 5):
        c = gen.configs(rng, 1, [])[0]
        c.update(sharp=[1e-4, 3e-5, 1e-3][i % 3], n=[60, 130, 250, 400][i % 4], d=[3, 4, 6, 5, 7][i % 5], ntree=[1, 2, 6, 12][i % 4], p=[2, 3, 5][i % 3], minp=[5, 1, None][i % 3], kmax=[255, 10, 60][i % 3])
        out.append(dict(kind='scan', cfg=c, reps=30 if tier == 'thorough' else 12, T=15, cost=c['cost'], sharp=True))
    return out


WINDOW = 1e-4


def coincidences(group, z):
    """ number of neighbours within WINDOW in each group, and expected number """
    o = np.lexsort((z, group))
    g, v = group[o], z[o]
    close = (g[1:] == g[:-1]) & (v[1:] - v[:-1] < WINDOW)
    _, n = np.unique(g, return_counts=True)
    return float(close.sum()), float((n * (n - 1.) / 2).sum() * WINDOW / np.sqrt(np.pi))


def run(job, rec):
    for hi, H in enumerate(workload.histories(job, rec)):
        L = monitors.leaf_draws(H)
        half = H['leaf_trees'].dtype == np.float16
        eps = np.finfo(H['resid'].dtype).eps
        eps_leaf = np.finfo(H['leaf_trees'].dtype).eps
        z = L['z']
        # rounding in units of the standard deviation
        noise = eps * L['amp'] * 30 + eps_leaf * (np.abs(L['shift']) + 3)
        ok = noise < .02
        noise_ok = (noise < WINDOW / 4)[ok]
        rec.event('leaf_draws_too_imprecise', int((~ok).sum()))
        for k in L:
            L[k] = L[k][ok]
        z = L['z']
        if not z.size:
            continue
        bad = ~(np.abs(z) < 8.2)
        i = int(bad.argmax())
        rec.event('leaf_draws', z.size)
        if job.get('sharp'):
            rec.event('sharp_draws', z.size)
            rec.event('sharp_draws_of_big_leaves', int((L['count'] > 30).sum()))
            rec.put('z sharp', z)
            rec.put('z sharp left', z[(L['node'] % 2 == 0)])
            rec.put('z sharp right', z[(L['node'] % 2 == 1)])
            rec.put('z sharp big', z[L['count'] > 30])
        rec.event('empty_leaf_draws', int((L['count'] == 0).sum()))
        rec.event('grown_leaf_draws', int((L['kind'] == 1).sum()))
        rec.event('pruned_leaf_draws', int((L['kind'] == 2).sum()))
        rec.expect(not bad.any(), 'impossible-draw', lambda: f'iteration {L["step"][i]}, tree {L["tree"][i]}, leaf {L["node"][i]} ({L["count"][i]} points): value is {z[i]:.4g} standard deviations from its conditional mean',
                   **monitors.rows_tag(H, L['step'][i], L['tree'][i]))
        if half:
            rec.put('z float16', z)
            continue
        rec.put('z all', z)
        for kk, nm in ((0, 'kept'), (1, 'grown'), (2, 'pruned')):
            rec.put(f'z {nm}', z[L['kind'] == kk])
        g = L['kind'] == 1
        rec.put('z grown left', z[g & (L['node'] % 2 == 0)])
        rec.put('z grown right', z[g & (L['node'] % 2 == 1)])
        dep = np.array([int(x).bit_length() for x in range(int(L['node'].max()) + 1)])[L['node']]
        for d in range(1, 10):
            rec.put(f'z depth {d - 1}', z[dep == d])
        for lo, hi_ in ((0, 0), (1, 1), (2, 4), (5, 5), (6, 20), (21, 255), (256, 10 ** 9)):
            rec.put(f'z count {lo}..', z[(L['count'] >= lo) & (L['count'] <= hi_)])
        nt = H['split_trees'].shape[1]
        rec.put('z first tree', z[L['tree'] == 0])
        rec.put('z last tree', z[L['tree'] == nt - 1])
        rec.put('z first iteration', z[L['step'] == 1])
        rec.put('z big shift', z[np.abs(L['shift']) > 3])
        rec.put(f'z route {job["kind"]}' + (' x64' if job.get('x64') else '') + (' full' if job.get('opt') == 'full' else ''), z)
        c = job.get('cfg')
        if c and job['_i'] < 23:
            rec.put(f'z cfg {job["_i"]}', z)
        # independence: siblings, next tree, next iteration, noise variance
        h2 = H['leaf_trees'].shape[-1]
        key = (L['step'].astype(np.int64) * nt + L['tree']) * h2 + L['node']
        pos = {k: i for i, k in enumerate(key[:60000])}
        a, b = [], []
        for k, i in pos.items():
            if L['node'][i] > 1 and L['node'][i] % 2 == 0 and k + 1 in pos:
                a.append(i), b.append(pos[k + 1])
        rec.put('sib a', z[a]), rec.put('sib b', z[b])
        if a:
            ga = g[a]
            rec.put('gsib a', z[a][ga]), rec.put('gsib b', z[b][ga])
        # leaf at the bottom and other leaf of the same tree half array away
        a = [(i, pos[k + h2 // 2]) for k, i in pos.items() if L['node'][i] < h2 // 2 and k + h2 // 2 in pos]
        rec.put('half a', z[[i for i, _ in a]]), rec.put('half b', z[[j for _, j in a]])
        # coincidences: number of pairs of draws within a tiny distance
        fine = np.flatnonzero(noise_ok[:60000])
        for nm, group in (('same tree', (L['step'].astype(np.int64) * nt + L['tree'])), ('same node', L['step'].astype(np.int64) * h2 + L['node']), ('same iteration', L['step'].astype(np.int64)), ('same leaf', L['tree'].astype(np.int64) * h2 + L['node'])):
            rec.put('coinc ' + nm, np.array([coincidences(group[fine], z[fine])]))
        first = {}
        for i in range(min(z.size, 60000)):
            first.setdefault((L['step'][i], L['tree'][i]), i)
        a, b, c_, d_, e_, f_ = [], [], [], [], [], []
        u, _, _ = monitors.sigma_pit(H)
        for (s, t), i in first.items():
            j = first.get((s, t + 1))
            if j is not None and t % 2 == 0:
                a.append(i), b.append(j)
            j = first.get((s + 1, t))
            if j is not None and s % 2 == 0:
                c_.append(i), d_.append(j)
            if t == 0:
                e_.append(i), f_.append(u[s - 1])
        rec.put('tree a', z[a]), rec.put('tree b', z[b])
        rec.put('iter a', z[c_]), rec.put('iter b', z[d_])
        rec.put('sig a', z[e_]), rec.put('sig b', np.array(f_))


def final(agg):
    from scipy import stats
    for k in sorted(agg.data):
        if k.startswith('coinc '):
            n, e = np.reshape(agg.pooled(k), (-1, 2)).sum(0)
            agg.event('coincidences_expected', int(e))
            stat.judge(agg, k[6:], float(stats.poisson.sf(n - 1, e)), 'repeated-draws', 'leaf values of the same group coincide more often than independent draws would', observed=int(n), expected=round(e, 1))
    for k in sorted(agg.data):
        if k.startswith('z '):
            stat.normal(agg, k, agg.pooled(k))
    for k, nm in (('sib', 'sibling leaves'), ('gsib', 'newly grown siblings'), ('tree', 'consecutive trees'), ('iter', 'consecutive iterations'), ('half', 'leaves half array away'), ('sig', 'leaf and noise variance')):
        stat.uncorrelated(agg, nm, agg.pooled(k + ' a'), agg.pooled(k + ' b'))

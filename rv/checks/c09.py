import numpy as np
from .. import workload, monitors, stat, gen
RULE = workload.RULE + (' Every noise variance after every iteration is transformed with the exact conditional distribution function given the residuals of that iteration.')
MIN = dict(variance_draws=8000, gbart_sigma_checked=50, draws_without_data=200, vague_prior_draws=1500, initial_variance_checked=50)


def jobs(tier, rng):
    out = workload.jobs(tier, rng)
    # long cheap runs: many draws at the same shape
    for c in (dict(n=0, p=1, ntree=1, d=2, minp=None), dict(n=1, p=1, ntree=1, d=2, minp=None), dict(n=2, p=1, ntree=1, d=2, minp=1), dict(n=33, p=1, ntree=2, d=3, minp=3), dict(n=513, p=1, ntree=1, d=2, minp=3)):
        cc = gen.configs(rng, 0, [c])[0]
        out.append(dict(kind='scan', cfg=cc, reps=6, T=400, cost=1.5))
    for c in (dict(n=0, alpha=.3), dict(n=1, alpha=.25)):
        cc = gen.configs(rng, 0, [dict(p=1, ntree=1, d=2, minp=None, **c)])[0]
        out.append(dict(kind='scan', cfg=cc, reps=4, T=400, cost=1.5))
    return out


def run(job, rec):
    for H in workload.histories(job, rec):
        u, a, b = monitors.sigma_pit(H)
        rec.event('variance_draws', u.size)
        n = H['X'].shape[1]
        if n == 0:
            rec.event('draws_without_data', u.size)
        bad = ~((u > 1e-15) & (u < 1 - 1e-15))
        k = int(bad.argmax())
        rec.expect(not bad.any(), 'impossible-draw', lambda: f'iteration {k + 1}: noise variance {H["sigma2"][k + 1]:.6g} is impossible under inverse gamma({a:.4g}, {b[k]:.6g})')
        rec.put('u all', u)
        rec.put('u route ' + job['kind'] + (' x64' if job.get('x64') else ''), u)
        rec.put(f'u n {"0" if n == 0 else "1-9" if n < 10 else "10-99" if n < 100 else "100+"}', u)
        if H['alpha'] < .4:
            rec.put('u vague', u)
            rec.event('vague_prior_draws', u.size)
        rec.put(f'u alpha {"small" if H["alpha"] <= 1 else "mid" if H["alpha"] < 10 else "large"}', u)
        # prior- and data-dominated scale
        pr = H['beta'] / b
        for nm, m in (('prior-dominated', pr > .8), ('mixed', (pr > .2) & (pr <= .8)), ('data-dominated', pr <= .2)):
            rec.put('u scale ' + nm, u[m])
        rec.put('a lag', u[:-1][::2]), rec.put('b lag', u[1:][::2])
        if n:
            x = np.log((H['resid'][1:].astype(float) ** 2).sum(1) + 1e-30)
            r = np.argsort(np.argsort(x)) / max(1, len(x) - 1)
            rec.put('a res', r), rec.put('b res', u)
        bt = H.get('gbart')
        if bt is not None:
            s0 = float(H['sigma2'][0])
            rec.expect(abs(s0 / (H['beta'] / H['alpha']) - 1) < 1e-5, 'initial-variance', f'initial noise variance {s0}, prior scale/shape {H["beta"] / H["alpha"]}')
            rec.event('initial_variance_checked')
            sc = float(bt.scale)
            want = sc * np.sqrt(H['sigma2'].astype(float))
            nb, ns, ke = job['nskip'], job['ndpost'], job['keepevery']
            fs, sg = np.asarray(bt.first_sigma), np.asarray(bt.sigma)
            ok = fs.shape == (nb,) and sg.shape == (ns,)
            if rec.expect(ok, 'sigma-shape', f'first_sigma {fs.shape}, sigma {sg.shape}, expected {nb}, {ns}'):
                rec.expect(np.allclose(fs, want[1:1 + nb], rtol=1e-5), 'first-sigma', 'first_sigma is not scale * sqrt(variance) of the burn-in iterations')
                rec.expect(np.allclose(sg, want[1 + nb:][ke - 1::ke], rtol=1e-5), 'sigma', 'sigma is not scale * sqrt(variance) of the saved iterations')
                rec.event('gbart_sigma_checked', nb + ns)
    # initial value for the states made directly
    if 'cfg' in job:
        from .. import drive
        rng = np.random.default_rng(job['seed'])
        for _ in range(4):
            ds = gen.dataset(job['cfg'], rng)
            st = drive.make_state(job['cfg'], ds)
            want = np.float64(ds['beta']) / ds['alpha']
            rec.event('initial_variance_checked')
            rec.expect(abs(float(st['sigma2']) / want - 1) < 1e-5, 'initial-variance', f'initial noise variance {float(st["sigma2"])}, prior scale/shape {want}')


def final(agg):
    for k in sorted(agg.data):
        if k.startswith('u '):
            stat.uniform(agg, k, agg.pooled(k))
    stat.uncorrelated(agg, 'consecutive draws', agg.pooled('a lag'), agg.pooled('b lag'))
    stat.uncorrelated(agg, 'draw and residual size', agg.pooled('a res'), agg.pooled('b res'))

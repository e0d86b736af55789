"""
The shared workload of the checks on MCMC histories: jobs that drive the real
sampler along every public route (compiled loop, jitted or eager single step,
run_mcmc with a callback, the regression interface) over boundary and random
configurations, from fresh and from fabricated mid-run states.
"""
import numpy as np
from . import gen

RULE = ('Workloads are drawn from VERIF_SEED: boundary configurations (index types at their limits, exhausted cutpoints, tiny data, '
        'depth 1 to 9, batch sizes) plus random ones, hostile predictors and responses, tree priors from shy to greedy, started from the initial state '
        'or from fabricated random forests, driven along five routes (compiled scan, jitted step, eager step, run_mcmc with callback, gbart). '
        'Distinct non-trivial cases: distinct (data set, tree structure with at least one decision node) pairs that the monitor evaluated.')

GB = [  # boundary configurations of the regression interface
    dict(n=60, p=3, kw=dict(ntree=12, numcut=255)),
    dict(n=45, p=2, kw=dict(ntree=5, numcut=4, usequants=True, maxdepth=4)),
    dict(n=80, p=5, kw=dict(ntree=20, numcut=10, maxdepth=7, initkw=dict(min_points_per_leaf=1, save_ratios=True))),
    dict(n=37, p=1, kw=dict(ntree=3, numcut=1, initkw=dict(min_points_per_leaf=None))),
    dict(n=50, p=4, kw=dict(ntree=7, numcut=256, usequants=True, k=1., initkw=dict(resid_batch_size=None, count_batch_size=3))),
    dict(n=8, p=2, kw=dict(ntree=4, numcut=5)),
    dict(n=120, p=2, kw=dict(ntree=30, numcut=20, maxdepth=2, usequants=True)),
    dict(n=70, p=3, constcol=True, kw=dict(ntree=9, numcut=6, usequants=True, initkw=dict(min_points_per_leaf=2))),
]


def jobs(tier, rng, core=True, nrandom=None, routes=True):
    big = tier == 'thorough'
    nrandom = (80 if big else 16) if nrandom is None else nrandom
    cfgs = gen.configs(rng, nrandom, None if core else [])
    out = []
    for i, c in enumerate(cfgs):
        j = dict(kind='scan', cfg=c, reps=12 if big else 4, T=int(rng.choice([40, 60, 90])) * (3 if big else 1), cost=c['cost'])
        if i % 9 == 8:
            j['opt'] = 'full'
        out.append(j)
    if routes:
        for i in range(10 if big else 4):
            c = cfgs[rng.integers(len(cfgs))]
            out.append(dict(kind='step', cfg=c, reps=3, T=25, cost=c['cost']))
        for i in range(8 if big else 3):
            c = cfgs[rng.integers(len(cfgs))]
            out.append(dict(kind='loop', cfg=c, reps=3, nb=int(rng.integers(0, 8)), ns=int(rng.integers(1, 9)), sk=int(rng.integers(1, 4)), cost=1.5 * c['cost']))
        out.append(dict(kind='eager', cfg=dict(gen.configs(rng, 1, [])[0], ntree=3, n=20), reps=1, T=6, cost=4))
        gb = list(GB) if big else [GB[i] for i in rng.permutation(len(GB))[:3]]
        for g in gb:
            out.append(dict(kind='gbart', g=g, reps=3 if not big else 8, nskip=int(rng.integers(0, 25)), ndpost=int(rng.integers(5, 25)), keepevery=int(rng.integers(1, 3)), cost=2.5))
        for i in range(4 if big else 1):
            c = dict(cfgs[rng.integers(len(cfgs))])
            c.pop('small', None)
            c.update([dict(large='float64'), dict(large='float64', small='float64'), dict(small='float16'), dict()][i % 4 if big else rng.integers(4)])
            out.append(dict(kind='scan', cfg=c, reps=3, T=40, x64=True, cost=c['cost']))
        out.append(dict(kind='scan', cfg=dict(gen.configs(rng, 1, [])[0], n=60, ntree=8, d=5, minp=3), reps=1, T=2500 if not big else 12000, cost=4, long=True))
    return out


def gb_data(g, rng):
    n, p = g['n'], g['p']
    X = rng.normal(size=(p, n))
    k = rng.integers(4)
    if k == 1:
        X = np.round(X * 2)
    elif k == 2:
        X[0] = rng.integers(0, 2, n)
    elif k == 3:
        X = np.exp(X)
    if g.get('constcol'):
        X[-1] = 3.
    y = 2 * X[0] - np.abs(X[-1]) + rng.normal(size=n) * rng.choice([.05, .5, 2])
    if rng.integers(2):
        y = y * 100 + 1000
    return X.astype(np.float32), y.astype(np.float32)


def histories(job, rec):
    """ run the workload of `job` and yield its recorded histories """
    from . import drive, monitors
    rng = np.random.default_rng(job['seed'])
    for rep in range(job['reps']):
        if job['kind'] == 'gbart':
            g = job['g']
            X, y = gb_data(g, rng)
            b, H = drive.spy_gbart()(X, y, ndpost=job['ndpost'], nskip=job['nskip'], keepevery=job['keepevery'], seed=int(rng.integers(2 ** 31)), **g['kw'])
            if H is None:
                rec.event('gbart_not_observable')
                continue
            H['gbart'] = b
        else:
            cfg = dict(job['cfg'])
            if rep and cfg['minp'] is not None:
                cfg['minp'] = [cfg['minp'], cfg['minp'], 1, 2, 5][rng.integers(5)] # traced, no recompilation
            ds = gen.dataset(cfg, rng, zero_cut=rng.random() < .2)
            if cfg.get('sharp'):
                # noise variance kept tiny by the prior: draws are nearly deterministic
                ds['alpha'] = 1e6
                ds['beta'] = ds['alpha'] * cfg['sharp']
                if rep % 4 < 2:
                    # noise on a level, such that all kinds of move are accepted
                    y = rng.choice([-1, 1]) * rng.uniform(1, 5) + np.sqrt(cfg['sharp']) * rng.normal(size=cfg['n'])
                    ds['y'] = y.astype(np.asarray(ds['y']).dtype)
            st = drive.make_state(cfg, ds)
            if rep % 2 and job['kind'] != 'loop' and cfg['d'] > 1:
                st = gen.fabricate(st, rng)
                rec.event('fabricated_starts')
            seed = int(rng.integers(2 ** 31))
            if job['kind'] == 'scan':
                H = drive.route_scan(st, seed, job['T'])
            elif job['kind'] == 'step':
                H = drive.route_step(st, seed, job['T'])
            elif job['kind'] == 'eager':
                H = drive.route_step(st, seed, job['T'], jit=False)
            elif job['kind'] == 'loop':
                final, burn, main, ev = drive.route_loop(st, seed, job['nb'], job['ns'], job['sk'])
                if len(ev) != job['nb'] + job['ns'] * job['sk']:
                    rec.event('loop_iterations_not_all_observed')
                if not ev:
                    continue
                H = drive.loop_history(st, ev, final)
            H['kinds'] = ds['kinds']
        rec.event('histories')
        rec.event('histories_' + job['kind'])
        monitors.mark_history(H, rec)
        if rep == 0:
            monitors.sample_history(H, rec, route=job['kind'])
        if job.get('long'):
            H = dict(H)
        yield H

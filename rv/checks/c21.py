import numpy as np
RULE = ('The regression interface is constructed on random data sets (few observations, more predictors than observations, redundant and constant predictors, integer and shifted responses) with all combinations of prior arguments and extra initialization options, '
        'while the initial state handed to the sampler is captured; an independent float64 computation gives the documented offset, scale, error estimate, noise scale and tree prior. Distinct non-trivial cases: distinct (data, arguments) constructions.')
MIN = dict(constructions=150, regressions=40, variance_rule=15, tiny_data=10, explicit_lamda=20, explicit_sigest=20, explicit_offset=20, overrides=30, rank_deficient=8, settings_checked=1500, default_fits=4)


def jobs(tier, rng):
    big = tier == 'thorough'
    return [dict(kind='prior', reps=60 if big else 20, cost=1) for _ in range(40 if big else 16)] + [dict(kind='prior', reps=12, x64=True, cost=1)] + [dict(kind='defaults', i=i, cost=3) for i in range(6 if big else 2)]


DEFAULTS = dict(x_test=None, usequants=False, sigest=None, sigdf=3, sigquant=.9, k=2, power=2, base=.95, maxdepth=6, lamda=None, offset=None, ntree=200, numcut=255, ndpost=1000, nskip=100, keepevery=1, printevery=100, seed=0, initkw={})


def defaults(job, rec):
    """ fits with the options left out against the same fits with the documented values spelled out """
    import contextlib
    import io
    import bartz
    import jax
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    p, n = int(rng.integers(1, 4)), int(rng.integers(280, 330))
    X = np.exp(rng.normal(size=(p, n))).astype(np.float32) # skewed: quantile and uniform grids differ
    y = (np.log(X[0]) + rng.normal(size=n)).astype(np.float32)
    for given in [dict(ntree=2), dict(ndpost=2, nskip=3)]:
        out = []
        for kw in [given, {**DEFAULTS, **given}]:
            text = io.StringIO()
            with drive.captured() as calls, contextlib.redirect_stdout(text):
                b = bartz.BART.gbart(X, y, **kw)
                b.sigma.block_until_ready()
                jax.effects_barrier()
            out.append((b, calls, text.getvalue()))
        (a, ca, ta), (b, cb, tb) = out
        rec.event('default_fits')
        rec.mark('defaults', X.tobytes(), repr(given))
        ndpost, nskip = given.get('ndpost', 1000), given.get('nskip', 100)
        rec.expect(a.sigma.shape == (ndpost,) and a.yhat_train.shape == (ndpost, n), 'default-lengths', f'{a.sigma.shape[0]} saved draws, documented {ndpost}')
        for nm in ['sigma', 'yhat_train', 'yhat_train_mean', 'offset', 'scale', 'lamda', 'sigest']:
            u, v = np.asarray(getattr(a, nm)), np.asarray(getattr(b, nm))
            rec.event('settings_checked')
            rec.expect(u.shape == v.shape and u.tobytes() == v.tobytes(), 'default-values', f'{nm} of a fit with {given} only differs from one that spells out the documented defaults')
        rec.expect(a.ntree == given.get('ntree', 200) and a.maxdepth == 6, 'default-reported', f'ntree={a.ntree} maxdepth={a.maxdepth} by default')
        if ca and cb:
            A, B = ca[0]['init'], cb[0]['init']
            for k in A:
                u, v = jax.tree_util.tree_leaves(A[k]), jax.tree_util.tree_leaves(B.get(k))
                rec.event('settings_checked')
                rec.expect(len(u) == len(v) and all(np.array_equal(np.asarray(x), np.asarray(z)) for x, z in zip(u, v)), 'default-values', f'initial state entry {k} of a fit with {given} only differs from one that spells out the documented defaults')
            lens = [jax.tree_util.tree_leaves(ca[0][w])[0].shape[0] for w in ('burn', 'main')]
            rec.expect(lens == [nskip, ndpost], 'default-lengths', f'{lens} burn-in and saved draws, documented {[nskip, ndpost]}')
        rec.expect(ta == tb, 'default-report', f'progress report of a default fit: {ta[:100]!r}, with spelled out defaults {tb[:100]!r}')


def run(job, rec):
    import jax
    from jax import numpy as jnp
    from scipy import stats
    from .. import drive
    if job['kind'] == 'defaults':
        return defaults(job, rec)
    rng = np.random.default_rng(job['seed'])
    x64 = bool(job.get('x64'))
    for rep in range(job['reps']):
        n = int(rng.choice([0, 1, 2, 3, 5, 8, 20, 50, 90]))
        p = int(rng.choice([1, 2, 3, 5, 8, 20]))
        X = rng.normal(size=(p, n))
        kind = int(rng.integers(5))
        if kind == 1 and p > 1:
            X[-1] = X[0]
        elif kind == 2:
            X[-1] = 2.
        elif kind == 3:
            X = np.round(X * 4)
        ft = np.float64 if x64 and rng.integers(2) else np.float32
        if kind == 4: # predictors in very different units
            X = X * 10. ** rng.uniform(-4, 4, (p, 1))
        X = X.astype(rng.choice(['int32', 'int8'])) if kind == 3 else X.astype(ft)
        y = rng.normal(size=n) * 10. ** rng.uniform(-2, 2)
        if n and rng.integers(2):
            y = y + 2 * np.std(y) * X[0] + (np.std(y) * 5 if rng.integers(2) else 0)
        if n > 1 and np.ptp(y) < 1e-3 * np.abs(y).max():
            y = rng.normal(size=n)
        if n > 1 and rng.integers(6) == 0:
            y = np.round(5 * y / y.std())
            if np.ptp(y) == 0:
                y[0] += 1
            yt = rng.choice(['int32', 'int8', 'uint8'])
            if yt != 'int32': # use the whole range of the type
                y = np.round((y - y.min()) / np.ptp(y) * 255) + np.iinfo(yt).min
            y = y.astype(yt)
        else:
            y = y.astype(ft)
        kw = {}
        ntree, md, nc = int(rng.choice([1, 3, 200])), int(rng.choice([1, 2, 4, 6, 10])), int(rng.choice([1, 10, 255]))
        kw.update(ntree=ntree, maxdepth=md, numcut=nc, usequants=bool(rng.integers(2)))
        sigdf, q, k, power, base = 3, .9, 2, 2, .95
        if rng.integers(2):
            sigdf = kw['sigdf'] = [1, 2, 5, 10, 3.5][rng.integers(5)]
        if rng.integers(2):
            q = kw['sigquant'] = float(rng.choice([.5, .75, .9, .99]))
        if rng.integers(2):
            k = kw['k'] = [1, 3, .5, 2.5][rng.integers(4)]
        if rng.integers(2):
            power = kw['power'] = [0, 1, .5, 3][rng.integers(4)]
        if rng.integers(2):
            base = kw['base'] = [.5, .99, .25][rng.integers(3)]
        if rng.integers(3) == 0:
            kw['sigest'] = float(np.exp(rng.normal()))
        if rng.integers(3) == 0:
            kw['lamda'] = float(np.exp(rng.normal()))
        if rng.integers(3) == 0:
            kw['offset'] = [0, float(rng.normal() * 10), 2.5, 7, -300][rng.integers(5)]
        ik = {}
        if rng.integers(2):
            pool = dict(min_points_per_leaf=[None, 0, 1, 10][rng.integers(4)], save_ratios=True, resid_batch_size=[None, 3, 100][rng.integers(3)], count_batch_size=[None, 4][rng.integers(2)],
                        small_float=jnp.dtype('float16'), num_trees=7, p_nonterminal=np.full(md - 1, .123), sigma2_alpha=4.25, sigma2_beta=.75)
            names = list(pool)
            for i in rng.permutation(len(names))[:int(rng.integers(1, 4))]:
                ik[names[i]] = pool[names[i]]
        if ik or rng.integers(2):
            kw['initkw'] = ik
        with drive.captured() as calls:
            b = drive.gbart(X, y, ndpost=0, nskip=0, **kw)
        if not calls:
            rec.event('not_observable')
            continue
        S = calls[0]['init']
        rec.event('constructions')
        rec.mark(X.tobytes(), y.tobytes(), repr(kw))
        Xd, yd = X.astype(float), y.astype(float)
        # documented values
        off = kw['offset'] if 'offset' in kw else (yd.mean() if n else 0.)
        scale = (yd.max() - yd.min()) / (2 * k) if n >= 2 else 1.
        rule = 'given'
        if 'lamda' in kw:
            lam, sg = kw['lamda'], None
            rec.event('explicit_lamda')
        else:
            if 'sigest' in kw:
                s2 = kw['sigest'] ** 2
                rec.event('explicit_sigest')
            elif n < 2:
                s2, rule = 1., 'few'
                rec.event('tiny_data')
            elif n <= p:
                s2, rule = yd.var(), 'variance'
                rec.event('variance_rule')
            else:
                C = Xd - Xd.mean(1, keepdims=True)
                C = C[np.ptp(Xd, axis=1) > 0] / np.ptp(Xd, axis=1)[np.ptp(Xd, axis=1) > 0, None]
                A = np.column_stack([np.ones(n), C.T])
                beta, _, rank, _ = np.linalg.lstsq(A, yd, rcond=1e-5)
                r = yd - A @ beta
                s2, rule = r @ r / (n - (rank - 1)), 'regression'
                rec.event('regressions')
                rec.event('rank_deficient', rank < p + 1)
            sg = np.sqrt(s2)
            lam = s2 * stats.chi2.ppf(1 - q, sigdf) / sigdf
        rec.event('explicit_offset', 'offset' in kw)
        rec.event('overrides', len(ik))
        pn = np.append(np.asarray(ik.get('p_nonterminal', base / (1. + np.arange(md - 1)) ** power), float), 0.)
        alpha = ik.get('sigma2_alpha', sigdf / 2)
        beta_ = ik.get('sigma2_beta', lam / scale ** 2 * sigdf / 2)
        nt = ik.get('num_trees', ntree)
        mp = ik.get('min_points_per_leaf', 5)
        loose = 3e-3 if rule == 'regression' else 1e-4
        tol_scale = np.finfo(np.float32).eps * 8 * (np.abs(yd).max(initial=0) + abs(off) + 1e-30)
        st = rule == 'regression' and s2 < 1e-6 * yd.var() # residuals all roundoff

        def close(got, want, what, rtol=1e-5, atol=0.):
            rec.event('settings_checked')
            g, w = np.asarray(got, float), np.asarray(want, float)
            ok = g.shape == w.shape and np.allclose(g, w, rtol=rtol, atol=atol)
            rec.expect(ok, what, f'{what}: {g.ravel()[:8].tolist()}, documented {w.ravel()[:8].tolist()} (n={n}, p={p}, rule {rule}, {kw})')
        if sg is not None and rule in ('regression', 'variance'):
            loose += 4 * tol_scale / max(sg, 1e-30) # roundoff of the centred response
        close(b.offset, off, 'offset', 1e-5, tol_scale)
        close(b.scale, scale, 'scale', 1e-5, tol_scale)
        rs = 2 * tol_scale / scale # relative error of the scale
        if sg is None:
            rec.expect(b.sigest is None, 'sigest', f'sigest is {b.sigest} with lamda given')
        elif not st:
            close(b.sigest, sg, 'sigest', loose, tol_scale if rule == 'regression' else 0)
        if not st:
            close(b.lamda, lam, 'lamda', 2 * loose, (tol_scale * sg * 4 if rule == 'regression' else 0))
        close(S['sigma2_alpha'], alpha, 'shape of the noise prior')
        if not st:
            close(S['sigma2_beta'], beta_, 'scale of the noise prior', 2 * loose + 4 * rs, 1e-30)
            close(S['sigma2'], beta_ / alpha, 'initial noise variance', 2 * loose + 4 * rs, 1e-30)
        close(S['p_nonterminal'], pn, 'depth prior', 1e-5)
        close(S['y'], (yd - off) / scale, 'standardized response', 2e-3 if 'small_float' in ik else 1e-5 + rs, (1e-3 if 'small_float' in ik else 0) + 4 * tol_scale / scale)
        rec.expect(S['leaf_trees'].shape == (nt, 2 ** md) and S['split_trees'].shape == (nt, 2 ** (md - 1)), 'forest-shape', f'forest of shape {S["leaf_trees"].shape}, expected {nt} trees of depth {md}')
        rec.expect((S['min_points_per_leaf'] is None and mp is None) or (S['min_points_per_leaf'] is not None and int(S['min_points_per_leaf']) == mp), 'min-points', f'minimum {S["min_points_per_leaf"]} points per leaf, expected {mp}')
        rec.expect(('ratios' in S) == bool(ik.get('save_ratios')), 'save-ratios', 'save_ratios option not honoured')
        if 'small_float' in ik:
            rec.expect(S['leaf_trees'].dtype == np.float16, 'small-float', 'float type option not honoured')
        rec.expect(b.ntree == ntree and b.maxdepth == md, 'reported', 'ntree or maxdepth not reported')
        rec.expect(not np.asarray(S['leaf_trees']).any() and not np.asarray(S['split_trees']).any(), 'initial-forest', 'the initial forest is not made of zero single leaves')
        close(S['resid'], np.asarray(S['y'], float), 'initial residuals')
        # reported harmonic mean of the noise prior, in response units
        if hasattr(b, '_sigma_harmonic_mean') and not ik and not st:
            close(b._sigma_harmonic_mean(prior=True), np.sqrt(lam), 'reported harmonic mean', 2 * loose + 4 * rs)
        if rep == 0:
            rec.sample(n=n, p=p, rule=rule, args=kw, lamda=float(b.lamda), documented=float(lam), scale=float(b.scale))

import contextlib, hashlib, io, re, sys, threading, time
import numpy as np
from .. import gen
RULE = ('Fits, chains and predictions are first executed alone and recorded; then the same ones run in several threads started together with a very short thread switch interval, or interleaved step by step, '
        'or after failed and interrupted runs, and all outputs are compared bitwise with the solitary ones; callbacks and logs of concurrent runs are checked event by event. '
        'Distinct non-trivial cases: distinct (kind, set of concurrent runs, round), and distinct interleavings of the callback events.')
MIN = dict(concurrent_runs=40, overlapping_pairs=20, callback_events=150, callback_switches=10, interleaved_steps=60, predictions_compared=20, after_failure=6, log_lines=20)
LINE = re.compile(r'Iteration\s+(\d+)/(\d+)\s+P_grow=')


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i in range(8 if big else 3):
        out.append(dict(kind='fits', i=i, rounds=6 if big else 2, nth=[4, 5, 3][i % 3], cost=4))
    for i in range(6 if big else 2):
        out.append(dict(kind='chains', i=i, rounds=6 if big else 3, nth=4, cost=3))
    for i in range(6 if big else 2):
        out.append(dict(kind='predict', rounds=8 if big else 4, nth=6, cost=2))
    for c in gen.configs(rng, 12 if big else 4, []):
        c.update(ntree=min(c['ntree'], 8), d=max(2, min(c['d'], 6)), n=max(c['n'], 7))
        out.append(dict(kind='interleave', cfg=c, T=8, cost=2))
    for i in range(4 if big else 2):
        out.append(dict(kind='failure', cost=3))
    return out


def digest(b):
    h = hashlib.sha256()
    for k in ('yhat_train', 'yhat_train_mean', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda', 'sigest', 'yhat_test', 'yhat_test_mean'):
        v = getattr(b, k, None)
        if v is not None:
            h.update(np.asarray(v).tobytes())
    return h.hexdigest()


def together(rec, funcs, timeout=300):
    """ run functions in threads that start together; returns outputs and time spans """
    bar = threading.Barrier(len(funcs))
    out, span, err = [None] * len(funcs), [None] * len(funcs), []

    def go(i):
        try:
            bar.wait()
            t = time.perf_counter()
            out[i] = funcs[i]()
            span[i] = t, time.perf_counter()
        except BaseException as e:
            err.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(len(funcs))]
        for t in th:
            t.start()
        end = time.time() + timeout
        for t in th:
            t.join(max(0, end - time.time()))
        if any(t.is_alive() for t in th):
            raise RuntimeError('threads did not finish')
    finally:
        sys.setswitchinterval(old)
    if err:
        raise err[0]
    rec.event('concurrent_runs', len(funcs))
    for i in range(len(funcs)):
        for j in range(i):
            a, b = span[i], span[j]
            rec.event('overlapping_pairs', int(a[0] < b[1] and b[0] < a[1]))
    return out


def run(job, rec):
    import jax
    from jax import numpy as jnp, random
    from bartz import mcmcstep, mcmcloop
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    kind = job['kind']
    if kind == 'fits':
        specs = []
        n, p = int(rng.integers(15, 60)), int(rng.integers(1, 5))
        base = dict(ntree=int(rng.integers(2, 9)), maxdepth=int(rng.integers(2, 6)))
        for i in range(job['nth']):
            # same and different shapes, data, seeds and printing
            m = n if i % 2 == 0 else n + 3 * i
            X = rng.normal(size=(p, m)).astype(np.float32)
            y = (X[0] * (1 + i) + rng.normal(size=m)).astype(np.float32) * 10. ** (i % 3) + 5 * i
            kw = dict(base, ndpost=5 + i, nskip=3 + i // 2, keepevery=1 + (i + job['i']) % 2, seed=[7, 7, 8][i % 3], usequants=bool(i % 2), printevery=[10 ** 9, 2, 3][(i + job['i']) % 3], numcut=[255, 10][i % 2])
            if i % 3 == 1:
                kw['x_test'] = rng.normal(size=(p, 4 + i)).astype(np.float32)
            if i % 3 == 2:
                kw['initkw'] = dict(min_points_per_leaf=1)
            specs.append((X, y, kw))

        def fit(s):
            X, y, kw = s
            b = drive.gbart(X, y, **kw)
            jax.block_until_ready(b.yhat_train)
            return digest(b)
        with contextlib.redirect_stdout(io.StringIO()):
            alone = [fit(s) for s in specs]
            jax.effects_barrier()
        for r in range(job['rounds']):
            if r == 1:
                jax.clear_caches() # compile concurrently too
            buf = io.StringIO()
            order = rng.permutation(len(specs))
            with contextlib.redirect_stdout(buf):
                got = together(rec, [lambda s=specs[i]: fit(s) for i in order])
                jax.effects_barrier()
            for i, g in zip(order, got):
                rec.expect(g == alone[i], 'fit-concurrent', f'a fit running together with {len(specs) - 1} others gives different numbers than alone ({specs[i][2]})')
            check_logs(rec, buf.getvalue(), [s[2] for s in specs])
            rec.mark('fits', job['i'], r, job['seed'])
        # nothing is left behind
        with contextlib.redirect_stdout(io.StringIO()):
            again = [fit(s) for s in specs]
            jax.effects_barrier()
        rec.expect(again == alone, 'fit-after', 'a fit repeated after concurrent ones differs')
        rec.sample(kind=kind, options=[str(s[2])[:200] for s in specs])
    elif kind == 'chains':
        cfg = gen.configs(rng, 1, [])[0]
        cfg.update(ntree=int(rng.integers(1, 6)), d=int(rng.integers(2, 5)), n=int(rng.integers(8, 60)), ratios=False)
        sts, lens, evs = [], [], []
        merged = []
        lock = threading.Lock()
        for i in range(job['nth']):
            ds = gen.dataset(cfg, rng)
            sts.append(drive.strong(drive.make_state(cfg, ds)))
            lens.append([(3, 2, 2), (3, 2, 2), (0, 6, 1), (5, 3, 3)][(i + job['i']) % 4])

        def callback(tag):
            def sink(**kw):
                with lock:
                    merged.append((tag, {k: np.asarray(v) for k, v in kw.items()}))

            def cb(*, bart, burnin, i_total, i_skip, n_burn, n_save, n_skip):
                jax.debug.callback(sink, i_total=jnp.asarray(i_total), sigma2=bart['sigma2'], leaf=bart['leaf_trees'], burnin=jnp.asarray(burnin))
            return cb
        cbs = [callback(i) for i in range(job['nth'])]
        keys = [random.key(int(rng.integers(2 ** 31))) for _ in sts]

        def chain(i):
            f, bt, mt = mcmcloop.run_mcmc(sts[i], *lens[i], cbs[i], keys[i])
            jax.block_until_ready((f, bt, mt))
            return {k: np.asarray(v) for k, v in f.items() if k in drive.FIELDS and v is not None}, {k: np.asarray(v) for k, v in {**bt, **{'m' + k: v for k, v in mt.items()}}.items() if not isinstance(v, dict)}

        def events(i):
            e = [x for t, x in merged if t == i]
            return sorted(e, key=lambda x: int(x['i_total']))
        alone = [chain(i) for i in range(job['nth'])]
        jax.effects_barrier()
        aev = [events(i) for i in range(job['nth'])]
        for r in range(job['rounds']):
            merged.clear()
            got = together(rec, [lambda i=i: chain(i) for i in range(job['nth'])])
            jax.effects_barrier()
            rec.event('callback_events', len(merged))
            tags = [t for t, _ in merged]
            rec.event('callback_switches', sum(a != b for a, b in zip(tags, tags[1:])))
            rec.mark('interleaving', tuple(tags))
            for i in range(job['nth']):
                for a, b, nm in zip(alone[i], got[i], ('final state', 'traces')):
                    for k in a:
                        rec.expect(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == 'f'), 'chain-concurrent', f'{nm} of a chain running together with others differs in {k}')
                e = events(i)
                nb, ns, sk = lens[i]
                rec.expect([int(x['i_total']) for x in e] == list(range(nb + ns * sk)), 'callback-concurrent', f'callback of chain {i} of {job["nth"]} running together saw iterations {[int(x["i_total"]) for x in e]}, expected each of 0..{nb + ns * sk - 1} once')
                for x, y in zip(e, aev[i]):
                    rec.expect(all(np.array_equal(x[k], y[k]) for k in y), 'callback-foreign', f'callback of chain {i} received other values when chains run together')
        rec.sample(kind=kind, cfg=cfg, lengths=lens, interleaving=str(tags[:20]))
    elif kind == 'predict':
        p, n = int(rng.integers(1, 4)), int(rng.integers(20, 60))
        fits = []
        for i in range(2):
            X = rng.normal(size=(p, n)).astype(np.float32)
            y = (X[0] * (i + 1) + rng.normal(size=n)).astype(np.float32)
            fits.append(drive.gbart(X, y, ntree=5, ndpost=6, nskip=3, maxdepth=4, seed=i))
        # fits made later leave the earlier ones as they are
        def another(i, **kw):
            X = rng2.normal(size=(p, n)).astype(np.float32)
            y = (100. ** i * (X[-1] + rng2.normal(size=n)) - 30 * i).astype(np.float32)
            return X, drive.gbart(X, y, **dict(dict(ntree=5, ndpost=6, nskip=3, maxdepth=4, seed=i, usequants=bool(i % 2)), **kw))
        s0 = int(rng.integers(2 ** 31))
        rng2 = np.random.default_rng(s0)
        XA, A = another(0)
        DA, PA = digest(A), np.asarray(A.predict(XA[:, :5]))
        rng2 = np.random.default_rng(s0)
        XA, A = another(0)
        for i, kw in enumerate([{}, dict(numcut=3), dict(k=5., sigdf=7.), dict(ntree=2, maxdepth=2), dict(ndpost=2), dict(x_test=XA)]):
            XB, B = another(i + 1, **kw)
            if i % 2:
                B.predict(XB[:, :3])
            if i == 2:
                rec.expect(digest(A) == DA, 'later-fits', f'outputs of a fit first looked at after other fits were made differ from when it is alone')
            rec.event('predictions_compared')
            rec.expect(np.array_equal(np.asarray(A.predict(XA[:, :5])), PA), 'later-predict', f'predictions of a fit change after another fit is made with {list(kw)}')
        rec.expect(digest(A) == DA, 'later-fits', 'outputs of a fit change after other fits are made')
        rec.mark('later', job['seed'])
        # outputs computed on first use, requested by several threads at once
        rng2 = np.random.default_rng(s0)
        XA, A = another(0)
        for g in together(rec, [lambda: (np.asarray(A.yhat_train), np.asarray(A.yhat_train_mean)) for _ in range(4)]):
            rec.expect(np.array_equal(g[0], np.asarray(A.yhat_train)) and np.array_equal(g[1], np.asarray(A.yhat_train_mean)), 'lazy-concurrent', 'training fit requested by several threads at once differs')
        rec.expect(digest(A) == DA, 'lazy-concurrent', 'training fit requested by several threads at once differs from the solitary one')
        req = [(fits[i % 2], rng.normal(size=(p, [5, 5, 9, 1, 5, 30][i % 6])).astype(np.float32)) for i in range(job['nth'])]
        alone = [np.asarray(b.predict(x)) for b, x in req]
        tr = [np.asarray(b.yhat_train) for b in fits]
        for r in range(job['rounds']):
            got = together(rec, [lambda b=b, x=x: [np.asarray(b.predict(x)) for _ in range(4)] for b, x in req])
            for a, g in zip(alone, got):
                for h in g:
                    rec.event('predictions_compared')
                    rec.expect(np.array_equal(a, h), 'predict-concurrent', 'a prediction made while others are made in other threads differs from the one made alone')
            rec.mark('predict', r, job['seed'])
        rec.expect(all(np.array_equal(a, np.asarray(b.yhat_train)) for a, b in zip(tr, fits)), 'predict-changes-fit', 'predicting changed the training fit')
        rec.sample(kind=kind, requests=[x.shape for _, x in req])
    elif kind == 'interleave':
        cfg = job['cfg']
        step = jax.jit(lambda s, k: mcmcstep.step(s, k))
        sts, keys = [], []
        for i in range(3):
            ds = gen.dataset(cfg, rng)
            sts.append(drive.strong(gen.fabricate(drive.make_state(cfg, ds), rng) if i else drive.make_state(cfg, ds)))
            keys.append(random.split(random.key(int(rng.integers(2 ** 31))), job['T']))
        get = lambda s: {k: np.asarray(v) for k, v in s.items() if k in drive.FIELDS and v is not None}

        def solo(i, T=job['T']):
            s, out = sts[i], []
            for t in range(T):
                s = drive.strong(step(s, keys[i][t]))
                out.append(get(s))
            return out
        alone = [solo(i) for i in range(3)]
        cur, pos = list(sts), [0] * 3
        order = list(rng.permutation(np.repeat(np.arange(3), job['T'])))
        for i in order:
            cur[i] = drive.strong(step(cur[i], keys[i][pos[i]]))
            g = get(cur[i])
            a = alone[i][pos[i]]
            pos[i] += 1
            rec.event('interleaved_steps')
            rec.expect(all(np.array_equal(a[k], g[k], equal_nan=a[k].dtype.kind == 'f') for k in a), 'interleaved', f'chain {i} differs at iteration {pos[i]} when its steps alternate with those of other chains')
        rec.mark('interleave', cfg, tuple(order))
        # eager steps alternated, against the same eager steps alone
        if cfg['ntree'] <= 8 and cfg['p'] <= 8:
            a = [get(mcmcstep.step(sts[i], keys[i][0])) for i in (0, 1, 0, 2, 1, 0)]
            for i, j in ((0, 2), (0, 5), (1, 4)):
                rec.event('interleaved_steps')
                rec.expect(all(np.array_equal(a[i][k], a[j][k], equal_nan=a[i][k].dtype.kind == 'f') for k in a[i]), 'interleaved-eager', 'the same eager step gives different results after stepping other chains')
    elif kind == 'failure':
        n, p = 25, 2
        X = rng.normal(size=(p, n)).astype(np.float32)
        y = (X[0] + rng.normal(size=n)).astype(np.float32)
        kw = dict(ntree=4, ndpost=5, nskip=3, maxdepth=3)
        if job['_i'] % 2:
            kw['seed'] = 3
        b0 = drive.gbart(X, y, **kw)
        D = digest(b0)
        P = np.asarray(b0.predict(X[:, :4]))

        import pandas as pd
        df = pd.DataFrame(X.T, columns=['u', 'v'])
        b1 = drive.gbart(df, pd.Series(y), **kw)
        D1 = digest(b1)
        P1 = np.asarray(b1.predict(df.iloc[:4]))

        class Boom(Exception):
            pass

        def bad_callback(**kwargs):
            raise Boom('planned')

        def bad_late(*, bart, i_total, **kwargs):
            def f(i):
                if int(i) == 2:
                    raise Boom('planned')
            jax.debug.callback(f, jnp.asarray(i_total))
        cfg = gen.configs(rng, 1, [])[0]
        cfg.update(ntree=3, d=3, n=20)
        st = drive.strong(drive.make_state(cfg, gen.dataset(cfg, rng)))
        key = random.key(5)
        good = lambda **k: None
        ref_ = mcmcloop.run_mcmc(st, 1, 3, 2, good, key)
        snap = [np.asarray(x) for x in jax.tree_util.tree_leaves((st, ref_))]
        faults = [
            ('mismatched lengths', lambda: drive.gbart(X, y[:-1], **kw)),
            ('wrong test predictors', lambda: b0.predict(X[:1])),
            ('table instead of matrix', lambda: b0.predict(df)),
            ('matrix instead of table', lambda: b1.predict(X)),
            ('permuted columns', lambda: b1.predict(df[['v', 'u']])),
            ('other columns', lambda: b1.predict(df.rename(columns=dict(u='w')))),
            ('bad option', lambda: drive.gbart(X, y, **dict(kw, initkw=dict(no_such_option=1)))),
            ('callback raising at compile time', lambda: mcmcloop.run_mcmc(st, 1, 3, 2, bad_callback, key)),
            ('callback raising at iteration 2', lambda: (jax.block_until_ready(mcmcloop.run_mcmc(st, 1, 3, 2, bad_late, key)), jax.effects_barrier())),
        ]
        for nm, f in faults:
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    f()
                raised = False
            except Exception:
                raised = True
            rec.event('faults_raised', int(raised))
            rec.event('after_failure')
            rec.mark('failure', nm)
            rec.expect(digest(b0) == D and np.array_equal(np.asarray(b0.predict(X[:, :4])), P), 'failure-corrupts', f'an existing fit changed after a failure ({nm})')
            rec.expect(digest(b1) == D1 and np.array_equal(np.asarray(b1.predict(df.iloc[:4])), P1), 'failure-corrupts', f'an existing fit on a table changed after a failure ({nm})')
            for o, x in ((b0, df), (b1, X), (b1, df[['v', 'u']])):
                try:
                    o.predict(x)
                    ok = False
                except Exception:
                    ok = True
                rec.expect(ok, 'failure-loosens', f'after a failure ({nm}) a fit accepts predictors of another format')
            rec.expect(digest(drive.gbart(X, y, **kw)) == D, 'failure-leaks', f'a fit differs after a failure ({nm})')
            r = mcmcloop.run_mcmc(st, 1, 3, 2, good, key)
            now = [np.asarray(x) for x in jax.tree_util.tree_leaves((st, r))]
            rec.expect(all(np.array_equal(a, b, equal_nan=a.dtype.kind == 'f') for a, b in zip(snap, now)), 'failure-chain', f'a chain differs after a failure ({nm})')
        rec.sample(kind=kind, faults=[x for x, _ in faults])


def check_logs(rec, text, kws):
    """ the log lines of all the fits together: each expected one exactly once """
    want = {}
    for kw in kws:
        tot = kw['nskip'] + kw['ndpost'] * kw['keepevery']
        for i in range(1, tot + 1):
            if i % kw['printevery'] == 0:
                want[i, tot] = want.get((i, tot), 0) + 1
    got = {}
    # lines of different threads may share a physical line
    for m in LINE.finditer(text):
        k = int(m.group(1)), int(m.group(2))
        got[k] = got.get(k, 0) + 1
    rec.event('log_lines', sum(got.values()))
    rec.expect(got == want, 'log-concurrent', f'progress lines of concurrent fits: {sorted(got.items())[:40]}, expected {sorted(want.items())[:40]}')

import contextlib, io, re
import numpy as np
from .. import gen
RULE = ('run_mcmc is run with a recording callback, alone or composed with the progress logger, and the interface with its own logger, over burn-in, saving, thinning and printing settings; '
        'the event log and the captured text are checked line by line. Distinct non-trivial cases: distinct (settings, dataset) runs.')
MIN = dict(callback_events=400, log_lines_checked=80, silent_iterations=150, gbart_logs=4, states_matched=100)
LINE = re.compile(r'Iteration\s+(\d+)/(\d+)\s+P_grow=(\S+)\s+P_prune=(\S+)\s+A_grow=(\S+)\s+A_prune=(\S+)(\s+\(burnin\))?\s*$')


def jobs(tier, rng):
    big = tier == 'thorough'
    S = [(0, 5, 1, 1), (4, 3, 2, 2), (7, 0, 1, 3), (0, 2, 5, 4), (3, 4, 3, 5), (10, 2, 1, 100), (1, 1, 1, 1), (5, 5, 1, 5), (6, 2, 4, 7), (0, 0, 1, 2), (2, 9, 1, 10), (95, 3, 2, 10)]
    S += [tuple(int(x) for x in (rng.integers(0, 12), rng.integers(0, 8), rng.integers(1, 5), rng.integers(1, 8))) for _ in range(40 if big else 6)]
    cfgs = gen.configs(rng, 8, [])
    out = []
    for i, s in enumerate(S):
        c = dict(cfgs[i % len(cfgs)])
        c.update(ntree=[1, 2, 5, 8][i % 4], d=max(2, min(c['d'], 5)))
        out.append(dict(kind='loop', cfg=c, s=s, reps=3, cost=2))
    for i in range(10 if big else 4):
        out.append(dict(kind='gbart', s=[(6, 4, 2, 3), (0, 7, 1, 2), (5, 0, 1, 1), (3, 3, 3, 4)][i % 4], reps=2, cost=3))
    return out


def num(s):
    return float(s)


def close(txt, val):
    x = num(txt)
    return (np.isnan(x) and np.isnan(val)) or abs(x - val) <= .00501


def check_log(rec, text, ev, nb, ns, sk, pe):
    tot = nb + ns * sk
    lines = [l for l in text.splitlines() if l.strip()]
    got = {}
    for l in lines:
        m = LINE.search(l)
        if not rec.expect(m is not None, 'log-format', f'unexpected log line {l!r}'):
            continue
        i = int(m.group(1))
        rec.expect(i not in got, 'log-repeated', f'iteration {i} logged twice')
        got[i] = m
    want = [i for i in range(1, tot + 1) if i % pe == 0]
    rec.expect(sorted(got) == want, 'log-iterations', f'burn-in {nb}, saved {ns}, thinning {sk}, printing every {pe}: logged {sorted(got)}, expected {want}')
    rec.expect([int(LINE.search(l).group(1)) for l in lines if LINE.search(l)] == sorted(got), 'log-order', 'log lines out of order')
    rec.event('silent_iterations', tot - len(want))
    by = {int(e['i_total']) + 1: e for e in ev}
    for i, m in got.items():
        rec.event('log_lines_checked')
        rec.expect(int(m.group(2)) == tot, 'log-total', f'total {m.group(2)}, expected {tot}')
        rec.expect((m.group(7) is not None) == (i <= nb), 'log-burnin', f'iteration {i} of burn-in {nb}: burn-in mark {m.group(7)!r}')
        if i not in by:
            continue
        s = by[i]['state']
        nt = len(s['leaf_trees'])
        with np.errstate(all='ignore'):
            v = [s['grow_prop_count'] / nt, s['prune_prop_count'] / nt, np.float64(s['grow_acc_count']) / s['grow_prop_count'], np.float64(s['prune_acc_count']) / s['prune_prop_count']]
        rec.expect(all(close(m.group(3 + j), float(v[j])) for j in range(4)), 'log-rates', f'iteration {i}: logged {m.groups()[2:6]}, the state has {[round(float(x), 4) for x in v]}')


def check_events(rec, ev, nb, ns, sk):
    tot = nb + ns * sk
    rec.event('callback_events', len(ev))
    it = [int(e['i_total']) for e in ev]
    rec.expect(it == list(range(tot)), 'callback-iterations', f'burn-in {nb}, saved {ns}, thinning {sk}: callback saw iterations {it[:30]}, expected each of 0..{tot - 1} once in order')
    for e in ev:
        i = int(e['i_total'])
        rec.expect(bool(e['burnin']) == (i < nb), 'callback-burnin', f'iteration {i}: burn-in flag {bool(e["burnin"])}, burn-in is {nb}')
        want = i if i < nb else (i - nb) % sk
        rec.expect(int(e['i_skip']) == want, 'callback-skip', f'iteration {i}: index since the last saved iteration {int(e["i_skip"])}, expected {want} (burn-in {nb}, thinning {sk})')
        rec.expect((int(e['n_burn']), int(e['n_save']), int(e['n_skip'])) == (nb, ns, sk), 'callback-lengths', f'callback given lengths {e["n_burn"], e["n_save"], e["n_skip"]}, expected {nb, ns, sk}')


def run(job, rec):
    import jax
    from bartz import mcmcloop
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    nb, ns, sk, pe = job['s']
    buf = io.StringIO()
    if job['kind'] == 'loop':
        log = mcmcloop.make_simple_print_callback(pe)

        def both(**kw):
            log(**kw)
            drive.stream_callback(**kw)
        for rep in range(job['reps']):
            ds = gen.dataset(job['cfg'], rng)
            st = drive.strong(drive.make_state(job['cfg'], ds))
            drive._EVENTS.clear()
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                final, burn, main = mcmcloop.run_mcmc(st, nb, ns, sk, both, jax.random.key(int(rng.integers(2 ** 31))))
                jax.block_until_ready((final, burn, main))
                ev = drive.collect()
            rec.mark(job['s'], rep, ds['y'].tobytes())
            check_events(rec, ev, nb, ns, sk)
            check_log(rec, buf.getvalue(), ev, nb, ns, sk, pe)
            # the state given to the callback is the one after the iteration
            by = {int(e['i_total']): e['state'] for e in ev}
            for j in range(ns):
                s = by.get(nb + (j + 1) * sk - 1)
                if s is not None:
                    rec.event('states_matched')
                    rec.expect(np.array_equal(s['leaf_trees'], np.asarray(main['leaf_trees'])[j]) and float(s['sigma2']) == float(main['sigma2'][j]), 'callback-state', f'the state given to the callback differs from saved sample {j}')
            for j in range(nb):
                s = by.get(j)
                if s is not None:
                    rec.event('states_matched')
                    rec.expect(float(s['sigma2']) == float(burn['sigma2'][j]) and int(s['grow_prop_count']) == int(burn['grow_prop_count'][j]), 'callback-state', f'the state given to the callback differs from burn-in iteration {j}')
        rec.sample(settings=job['s'], log=buf.getvalue()[:200])
    else:
        orig = mcmcloop.run_mcmc
        for rep in range(job['reps']):
            X = rng.normal(size=(2, 30)).astype(np.float32)
            y = (X[0] * 2 + rng.normal(size=30)).astype(np.float32)

            def spied(bart, n_burn, n_save, n_skip, callback, key):
                f = _compose.setdefault(callback, lambda **kw: (callback(**kw), drive.stream_callback(**kw)) and None)
                return orig(bart, n_burn, n_save, n_skip, f, key)
            drive._EVENTS.clear()
            buf = io.StringIO()
            mcmcloop.run_mcmc = spied
            try:
                with contextlib.redirect_stdout(buf):
                    b = drive.gbart(X, y, ntree=4, maxdepth=3, ndpost=ns, nskip=nb, keepevery=sk, printevery=pe, seed=rep)
                    jax.block_until_ready(b.sigma)
                    ev = drive.collect()
            finally:
                mcmcloop.run_mcmc = orig
            rec.event('gbart_logs')
            rec.mark('gbart', job['s'], rep)
            if ev:
                check_events(rec, ev, nb, ns, sk)
            check_log(rec, buf.getvalue(), ev, nb, ns, sk, pe)
        # without any observer
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            b = drive.gbart(X, y, ntree=4, maxdepth=3, ndpost=ns, nskip=nb, keepevery=sk, printevery=pe, seed=0)
            jax.block_until_ready(b.sigma)
            jax.effects_barrier()
        check_log(rec, buf.getvalue(), [], nb, ns, sk, pe)
        rec.event('gbart_logs')


_compose = {}

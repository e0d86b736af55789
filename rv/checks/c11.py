import hashlib, os, subprocess, sys
import numpy as np
from .. import gen, compare
RULE = ('The same chain (state, keys) is advanced by eager steps, jitted steps, a compiled loop and a vectorized ensemble, and the records compared; the interface is run repeatedly with equal and different '
        'seeds, keys, logging and test points, in this and in fresh processes, and all outputs compared bitwise. Distinct non-trivial cases: distinct (configuration, pair of routes or options).')
MIN = dict(chains_compared=50, bitwise_comparisons=20, seeds_compared=10, isolation_checks=6, fresh_processes=2)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i, c in enumerate(gen.configs(rng, 30 if big else 9, [])):
        c.update(ntree=min(c['ntree'], 8), d=max(2, min(c['d'], 6)), n=max(c['n'], 7))
        out.append(dict(kind='routes', cfg=c, reps=10 if big else 5, T=10, cost=2, opt='full' if i % 4 == 3 else 'o0'))
    for i, c in enumerate(gen.configs(rng, 6 if big else 2, [])):
        c.update(ntree=min(c['ntree'], 5), d=max(2, min(c['d'], 5)), n=max(c['n'], 7))
        out.append(dict(kind='eager', cfg=c, T=6 if big else 4, reps=4 if big else 2, cost=5))
    for i in range(8 if big else 4):
        out.append(dict(kind='repro', i=i, cost=3))
    out.append(dict(kind='process', cost=6))
    out.append(dict(kind='nojit', cost=7))
    return out


def digest(b):
    h = hashlib.sha256()
    for k in ('yhat_train', 'yhat_train_mean', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda', 'sigest'):
        h.update(np.asarray(getattr(b, k)).tobytes())
    return h.hexdigest()


PROC = '''
import sys, numpy as np
sys.path.insert(0, %r); sys.path.insert(0, %r)
from rv.checks import c11
print('DIGEST', c11.fixed_fit())
'''


def fixed_fit():
    from .. import drive
    rng = np.random.default_rng(12)
    X = rng.normal(size=(3, 40)).astype(np.float32)
    y = (X[0] + rng.normal(size=40)).astype(np.float32)
    return digest(drive.gbart(X, y, ntree=6, ndpost=8, nskip=4, maxdepth=4, seed=77))


def run(job, rec):
    import jax
    from jax import numpy as jnp, random, lax
    from bartz import mcmcstep, mcmcloop
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    k = job['kind']
    if k in ('routes', 'eager'):
        cfg = job['cfg']
        m1, m2, m3 = (compare.Majority(rec, f'route-{x}') for x in ('jitted-step', 'vectorized', 'eager'))
        states, Hs, seeds = [], [], []
        for rep in range(job['reps']):
            ds = gen.dataset(cfg, rng)
            st = drive.strong(drive.make_state(cfg, ds))
            if rep % 2:
                st = gen.fabricate(st, rng)
            seed = int(rng.integers(2 ** 31))
            A = drive.route_scan(st, seed, job['T'])
            if k == 'eager':
                m3.add(A, drive.route_step(st, seed, job['T'], jit=False), 'eager step against compiled loop')
                rec.mark('eager', rep, cfg)
            else:
                m1.add(A, drive.route_step(st, seed, job['T']), 'jitted step against compiled loop')
                rec.mark('jit', rep, cfg)
            A2 = drive.route_scan(st, seed, job['T'])
            same = all(np.array_equal(A[f], A2[f], equal_nan=True) for f in drive.FIELDS if f in A)
            rec.event('bitwise_comparisons')
            rec.expect(same, 'not-reproducible', 'the same compiled chain run twice differs')
            B = drive.route_scan(st, seed + 1, job['T'])
            rec.event('seeds_compared')
            rec.expect(not np.array_equal(A['sigma2'][1:], B['sigma2'][1:]), 'seed-ignored', 'different seeds give the same chain')
            # the keys of successive iterations matter
            states.append(st), Hs.append(A), seeds.append(seed)
        if k == 'routes':
            ens = vectorized(states, seeds, job['T'])
            for i, A in enumerate(Hs):
                m2.add(A, {f: np.concatenate([np.asarray(states[i][f])[None], ens[f][i]]) for f in ens}, 'vectorized chains against a single one')
                rec.mark('vmap', i, cfg)
            # isolation: disturb one chain, the others stay bitwise the same
            j = int(rng.integers(len(states)))
            other = dict(states[j])
            other['resid'] = other['resid'] * 0 + 1e3
            other['sigma2'] = other['sigma2'] * 50
            st2 = list(states)
            st2[j] = other
            ens2 = vectorized(st2, seeds, job['T'])
            for i in range(len(states)):
                if i != j:
                    rec.event('isolation_checks')
                    rec.expect(all(np.array_equal(ens[f][i], ens2[f][i], equal_nan=True) for f in ens), 'chains-interact', 'a vectorized chain depends on another one')
        for m in (m1, m2, m3):
            m.finish()
        rec.sample(kind=k, cfg=cfg, routes=m1.n + m2.n + m3.n)
    elif k == 'repro':
        n, p = 30, 2
        X = rng.normal(size=(p, n)).astype(np.float32)
        Xt = rng.normal(size=(p, 5)).astype(np.float32)
        y = (X[0] * 2 + rng.normal(size=n)).astype(np.float32)
        kw = dict(ntree=5, ndpost=7, nskip=4, maxdepth=4, keepevery=1 + job['i'] % 2, usequants=bool(job['i'] % 2))
        seed = [0, 1, 12345, 2 ** 31 - 1][job['i'] % 4]
        ref_ = drive.gbart(X, y, seed=seed, **kw)
        D = digest(ref_)
        alts = dict(repeat={}, key=dict(seed=jax.random.key(seed)), npint=dict(seed=np.int32(seed)), printing=dict(printevery=3), test=dict(x_test=Xt), copies=dict())
        if seed == 0:
            alts['default'] = dict(seed=None)
        import contextlib, io
        for nm, a in alts.items():
            a = dict(dict(seed=seed), **a)
            if nm == 'default':
                a.pop('seed')
            with contextlib.redirect_stdout(io.StringIO()):
                b = drive.gbart(X.copy() if nm == 'copies' else X, y, **kw, **a)
                jax.effects_barrier()
            exact = nm != 'printing' or True
            same = digest(b) == D
            rec.event('bitwise_comparisons')
            rec.mark('repro', job['i'], nm)
            if not same and nm == 'printing':
                # a different callback is a different program: allow rounding
                same = np.allclose(np.asarray(b.yhat_train), np.asarray(ref_.yhat_train), rtol=1e-3, atol=1e-3 * float(ref_.scale))
            rec.expect(same, 'fit-' + nm, f'the fit changes with {nm} (seed {seed})')
        seen = {D}
        for s in (seed + 1 if seed < 2 ** 31 - 1 else 5, seed ^ 2 ** 16, seed ^ 2 ** 30, jax.random.fold_in(jax.random.key(seed), 1)):
            b = drive.gbart(X, y, seed=s, **kw)
            d = digest(b)
            rec.event('seeds_compared')
            rec.expect(d not in seen, 'seed-ignored', f'seeds {seed} and {s} give the same fit')
            seen.add(d)
        rec.sample(kind=k, seed=seed, alternatives=list(alts))
    elif k == 'process':
        from .. import core
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        digs = [fixed_fit(), fixed_fit()]
        for hs in ('1', '2'):
            env['PYTHONHASHSEED'] = hs
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', PROC % (core.REPO_SRC, str(core.VERIF))], env=env, capture_output=True, text=True, timeout=400)
            o = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('DIGEST')]
            if r.returncode or not o:
                raise RuntimeError(r.stderr[-2000:])
            digs.append(o[0])
            rec.event('fresh_processes')
        rec.event('bitwise_comparisons', 3)
        rec.mark('process')
        rec.expect(len(set(digs)) == 1, 'process-dependent', f'the same fit in several processes: {digs}')
    elif k == 'nojit':
        # the compiled sampling loop against plain interpretation of it
        cfg = gen.configs(rng, 1, [])[0]
        cfg.update(ntree=3, n=15, d=3, p=2, minp=1)
        ds = gen.dataset(cfg, rng)
        st = drive.strong(drive.make_state(cfg, ds))
        key = jax.random.key(int(rng.integers(2 ** 31)))
        a = mcmcloop.run_mcmc(st, 1, 1, 2, drive_nothing, key)
        with jax.disable_jit():
            b = mcmcloop.run_mcmc(st, 1, 1, 2, drive_nothing, key)
        m = compare.Majority(rec, 'route-interpreted')
        conv = lambda t: {k: np.asarray(v) for k, v in t.items() if not isinstance(v, dict)}
        m.add(conv(a[2]), conv(b[2]), 'interpreted loop against compiled loop')
        if m.bad:
            # tolerate one rounding flip: try once more
            key = jax.random.key(int(rng.integers(2 ** 31)))
            a = mcmcloop.run_mcmc(st, 1, 1, 2, drive_nothing, key)
            with jax.disable_jit():
                b = mcmcloop.run_mcmc(st, 1, 1, 2, drive_nothing, key)
            m.add(conv(a[2]), conv(b[2]), 'interpreted loop against compiled loop')
        m.finish()
        rec.mark('nojit')


def drive_nothing(**kw):
    pass


def vectorized(states, seeds, T):
    import jax
    from jax import numpy as jnp, random, lax
    from bartz import mcmcstep
    from .. import drive
    opt = states[0]['opt']
    stk = {}
    for f in states[0]:
        v = [s[f] for s in states]
        if f == 'opt' or v[0] is None:
            stk[f] = v[0]
        else:
            stk[f] = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *v)
    keys = jnp.stack([random.split(random.key(s), T) for s in seeds])

    def one(s, keys):
        def body(s, k):
            s1 = mcmcstep.step(s, k)
            s1 = jax.tree_util.tree_map(lambda a, b: b.astype(a.dtype), s, s1)
            return s1, drive.pick(s1)
        return lax.scan(body, s, keys)[1]
    f = _vec.setdefault(T, jax.jit(jax.vmap(one)))
    return {k: np.asarray(v) for k, v in f(stk, keys).items()}


_vec = {}

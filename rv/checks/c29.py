import contextlib, io
import numpy as np
from .. import gen, workload
RULE = ('The key reuse sanitizer of JAX is switched on while the sampler advances eagerly, compiled, in a compiled loop, in run_mcmc and in the regression interface; moreover the sampler is interpreted without compilation '
        'while a monitor wraps the primitives that consume random keys and logs the raw bits of every key, so that keys can be compared across trees, iterations, phases and seeds. '
        'Distinct non-trivial cases: distinct (configuration, route) runs, and distinct keys in the logs.')
MIN = dict(sanitized_runs=40, keys_logged=2500, draws_logged=1000, seed_pairs_compared=4, reuse_seeded_detected=2)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    cfgs = gen.configs(rng, 40 if big else 4, None)
    for i, c in enumerate(cfgs):
        out.append(dict(kind='sanitize', cfg=c, cost=1 + c['ntree'] / 100))
    for i in range(8 if big else 2):
        out.append(dict(kind='sanitize-gbart', i=int(rng.integers(len(workload.GB))), cost=2))
    for i, c in enumerate(gen.configs(rng, 10 if big else 5, [])):
        c.update(ntree=[1, 2, 5, 3, 4][i % 5], d=[3, 4, 4, 5, 3][i % 5], n=max(4, min(c['n'], 30)), p=min(c['p'], 4), kmax=min(c['kmax'], 255), minp=[None, 1, 2][i % 3])
        out.append(dict(kind='log', cfg=c, s=[(1, 3, 1), (1, 2, 2), (2, 3, 1), (3, 1, 2), (1, 2, 3)][i % 5], cost=5))
    out.append(dict(kind='log-gbart', cost=5))
    if big:
        out.append(dict(kind='log-gbart', cost=5))
    return out


@contextlib.contextmanager
def sanitizer():
    import jax
    old = jax.config.jax_debug_key_reuse
    jax.config.update('jax_debug_key_reuse', True)
    try:
        yield
    finally:
        jax.config.update('jax_debug_key_reuse', old)


class KeyLog:
    """ logs every key consumed by a random primitive in interpreted code """
    OPS = ('random_bits', 'random_split', 'random_fold_in')

    def __init__(self):
        self.ev = []

    def __enter__(self):
        import jax
        from jax._src import prng
        self.saved = []
        for op in self.OPS:
            prim = getattr(prng, op + '_p')
            self.saved.append((prim, prim.impl))
            prim.impl = self.wrap(op, prim.impl)
        self.nojit = jax.disable_jit()
        self.nojit.__enter__()
        return self

    def wrap(self, op, impl):
        import jax

        def logged(keys, *a, **k):
            try:
                raw = np.asarray(jax._src.prng.random_unwrap_p.impl(keys)).reshape(-1, 2)
            except Exception:
                raw = None # a tracer: compiled code, not observable here
            if raw is not None:
                extra = (int(np.asarray(a[0]).ravel()[0]),) if op == 'random_fold_in' else ()
                # draws of size zero do not consume anything
                size = int(np.prod(k.get('shape', (1,)))) if op == 'random_bits' else 1
                if size:
                    for r in raw:
                        self.ev.append((op, (int(r[0]), int(r[1])) + extra))
            return impl(keys, *a, **k)
        return logged

    def __exit__(self, typ, val, tb):
        self.nojit.__exit__(typ, val, tb)
        for prim, impl in self.saved:
            prim.impl = impl
        # limitation of the interpretation of loops, not of the code
        return isinstance(val, ValueError) and 'zero-length scan' in str(val)

    def consumed(self):
        return {k for op, k in self.ev}


def judge_log(rec, log, where):
    rec.event('keys_logged', len(log.ev))
    rec.event('draws_logged', sum(op == 'random_bits' for op, _ in log.ev))
    if not log.ev:
        rec.event('keys_not_observable')
        return
    seen = {}
    dup = []
    for i, (op, k) in enumerate(log.ev):
        if k in seen:
            dup.append((log.ev[seen[k]][0], op, k, seen[k], i))
        seen.setdefault(k, i)
        if op != 'random_fold_in':
            rec.mark('key', k)
    rec.expect(not dup, 'key-used-twice', lambda: f'{where}: {len(dup)} uses of keys already used, first: key {dup[0][2]} used by {dup[0][0]} (event {dup[0][3]}) and again by {dup[0][1]} (event {dup[0][4]})')


def run(job, rec):
    import jax
    from jax import numpy as jnp, random
    from bartz import mcmcstep, mcmcloop
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    kind = job['kind']
    seed = int(rng.integers(2 ** 31))

    def guarded(name, f, *args):
        rec.event('sanitized_runs')
        try:
            with sanitizer():
                jax.block_until_ready(f(*args))
            msg = None
        except jax.errors.KeyReuseError as e:
            msg = str(e).splitlines()[0]
        rec.expect(msg is None, 'key-reuse', f'{name}: {msg}')

    if kind == 'sanitize':
        cfg = job['cfg']
        ds = gen.dataset(cfg, rng)
        st = drive.strong(drive.make_state(cfg, ds))
        if rng.integers(2) and cfg['d'] > 1:
            st = drive.strong(gen.fabricate(st, rng))
        # the monitor sees reuse at all
        try:
            with sanitizer():
                k = random.key(seed)
                random.split(k)
                random.normal(k)
        except jax.errors.KeyReuseError:
            rec.event('reuse_seeded_detected')
        guarded('compiled step', jax.jit(lambda s, k: mcmcstep.step(s, k)), st, random.key(seed))
        rec.mark('jit', cfg)
        guarded('compiled loop', mcmcloop.run_mcmc, st, 2, 2, 2, lambda **kw: None, random.key(seed))
        rec.mark('loop', cfg)
        if cfg['ntree'] < 50 and cfg['p'] < 100 and cfg['d'] < 7:
            guarded('eager step', mcmcstep.step, st, random.key(seed))
            rec.mark('eager', cfg)
        rec.sample(kind=kind, cfg=cfg)
    elif kind == 'sanitize-gbart':
        g = workload.GB[job['i']]
        X, y = workload.gb_data(g, rng)
        for s in (seed, 'key'):
            kw = dict(g['kw'], seed=random.key(seed) if s == 'key' else s, ndpost=3, nskip=2)
            guarded('regression interface', lambda: drive.gbart(X, y, **kw).yhat_train)
            rec.mark('gbart', job['i'], s == 'key')
        rec.sample(kind=kind, options=str(g['kw']))
    elif kind == 'log':
        cfg = job['cfg']
        nb, ns, sk = job['s']
        ds = gen.dataset(cfg, rng)
        st = drive.strong(drive.make_state(cfg, ds))
        if cfg['d'] > 1:
            st = drive.strong(gen.fabricate(st, rng))
        logs = []
        for s in (seed, seed + 1):
            key = random.key(s)
            with KeyLog() as log:
                mcmcloop.run_mcmc(st, nb, ns, sk, lambda **kw: None, key)
            judge_log(rec, log, f'run_mcmc, burn-in {nb}, saved {ns}, thinning {sk}, {cfg["ntree"]} trees')
            logs.append(log)
        compare(rec, logs, 'run_mcmc')
        with KeyLog() as log:
            s1 = st
            for k in random.split(random.key(seed), 2):
                s1 = mcmcstep.step(s1, k)
        judge_log(rec, log, f'two steps, {cfg["ntree"]} trees')
        rec.sample(kind=kind, cfg=cfg, settings=job['s'], keys=len(logs[0].ev), first=str(logs[0].ev[:3]))
    elif kind == 'log-gbart':
        X = rng.normal(size=(2, 14)).astype(np.float32)
        y = rng.normal(size=14).astype(np.float32)
        logs = []
        for s in (seed, seed + 1):
            with KeyLog() as log:
                drive.gbart(X, y, ntree=3, maxdepth=3, ndpost=2, nskip=2, seed=s, initkw=dict(min_points_per_leaf=1))
            judge_log(rec, log, 'regression interface')
            logs.append(log)
        compare(rec, logs, 'regression interface')
        rec.sample(kind=kind, keys=len(logs[0].ev))


def compare(rec, logs, where):
    a, b = (l.consumed() for l in logs)
    rec.event('seed_pairs_compared')
    common = a & b
    rec.expect(not common, 'key-shared-by-seeds', lambda: f'{where}: runs with different seeds use {len(common)} common keys out of {len(a)}, e.g. {sorted(common)[:2]}')

import contextlib, io, logging, pickle
import numpy as np
from .. import gen
RULE = ('Each public operation (fits of the regression interface, predictions, posterior summaries, initialisation and steps of the sampler, the sampling loop with a logging callback, trace evaluation, preparation of the predictors) is done once or twice to warm up, '
        'then repeated with other data values, seeds, prior settings and restored states but the same shapes, types and options, while a log monitor records each program compiled by XLA; runs with changed shapes are the control that the monitor is live. '
        'Distinct non-trivial cases: distinct (operation, configuration) repetitions.')
MIN = dict(repetitions=60, control_compilations=20, programs_seen=50)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = [dict(kind='fit', i=i, reps=4 if big else 2, cost=3) for i in range(12 if big else 4)]
    out += [dict(kind='sampler', cfg=c, reps=5 if big else 3, cost=2) for c in small(rng, 14 if big else 5)]
    out += [dict(kind='loop', cfg=c, reps=5 if big else 3, cost=2) for c in small(rng, 10 if big else 4)]
    out += [dict(kind='prep', reps=8 if big else 3, cost=1)]
    return out


def small(rng, k):
    out = gen.configs(rng, k, [])
    for c in out:
        c.update(ntree=min(c['ntree'], 8), d=max(2, min(c['d'], 5)), n=max(c['n'], 7), p=min(c['p'], 4), kmax=min(c['kmax'], 100))
    return out


class Compiled(logging.Handler):
    """ names of the programs compiled """

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.names = []

    def emit(self, record):
        m = record.getMessage()
        if m.startswith('Compiling '):
            self.names.append(m.split()[1])


@contextlib.contextmanager
def compiled():
    import jax
    h = Compiled()
    loggers = [logging.getLogger(n) for n in ('jax._src.interpreters.pxla', 'jax._src.dispatch')]
    saved = [(lo.level, lo.propagate) for lo in loggers]
    for lo in loggers:
        lo.addHandler(h)
        lo.setLevel(logging.DEBUG)
        lo.propagate = False
    try:
        yield h.names
    finally:
        for lo, (lev, prop) in zip(loggers, saved):
            lo.removeHandler(h)
            lo.setLevel(lev)
            lo.propagate = prop


def repeat(rec, what, key, func, n, control=None):
    """ func(i) is the i-th instance of the operation; the first two may compile """
    import jax
    seen = []
    for i in range(2 + n):
        with compiled() as names, contextlib.redirect_stdout(io.StringIO()):
            jax.block_until_ready(func(i))
            jax.effects_barrier()
        if i < 2:
            seen += names
            continue
        rec.event('repetitions')
        rec.mark(what, key, i)
        rec.expect(not names, 'recompiled', f'{what}, {key}: repetition {i + 1} with the same shapes and options compiles {len(names)} programs again: {names[:5]}')
    rec.event('programs_seen', len(seen))
    if control is not None:
        with compiled() as names, contextlib.redirect_stdout(io.StringIO()):
            jax.block_until_ready(control())
            jax.effects_barrier()
        rec.event('control_compilations', len(names))


def run(job, rec):
    rng = np.random.default_rng(job['seed'])
    dict(fit=fit, sampler=sampler, loop=loop, prep=prep)[job['kind']](job, rec, rng)


def fit(job, rec, rng):
    import bartz
    n, p = int(rng.integers(15, 60)), int(rng.integers(1, 5))
    kw = dict(ntree=int(rng.integers(2, 8)), maxdepth=int(rng.integers(2, 7)), numcut=int(rng.choice([5, 100, 255])), usequants=bool(job['i'] % 2),
              nskip=int(rng.integers(0, 6)), ndpost=int(rng.integers(1, 6)), keepevery=int(rng.integers(1, 3)), printevery=int(rng.integers(1, 5)))
    ik = [dict(), dict(min_points_per_leaf=2), dict(save_ratios=True, resid_batch_size=4), dict(min_points_per_leaf=None)][job['i'] % 4]
    pr = [dict(), dict(sigest=1.), dict(lamda=1., offset=0.), dict(k=2., sigdf=3., sigquant=.9, power=2., base=.95)][int(rng.integers(4))]
    fits = []

    def data(n, p):
        X = rng.normal(size=(p, n)).astype(np.float32)
        return X, (X[0] * 3 + rng.normal(size=n) + rng.normal()).astype(np.float32)

    def go(i, n=n, p=p):
        X, y = data(n, p)
        # other values of the same prior settings
        args = {k: min(.97, v * rng.uniform(.5, 1)) if k in ('sigquant', 'base') else v + rng.uniform(0, 2) for k, v in pr.items()}
        b = bartz.BART.gbart(X, y, x_test=data(6, p)[0], seed=int(rng.integers(2 ** 31)), initkw=dict(ik), **args, **kw)
        fits.append(b)
        return b.yhat_train, b.yhat_train_mean, b.sigma, b.first_sigma, b.yhat_test, b.yhat_test_mean
    key = repr((n, p, kw, ik, sorted(pr)))
    repeat(rec, 'fit of the regression interface', key, go, job['reps'], lambda: go(0, n + 1))
    fits.pop()
    repeat(rec, 'prediction', key, lambda i: fits[i % len(fits)].predict(data(9, p)[0]), job['reps'], lambda: fits[0].predict(data(10, p)[0]))
    rec.sample(key=key)


def sampler(job, rec, rng):
    import jax
    from jax import random
    from bartz import mcmcstep
    from .. import drive
    cfg = job['cfg']
    states = []

    def init(i):
        states.append(drive.strong(drive.make_state(cfg, gen.dataset(cfg, rng))))
        return states[-1]['resid']
    key = repr(cfg)
    repeat(rec, 'initialisation', key, init, job['reps'], lambda: drive.make_state(dict(cfg, n=cfg['n'] + 1), gen.dataset(dict(cfg, n=cfg['n'] + 1), rng))['resid'])
    step = jax.jit(mcmcstep.step)
    keys = list(random.split(random.key(int(rng.integers(2 ** 31))), 40))
    chain = {}

    def advance(i):
        # new chains, chains under way and chains saved and restored
        s = states[i % len(states)] if i % 3 == 0 or not chain else chain[0]
        if i % 3 == 2:
            s = pickle.loads(pickle.dumps(s))
        chain[0] = step(s, keys[i])
        return chain[0]['resid']
    repeat(rec, 'compiled step', key, advance, 2 * job['reps'], lambda: jax.jit(lambda s, k: mcmcstep.step(s, k)['sigma2'] + 1)(states[0], keys[0]))
    rec.sample(key=key)


def loop(job, rec, rng):
    import jax
    from jax import random
    from bartz import mcmcloop
    from .. import drive
    cfg = job['cfg']
    nb, ns, sk, pe = (int(x) for x in (rng.integers(0, 6), rng.integers(1, 5), rng.integers(1, 4), rng.integers(1, 6)))
    traces = []

    def go(i, ns=ns):
        st = drive.strong(drive.make_state(cfg, gen.dataset(cfg, rng)))
        f, b, m = mcmcloop.run_mcmc(st, nb, ns, sk, mcmcloop.make_simple_print_callback(pe), random.key(int(rng.integers(2 ** 31))))
        traces.append({k: m[k] for k in ('leaf_trees', 'var_trees', 'split_trees')})
        return f['resid']
    key = repr((cfg, nb, ns, sk, pe))
    repeat(rec, 'sampling loop', key, go, job['reps'], lambda: go(0, ns + 1))
    traces.pop()
    X = lambda n: gen.dataset(dict(cfg, n=n), rng)['X']
    repeat(rec, 'evaluation of a trace', key, lambda i: mcmcloop.evaluate_trace(traces[i % len(traces)], X(8)), job['reps'], lambda: mcmcloop.evaluate_trace(traces[0], X(9)))
    rec.sample(key=key)


def prep(job, rec, rng):
    from jax import numpy as jnp
    from bartz import prepcovars
    for f in ('quantilized_splits_from_matrix', 'uniform_splits_from_matrix'):
        F = getattr(prepcovars, f)
        X = lambda n=40: jnp.asarray(rng.normal(size=(3, n)), jnp.float32)
        repeat(rec, f, '', lambda i: F(X(), 12), job['reps'], lambda: F(X(41), 12))
        s, _ = F(X(), 12)
        repeat(rec, 'binning', f, lambda i: prepcovars.bin_predictors(X(), s), job['reps'], lambda: prepcovars.bin_predictors(X(42), s))

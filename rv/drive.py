""" Drivers: run the real MCMC code along its public routes and record histories. """
import functools
import numpy as np
import jax
from jax import numpy as jnp, random, lax
import bartz
from bartz import mcmcstep, mcmcloop

FIELDS = ('leaf_trees', 'var_trees', 'split_trees', 'resid', 'leaf_indices', 'affluence_trees', 'sigma2',
          'grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count')


def make_state(cfg, ds, **over):
    kw = dict(X=jnp.asarray(ds['X']), y=jnp.asarray(ds['y']), max_split=jnp.asarray(ds['max_split']),
              num_trees=cfg['ntree'], p_nonterminal=ds['p_nonterminal'], sigma2_alpha=ds['alpha'],
              sigma2_beta=ds['beta'], min_points_per_leaf=cfg['minp'], resid_batch_size=cfg.get('rb', 'auto'),
              count_batch_size=cfg.get('cb', 'auto'), save_ratios=cfg.get('ratios', False))
    if cfg.get('small'):
        kw['small_float'] = jnp.dtype(cfg['small'])
    if cfg.get('large'):
        kw['large_float'] = jnp.dtype(cfg['large'])
    kw.update(over)
    return mcmcstep.init(**kw)


def pick(state):
    return {k: state[k] for k in FIELDS if state.get(k) is not None}


def pick_all(state):
    out = pick(state)
    if 'ratios' in state:
        out['ratios'] = state['ratios']
    return out


@functools.partial(jax.jit, static_argnums=(2,))
def _scan(state, key, T):
    def body(s, k):
        s = mcmcstep.step(s, k)
        return s, pick_all(s)
    return lax.scan(body, state, random.split(key, T))


def is_key(x):
    return jnp.issubdtype(getattr(x, 'dtype', np.float32), jax.dtypes.prng_key)


def strong(tree):
    """ strip weak types, so that every call hits the same compiled function """
    return jax.tree_util.tree_map(lambda x: x if is_key(x) else jnp.asarray(np.asarray(x)), tree)


def history(state0, rows, final):
    """ stack the initial state on top of the recorded rows, as numpy """
    H = {}
    s0 = pick(state0)
    for k in s0:
        H[k] = np.concatenate([np.asarray(s0[k])[None], np.asarray(rows[k])])
    H['X'] = np.asarray(state0['X'])
    H['y'] = np.asarray(state0['y'])
    H['max_split'] = np.asarray(state0['max_split'])
    H['minp'] = None if state0['min_points_per_leaf'] is None else int(state0['min_points_per_leaf'])
    H['p_nonterminal'] = np.asarray(state0['p_nonterminal'])
    H['alpha'] = float(state0['sigma2_alpha'])
    H['beta'] = float(state0['sigma2_beta'])
    H['final'] = final
    H['init'] = state0
    if 'ratios' in rows:
        H['ratios'] = {k: np.asarray(v) for k, v in rows['ratios'].items()}
    return H


def route_scan(state, seed, T):
    """ step() inside a compiled loop """
    state = strong(state)
    final, rows = _scan(state, random.key(seed), T)
    return history(state, rows, final)


_step_jit = jax.jit(lambda s, k: mcmcstep.step(s, k))


def route_step(state, seed, T, jit=True):
    """ step() called from python, jitted alone or eager """
    keys = random.split(random.key(seed), T)
    s0 = s = strong(state)
    rows = []
    for k in keys:
        s = strong(_step_jit(s, k)) if jit else mcmcstep.step(s, k)
        rows.append(jax.tree_util.tree_map(np.asarray, pick_all(s)))
    rows = jax.tree_util.tree_map(lambda *a: np.stack(a), *rows)
    return history(s0, rows, s)


_EVENTS = []


def _sink(**kw):
    _EVENTS.append(kw)


def stream_callback(*, bart, burnin, i_total, i_skip, n_burn, n_save, n_skip):
    """ monitor hook: streams the state to the host at every iteration """
    jax.debug.callback(_sink, state=pick_all(bart), i_total=jnp.asarray(i_total), i_skip=jnp.asarray(i_skip),
                       burnin=jnp.asarray(burnin), ordered=True, n_burn=n_burn, n_save=n_save, n_skip=n_skip)


def collect():
    jax.effects_barrier()
    ev = [jax.tree_util.tree_map(np.asarray, e) for e in _EVENTS]
    _EVENTS.clear()
    return ev


def route_loop(state, seed, n_burn, n_save, n_skip):
    """ run_mcmc, streaming the whole state at every iteration """
    _EVENTS.clear()
    final, burn, main = mcmcloop.run_mcmc(state, n_burn, n_save, n_skip, stream_callback, random.key(seed))
    jax.block_until_ready((final, burn, main))
    return final, burn, main, collect()


def loop_history(state, ev, final):
    ev = sorted(ev, key=lambda e: int(e['i_total']))
    rows = jax.tree_util.tree_map(lambda *a: np.stack(a), *[e['state'] for e in ev])
    return history(state, rows, final)


def gbart(X, y, **kw):
    kw.setdefault('printevery', 10 ** 9)
    return bartz.BART.gbart(X, y, **kw)


class spy_gbart:
    """ observe the sampler state inside the regression interface, by wrapping
    the public run_mcmc with one that also streams the state """

    def __call__(self, X, y, **kw):
        orig = mcmcloop.run_mcmc
        seen = []

        def spied(bart, n_burn, n_save, n_skip, callback, key):
            seen.append(bart)
            return orig(bart, n_burn, n_save, n_skip, stream_callback, key)
        _EVENTS.clear()
        mcmcloop.run_mcmc = spied
        try:
            b = gbart(X, y, **kw)
            jax.block_until_ready(b.sigma)
        finally:
            mcmcloop.run_mcmc = orig
        ev = collect()
        if not seen or not ev:
            return b, None
        return b, loop_history(seen[0], ev, getattr(b, '_mcmc_state', None))


import contextlib


@contextlib.contextmanager
def captured():
    """ record what the interface passes to and gets from the public run_mcmc """
    orig = mcmcloop.run_mcmc
    calls = []

    def spied(bart, *a, **k):
        out = orig(bart, *a, **k)
        calls.append(dict(init=bart, args=a, kw=k, final=out[0], burn=out[1], main=out[2]))
        return out
    mcmcloop.run_mcmc = spied
    try:
        yield calls
    finally:
        mcmcloop.run_mcmc = orig


@contextlib.contextmanager
def small_batches(nbytes):
    """ inject a small memory limit in the automatic batching, such that small
    problems are split in many batches; yields the list of wrapped functions """
    from bartz import jaxext
    orig = jaxext.autobatch
    seen = []

    def patched(func, max_io_nbytes, *a, **k):
        seen.append(max_io_nbytes)
        return orig(func, min(max_io_nbytes, nbytes), *a, **k)
    jax.clear_caches()
    jaxext.autobatch = patched
    try:
        yield seen
    finally:
        jaxext.autobatch = orig
        jax.clear_caches()

import itertools
import numpy as np
from .. import gen
RULE = ('Every function that advances the sampler is called on fresh and fabricated states over combinations of float types, minimum points, saved ratios, depth and sizes: eagerly with a deep '
        'snapshot of the argument (identity of every entry of every nested container and bytes of every array) compared afterwards, and abstractly for the layout of the result. '
        'Distinct non-trivial cases: distinct (function, configuration) pairs.')
MIN = dict(eager_calls=60, layouts_checked=400, interface_inputs_checked=10, float_type_pairs=8)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i in range(16 if big else 5):
        out.append(dict(kind='eager', i=i, n=10 if big else 3, cost=4, x64=i % 3 == 2))
    for x64 in (False, True):
        for i in range(12 if big else 4):
            out.append(dict(kind='layout', n=20 if big else 10, x64=x64, cost=3))
    for i in range(6 if big else 4):
        out.append(dict(kind='interface', i=i, cost=3))
    return out


def snapshot(x, path=''):
    """ flat description: path -> (id, type, bytes) """
    out = {}
    if isinstance(x, dict):
        out[path] = ('dict', tuple(x.keys()), id(x))
        for k, v in x.items():
            out.update(snapshot(v, f'{path}/{k}'))
    elif isinstance(x, (list, tuple)):
        out[path] = (type(x).__name__, len(x), id(x))
        for i, v in enumerate(x):
            out.update(snapshot(v, f'{path}/{i}'))
    elif x is None or isinstance(x, (int, float, str, bool, type)):
        out[path] = repr(x)
    else:
        try:
            a = np.asarray(x)
            out[path] = (id(x), str(a.dtype), a.shape, a.tobytes())
        except Exception:
            out[path] = (id(x), repr(x)[:200])
    return out


def layout(x, path=''):
    out = {}
    if isinstance(x, dict):
        out[path] = type(x).__name__
        for k, v in x.items():
            out.update(layout(v, f'{path}/{k}'))
    elif hasattr(x, 'dtype') and hasattr(x, 'shape'):
        out[path] = (tuple(x.shape), str(x.dtype))
    else:
        out[path] = repr(x)
    return out


def diff(a, b):
    return '; '.join(f'{k}: {str(a.get(k))[:80]} -> {str(b.get(k))[:80]}' for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k))[:500]


def cfg_of(rng, x64):
    c = gen.configs(rng, 1, [])[0]
    c.update(n=int(rng.choice([0, 1, 7, 20])), ntree=int(rng.choice([1, 3, 6])), d=int(rng.choice([1, 2, 3, 5])), p=int(rng.choice([1, 3, 257])), ratios=bool(rng.integers(2)))
    pairs = [('float32', 'float32'), ('float16', 'float32'), ('bfloat16', 'float32'), ('float16', 'float16')]
    if x64:
        pairs = [('float32', 'float32'), ('float32', 'float64'), ('float64', 'float64'), ('float16', 'float64'), ('float16', 'float32')]
    c['small'], c['large'] = pairs[rng.integers(len(pairs))]
    return c


def run(job, rec):
    import jax
    from jax import numpy as jnp
    from bartz import mcmcstep, mcmcloop
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    key = jax.random.key(int(rng.integers(2 ** 31)))
    if job['kind'] in ('eager', 'layout'):
        for i in range(job['n']):
            cfg = cfg_of(rng, job.get('x64'))
            if job['kind'] == 'eager':
                cfg['ratios'] = i % 2 == 0
                cfg['d'] = max(2, cfg['d'])
            ds = gen.dataset(cfg, rng)
            st = drive.make_state(cfg, ds)
            if rng.integers(2) and cfg['d'] > 1 and cfg['small'] != 'bfloat16':
                st = gen.fabricate(st, rng)
            tag = (cfg['small'], cfg['large'], cfg['minp'] is None, cfg['ratios'], cfg['d'], cfg['n'], cfg['p'], bool(job.get('x64')))
            if job['kind'] == 'layout':
                rec.events['float_type_pairs'] += 1
                want = layout(st)
                for name, f in functions(mcmcstep, mcmcloop).items():
                    try:
                        out = jax.eval_shape(f, st, key)
                    except Exception as e:
                        rec.expect(False, 'layout-raised', f'{name} on {tag}: {type(e).__name__} {str(e)[:300]}')
                        continue
                    got = layout(out)
                    rec.event('layouts_checked')
                    rec.mark(name, tag)
                    rec.expect(got == want, 'layout', lambda: f'{name} on {tag} changes the layout of the state: {diff(want, got)}', cfg=cfg)
                continue
            for name, f in functions(mcmcstep, mcmcloop, eager=True).items():
                if name == 'run_mcmc' and i:
                    continue
                before = snapshot(st)
                lay = layout(st)
                try:
                    out = f(st, key)
                except ModifiedMoves as e:
                    rec.expect(False, 'moves-modified', f'{name} modified the moves it was given: {e}', cfg=cfg)
                    continue
                after = snapshot(st)
                rec.event('eager_calls')
                rec.mark('eager', name, tag)
                rec.expect(before == after, 'input-modified', lambda: f'{name} modified its input: {diff(before, after)}', cfg=cfg)
                if isinstance(out, dict) and 'leaf_trees' in out:
                    rec.expect(layout(out) == lay, 'layout', lambda: f'{name} changes the layout: {diff(lay, layout(out))}', cfg=cfg)
                    rec.expect(out is not st, 'same-object', f'{name} returns the input dictionary itself')
                    if name == 'step':
                        again = f(st, key)
                        a, b = drive.pick_all(out), drive.pick_all(again)
                        eq = all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(jax.tree_util.tree_leaves(a), jax.tree_util.tree_leaves(b)))
                        rec.expect(eq, 'replay', 'stepping twice from a kept state gives different results')
                        rec.event('replays')
            if i == 0:
                rec.sample(config=tag, functions=list(functions(mcmcstep, mcmcloop, True)))
        return
    interface(job, rec, rng)


def functions(mcmcstep, mcmcloop, eager=False):
    def accept(s, k):
        import jax
        a, b = jax.random.split(k)
        mv = mcmcstep.sample_moves(s, a)
        if eager:
            snap = snapshot(mv)
            out = mcmcstep.accept_moves_and_sample_leaves(s, mv, b)
            if snapshot(mv) != snap:
                raise_modified(diff(snap, snapshot(mv)))
            return out
        return mcmcstep.accept_moves_and_sample_leaves(s, mv, b)

    def loop(s, k):
        return mcmcloop.run_mcmc(s, 1, 1, 1, _nothing, k)[0]
    out = dict(step=mcmcstep.step, sample_trees=mcmcstep.sample_trees, sample_sigma=mcmcstep.sample_sigma)
    if hasattr(mcmcstep, 'sample_moves') and hasattr(mcmcstep, 'accept_moves_and_sample_leaves'):
        out['accept_moves_and_sample_leaves'] = accept
    if not eager:
        out['run_mcmc'] = loop
    if eager and hasattr(mcmcstep, 'sample_moves'):
        out['sample_moves'] = mcmcstep.sample_moves
    return out


def raise_modified(d):
    raise ModifiedMoves(d)


class ModifiedMoves(Exception):
    pass


def _nothing(**kw):
    pass


def interface(job, rec, rng):
    """ the regression interface leaves its inputs alone """
    import jax, pandas as pd, polars as pl
    from jax import numpy as jnp
    from bartz import BART
    from .. import drive
    n, p, m = 25, 2, 7
    X = rng.normal(size=(p, n)).astype(np.float32)
    Xt = rng.normal(size=(p, m)).astype(np.float32)
    y = (X[0] * 3 + rng.normal(size=n)).astype(np.float32)
    mk = [lambda a: a.copy(), lambda a: np.asfortranarray(a), lambda a: pd.DataFrame(a.T.copy(), columns=['a', 'b']), lambda a: pl.DataFrame({'a': a[0], 'b': a[1]})][job['i'] % 4]
    my = [lambda a: a.copy(), lambda a: a.copy(), lambda a: pd.Series(a.copy(), name='q'), lambda a: pl.Series('q', a)][job['i'] % 4]
    Xi, Xti, yi = mk(X), mk(Xt), my(y)
    ik = dict(min_points_per_leaf=2, save_ratios=True)

    def content(o):
        if hasattr(o, 'columns'):
            return (list(o.columns), np.asarray(o.to_numpy()).tobytes(), [str(t) for t in o.dtypes])
        return (np.asarray(o).tobytes(), str(np.asarray(o).dtype), np.asarray(o).shape, getattr(o, 'name', None))
    before = [content(Xi), content(yi), content(Xti), dict(ik)]
    with drive_spy() as seen:
        for rep in range(2):
            b = drive.gbart(Xi, yi, x_test=Xti, ntree=4, ndpost=6, nskip=3, maxdepth=4, usequants=bool(rep), initkw=ik, seed=rep)
            b.yhat_train_mean
            pr = np.asarray(b.predict(Xti))
            pr2 = np.asarray(b.predict(Xti))
            rec.expect(np.array_equal(pr, pr2) and np.array_equal(pr, np.asarray(b.yhat_test)), 'predict-state', 'predicting twice gives different results')
            after = [content(Xi), content(yi), content(Xti), dict(ik)]
            for nm, a, c in zip(('x_train', 'y_train', 'x_test', 'initkw'), before, after):
                rec.event('interface_inputs_checked')
                rec.mark('interface', job['i'], nm, rep)
                rec.expect(a == c, 'interface-input-modified', f'{nm} was modified: {str(a)[:100]} -> {str(c)[:100]}')
        seen.clear()
        drive.gbart(Xi, yi, ntree=4, ndpost=0, nskip=0, maxdepth=4)
        if seen:
            rec.expect(int(seen[0]['min_points_per_leaf']) == 5 and 'ratios' not in seen[0], 'initkw-leak', 'extra initialization options of a fit leak into the next one')
            rec.event('default_options_checked')


import contextlib


@contextlib.contextmanager
def drive_spy():
    """ see the initial state that the interface gives to the sampler """
    from bartz import mcmcloop
    orig = mcmcloop.run_mcmc
    seen = []

    def spied(bart, *a, **k):
        seen.append(bart)
        return orig(bart, *a, **k)
    mcmcloop.run_mcmc = spied
    try:
        yield seen
    finally:
        mcmcloop.run_mcmc = orig

import contextlib, copy, io, os, pickle, shutil, subprocess, sys, tempfile
import numpy as np
from .. import gen
RULE = ('A chain is advanced with known keys, and interrupted at chosen iterations: its state is written to disk (arrays, pickle) and read back in the same or in a fresh process, or copied, and the chain continued; '
        'results are compared bitwise with the uninterrupted chain at every iteration after the interruption. Runs of the compiled loop are continued from final states and from states received by the callback. '
        'Distinct non-trivial cases: distinct (configuration, interruption point, way of saving).')
MIN = dict(interruptions=40, iterations_after_restore=150, fresh_processes=1, loop_continuations=8, callback_checkpoints=10, traces_restored=4, branches=8)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i, c in enumerate(gen.configs(rng, 30 if big else 10, [c for c in gen.CORE if c['n'] <= 100 and c['p'] < 20 and c['d'] > 1][::1 if big else 3])):
        c['ntree'] = min(c['ntree'], 20)
        out.append(dict(kind='steps', cfg=c, T=12 if big else 7, cost=1.5))
    for i, c in enumerate(gen.configs(rng, 10 if big else 4, [])):
        c.update(ntree=min(c['ntree'], 8), d=max(2, min(c['d'], 6)), n=max(c['n'], 7))
        out.append(dict(kind='loop', cfg=c, cost=3))
    for i in range(3 if big else 1):
        c = gen.configs(rng, 1, [])[0]
        c.update(ntree=5, d=4, n=max(c['n'], 11))
        out.append(dict(kind='process', cfg=c, cost=5))
    return out


def save_npz(state, path):
    """ write the arrays of a state; what is not an array is returned """
    import jax
    leaves, tree = jax.tree_util.tree_flatten(state)
    np.savez(path, *[np.asarray(x) for x in leaves])
    return tree


def load_npz(path, tree):
    import jax
    from jax import numpy as jnp
    with np.load(path) as f:
        return jax.tree_util.tree_unflatten(tree, [jnp.asarray(f[f'arr_{i}']) for i in range(len(f.files))])


def save_pickle(state, path):
    with open(path, 'wb') as f:
        pickle.dump(state, f)


def load_pickle(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


def arrays(state):
    import jax
    return [(jax.tree_util.keystr(k), np.asarray(v)) for k, v in jax.tree_util.tree_flatten_with_path(state)[0]]


def differs(a, b):
    a, b = arrays(a), arrays(b)
    if [k for k, _ in a] != [k for k, _ in b]:
        return 'entries'
    for (k, x), (_, y) in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
            return k
    return None


CHILD = '''
import sys
sys.path.insert(0, %r); sys.path.insert(0, %r)
import jax, pickle
from bartz import mcmcstep
from rv import drive
from rv.checks import c31
s, seed, t0, T = c31.load_pickle(%r)
keys = jax.random.split(jax.random.key(seed), T)
f = jax.jit(lambda s, k: mcmcstep.step(s, k))
out = []
for t in range(t0, T):
    s = drive.strong(f(s, keys[t]))
    out.append(s)
c31.save_pickle(out, %r)
print('DONE')
'''


def run(job, rec):
    d = tempfile.mkdtemp(prefix='rvc31')
    try:
        return run_(job, rec, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_(job, rec, scratch):
    import jax
    from jax import numpy as jnp, random
    from bartz import mcmcstep, mcmcloop
    from .. import core, drive
    rng = np.random.default_rng(job['seed'])
    kind, cfg = job['kind'], job['cfg']
    ds = gen.dataset(cfg, rng)
    st = drive.strong(drive.make_state(cfg, ds))
    if rng.integers(2):
        st = drive.strong(gen.fabricate(st, rng))
    seed = int(rng.integers(2 ** 31))
    if kind in ('steps', 'process'):
        T = job.get('T', 8)
        keys = random.split(random.key(seed), T)
        step = jax.jit(lambda s, k: mcmcstep.step(s, k))
        full = [st]
        for t in range(T):
            full.append(drive.strong(step(full[-1], keys[t])))
    if kind == 'steps':
        f = os.path.join(scratch, 'state')
        for t0 in range(T):
            how = ['arrays', 'pickle', 'deep copy', 'numpy copy'][(t0 + job['_i']) % 4]
            s = full[t0]
            before = arrays(s)
            if how == 'arrays':
                s = load_npz(f + '.npz', save_npz(s, f + '.npz'))
            elif how == 'pickle':
                save_pickle(s, f)
                s = load_pickle(f)
            elif how == 'deep copy':
                s = copy.deepcopy(s)
            else:
                s = drive.strong(jax.tree_util.tree_map(lambda x: np.array(x), s))
            if rng.integers(2):
                # in between, another chain with the same configuration is run
                o = full[int(rng.integers(T))]
                for k in random.split(random.key(seed ^ 1), 2):
                    o = step(o, k)
            rec.event('interruptions')
            rec.mark(kind, cfg, t0, how)
            for t in range(t0, T):
                s = drive.strong(step(s, keys[t]))
                rec.event('iterations_after_restore')
                k = differs(s, full[t + 1])
                if not rec.expect(k is None, 'restored-chain', lambda: f'chain interrupted before iteration {t0 + 1} and continued from {how}: {k} differs after iteration {t + 1}'):
                    break
            # the checkpoint can be used again, also with another continuation
            b = drive.strong(step(full[t0], random.fold_in(keys[t0], 1)))
            a = drive.strong(step(full[t0], keys[t0]))
            rec.event('branches')
            k = differs(a, full[t0 + 1])
            rec.expect(k is None, 'branch', lambda: f'a state used for another continuation does not give the same next state again: {k}')
            rec.expect([n for n, _ in before] == [n for n, _ in arrays(full[t0])] and all(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f') for (_, x), (_, y) in zip(before, arrays(full[t0]))), 'checkpoint-modified', 'a saved state changed while the chain went on')
        # one eager step from a restored state
        if cfg['ntree'] <= 8 and cfg['p'] <= 8 and cfg['d'] <= 6:
            save_pickle(full[1], f)
            a, b = mcmcstep.step(full[1], keys[1]), mcmcstep.step(load_pickle(f), keys[1])
            rec.event('iterations_after_restore')
            rec.expect(differs(a, b) is None, 'restored-eager', lambda: f'eager step from a restored state: {differs(a, b)} differs')
        rec.sample(kind=kind, cfg=cfg, iterations=T)
    elif kind == 'process':
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        t0 = int(rng.integers(1, T - 2))
        i, o = os.path.join(scratch, 'in'), os.path.join(scratch, 'out')
        save_pickle((full[t0], seed, t0, T), i)
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD % (core.REPO_SRC, str(core.VERIF), i, o)], env=env, capture_output=True, text=True, timeout=400)
        if r.returncode or 'DONE' not in r.stdout:
            if 'bartz' in r.stderr and 'rv/checks' not in r.stderr.splitlines()[-1]:
                rec.violate('restore-raises', f'continuing in a fresh process raised: {r.stderr.strip().splitlines()[-1]}')
            else:
                raise RuntimeError(r.stderr[-2000:])
            return
        rec.event('fresh_processes')
        rec.mark(kind, cfg, t0)
        for j, s in enumerate(load_pickle(o)):
            rec.event('iterations_after_restore')
            k = differs(s, full[t0 + 1 + j])
            if not rec.expect(k is None, 'restored-process', lambda: f'chain continued in a fresh process from iteration {t0}: {k} differs after iteration {t0 + 1 + j}'):
                break
        rec.sample(kind=kind, cfg=cfg, interrupted=t0)
    elif kind == 'loop':
        f = os.path.join(scratch, 'loop')
        ck = []

        def sink(i, s):
            ck.append((int(i), s))

        def callback(*, bart, i_total, **kw):
            jax.debug.callback(sink, jnp.asarray(i_total), bart, ordered=True)
        nb, ns, sk = [(2, 3, 1), (0, 2, 3), (3, 2, 2), (4, 0, 1)][job['_i'] % 4]
        k1, k2, k3 = random.split(random.key(seed), 3)
        X = st['X']

        def loop(s, key):
            ck.clear()
            out = mcmcloop.run_mcmc(s, nb, ns, sk, callback, key)
            jax.block_until_ready(out)
            jax.effects_barrier()
            return tuple(out), sorted(ck, key=lambda e: e[0])
        o1, c1 = loop(st, k1)
        # states received by the callback are complete: the last one is the final state
        if c1:
            k = differs(drive.strong(c1[-1][1]), drive.strong(o1[0]))
            rec.expect(k is None, 'callback-final', lambda: f'the state received by the callback at the last iteration is not the final one: {k}')
        o2, c2 = loop(drive.strong(o1[0]), k2)
        save_pickle(o1[0], f)
        r2, d2 = loop(drive.strong(load_pickle(f)), k2)
        rec.event('loop_continuations')
        k = differs(o2, r2)
        rec.expect(k is None, 'loop-continuation', lambda: f'running the loop from a restored final state gives different results than from the original one: {k}')
        rec.mark(kind, cfg, nb, ns, sk)
        for (i, s), (j, t) in zip(c2, d2):
            rec.event('callback_checkpoints')
            k = differs(s, t)
            rec.expect(i == j and k is None, 'callback-continuation', lambda: f'states received by the callback differ at iteration {i}: {k}')
        # continue from a checkpoint taken by the callback in the middle of a run
        for i, s in c2[::2]:
            save_pickle(s, f)
            a, _ = loop(drive.strong(s), k3)
            b, _ = loop(drive.strong(load_pickle(f)), k3)
            rec.event('loop_continuations')
            rec.event('callback_checkpoints')
            k = differs(a, b)
            rec.expect(k is None, 'callback-restart', lambda: f'restarting from a callback checkpoint at iteration {i}: {k} differs after saving it')
            same = differs({n: s[n] for n in ('X', 'y', 'max_split') if n in s}, {n: st[n] for n in ('X', 'y', 'max_split') if n in s})
            rec.expect(same is None and set(s) == set(st), 'callback-incomplete', f'the state received by the callback has entries {sorted(s)}, expected {sorted(st)}')
            # the chain that goes on is a valid one: residuals and membership match the trees
            from .. import ref
            fin = a[0]
            F = ref.evaluate_each(np.asarray(fin['X']), np.asarray(fin['leaf_trees'], np.float64), np.asarray(fin['var_trees']), np.asarray(fin['split_trees'])).sum(0)
            y = np.asarray(fin['y'], np.float64)
            r = np.asarray(fin['resid'], np.float64)
            scale = 1 + np.abs(y).max(initial=0) + np.abs(np.asarray(st['resid'], np.float64)).max(initial=0) + np.abs(np.asarray(fin['leaf_trees'], np.float64)).max(initial=0) * len(fin['leaf_trees'])
            tol = 3e-5 * scale * (1 + len(c2) * 3) if fin['leaf_trees'].dtype.itemsize > 2 else 2e-2 * scale * (1 + 3 * len(c2))
            rec.expect(np.abs(r - (y - F)).max(initial=0) <= tol, 'restart-residuals', 'after restarting from a callback checkpoint the residuals do not match the trees')
        # saved traces evaluate the same after being restored, and can be concatenated
        tr = [dict(o1[2]), dict(o2[2])]
        if len(tr[0]['leaf_trees']) and hasattr(mcmcloop, 'evaluate_trace'):
            keep = {'leaf_trees', 'var_trees', 'split_trees'}
            pred = [np.asarray(mcmcloop.evaluate_trace(t, X)) for t in tr]
            save_pickle(tr, f)
            pred2 = [np.asarray(mcmcloop.evaluate_trace(t, X)) for t in load_pickle(f)]
            rec.event('traces_restored', 2)
            rec.expect(all(np.array_equal(a, b) for a, b in zip(pred, pred2)), 'trace-restored', 'a saved trace evaluates differently after being restored')
            cat = {k: jnp.concatenate([t[k] for t in tr]) for k in keep}
            both = np.asarray(mcmcloop.evaluate_trace(cat, X))
            rec.expect(both.shape == np.concatenate(pred).shape and np.allclose(both, np.concatenate(pred), rtol=1e-5, atol=1e-5 * (1 + np.abs(both).max(initial=0))), 'trace-concatenated', 'the traces of two consecutive runs concatenated evaluate differently')
        rec.sample(kind=kind, cfg=cfg, settings=(nb, ns, sk), checkpoints=len(c2))

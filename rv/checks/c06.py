import functools
import numpy as np
from .. import workload, gen, ref, monitors, moves
RULE = ('States (fresh and fabricated, all boundary configurations) are advanced with the public proposal and acceptance functions and with the full step; '
        'each proposed move is re-evaluated in float64 from the definition of prior, proposal and integrated likelihood. In "forced" workloads the uniform variate of one tree is '
        'moved next to the decision threshold. Distinct non-trivial cases: distinct (data set, tree, proposed node, rule, kind) evaluated.')
MIN = dict(ratios_checked=5000, acceptance_decisions_checked=20000, forced_decisions=300, accepted_moves_seen_through_step=1000, moves_blocked_by_minimum=300)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i, c in enumerate(gen.configs(rng, 60 if big else 10, None)):
        if c['d'] == 1:
            continue
        out.append(dict(kind='moves', cfg=dict(c, ratios=True), reps=8 if big else 4, T=12, cost=c['cost'] * 1.2, opt='full' if i % 8 == 7 else 'o0', x64=i % 11 == 10 and not c.get('small')))
    for i, c in enumerate(gen.configs(rng, 16 if big else 5, [])):
        out.append(dict(kind='forced', cfg=dict(c, ratios=True), reps=16 if big else 8, T=40, cost=c['cost'] * 2))
    for i, c in enumerate(gen.configs(rng, 24 if big else 6, [])):
        out.append(dict(kind='step', cfg=dict(c, ratios=True, d=max(3, c['d'])), reps=6, T=40, cost=c['cost']))
    return out


MV = ('allowed', 'grow', 'node', 'grow_var', 'grow_split', 'logu')


@functools.cache
def scanner(T, forced):
    import jax
    from jax import random, lax, numpy as jnp
    from bartz import mcmcstep
    from ..drive import pick_all

    def body(s, k):
        k = random.split(k, 5)
        mv = mcmcstep.sample_moves(s, k[0])
        if forced:
            r = mcmcstep.accept_moves_and_sample_leaves(s, mv, k[1])['ratios']
            lr = r['log_trans_prior'][0] + r['log_likelihood'][0]
            lr = jnp.where(mv['grow'][0], lr, -lr)
            lr = jnp.where(jnp.isfinite(lr), lr, -1.)
            delta = jnp.where(random.bernoulli(k[3]), 1., -1.) * .03
            u = jnp.minimum(0., lr + delta).astype(mv['logu'].dtype)
            mv = dict(mv, logu=mv['logu'].at[0].set(u))
        s1 = mcmcstep.accept_moves_and_sample_leaves(s, mv, k[1])
        s2 = mcmcstep.sample_sigma(s1, k[2])
        s2 = jax.tree_util.tree_map(lambda a, b: b.astype(a.dtype), s, s2)
        return s2, dict(moves={n: mv[n] for n in MV}, before=pick_all(s), after=pick_all(s1))
    return jax.jit(lambda s, key: lax.scan(body, s, random.split(key, T)))


def run(job, rec):
    import jax
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    for rep in range(job['reps']):
        cfg = dict(job['cfg'])
        if rep and cfg['minp'] is not None:
            cfg['minp'] = [cfg['minp'], 1, 2, 3, 5][rng.integers(5)]
        ds = gen.dataset(cfg, rng, zero_cut=rng.random() < .2)
        st = drive.make_state(cfg, ds)
        if rep or job['kind'] == 'forced':
            st = gen.fabricate(st, rng, sigma2=float(np.exp(rng.normal(-.5, .8))))
        seed = int(rng.integers(2 ** 31))
        if job['kind'] == 'step':
            step_route(drive.route_scan(st, seed, job['T']), rec)
            continue
        st = drive.strong(st)
        _, rows = scanner(job['T'], job['kind'] == 'forced')(st, jax.random.key(seed))
        rows = jax.tree_util.tree_map(np.asarray, rows)
        X, ms = np.asarray(st['X']), np.asarray(st['max_split'])
        minp = cfg['minp']
        for k in range(job['T']):
            B = {n: v[k] for n, v in rows['before'].items() if n != 'ratios'}
            A = {n: v[k] for n, v in rows['after'].items() if n != 'ratios'}
            R = {n: v[k] for n, v in rows['after'].get('ratios', {}).items()}
            M = {n: v[k] for n, v in rows['moves'].items()}
            judge(X, ms, np.asarray(st['p_nonterminal']), minp, B, A, R, M, rec, job['kind'] == 'forced', np.finfo(A['resid'].dtype).eps)
        if rep == 1:
            t = 0
            rec.sample(tree=ref.render(B['var_trees'][t], B['split_trees'][t]), node=int(M['node'][t]), grow=bool(M['grow'][t]), rule=[int(M['grow_var'][t]), int(M['grow_split'][t])],
                       logu=float(M['logu'][t]), recorded=[float(v[t]) for v in R.values()])


def judge(X, ms, pn, minp, B, A, R, M, rec, forced, eps):
    ntree, h = B['split_trees'].shape
    p = X.shape[0]
    node = M['node'].astype(np.int64)
    grow = M['grow'].astype(bool)
    gv, gs = M['grow_var'].astype(np.int64), M['grow_split'].astype(np.int64)
    allowed = M['allowed'].astype(bool)
    part = moves.partial_residuals(X, B, A, B['resid'])
    s2 = float(B['sigma2'])
    ref_ = moves.log_ratios(B['var_trees'], B['split_trees'], node, grow, gv, gs, X, part, s2, pn, minp)
    rows = np.arange(ntree)
    inside = ref_['ok']
    D0, D1 = ref.decision_mask(B['split_trees']), ref.decision_mask(A['split_trees'])
    nd = np.where(inside, node, 0)
    acc = D0[rows, nd] != D1[rows, nd]
    # a change elsewhere or with another rule is never an acceptance of the move
    diff = (D0 != D1)
    diff[rows, nd] = False
    other = diff.any(1) | ((D0 & D1) & ((B['split_trees'] != A['split_trees']) | (B['var_trees'] != A['var_trees']))).any(1)
    rec.expect(not other.any(), 'other-change', lambda: f'tree {int(other.argmax())} changed outside of the proposed move')
    wrongrule = acc & grow & ((A['split_trees'][rows, nd].astype(np.int64) != gs) | (A['var_trees'][rows, nd].astype(np.int64) != gv))
    rec.expect(not wrongrule.any(), 'other-rule', lambda: f'tree {int(wrongrule.argmax())}: the accepted rule is not the proposed one')
    rec.expect(bool((M['logu'] <= 0).all()), 'logu', 'log uniform variate above 0')
    impossible = allowed & grow & (gv >= p)
    feasible = allowed & inside & ~impossible
    enough = np.ones(ntree, bool) if minp is None else (ref_['nl'] >= minp) & (ref_['nr'] >= minp)
    oldmax = np.abs(B['leaf_trees'].astype(np.float64)).max(1)
    tol = moves.lk_tolerance(ref_, part, oldmax, s2, ntree, eps)
    sharp = tol < .3
    rec.event('too_imprecise', int((feasible & ~sharp).sum()))
    chk = feasible & enough & sharp
    rec.event('moves_seen', ntree)
    rec.event('moves_blocked_by_minimum', int((feasible & ~enough).sum()))
    rec.event('moves_without_rule', int(impossible.sum()))
    if R:
        e1 = np.abs(R['log_trans_prior'].astype(np.float64) - ref_['ltp'])
        bad = chk & ~(e1 < 3e-4 + 1e-5 * np.abs(ref_['ltp']))
        t = int(bad.argmax())
        rec.event('ratios_checked', int(chk.sum()))
        rec.event('grow_ratios', int((chk & grow).sum()))
        rec.event('prune_ratios', int((chk & ~grow).sum()))
        desc = lambda: dict(tree=ref.render(B['var_trees'][t], B['split_trees'][t]), node=int(node[t]), grow=bool(grow[t]), rule=[int(gv[t]), int(gs[t])], minp=minp,
                            counts=[int(ref_['nl'][t]), int(ref_['nr'][t])], pn=pn)
        rec.expect(not bad.any(), 'transition-prior-ratio', lambda: f'tree {t} {"grow" if grow[t] else "prune"} at node {node[t]}: log transition+prior ratio {R["log_trans_prior"][t]:.6g}, exact {ref_["ltp"][t]:.6g}', **(desc() if bad.any() else {}))
        e2 = np.abs(R['log_likelihood'].astype(np.float64) - ref_['llk'])
        bad = chk & ~(e2 < tol + 1e-4 * np.abs(ref_['llk']))
        t = int(bad.argmax())
        rec.expect(not bad.any(), 'likelihood-ratio', lambda: f'tree {t} {"grow" if grow[t] else "prune"} at node {node[t]}: log likelihood ratio {R["log_likelihood"][t]:.6g}, exact {ref_["llk"][t]:.6g} (tolerance {tol[t]:.2g})', **(desc() if bad.any() else {}))
    lr = ref_['ltp'] + ref_['llk']
    lr = np.where(grow, lr, -lr)
    with np.errstate(invalid='ignore'):
        want = feasible & enough & (M['logu'] <= lr)
        margin = np.abs(M['logu'] - lr) > tol + 4e-4 + 1e-4 * (np.abs(ref_['llk']) + np.abs(ref_['ltp']))
    decided = ~feasible | ~enough | (margin & sharp)
    bad = decided & (want != acc)
    t = int(bad.argmax())
    rec.event('acceptance_decisions_checked', int(decided.sum()))
    rec.event('accepted', int(acc.sum()))
    if forced:
        rec.event('forced_decisions', int(decided[0] & feasible[0] & enough[0] & (M['logu'][0] < 0)))
    rec.expect(not bad.any(), 'acceptance', lambda: f'tree {t} {"grow" if grow[t] else "prune"} at node {node[t]}: {"accepted" if acc[t] else "rejected"}, but allowed={bool(feasible[t])}, '
               f'points {ref_["nl"][t]},{ref_["nr"][t]} (minimum {minp}), logu={M["logu"][t]:.5g}, exact log ratio {lr[t]:.5g}')
    for t in np.flatnonzero(chk)[:6]:
        rec.mark(X.shape, ref.render(B['var_trees'][t], B['split_trees'][t]), node[t], gv[t], gs[t], grow[t])


def step_route(H, rec):
    """ the same through the full step, for the moves revealed by their acceptance """
    D, add, rem = monitors.moves_made(H)
    X = H['X']
    eps = np.finfo(H['resid'].dtype).eps
    for k in range(1, len(H['sigma2'])):
        if not (add[k - 1].any() or rem[k - 1].any()):
            continue
        B = {n: H[n][k - 1] for n in ('leaf_trees', 'var_trees', 'split_trees')}
        A = {n: H[n][k] for n in ('leaf_trees', 'var_trees', 'split_trees')}
        part = moves.partial_residuals(X, B, A, H['resid'][k - 1])
        g, r = add[k - 1].any(1), rem[k - 1].any(1)
        node = np.where(g, add[k - 1].argmax(1), np.where(r, rem[k - 1].argmax(1), 0))
        rows = np.arange(len(node))
        gv, gs = A['var_trees'][rows, node].astype(np.int64), A['split_trees'][rows, node].astype(np.int64)
        s2 = float(H['sigma2'][k - 1])
        R = moves.log_ratios(B['var_trees'], B['split_trees'], node, g, gv, gs, X, part, s2, H['p_nonterminal'], H['minp'])
        tol = moves.lk_tolerance(R, part, np.abs(B['leaf_trees'].astype(np.float64)).max(1), s2, len(node), eps)
        chk = (g | r) & (tol < .3)
        rec.event('accepted_moves_seen_through_step', int(chk.sum()))
        lr = np.where(g, 1, -1) * (R['ltp'] + R['llk'])
        if 'ratios' in H:
            got1, got2 = H['ratios']['log_trans_prior'][k - 1], H['ratios']['log_likelihood'][k - 1]
            bad = chk & ~((np.abs(got1 - R['ltp']) < 3e-4 + 1e-5 * np.abs(R['ltp'])) & (np.abs(got2 - R['llk']) < tol + 1e-4 * np.abs(R['llk'])))
            t = int(bad.argmax())
            rec.expect(not bad.any(), 'ratio-through-step', lambda: f'iteration {k}, tree {t}: saved ratios {got1[t]:.6g}, {got2[t]:.6g}, exact {R["ltp"][t]:.6g}, {R["llk"][t]:.6g}')
        bad = chk & ~(lr > -40)
        t = int(bad.argmax())
        rec.expect(not bad.any(), 'accepted-improbable', lambda: f'iteration {k}, tree {t}: accepted a move with exact log ratio {lr[t]:.5g}')

"""
Statistical monitors. The draws that they judge are independent by
construction if the property holds, so p-values are exact, and the thresholds
are such that a false alarm has probability below 1e-6 per run.
"""
import numpy as np
from scipy import stats

ALPHA = 1e-9


def note(agg, name, **kw):
    if not hasattr(agg, 'stats'):
        agg.stats = {}
    agg.stats[name] = {k: (float(f'{v:.4g}') if isinstance(v, float) else v) for k, v in kw.items()}


def judge(agg, name, p, key, msg, alpha=ALPHA, **kw):
    note(agg, name, p=float(p), **kw)
    agg.event('statistical_tests')
    agg.expect(p >= alpha, key, f'{name}: {msg}, p = {p:.3g} ' + ' '.join(f'{k}={v}' for k, v in kw.items()))


def uniform(agg, name, u, key='distribution', minn=50):
    """ u should be iid uniform(0, 1) """
    u = np.asarray(u, float).ravel()
    if u.size < minn:
        return
    if not np.isfinite(u).all() or u.min() < -1e-6 or u.max() > 1 + 1e-6:
        agg.expect(False, key, f'{name}: probability transforms outside [0, 1] or not finite')
        return
    d = stats.kstest(u, 'uniform')
    b = min(50, max(5, u.size // 100))
    h = np.bincount(np.minimum((np.clip(u, 0, 1) * b).astype(int), b - 1), minlength=b)
    c = stats.chisquare(h)
    p = min(1., 2 * min(d.pvalue, c.pvalue))
    judge(agg, name, p, key, 'not distributed as documented', n=int(u.size), ks=float(d.statistic), mean=float(u.mean()))


def normal(agg, name, z, key='distribution', minn=50):
    z = np.asarray(z, float).ravel()
    if z.size >= minn:
        if not np.isfinite(z).all():
            agg.expect(False, key, f'{name}: standardised draws not finite')
            return
        uniform(agg, name, stats.norm.cdf(z), key)
        # variance, more powerful on the scale
        q = (z * z).sum()
        p = 2 * min(stats.chi2.sf(q, z.size), stats.chi2.cdf(q, z.size))
        judge(agg, name + ' variance', min(1., p), key, 'variance not as documented', n=int(z.size), var=float(q / z.size))
        p = 2 * stats.norm.sf(abs(z.mean()) * np.sqrt(z.size))
        judge(agg, name + ' mean', min(1., p), key, 'mean not as documented', n=int(z.size), mean=float(z.mean()))


def uncorrelated(agg, name, a, b, key='dependence', minn=200):
    """ a, b iid pairs, independent if the property holds """
    a, b = np.ravel(a).astype(float), np.ravel(b).astype(float)
    if a.size < minn or a.std() == 0 or b.std() == 0:
        return
    r = stats.spearmanr(a, b)[0]
    z = r * np.sqrt(a.size - 1)
    judge(agg, name, 2 * stats.norm.sf(abs(z)), key, 'draws that should be independent are correlated', n=int(a.size), r=float(r))


def meanzero(agg, name, d, key='bias', minn=200, alpha=ALPHA):
    """ d iid with mean zero and light tails """
    d = np.ravel(d).astype(float)
    if d.size < minn:
        return
    s = d.std(ddof=1)
    if s == 0:
        judge(agg, name, 1. if d.mean() == 0 else 0., key, 'mean should be zero', n=int(d.size), mean=float(d.mean()))
        return
    nz = int((d != 0).sum())
    if nz < 100:
        return # normal approximation not accurate enough
    z = d.mean() / s * np.sqrt(d.size)
    judge(agg, name, 2 * stats.norm.sf(abs(z)), key, 'mean should be zero', alpha=alpha, n=int(d.size), mean=float(d.mean()), z=float(z))


def multinomial(agg, name, counts, probs, key='distribution', minexp=10):
    """ counts against exact probabilities; cells pooled to expectations >= minexp """
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    n = counts.sum()
    imp = (probs <= 0) & (counts > 0)
    agg.expect(not imp.any(), key + '-support', f'{name}: {int(counts[imp].sum())} of {int(n)} visits to impossible states')
    order = np.argsort(-probs)
    e, c, E, C = 0., 0., [], []
    for i in order:
        e += probs[i] * n
        c += counts[i]
        if e >= minexp:
            E.append(e), C.append(c)
            e = c = 0.
    if E and (e or c):
        E[-1] += e
        C[-1] += c
    if len(E) < 2:
        return
    E, C = np.array(E), np.array(C)
    E *= C.sum() / E.sum()
    x = ((C - E) ** 2 / E).sum()
    judge(agg, name, stats.chi2.sf(x, len(E) - 1), key, 'frequencies differ from the exact distribution', n=int(n), cells=len(E), chi2=float(x))

""" Comparison of chains that must agree up to rounding. """
import numpy as np


def discrete_mismatch(A, B, fields=('split_trees', 'var_trees', 'leaf_indices')):
    """ first row where the structures differ, or None. var only where split != 0 """
    from . import ref
    sa, sb = np.asarray(A['split_trees']).astype(np.int64), np.asarray(B['split_trees']).astype(np.int64)
    if sa.shape != sb.shape:
        return 0
    if not sa.size:
        return None
    da, db = ref.decision_mask(sa), ref.decision_mask(sb)
    va, vb = np.asarray(A['var_trees']).astype(np.int64), np.asarray(B['var_trees']).astype(np.int64)
    bad = (np.where(da, sa, 0) != np.where(db, sb, 0)) | (np.where(da, va, -1) != np.where(db, vb, -1))
    bad = bad.reshape(len(sa), -1).any(1)
    return int(bad.argmax()) if bad.any() else None


def values_differ(a, b, rtol, upto=None):
    a, b = np.asarray(a, np.float64)[:upto], np.asarray(b, np.float64)[:upto]
    if a.shape != b.shape:
        return np.inf
    if not a.size:
        return 0.
    s = max(np.abs(a[np.isfinite(a)]).max(initial=0), np.abs(b[np.isfinite(b)]).max(initial=0), 1e-30)
    nan = np.isnan(a) & np.isnan(b)
    with np.errstate(invalid='ignore'):
        d = np.where(nan | (a == b), 0, np.abs(a - b))
    d = np.where(np.isnan(d), np.inf, d)
    return float(d.max() / s)


class Majority:
    """
    Two correct computations of a chain differ by rounding, which on rare
    occasions flips a decision. A wrong one differs always or often. Judge a
    group of repetitions: at most a quarter (and at most 1 of 4) may diverge.
    """

    def __init__(self, rec, key):
        self.rec, self.key, self.n, self.bad, self.first = rec, key, 0, 0, None

    def add(self, A, B, what, rtol=2e-3, fields=('leaf_trees', 'resid', 'sigma2')):
        from . import ref
        rec = self.rec
        self.n += 1
        rec.event('chains_compared')
        k = discrete_mismatch(A, B)
        msg = None
        if k is not None:
            msg = f'{what}: tree structures differ from iteration {k}'
        else:
            for f in fields:
                if f in A and f in B:
                    a, b = np.asarray(A[f]), np.asarray(B[f])
                    if f == 'leaf_trees' and a.shape == b.shape:
                        m = ref.leaf_mask(np.asarray(A['split_trees']))
                        a, b = np.where(m, a, 0), np.where(m, b, 0)
                    d = values_differ(a, b, rtol)
                    if not d <= rtol:
                        msg = f'{what}: {f} differs by {d:.3g} of its scale'
                        break
            else:
                for f in ('grow_prop_count', 'grow_acc_count', 'prune_prop_count', 'prune_acc_count'):
                    if f in A and f in B and not np.array_equal(A[f], B[f]):
                        msg = f'{what}: {f} differs'
        if msg:
            self.bad += 1
            self.first = self.first or msg
            rec.event('chains_diverged')
        return msg

    def finish(self):
        lim = max(1, self.n // 4) if self.n >= 4 else 0 if self.n < 2 else 1
        if self.n:
            self.rec.expect(self.bad <= lim, self.key, f'{self.bad} of {self.n} chains disagree beyond rounding; first: {self.first}')

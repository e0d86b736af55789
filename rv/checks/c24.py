import numpy as np
RULE = ('The same numbers are passed to the regression interface as numpy and jax arrays of many types and layouts, pandas and polars tables and series with hostile labels, in mixed combinations, at construction and prediction, and all outputs are compared with those of plain matrices; '
        'then a list of mismatched inputs is passed, each of which must raise. Distinct non-trivial cases: distinct (data, container) pairs and (model, kind of mismatch) pairs.')
MIN = dict(formats_compared=80, pandas_inputs=15, polars_inputs=15, integer_inputs=15, large_integers=30, rejections=120)


def jobs(tier, rng):
    big = tier == 'thorough'
    out = []
    for i in range(32 if big else 8):
        out.append(dict(kind='formats', i=i, n=int(rng.choice([5, 12, 33, 60])), p=int(rng.choice([1, 2, 3, 5])), quants=bool(i % 2), ints=i % 4 >= 2, reps=3 if big else 2, cost=4))
    for i in range(16 if big else 6):
        out.append(dict(kind='mismatch', i=i, n=[12, 5, 3, 7][i % 4], p=[3, 2, 5, 1][i % 4], quants=bool(i % 2), cost=3))
    for i in range(8 if big else 3):
        out.append(dict(kind='large', i=i, n=[20, 41, 9][i % 3], p=[1, 3, 2][i % 3], quants=i % 3 != 1, reps=2, cost=2))
    return out


def tables(X, rng):
    """ name -> table with the same numbers, one predictor per column """
    import pandas as pd, polars as pl
    p, n = X.shape
    A = X.T
    ints = A.dtype.kind in 'iu'
    names = [f'x{j}' for j in range(p)]
    rng.shuffle(names)
    out = dict(
        pandas=pd.DataFrame(A, columns=names),
        pandas_index=pd.DataFrame(A, columns=names, index=rng.permutation(n) + 100),
        pandas_stridx=pd.DataFrame(A.copy(), columns=names, index=[f'r{k}' for k in rng.permutation(n)]),
        pandas_default=pd.DataFrame(A),
        pandas_series_cols=pd.DataFrame({nm: pd.Series(A[:, j]) for j, nm in enumerate(names)}),
        pandas_multi=pd.DataFrame(A, columns=pd.MultiIndex.from_tuples([('a', nm) for nm in names])),
        polars=pl.DataFrame({nm: A[:, j] for j, nm in enumerate(names)}),
        polars_eager=pl.DataFrame(np.ascontiguousarray(A), schema=names),
    )
    if ints:
        mixed = {nm: (A[:, j].astype(float) if j % 2 else A[:, j]) for j, nm in enumerate(names)}
        out['pandas_mixed'] = pd.DataFrame(mixed)
        out['polars_mixed'] = pl.DataFrame(mixed)
        out['polars_int8'] = pl.DataFrame({nm: pl.Series(A[:, j], dtype=pl.Int8) for j, nm in enumerate(names)})
        out['pandas_int8'] = pd.DataFrame(A.astype(np.int8), columns=names)
    else:
        out['pandas_f32'] = pd.DataFrame(A.astype(np.float32), columns=names)
        out['polars_f32'] = pl.DataFrame({nm: pl.Series(A[:, j].astype(np.float32)) for j, nm in enumerate(names)})
    return out


def matrices(X):
    import jax.numpy as jnp
    wide = np.zeros((2 * X.shape[0], 3 * X.shape[1]), X.dtype)
    wide[::2, 1::3] = X
    out = dict(fortran=np.asfortranarray(X), strided=wide[::2, 1::3], jax=jnp.asarray(X), copy=X.copy(), reversed=X[::-1].copy()[::-1])
    ro = X.copy()
    ro.flags.writeable = False
    out['readonly'] = ro
    if X.dtype.kind in 'iu':
        for t in ('int8', 'int16', 'int64', 'float32', 'float64'):
            out[t] = X.astype(t)
        if X.min(initial=0) >= 0:
            out['uint8'] = X.astype(np.uint8)
        out['jax_int8'] = jnp.asarray(X, jnp.int8)
    else:
        out['float32'] = X.astype(np.float32)
        out['bigendian'] = X.astype('>f8').astype('=f8')
    return out


def responses(y, rng):
    import pandas as pd, polars as pl, jax.numpy as jnp
    n = len(y)
    out = dict(numpy=y, jax=jnp.asarray(y), pandas=pd.Series(y), pandas_named=pd.Series(y, index=rng.permutation(n) + 5, name='resp'), polars=pl.Series(y), polars_named=pl.Series('resp', y),
               strided=np.repeat(y, 3)[::3], readonly=y.copy())
    out['readonly'].flags.writeable = False
    if y.dtype.kind in 'iu':
        for t in ('int8', 'int64', 'float32', 'float64'):
            out[t] = y.astype(t)
        out['pandas_int16'] = pd.Series(y.astype(np.int16))
        out['polars_int8'] = pl.Series(y.astype(np.int8))
    else:
        out['float32'] = y.astype(np.float32)
        out['pandas_f32'] = pd.Series(y.astype(np.float32))
    return out


NAMES = ('yhat_train', 'yhat_train_mean', 'yhat_test', 'yhat_test_mean', 'sigma', 'first_sigma', 'offset', 'scale', 'lamda', 'sigest')


def outputs(b):
    return {k: np.asarray(getattr(b, k), float) for k in NAMES if getattr(b, k, None) is not None}


def same(rec, A, B, what, exact):
    for k in A:
        if k not in B:
            rec.violate('missing-output', f'{what}: {k} missing')
            continue
        rec.event('outputs_compared')
        if A[k].shape != B[k].shape:
            rec.violate('formats-differ', f'{what}: {k} has shape {B[k].shape} instead of {A[k].shape}')
            return False
        if not (np.array_equal(A[k], B[k]) if exact else np.allclose(A[k], B[k], rtol=2e-3, atol=2e-3 * np.abs(A[k]).max(initial=0) + 1e-6)):
            return k
    return True


def run(job, rec):
    from .. import drive
    rng = np.random.default_rng(job['seed'])
    n, p = job['n'], job['p']
    if job['kind'] == 'formats':
        for rep in range(job['reps']):
            if job['ints']:
                X = rng.integers(-9, 10, (p, n)).astype(np.int32)
                if rep % 2:
                    X = np.abs(X)
                m = 4
                T = X[:, rng.integers(0, n, m)].copy()
                # other integers as well
                T[:, 0] = rng.integers(-9 if X.min() < 0 else 0, 10, p)
                y = rng.integers(-50, 51, n).astype(np.int32) + 3 * X[0]
                y = np.clip(y, -127, 127).astype(np.int32)
                y[:2] = [-100, 120] # the range overflows int8
            else:
                X = rng.normal(size=(p, n)).astype(np.float32).astype(np.float64)
                T = rng.normal(size=(p, 4)).astype(np.float32).astype(np.float64)
                y = (X[0] + rng.normal(size=n)).astype(np.float32).astype(np.float64)
            kw = dict(ntree=4, maxdepth=4, ndpost=4, nskip=3, usequants=job['quants'], numcut=20, seed=int(rng.integers(2 ** 31)), sigest=[None, .7][rep % 2], initkw=dict(min_points_per_leaf=1))
            base = drive.gbart(X, y, x_test=T, **kw)
            A = outputs(base)
            xs = {k: (v, None) for k, v in matrices(X).items()}
            ttabs = tables(T, np.random.default_rng(job['seed'] + rep))
            xtabs = tables(X, np.random.default_rng(job['seed'] + rep))
            xs.update({k: (v, ttabs[k]) for k, v in xtabs.items()})
            ys = responses(y, rng)
            plan = [(a, list(ys)[rng.integers(len(ys))]) for a in xs] + [('copy', b) for b in ys]
            loose = 0
            tot = 0
            first = None
            tm = matrices(T)
            for a, b in plan:
                x, t = xs[a]
                tn = a
                if t is None:
                    tn = list(tm)[rng.integers(len(tm))]
                    t = tm[tn]
                what = f'predictors as {a}, test as {tn}, response as {b} (n={n}, p={p}, integers={job["ints"]}, quantiles={job["quants"]})'
                fit = drive.gbart(x, ys[b], x_test=t, **kw)
                B = outputs(fit)
                rec.event('formats_compared')
                rec.event('pandas_inputs', 'pandas' in a or 'pandas' in b)
                rec.event('polars_inputs', 'polars' in a or 'polars' in b)
                rec.event('integer_inputs', job['ints'])
                rec.mark('format', a, tn, b, job['seed'], rep)
                r = same(rec, A, B, what, not job['ints'])
                rec.expect(True, '', '')
                tot += 1
                if r is not True and r is not False:
                    loose += 1
                    first = first or f'{what}: {r} differs'
                    if not job['ints']:
                        rec.violate('formats-differ', f'{what}: {r} differs from the one with plain matrices')
                again = np.asarray(fit.predict(t), float)
                rec.expect(np.array_equal(again, B['yhat_test']), 'predict-differs', f'{what}: predict() differs from the test predictions at construction')
                # tables of the other library are equivalent if they have the same columns
                if a == 'pandas' or a == 'polars':
                    other = ttabs['polars' if a == 'pandas' else 'pandas']
                    try:
                        got = np.asarray(fit.predict(other), float)
                    except Exception: # stricter is allowed
                        rec.event('other_library_rejected')
                    else:
                        rec.expect(np.array_equal(got, B['yhat_test']), 'predict-differs', f'{what}: predictions with a table of the other library differ')
            if job['ints']: # different types round differently
                rec.expect(loose <= tot // 8, 'formats-differ', f'{loose} of {tot} formats give different results; first: {first}')
            if rep == 0:
                rec.sample(n=n, p=p, formats=[a for a, _ in plan][:10], responses=list(ys))
    elif job['kind'] == 'large':
        # integers which only integer types can tell apart
        import pandas as pd, polars as pl, jax.numpy as jnp
        for rep in range(job['reps']):
            X = np.stack([rng.permutation(n) for _ in range(p)])
            X = (X + rng.choice([2 ** 26, 2 ** 30, -2 ** 27], (p, 1))).astype(np.int64)
            T = np.concatenate([X[:, rng.integers(0, n, 6)], X[:, :1] + 1], 1)
            y = ((X[0] - X[0].mean()) ** 2 / n + rng.normal(size=n)).astype(np.float32)
            names = [f'x{j}' for j in range(p)]
            kw = dict(ntree=4, maxdepth=4, ndpost=4, nskip=10, usequants=job['quants'], numcut=20, seed=int(rng.integers(2 ** 31)), initkw=dict(min_points_per_leaf=1))
            F = dict(numpy32=lambda A: A.astype(np.int32), jax=lambda A: jnp.asarray(A, jnp.int32), fortran=np.asfortranarray, uneven=lambda A: np.repeat(A, 2, 1)[:, ::2],
                     pandas=lambda A: pd.DataFrame(A.T, columns=names), pandas32=lambda A: pd.DataFrame(A.T.astype(np.int32), columns=names), pandas_cols=lambda A: pd.DataFrame({nm: A[j].astype([np.int32, np.int64][j % 2]) for j, nm in enumerate(names)}),
                     polars=lambda A: pl.DataFrame({nm: A[j] for j, nm in enumerate(names)}), polars32=lambda A: pl.DataFrame({nm: A[j].astype(np.int32) for j, nm in enumerate(names)}))
            base = outputs(drive.gbart(X, y, x_test=T, **kw))
            for a, f in F.items():
                fit = drive.gbart(f(X), y, x_test=f(T), **kw)
                B = outputs(fit)
                rec.event('formats_compared')
                rec.event('large_integers')
                rec.mark('large', a, job['seed'], rep)
                r = same(rec, base, B, f'large integers as {a}', True)
                if r is not False:
                    rec.expect(r is True, 'formats-differ', f'large integers (around {int(X[0, 0])}) as {a} (n={n}, p={p}, quantiles={job["quants"]}): {r} differs from the one with a matrix')
                rec.expect(np.array_equal(np.asarray(fit.predict(f(T)), float), B['yhat_test']), 'predict-differs', f'large integers as {a}: predict() differs from the test predictions at construction')
    else:
        import pandas as pd, polars as pl, jax.numpy as jnp
        X = rng.normal(size=(p, n)).astype(np.float32)
        T = rng.normal(size=(p, 4)).astype(np.float32)
        y = rng.normal(size=n).astype(np.float32)
        names = [f'x{j}' for j in range(p)]
        kw = dict(ntree=3, maxdepth=3, ndpost=2, nskip=1, usequants=job['quants'], numcut=9)
        PD, PL = lambda A, c=names: pd.DataFrame(A.T, columns=c), lambda A, c=names: pl.DataFrame({nm: A[j] for j, nm in enumerate(c)})

        def must_raise(f, key, what):
            rec.event('rejections')
            rec.mark('mismatch', what, n, p, job['seed'])
            try:
                out = f()
            except Exception:
                rec.expect(True, key, '')
                return
            got = getattr(out, 'yhat_train', out)
            rec.expect(False, key, f'{what} was accepted (n={n}, p={p}), giving an array of shape {np.shape(got)}')
        short, long_ = T[:-1], np.concatenate([T, T[:1]])
        # prediction
        ways = [lambda model, t: model.predict(t)]
        marr = drive.gbart(X, y, **kw)
        cases = [('table for a matrix model (pandas)', PD(T)), ('table for a matrix model (polars)', PL(T)), ('matrix with one more predictor', long_), ('matrix with twice the predictors', np.concatenate([T, T])),
                 ('one-dimensional matrix', T[0]), ('one-dimensional vector of p values', T[:, 0]), ('three-dimensional matrix', T[:, :, None]), ('three-dimensional matrix with leading axis', T[None])]
        if p > 1:
            cases += [('matrix with one predictor less', short), ('matrix with one predictor', T[:1])]
        if p != 4:
            cases.append(('transposed matrix', T.T))
        cases += [(w + ' (jax)', jnp.asarray(t)) for w, t in cases if isinstance(t, np.ndarray)]
        for w, t in cases:
            must_raise(lambda: marr.predict(t), 'predict-mismatch', w + ' in predict')
        for w, t in cases:
            must_raise(lambda: drive.gbart(X, y, x_test=t, **kw), 'test-mismatch', w + ' as x_test')
        for lib, F, G in (('pandas', PD, PL), ('polars', PL, PD)):
            mtab = drive.gbart(F(X), y, **kw)
            ren = names[:-1] + ['other']
            cases = [('matrix for a table model', T), ('transposed matrix for a table model', T.T), ('jax matrix for a table model', jnp.asarray(T)), ('table with a renamed column', F(T, ren)),
                     ('table with one more column', F(long_, names + ['extra'])), ('table of the other library with a renamed column', G(T, ren)), ('table with columns of different case', F(T, [c.upper() for c in names])),
                     ('a single column', F(T)['x0'])]
            if p > 1:
                rev = names[::-1]
                cases += [('table with one column less', F(short, names[:-1])), ('table with reordered columns', F(T[::-1], rev)), ('table with swapped names', F(T, rev)),
                          ('table of the other library with reordered columns', G(T[::-1], rev)), ('table with the first column only', F(T[:1], names[:1]))]
            if lib == 'pandas':
                cases.append(('table with default integer column labels', pd.DataFrame(T.T)))
            for w, t in cases:
                must_raise(lambda: mtab.predict(t), 'predict-mismatch', f'{w} in predict ({lib})')
                must_raise(lambda: drive.gbart(F(X), y, x_test=t, **kw), 'test-mismatch', f'{w} as x_test ({lib})')
            ok = np.asarray(mtab.predict(F(T)))
            rec.expect(np.all(np.isfinite(ok)) and ok.shape == (2, 4), 'matching-rejected', 'prediction with a matching table')
        # training
        y1, y2 = y[:-1], np.append(y, y[:1])
        cases = [('shorter response', X, y1), ('longer response', X, y2), ('response of length one', X, y[:1]), ('empty response', X, y[:0]), ('column response', X, y[:, None]), ('row response', X, y[None]),
                 ('scalar response', X, y[0]), ('one-dimensional predictors', X[0], y), ('three-dimensional predictors', X[:, :, None], y), ('three-dimensional predictors with leading axis', X[None], y),
                 ('shorter series', PD(X), pd.Series(y1)), ('longer series', PL(X), pl.Series(y2)), ('data frame response', PD(X), pd.DataFrame(dict(y=y))), ('polars frame response', PL(X), pl.DataFrame(dict(y=y))),
                 ('series longer than matrix', X, pd.Series(y2)), ('table longer than response', PD(np.concatenate([X, X], 1)), y), ('twice the response', X, np.tile(y, 2)), ('jax column response', jnp.asarray(X), jnp.asarray(y)[:, None]),
                 ('no observations but a response', X[:, :0], y), ('predictors with one observation', X[:, :1], y)]
        if n != p:
            cases += [('transposed predictors', X.T, y), ('transposed table', pd.DataFrame(X), y)]
        for w, a, b in cases:
            must_raise(lambda: drive.gbart(a, b, **kw), 'training-mismatch', w)
        rec.sample(n=n, p=p, kinds=[c[0] for c in cases])

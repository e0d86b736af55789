From b3a24bf30490a33becb7651bfbc29e047741569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:31 +0000
Subject: [PATCH 01/25] fix: compare dataframe columns as lists, pandas Index
 equality is elementwise

---
 src/bartz/BART.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index be77301..14df0db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -256,7 +256,7 @@ class gbart:
     @staticmethod
     def _process_predictor_input(x):
         if hasattr(x, 'columns'):
-            fmt = dict(kind='dataframe', columns=x.columns)
+            fmt = dict(kind='dataframe', columns=list(x.columns))
             x = x.to_numpy().T
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
-- 
2.43.0


From fa1279b882d7607965b07c80ae856bd134737bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:31 +0000
Subject: [PATCH 02/25] fix: do not modify the 'ratios' dictionary of the input
 state in place

---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d98c07e..d0b5072 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1279,7 +1279,8 @@ def accept_moves_sequential_stage(bart, count_trees, moves, move_counts, prelkv,
 
     bart['resid'] = resid
     bart['leaf_trees'] = leaf_trees
-    bart.get('ratios', {}).update(ratios)
+    if 'ratios' in bart:
+        bart['ratios'] = ratios
     moves['acc'] = acc
     moves['to_prune'] = to_prune
 
-- 
2.43.0


From 262b1ca1cd15fa650428f0a243985b8189b931e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:34 +0000
Subject: [PATCH 03/25] fix: support trees with maximum depth 1 and 2

---
 src/bartz/mcmcstep.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d0b5072..672be23 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -573,7 +573,7 @@ def fully_used_variables(var_tree, split_tree, max_split, leaf_index):
 
     Returns
     -------
-    var_to_ignore : int array (d - 2,)
+    var_to_ignore : int array (max(1, d - 2),)
         The indices of the variables that have an empty split range. Since the
         number of such variables is not fixed, unused values in the array are
         filled with `p`. The fill values are not guaranteed to be placed in any
@@ -601,11 +601,12 @@ def ancestor_variables(var_tree, max_split, node_index):
 
     Returns
     -------
-    ancestor_vars : int array (d - 2,)
+    ancestor_vars : int array (max(1, d - 2),)
         The variable indices of the ancestors of the node, from the root to
         the parent. Unused spots are filled with `p`.
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(1, grove.tree_depth(var_tree) - 1)
+        # at least 1 to avoid empty arrays with shallow trees
     ancestor_vars = jnp.zeros(max_num_ancestors, jaxext.minimal_unsigned_dtype(max_split.size))
     carry = ancestor_vars.size - 1, node_index, ancestor_vars
     def loop(carry, _):
@@ -640,7 +641,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     l, r : int
         The range of allowed splits is [l, r).
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
     carry = 0, initial_r, node_index
     def loop(carry, _):
-- 
2.43.0


From 14c2d307661956d006e77ddfab22ba55aacff0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:34 +0000
Subject: [PATCH 04/25] fix: randint_exclude returned more than sup if all
 values are excluded

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 672be23..0015da9 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -681,7 +681,7 @@ def randint_exclude(key, sup, exclude):
     num_allowed = sup - jnp.count_nonzero(exclude < sup)
     u = random.randint(key, (), 0, num_allowed)
     def loop(u, i):
-        return jnp.where(i <= u, u + 1, u), None
+        return jnp.where((i <= u) & (i < sup), u + 1, u), None
     u, _ = lax.scan(loop, u, exclude)
     return u
 
-- 
2.43.0


From 0512ebaa531e39b5f4d715f9892f415bed592afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:34 +0000
Subject: [PATCH 05/25] fix: unique missed values if the output is shorter than
 the input

---
 src/bartz/jaxext.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 815f2b7..b5b5484 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -183,8 +183,9 @@ def unique(x, size, fill_value):
         out = out.at[i_out].set(x)
         return (i_out, i_in + 1, x, out), None
     carry = 0, 0, x[0], jnp.full(size, fill_value, x.dtype)
-    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x[:size])
-    return out, actual_length + 1
+    (last_index, _, _, out), _ = jax.lax.scan(loop, carry, x)
+        # values after the first `size` unique ones are dropped
+    return out, jnp.minimum(last_index + 1, size)
 
 def autobatch(func, max_io_nbytes, in_axes=0, out_axes=0, return_nbatches=False):
     """
-- 
2.43.0


From 213cc2ef003a9e4a5766c36fa7b5cabb632e0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:34 +0000
Subject: [PATCH 06/25] fix: do not accept grow moves with an invalid decision
 rule

---
 src/bartz/mcmcstep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 0015da9..a58ab02 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -435,6 +435,10 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
 
     ratio = compute_partial_ratio(prob_choose, num_prunable, p_nonterminal, leaf_to_grow)
 
+    # reject the move if there are no decision rules available at the leaf
+    has_splits = max_split.at[var].get(mode='fill', fill_value=0) > 0
+    ratio = jnp.where(has_splits, ratio, 0)
+
     return dict(
         num_growable=num_growable,
         node=leaf_to_grow,
-- 
2.43.0


From 0e7eae13c2b8f4057da32e714107f2e4b520636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:34 +0000
Subject: [PATCH 07/25] fix: empty traces contained the whole state

---
 src/bartz/mcmcloop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bartz/mcmcloop.py b/src/bartz/mcmcloop.py
index 4510b3d..a8ac553 100644
--- a/src/bartz/mcmcloop.py
+++ b/src/bartz/mcmcloop.py
@@ -107,6 +107,7 @@ def run_mcmc(bart, n_burn, n_save, n_skip, callback, key):
         return (bart, i_total + 1, i_skip + 1, key), output
 
     def empty_trace(bart, tracelist):
+        bart = {key: bart[key] for key in tracelist if key in bart}
         return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(bart)
 
     if n_burn > 0:
-- 
2.43.0


From 63c715fe312a40e13625341e213dbbb5923705ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:14 +0000
Subject: [PATCH 08/25] fix: uniform_splits_from_matrix failed without
 observations

---
 src/bartz/prepcovars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 4319b6b..dd7c46e 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -103,6 +103,8 @@ def uniform_splits_from_matrix(X, num_bins):
     max_split : array (p,)
         The number of cutpoints in each row of `splits`, i.e., ``num_bins - 1``.
     """
+    if X.shape[1] == 0:
+        X = jnp.zeros((X.shape[0], 1), X.dtype) # no data, any grid will do
     low = jnp.min(X, axis=1)
     high = jnp.max(X, axis=1)
     splits = jnp.linspace(low, high, num_bins + 1, axis=1)[:, 1:-1]
-- 
2.43.0


From 753ebff2904e07de31534f0dbf76f12e02b9e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:14 +0000
Subject: [PATCH 09/25] fix: quantilized_splits_from_matrix failed on uint32

---
 src/bartz/prepcovars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index dd7c46e..27b53bd 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -62,7 +62,7 @@ def quantilized_splits_from_matrix(X, max_bins):
 
 @functools.partial(jax.vmap, in_axes=(0, None))
 def _quantilized_splits_from_matrix(x, out_length):
-    huge = jaxext.huge_value(x)
+    huge = jnp.asarray(jaxext.huge_value(x), x.dtype)
     u, actual_length = jaxext.unique(x, size=x.size, fill_value=huge)
     actual_length -= 1
     if jnp.issubdtype(x.dtype, jnp.integer):
-- 
2.43.0


From 7426c5b03fda406e04c72697a6e4a2bd2b1accb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:23 +0000
Subject: [PATCH 10/25] fix: step changed the types of the state with
 non-default float types

---
 src/bartz/mcmcstep.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index a58ab02..92bc576 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -210,8 +210,8 @@ def init(*,
 
     if save_ratios:
         bart['ratios'] = dict(
-            log_trans_prior=jnp.full(num_trees, jnp.nan),
-            log_likelihood=jnp.full(num_trees, jnp.nan),
+            log_trans_prior=jnp.full(num_trees, jnp.nan, large_float),
+            log_likelihood=jnp.full(num_trees, jnp.nan, large_float),
         )
 
     return bart
@@ -1378,7 +1378,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     # compute leaves posterior and sample leaves
     initial_leaf_tree = leaf_tree
     mean_post = resid_tree * prelf['mean_factor']
-    leaf_tree = mean_post + prelf['centered_leaves']
+    leaf_tree = (mean_post + prelf['centered_leaves']).astype(initial_leaf_tree.dtype)
 
     # copy leaves around such that the leaf indices select the right leaf
     to_prune = acc ^ move['grow']
@@ -1390,7 +1390,8 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     )
 
     # replace old tree with new tree in function values
-    resid += (initial_leaf_tree - leaf_tree)[leaf_indices]
+    diff = initial_leaf_tree.astype(resid.dtype) - leaf_tree.astype(resid.dtype)
+    resid += diff[leaf_indices]
 
     return resid, leaf_tree, acc, to_prune, ratios
 
@@ -1419,7 +1420,7 @@ def sum_resid(resid, leaf_indices, tree_size, batch_size):
         aggr_func = _aggregate_scatter
     else:
         aggr_func = functools.partial(_aggregate_batched_onetree, batch_size=batch_size)
-    return aggr_func(resid, leaf_indices, tree_size, jnp.float32)
+    return aggr_func(resid, leaf_indices, tree_size, resid.dtype)
 
 def _aggregate_batched_onetree(values, indices, size, dtype, batch_size):
     n, = indices.shape
@@ -1567,7 +1568,7 @@ def sample_sigma(bart, key):
     norm2 = jnp.dot(resid, resid, preferred_element_type=bart['opt']['large_float'])
     beta = bart['sigma2_beta'] + norm2 / 2
 
-    sample = random.gamma(key, alpha)
+    sample = random.gamma(key, alpha, dtype=bart['opt']['large_float'])
     bart['sigma2'] = beta / sample
 
     return bart
-- 
2.43.0


From df856ea15564171a56cdf8e32d7ab5934c62d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 11/25] fix: choose_variable proposed predictors without
 cutpoints

Such proposals could only be rejected, contrary to the documentation, and
lowered the prior probability of growing a tree.
---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 92bc576..5a64264 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -558,7 +558,8 @@ def choose_variable(var_tree, split_tree, max_split, leaf_index, key):
     allowed splits. If no variable has a non-empty range, return `p`.
     """
     var_to_ignore = fully_used_variables(var_tree, split_tree, max_split, leaf_index)
-    return randint_exclude(key, max_split.size, var_to_ignore)
+    is_allowed = (max_split > 0).at[var_to_ignore].set(False, mode='drop')
+    return randint_masked(key, is_allowed)
 
 def fully_used_variables(var_tree, split_tree, max_split, leaf_index):
     """
-- 
2.43.0


From 7edcee99a9be2bbdbbde643c5b82bdf892adce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:53 +0000
Subject: [PATCH 12/25] fix: range of cutpoints overflowed after a split at the
 largest cutpoint

With 255 (or 65535) cutpoints, the lower end of the range was computed in the
type of split_trees and wrapped to 0 at the right of the last cutpoint, so
invalid decision rules were proposed there.
---
 src/bartz/mcmcstep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 5a64264..b012303 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -648,12 +648,13 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     """
     max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
-    carry = 0, initial_r, node_index
+    carry = jnp.zeros_like(initial_r), initial_r, node_index
     def loop(carry, _):
         l, r, index = carry
         right_child = (index & 1).astype(bool)
         index >>= 1
-        split = split_tree[index]
+        split = split_tree[index].astype(initial_r.dtype)
+            # l + 1 below would overflow in the type of split_tree
         cond = (var_tree[index] == ref_var) & index.astype(bool)
         l = jnp.where(cond & right_child, jnp.maximum(l, split), l)
         r = jnp.where(cond & ~right_child, jnp.minimum(r, split), r)
-- 
2.43.0


From b946648b1ff60eff02f841aecc33bf192b2053a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:53 +0000
Subject: [PATCH 13/25] fix: quantile cutpoints of adjacent floats did not
 separate them

---
 src/bartz/prepcovars.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 27b53bd..da95433 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -71,6 +71,10 @@ def _quantilized_splits_from_matrix(x, out_length):
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
         midpoints = (u[1:] + u[:-1]) / 2
+        separates = (midpoints >= u[:-1]) & (midpoints < u[1:])
+        midpoints = jnp.where(separates | jnp.isinf(u[1:]), midpoints, u[:-1])
+            # the midpoint of adjacent numbers may be rounded to the upper one,
+            # and the midpoint of large numbers may overflow
     indices = jnp.linspace(-1, actual_length, out_length + 2)[1:-1]
     indices = jnp.around(indices).astype(jaxext.minimal_unsigned_dtype(midpoints.size - 1))
         # indices calculation with float rather than int to avoid potential
-- 
2.43.0


From 1e60c068e3dff50c2c2b9f7b7bc739a53b635171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:53 +0000
Subject: [PATCH 14/25] fix: quantilized_splits_from_matrix reported 255
 cutpoints without observations

---
 src/bartz/prepcovars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index da95433..ab1eb89 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -53,7 +53,7 @@ def quantilized_splits_from_matrix(X, max_bins):
     max_split : array (p,)
         The number of actually used values in each row of `splits`.
     """
-    out_length = min(max_bins, X.shape[1]) - 1
+    out_length = max(0, min(max_bins, X.shape[1]) - 1)
     # return _quantilized_splits_from_matrix(X, out_length)
     @functools.partial(jaxext.autobatch, max_io_nbytes=2 ** 29)
     def quantilize(X):
@@ -64,7 +64,7 @@ def quantilized_splits_from_matrix(X, max_bins):
 def _quantilized_splits_from_matrix(x, out_length):
     huge = jnp.asarray(jaxext.huge_value(x), x.dtype)
     u, actual_length = jaxext.unique(x, size=x.size, fill_value=huge)
-    actual_length -= 1
+    actual_length = jnp.maximum(actual_length - 1, 0)
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
-- 
2.43.0


From 26be652a1ac19fb4e30845ba360a677938501b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:56 +0000
Subject: [PATCH 15/25] fix: uniform cutpoints were not sorted if the range is
 narrow

---
 src/bartz/prepcovars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index ab1eb89..11ed17e 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -112,6 +112,8 @@ def uniform_splits_from_matrix(X, num_bins):
     low = jnp.min(X, axis=1)
     high = jnp.max(X, axis=1)
     splits = jnp.linspace(low, high, num_bins + 1, axis=1)[:, 1:-1]
+    splits = jnp.sort(jnp.clip(splits, low[:, None], high[:, None]), axis=1)
+        # if the range is narrow, roundoff makes the grid not monotone
     assert splits.shape == (X.shape[0], num_bins - 1)
     max_split = jnp.full(*splits.shape, jaxext.minimal_unsigned_dtype(num_bins - 1))
     return splits, max_split
-- 
2.43.0


From b2f511a9c1c5cdf8af4c24bd867117ad22a67991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:58 +0000
Subject: [PATCH 16/25] fix: no quantile cutpoints of integer predictors with
 257 or 65537 distinct values

---
 src/bartz/prepcovars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 11ed17e..e32326b 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -67,7 +67,7 @@ def _quantilized_splits_from_matrix(x, out_length):
     actual_length = jnp.maximum(actual_length - 1, 0)
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
-        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
+        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
         midpoints = (u[1:] + u[:-1]) / 2
-- 
2.43.0


From 8e3d2c4f3a4b978aabd3dfae58778b27e416d045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:58 +0000
Subject: [PATCH 17/25] fix: quantile cutpoints of integer predictors kept
 neither type nor precision

---
 src/bartz/prepcovars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index e32326b..b460955 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -66,7 +66,8 @@ def _quantilized_splits_from_matrix(x, out_length):
     u, actual_length = jaxext.unique(x, size=x.size, fill_value=huge)
     actual_length = jnp.maximum(actual_length - 1, 0)
     if jnp.issubdtype(x.dtype, jnp.integer):
-        midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
+        half_gap = jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
+        midpoints = u[:-1] + half_gap.astype(x.dtype)
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
-- 
2.43.0


From 92e60639892bb86dbaa6a729e91cff9271c2e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:24 +0000
Subject: [PATCH 18/25] fix: gammainccinv failed under nested vmaps over
 different arguments

---
 src/bartz/jaxext.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index b5b5484..ec33fdc 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -62,7 +62,10 @@ def pure_callback_ufunc(callback, dtype, *args, excluded=None, **kwargs):
         for i, a in enumerate(args)
     ]
     result = jax.ShapeDtypeStruct(shape, dtype)
-    return jax.pure_callback(callback, result, *padded_args, vectorized=True, **kwargs)
+    return jax.pure_callback(callback, result, *padded_args, vectorized=False, **kwargs)
+        # with vectorized=True, nested vmaps over different arguments would
+        # align the axes of unrelated vmaps, because jax does not add an axis to
+        # the arguments which are not batched
 
     # TODO when jax solves this, check version and piggyback on original if new
 
-- 
2.43.0


From 4e91b7478da0d5ffb23e78d1f5b0426538f46be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:06 +0000
Subject: [PATCH 19/25] fix: nan error variance if all predictors are constant

---
 src/bartz/BART.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 14df0db..6663994 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -301,6 +301,9 @@ class gbart:
                     # centering is equivalent to adding an intercept column
                 _, chisq, rank, _ = jnp.linalg.lstsq(x_centered, y_centered)
                 chisq = chisq.squeeze(0)
+                constant = ~jnp.any(x_centered) # lstsq produces nan
+                chisq = jnp.where(constant, y_centered @ y_centered, chisq)
+                rank = jnp.where(constant, 0, rank)
                 dof = len(y_train) - rank
                 sigest2 = chisq / dof
             alpha = sigdf / 2
-- 
2.43.0


From 095633f9431869b84a8f327c643f75fac1c5c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:02 +0000
Subject: [PATCH 20/25] fix: error estimate depended on the units of the
 predictors

---
 src/bartz/BART.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 6663994..279690e 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -299,6 +299,9 @@ class gbart:
                 x_centered = x_train.T - x_train.mean(axis=1)
                 y_centered = y_train - y_train.mean()
                     # centering is equivalent to adding an intercept column
+                x_range = x_centered.max(axis=0) - x_centered.min(axis=0)
+                x_centered = jnp.where(x_range > 0, x_centered / x_range, 0)
+                    # otherwise the rank depends on the units of the predictors
                 _, chisq, rank, _ = jnp.linalg.lstsq(x_centered, y_centered)
                 chisq = chisq.squeeze(0)
                 constant = ~jnp.any(x_centered) # lstsq produces nan
-- 
2.43.0


From 5f62274c271985f708e0849ec41113fb2fbc9521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:52 +0000
Subject: [PATCH 21/25] fix: scale of the response overflowed with small
 integer types

---
 src/bartz/BART.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 279690e..7504166 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -276,6 +276,8 @@ class gbart:
         else:
             fmt = dict(kind='array')
         y = jnp.asarray(y)
+        if not jnp.issubdtype(y.dtype, jnp.floating):
+            y = y.astype(float) # arithmetic on small integers may overflow
         assert y.ndim == 1
         return y, fmt
 
-- 
2.43.0


From 8fffd7efa40b68b1099baeda706d1bad6dd57a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:04 +0000
Subject: [PATCH 22/25] fix: counts of leaves with the same number of points
 overflowed

---
 src/bartz/debug.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/debug.py b/src/bartz/debug.py
index 868ab35..ce2d547 100644
--- a/src/bartz/debug.py
+++ b/src/bartz/debug.py
@@ -86,7 +86,8 @@ def points_per_leaf_distr(var_tree, split_tree, X):
     indices = traverse_tree(X, var_tree, split_tree)
     count_tree = jnp.zeros(2 * split_tree.size, dtype=jaxext.minimal_unsigned_dtype(indices.size))
     count_tree = count_tree.at[indices].add(1)
-    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).view(jnp.uint8)
+    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).astype(int)
+        # the output of bincount has the type of the weights
     return jnp.bincount(count_tree, is_leaf, length=X.shape[1] + 1)
 
 def forest_points_per_leaf_distr(bart, X):
-- 
2.43.0


From 4a21847c3b91e3d78d89ff10822b989c279c06d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:36 +0000
Subject: [PATCH 23/25] fix: wrong predictions at a single point with more than
 256 samples of one tree

The indices of nodes used to read the trees are of the smallest unsigned type
that can represent them. When a single point is evaluated on a single tree in a
loop, XLA merges the lookup with the one that extracts the tree of the current
iteration, and counts iterations with the type of the node index, which
overflows.
---
 src/bartz/grove.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bartz/grove.py b/src/bartz/grove.py
index 71a1db7..4e177f4 100644
--- a/src/bartz/grove.py
+++ b/src/bartz/grove.py
@@ -112,8 +112,11 @@ def traverse_tree(x, var_tree, split_tree):
     def loop(carry, _):
         leaf_found, index = carry
 
-        split = split_tree[index]
-        var = var_tree[index]
+        node = index.astype(jnp.int32)
+            # indexing with a small type goes wrong in loops with more
+            # iterations than the type can count
+        split = split_tree[node]
+        var = var_tree[node]
 
         leaf_found |= split == 0
         child_index = (index << 1) + (x[var] >= split)
-- 
2.43.0


From 833c36223896e730daaa59cb69729a7bea18c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 24/25] fix: wrong tree traversal at one point at a time in
 long loops

Same as the previous commit, for the lookup of the predictor.
---
 src/bartz/grove.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/grove.py b/src/bartz/grove.py
index 4e177f4..7469cac 100644
--- a/src/bartz/grove.py
+++ b/src/bartz/grove.py
@@ -116,7 +116,7 @@ def traverse_tree(x, var_tree, split_tree):
             # indexing with a small type goes wrong in loops with more
             # iterations than the type can count
         split = split_tree[node]
-        var = var_tree[node]
+        var = var_tree[node].astype(jnp.int32)
 
         leaf_found |= split == 0
         child_index = (index << 1) + (x[var] >= split)
-- 
2.43.0


From 52192bcff500e057f9f9134093c1bd2374e03209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:30 +0000
Subject: [PATCH 25/25] fix: reuse the host callbacks of special functions,
 such that repeated fits do not compile them again

---
 src/bartz/jaxext.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index ec33fdc..bf01f76 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -39,6 +39,9 @@ def float_type(*args):
     t = jnp.result_type(*args)
     return jnp.sin(jnp.empty(0, t)).dtype
 
+@functools.lru_cache
+    # cache to make the function object unique, such that jax recognizes host
+    # callbacks it has already compiled
 def castto(func, type):
     @functools.wraps(func)
     def newfunc(*args, **kw):
-- 
2.43.0


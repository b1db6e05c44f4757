From 7b115ca5e657682b890622bf4ded98d7cc7d865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 01/46] fix: str_lcs_seq(return_sim=True) asks for the routine
 the extension exports (pl_lcs_sim)

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index f8c7f46..83a9406 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -594,7 +594,7 @@ def str_lcs_seq(
     """
     if return_sim:
         return pl_plugin(
-            symbol="pl_lcs_seq_sim",
+            symbol="pl_lcs_sim",
             args=[str_to_expr(c), str_to_expr(other), pl.lit(parallel, pl.Boolean)],
         )
     else:
-- 
2.43.0


From 633135463e31dde0d787ac2e8cbb8d3a57bae7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 02/46] fix: similar_to_vocab(metric="jw") no longer passes
 str_jw an argument it does not take

---
 python/polars_ds/exprs/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/string.py b/python/polars_ds/exprs/string.py
index 83a9406..6ac3745 100644
--- a/python/polars_ds/exprs/string.py
+++ b/python/polars_ds/exprs/string.py
@@ -696,7 +696,7 @@ def similar_to_vocab(
     elif metric == "osa":
         sims = [str_osa(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
     elif metric == "jw":
-        sims = [str_jw(c, pl.lit(w, dtype=pl.String), return_sim=True) for w in vocab]
+        sims = [str_jw(c, pl.lit(w, dtype=pl.String)) for w in vocab]
     else:
         raise ValueError(f"Unknown metric: {metric}")
 
-- 
2.43.0


From 20d2db84db9d6a98015431355bad8b6063c75dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 03/46] fix: query_knn_ptwise forwards epsilon instead of
 always using 0

---
 python/polars_ds/exprs/expr_knn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index e331f19..390ac90 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -184,7 +184,7 @@ def query_knn_ptwise(
         "parallel": parallel,
         "skip_eval": skip_eval,
         "max_bound": max_bound,
-        "epsilon": 0.0,
+        "epsilon": epsilon,
     }
     if return_dist:
         return pl_plugin(
-- 
2.43.0


From 99972c55bcf73586da37e49b519f22e38b2dd421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 04/46] fix: drop the skip_data option no native k-d tree
 routine declares

---
 python/polars_ds/exprs/expr_knn.py    | 1 -
 python/polars_ds/exprs/ts_features.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index 390ac90..1b3f954 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -605,6 +605,5 @@ def query_nb_cnt(
             "metric": dist,
             "parallel": parallel,
             "skip_eval": False,
-            "skip_data": False,
         },
     )
diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index be1d257..ff4b950 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -672,7 +672,6 @@ def query_knn_entropy(
             "metric": dist,
             "parallel": parallel,
             "skip_eval": False,
-            "skip_data": False,
         },
         returns_scalar=True,
         pass_name_to_apply=True,
-- 
2.43.0


From ddafe3b10569aa17867cc4c0f0de5484d3a9a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 05/46] fix: random_binomial passes n with the type the native
 routine reads (UInt32)

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 64e6daf..76bcfd4 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -635,7 +635,7 @@ def random_binomial(
         symbol="pl_rand_binomial",
         args=[
             pl.lit(length, pl.UInt32) if isinstance(length, int) else length,
-            pl.lit(n, pl.Int32),
+            pl.lit(n, pl.UInt32),
             pl.lit(p, pl.Float64),
             pl.lit(seed, pl.UInt64),
         ],
-- 
2.43.0


From e67b237ba9d3ff7d6d55cf99a8fecf80ef976768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 06/46] fix: mann_whitney_u returns a scalar

---
 python/polars_ds/exprs/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 76bcfd4..7334b05 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -331,6 +331,7 @@ def mann_whitney_u(
     return pl_plugin(
         symbol="pl_mann_whitney_u",
         args=[u1, u2, mean, ranks.sort(), pl.lit(alternative, dtype=pl.String)],
+        returns_scalar=True,
     )
 
 
-- 
2.43.0


From 308153b32c6189f54f6bbca188a5d72a49163507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 07/46] fix: weighted_corr uses the variance of y

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 7334b05..f7a153e 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -876,7 +876,7 @@ def weighted_corr(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) ->
     w = str_to_expr(weights)
     numerator = weighted_cov(xx, yy, w)
     sxx = w.dot((xx - weighted_mean(xx, w, False)).pow(2))
-    syy = w.dot((xx - weighted_mean(yy, w, False)).pow(2))
+    syy = w.dot((yy - weighted_mean(yy, w, False)).pow(2))
     return numerator * w.sum() / (sxx * syy).sqrt()
 
 
-- 
2.43.0


From b3868e4e89825ce5efed287716cce6f1a67bc0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 08/46] fix: cosine_sim divides by the norms

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index f7a153e..b7c9e9e 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -894,7 +894,7 @@ def cosine_sim(x: str | pl.Expr, y: str | pl.Expr) -> pl.Expr:
     xx, yy = str_to_expr(x), str_to_expr(y)
     x2 = xx.dot(xx).sqrt()
     y2 = yy.dot(yy).sqrt()
-    return xx.dot(yy) / (x2 * y2).sqrt()
+    return xx.dot(yy) / (x2 * y2)
 
 
 def weighted_cosine_sim(x: str | pl.Expr, y: str | pl.Expr, weights: str | pl.Expr) -> pl.Expr:
-- 
2.43.0


From 70db30a1ad0b23dde79053a1be80d7996792bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 09/46] fix: calculate_ndcg groups by the group column it is
 given

---
 python/polars_ds/exprs/metrics.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/polars_ds/exprs/metrics.py b/python/polars_ds/exprs/metrics.py
index 54070b0..a920af0 100644
--- a/python/polars_ds/exprs/metrics.py
+++ b/python/polars_ds/exprs/metrics.py
@@ -725,7 +725,7 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
         >>> print(ndcg)  # Shows the mean NDCG@10 across all users
     """
 
-    ignore_flag = df.group_by("example_id").len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
+    ignore_flag = df.group_by(group_col).len().with_columns(pl.when(pl.col('len')==1).then(1).otherwise(0).alias('is_single_candidate'))
     if ignore_ties:
         dcg_per_group = _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column=score_col, k=k)
     else:
@@ -736,8 +736,8 @@ def calculate_ndcg(df, relevance_col, score_col, group_col, k=None, ignore_ties=
                                                    group_col, sort_by_column=relevance_col, k=k)
     ideal_dcg_per_group = ideal_dcg_per_group.rename({"discounted_relevance": "discounted_ideal_relevance"})
     
-    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on ='example_id')
-    ndcg_df = ndcg_df.join(ignore_flag, on='example_id')
+    ndcg_df = dcg_per_group.join(ideal_dcg_per_group, on =group_col)
+    ndcg_df = ndcg_df.join(ignore_flag, on=group_col)
     
     ndcg_df = ndcg_df.with_columns((pl.col('discounted_relevance')/pl.col('discounted_ideal_relevance')).alias('ndcg'))
     
@@ -845,20 +845,20 @@ def _get_dcg_score_with_ties(df, relevance_col, group_col, sort_by_column, k):
     df = _get_rank_discount_at_k(df, k, group_col)
 
     df = df.with_columns((pl.col(relevance_col) * pl.col("discount")).alias("discounted_relevance"))
-    df = df.with_columns(pl.col('discount').cum_sum().over('example_id').flatten().alias('discount_cumsum'))
+    df = df.with_columns(pl.col('discount').cum_sum().over(group_col).flatten().alias('discount_cumsum'))
     df = df.with_columns(
             pl.col(sort_by_column)
             .rank(method='min', descending=True)
-            .over('example_id')
+            .over(group_col)
             .alias("rank_groups")
         )
 
-    df_diff = df.group_by('example_id', 'rank_groups').agg(pl.col('discount_cumsum').last(), 
+    df_diff = df.group_by(group_col, 'rank_groups').agg(pl.col('discount_cumsum').last(), 
                                                         pl.col(relevance_col).sum(),
                                                           pl.len().alias('num_rows')).sort('rank_groups')
-    df_diff.sort('example_id', 'rank_groups')
+    df_diff.sort(group_col, 'rank_groups')
 
-    df_diff = df_diff.group_by('example_id').agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
+    df_diff = df_diff.group_by(group_col).agg(pl.col('discount_cumsum').diff().alias('discount_diff'), 
                                                  pl.col(relevance_col), 
                                                  pl.col('discount_cumsum'),
                                                  pl.col('rank_groups'), 
-- 
2.43.0


From 09802fea3c1f3f34a25f931af57cbbe5754f547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 10/46] fix: weighted_hmean uses its weights

---
 python/polars_ds/exprs/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index b7c9e9e..87e41cd 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -732,7 +732,7 @@ def weighted_hmean(
     """
     w = str_to_expr(weights)
     x = str_to_expr(var)
-    dot = x.dot(pl.lit(1.0, dtype=pl.Float32) / x)
+    dot = w.dot(1.0 / x)
     if is_normalized:
         return 1.0 / dot
     else:
-- 
2.43.0


From 465298510a07a6d256599a88b1aeadd43d89580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 11/46] fix: explained variance divides by the number of
 samples

---
 python/polars_ds/exprs/num.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 843b783..ea48cba 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -298,7 +298,8 @@ def singular_values(
 
     out = pl_plugin(symbol="pl_singular_values", args=actual_inputs, returns_scalar=True)
     if as_explained_var:
-        out = out.list.eval(pl.element().pow(2) / (pl.count() - 1))
+        n_samples = pl.all_horizontal(f.is_not_null() for f in feats).sum()
+        out = out.list.eval(pl.element().pow(2)) / (n_samples - 1)
     if as_ratio:
         out = out.list.eval(pl.element() / pl.element().sum())
 
-- 
2.43.0


From 3a85845e071368d62035f11022ad422517b9d145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 12/46] fix: gmean and weighted_gmean use Expr.log (polars has
 no Expr.ln)

---
 python/polars_ds/exprs/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/polars_ds/exprs/stats.py b/python/polars_ds/exprs/stats.py
index 87e41cd..20c7276 100644
--- a/python/polars_ds/exprs/stats.py
+++ b/python/polars_ds/exprs/stats.py
@@ -748,7 +748,7 @@ def gmean(var: str | pl.Expr) -> pl.Expr:
     var
         The variable
     """
-    return str_to_expr(var).ln().mean().exp()
+    return str_to_expr(var).log().mean().exp()
 
 
 def weighted_gmean(
@@ -768,9 +768,9 @@ def weighted_gmean(
     """
     x, w = str_to_expr(var), str_to_expr(weights)
     if is_normalized:
-        return (x.ln().dot(w)).exp()
+        return (x.log().dot(w)).exp()
     else:
-        return (x.ln().dot(w) / (w.sum())).exp()
+        return (x.log().dot(w) / (w.sum())).exp()
 
 
 def weighted_mean(
-- 
2.43.0


From b08118ec9e48b22049dd7a571eb8f2ba508c7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:06 +0000
Subject: [PATCH 13/46] fix: query_permute_entropy embeds with the documented
 delay tau

---
 python/polars_ds/exprs/ts_features.py | 29 ++++++++-------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/python/polars_ds/exprs/ts_features.py b/python/polars_ds/exprs/ts_features.py
index ff4b950..04cfc60 100644
--- a/python/polars_ds/exprs/ts_features.py
+++ b/python/polars_ds/exprs/ts_features.py
@@ -761,24 +761,11 @@ def query_permute_entropy(
         raise ValueError("Input `tau` has to be >= 1.")
 
     t = str_to_expr(ts)
-    if tau == 1:  # Fast track the most common use case
-        return (
-            pl.concat_list(t, *(t.shift(-i) for i in range(1, n_dims)))
-            .head(t.len() - n_dims + 1)
-            .list.eval(pl.element().arg_sort())
-            .value_counts()  # groupby and count, but returns a struct
-            .struct.field("count")  # extract the field named "count"
-            .entropy(base=base, normalize=True)
-        )
-    else:
-        return (
-            pl.concat_list(
-                t.gather_every(tau),
-                *(t.shift(-i).gather_every(tau) for i in range(1, n_dims)),
-            )
-            .slice(0, length=(t.len() // tau) + 1 - (n_dims // tau))
-            .list.eval(pl.element().arg_sort())
-            .value_counts()
-            .struct.field("count")
-            .entropy(base=base, normalize=True)
-        )
+    return (
+        pl.concat_list(t, *(t.shift(-i * tau) for i in range(1, n_dims)))
+        .head(t.len() - (n_dims - 1) * tau)
+        .list.eval(pl.element().arg_sort())
+        .value_counts()  # groupby and count, but returns a struct
+        .struct.field("count")  # extract the field named "count"
+        .entropy(base=base, normalize=True)
+    )
-- 
2.43.0


From e03aed324636829261054d3ab03951d24fc8a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:27 +0000
Subject: [PATCH 14/46] fix: within_dist_from(dist='l2') compares the distance,
 not its square, with r

---
 python/polars_ds/exprs/expr_knn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/expr_knn.py b/python/polars_ds/exprs/expr_knn.py
index 1b3f954..4797505 100644
--- a/python/polars_ds/exprs/expr_knn.py
+++ b/python/polars_ds/exprs/expr_knn.py
@@ -364,7 +364,12 @@ def within_dist_from(
             pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).abs() for xi, e in zip(pt, oth))
             <= r
         )
-    elif dist in ("l2", "sql2"):
+    elif dist == "l2":
+        return (
+            pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth)).sqrt()
+            <= r
+        )
+    elif dist == "sql2":
         return (
             pl.sum_horizontal((e - pl.lit(xi, dtype=pl.Float64)).pow(2) for xi, e in zip(pt, oth))
             <= r
-- 
2.43.0


From 129c901f657027c898fa12778b6e1ef9fd88ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 15/46] fix: random_cols uses its seed

---
 python/polars_ds/sample_and_split/sample_and_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 5a0c40c..1850b7d 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -193,7 +193,8 @@ def random_cols(
     if pool_size < k:
         raise ValueError("Not enough columns to select from.")
 
-    n = random.randrange(0, math.comb(pool_size, k))
+    rng = random if seed is None else random.Random(seed)
+    n = rng.randrange(0, math.comb(pool_size, k))
     rand_cols = next(islice(to_sample, n, None), None)
     return out + list(rand_cols)
 
-- 
2.43.0


From ab2a5b2823ab3b64ed953a64d1d277c54c9ba082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 16/46] fix: split_by_ratio accepts ratios that sum to 1 up to
 rounding

---
 python/polars_ds/sample_and_split/sample_and_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 1850b7d..04f8473 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -243,7 +243,7 @@ def split_by_ratio(
         if len(split_ratio) == 1:
             return split_by_ratio(df, split_ratio[0], seed)
         else:
-            if sum(split_ratio) != 1:
+            if not math.isclose(sum(split_ratio), 1.0):
                 raise ValueError("Sum of the ratios is not 1.")
 
             df_eager = (
-- 
2.43.0


From e6454acb6a5610e94aeabe5e52fd69c475fae45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 17/46] fix: split_by_ratio with a list keeps every row

---
 python/polars_ds/sample_and_split/sample_and_split.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/sample_and_split/sample_and_split.py b/python/polars_ds/sample_and_split/sample_and_split.py
index 04f8473..443364e 100644
--- a/python/polars_ds/sample_and_split/sample_and_split.py
+++ b/python/polars_ds/sample_and_split/sample_and_split.py
@@ -257,8 +257,9 @@ def split_by_ratio(
             n = len(df_eager)
             start = 0
             dfs = []
-            for v in split_ratio:
-                length = int(n * v)
+            for i, v in enumerate(split_ratio):
+                # the last split takes the rows left over by rounding
+                length = int(n * v) if i < len(split_ratio) - 1 else n - start
                 dfs.append(
                     df_eager.slice(start, length=length).select(pl.col("*").exclude(["__id", "__tt"]))
                 )
-- 
2.43.0


From b3875b42a989eee1db2a77e10242b8e76184931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 18/46] fix: mode imputation no longer treats the mode as a
 list

---
 python/polars_ds/modeling/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/modeling/transforms.py b/python/polars_ds/modeling/transforms.py
index bf139cc..7b1f98d 100644
--- a/python/polars_ds/modeling/transforms.py
+++ b/python/polars_ds/modeling/transforms.py
@@ -44,7 +44,7 @@ def impute(df: PolarsFrame, cols: List[str], method: SimpleImputeMethod = "mean"
         temp = df.lazy().select(pl.col(cols).median()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     elif method == "mode":
-        temp = df.lazy().select(pl.col(cols).mode().list.first()).collect().row(0)
+        temp = df.lazy().select(pl.col(cols).drop_nulls().mode().first()).collect().row(0)
         return [pl.col(c).fill_null(m) for c, m in zip(cols, temp)]
     else:
         raise ValueError(f"Unknown impute method: `{method}`")
@@ -98,7 +98,7 @@ def conditional_impute(
             df.lazy()
             .select(
                 *(
-                    pl.col(c).filter(rules_dict[c].not_()).mode().list.first()
+                    pl.col(c).filter(rules_dict[c].not_()).drop_nulls().mode().first()
                     for c in rules_dict.keys()
                 )
             )
-- 
2.43.0


From 5780f7a632c19fa911f2f728b323a7dc30e1ae79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 19/46] fix: KDTree.within and within_count return their result
 for a one-element radius array

---
 python/polars_ds/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/spatial.py b/python/polars_ds/spatial.py
index 4210de1..ba4742a 100644
--- a/python/polars_ds/spatial.py
+++ b/python/polars_ds/spatial.py
@@ -152,7 +152,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within(X, rad[0], sort, parallel)
+                return self.within(X, float(rad[0]), sort, return_dist, parallel)
             else:
                 if return_dist:
                     return self.kdt.within_with_dist_vec_r(X, rad, sort, parallel)
@@ -185,7 +185,7 @@ class KDTree:
         elif isinstance(r, np.ndarray):
             rad = np.ravel(r)
             if len(rad) == 1:
-                self.within_count(X, rad[0], parallel)
+                return self.within_count(X, float(rad[0]), parallel)
             else:
                 return self.kdt.within_count_vec_r(X, rad, parallel)
         else:
-- 
2.43.0


From 6165c02cb0465c64f60d2958634c2396ba78ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 20/46] fix: Pipeline.to_json passes its keyword arguments on
 when writing to a file

---
 python/polars_ds/modeling/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/modeling/pipeline.py b/python/polars_ds/modeling/pipeline.py
index cfea244..795314b 100644
--- a/python/polars_ds/modeling/pipeline.py
+++ b/python/polars_ds/modeling/pipeline.py
@@ -147,7 +147,7 @@ class Pipeline:
             return json.dumps(self.to_dict(), **kwargs)
         else:
             with open(path, "w") as f:
-                json.dump(self.to_dict(), f)
+                json.dump(self.to_dict(), f, **kwargs)
 
             return None
 
-- 
2.43.0


From 3b9c81615e68935ba879b5131e32dbf49e9cc27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 21/46] fix: LR.bias and OnlineLR.bias return the bias

---
 python/polars_ds/linear_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index 62900cf..b3beef6 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -187,7 +187,7 @@ class LR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def fit(self, X: np.ndarray, y: np.ndarray, null_policy: NullPolicy = "ignore") -> Self:
         """
@@ -574,7 +574,7 @@ class OnlineLR:
         return self._lr.coeffs
 
     def bias(self) -> float:
-        self._lr.bias
+        return self._lr.bias
 
     def inv(self) -> np.ndarray:
         """
-- 
2.43.0


From 40c3e9bb3a77e7e32457fbe9710956a16d88eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 22/46] fix: OnlineLR.fit accepts a 1-d target, as documented

---
 python/polars_ds/linear_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/linear_models.py b/python/polars_ds/linear_models.py
index b3beef6..f19a70d 100644
--- a/python/polars_ds/linear_models.py
+++ b/python/polars_ds/linear_models.py
@@ -598,7 +598,7 @@ class OnlineLR:
                 "Online regression currently must fit without null for the initial fit."
             )
 
-        self._lr.fit(X, y)
+        self._lr.fit(X, y.reshape((-1, 1)))
         return self
 
     def update(self, X: np.ndarray, y: np.ndarray | float, c: float = 1.0) -> Self:
-- 
2.43.0


From a5e8ce6ae68c1745b2c96078e0f469fbc3a3eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 23/46] fix: an unfitted regression model with a bias reports
 that it is not fitted instead of panicking

---
 src/linalg/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 36f3899..3500c2a 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -107,7 +107,7 @@ pub trait LinearRegression<T: RealField + Float> {
     fn has_bias(&self) -> bool;
 
     fn bias(&self) -> T {
-        if self.has_bias() {
+        if self.has_bias() && self.is_fit() {
             let n = self.fitted_values().nrows() - 1;
             *self.fitted_values().get(n, 0)
         } else {
@@ -118,7 +118,7 @@ pub trait LinearRegression<T: RealField + Float> {
     /// Returns a copy of the coefficients
 
     fn coefficients(&self) -> MatRef<T> {
-        if self.has_bias() {
+        if self.has_bias() && self.is_fit() {
             let n = self.fitted_values().nrows() - 1;
             self.fitted_values().get(0..n, ..)
         } else {
@@ -142,7 +142,7 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn is_fit(&self) -> bool {
-        !(self.coefficients().shape() == (0, 0))
+        !(self.fitted_values().shape() == (0, 0))
     }
 
     fn coeffs_as_vec(&self) -> Result<Vec<T>, LinalgErrors> {
@@ -166,10 +166,10 @@ pub trait LinearRegression<T: RealField + Float> {
     }
 
     fn predict(&self, X: MatRef<T>) -> Result<Mat<T>, LinalgErrors> {
-        if X.ncols() != self.coefficients().nrows() {
-            Err(LinalgErrors::DimensionMismatch)
-        } else if !self.is_fit() {
+        if !self.is_fit() {
             Err(LinalgErrors::MatNotLearnedYet)
+        } else if X.ncols() != self.coefficients().nrows() {
+            Err(LinalgErrors::DimensionMismatch)
         } else {
             let mut result = X * self.coefficients();
             let bias = self.bias();
-- 
2.43.0


From 0373ee7172228d50c6e9fd0a7c6d8c2c153879ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 24/46] fix: OnlineLR with a bias accepts the inverse that
 covers its bias column

---
 src/linalg/lr_online_solvers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/linalg/lr_online_solvers.rs b/src/linalg/lr_online_solvers.rs
index 6538a96..7aaa9a4 100644
--- a/src/linalg/lr_online_solvers.rs
+++ b/src/linalg/lr_online_solvers.rs
@@ -38,10 +38,13 @@ impl<T: RealField + Float> OnlineLR<T> {
         bias: T,
         inv: MatRef<T>,
     ) -> Result<(), LinalgErrors> {
-        if coeffs.len() != inv.ncols() {
+        // The inverse covers the bias column, if there is one.
+        let has_bias = bias.abs() > T::epsilon();
+        let n = coeffs.len() + has_bias as usize;
+        if inv.nrows() != n || inv.ncols() != n {
             Err(LinalgErrors::DimensionMismatch)
         } else {
-            self.has_bias = bias.abs() > T::epsilon();
+            self.has_bias = has_bias;
             if self.has_bias {
                 self.coefficients = Mat::from_fn(coeffs.len() + 1, 1, |i, _| {
                     if i < coeffs.len() {
-- 
2.43.0


From 3c588c4ecc454615cb0063bec92ba733d29d7c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 25/46] fix: DIA.infer_prob looks at every row of a list
 column, not only the first

---
 python/polars_ds/eda/diagnosis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/polars_ds/eda/diagnosis.py b/python/polars_ds/eda/diagnosis.py
index 07257ef..b5398fc 100644
--- a/python/polars_ds/eda/diagnosis.py
+++ b/python/polars_ds/eda/diagnosis.py
@@ -507,7 +507,9 @@ class DIA:
                         & (
                             pl.col(c).list.len().min() == pl.col(c).list.len().max()
                         )  # class prob column must have the same length
-                    ).alias(c)
+                    )
+                    .all()
+                    .alias(c)
                     for c in self.list_floats
                 ),
             )
-- 
2.43.0


From 907fb1d92be8d6eb023b9edfe0be08f5a378e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 26/46] fix: a null single value in two-column functions gives
 nulls instead of a panic

---
 src/num_ext/gcd_lcm.rs       | 10 ++++++++--
 src/num_ext/haversine.rs     |  6 ++++--
 src/str_ext/fuzz.rs          |  5 ++++-
 src/str_ext/hamming.rs       | 15 ++++++++++++---
 src/str_ext/jaro.rs          | 10 ++++++++--
 src/str_ext/lcs_seq.rs       | 10 ++++++++--
 src/str_ext/levenshtein.rs   | 25 ++++++++++++++++++++-----
 src/str_ext/osa.rs           | 10 ++++++++--
 src/str_ext/overlap.rs       |  5 ++++-
 src/str_ext/sorensen_dice.rs |  5 ++++-
 src/str_ext/str_jaccard.rs   |  5 ++++-
 src/str_ext/tversky.rs       |  5 ++++-
 12 files changed, 88 insertions(+), 23 deletions(-)

diff --git a/src/num_ext/gcd_lcm.rs b/src/num_ext/gcd_lcm.rs
index 30532dd..732f973 100644
--- a/src/num_ext/gcd_lcm.rs
+++ b/src/num_ext/gcd_lcm.rs
@@ -8,7 +8,10 @@ fn pl_gcd(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
+        let b = match ca2.get(0) {
+            Some(b) => b,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Int32)),
+        };
         let out: Int32Chunked = ca1.apply_values(|a| num::integer::gcd(a, b));
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
@@ -26,7 +29,10 @@ fn pl_lcm(inputs: &[Series]) -> PolarsResult<Series> {
     let ca1 = inputs[0].i32()?;
     let ca2 = inputs[1].i32()?;
     if ca2.len() == 1 {
-        let b = ca2.get(0).unwrap();
+        let b = match ca2.get(0) {
+            Some(b) => b,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Int32)),
+        };
         let out: Int32Chunked = ca1.apply_values(|a| num::integer::lcm(a, b));
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
diff --git a/src/num_ext/haversine.rs b/src/num_ext/haversine.rs
index 16130ff..2c10ed0 100644
--- a/src/num_ext/haversine.rs
+++ b/src/num_ext/haversine.rs
@@ -14,8 +14,10 @@ where
     T::Native: Float,
 {
     if (y_lat.len() == y_long.len()) && (y_lat.len() == 1) {
-        let e_lat = y_lat.get(0).unwrap();
-        let e_long = y_long.get(0).unwrap();
+        let (e_lat, e_long) = match (y_lat.get(0), y_long.get(0)) {
+            (Some(lat), Some(long)) => (lat, long),
+            _ => return Ok(ChunkedArray::full_null(x_lat.name().clone(), x_lat.len())),
+        };
         let out: ChunkedArray<T> = x_lat
             .into_iter()
             .zip(x_long.into_iter())
diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 48f92bc..5364460 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -20,7 +20,10 @@ fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let batched = RatioBatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/hamming.rs b/src/str_ext/hamming.rs
index a7642c4..d84ff0a 100644
--- a/src/str_ext/hamming.rs
+++ b/src/str_ext/hamming.rs
@@ -29,7 +29,10 @@ fn pl_hamming(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32)),
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -119,7 +122,10 @@ fn pl_hamming_padded(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let can_parallel = parallel && !context.parallel();
     let padding = hamming::Args::default().pad(true);
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32)),
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: UInt32Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -176,7 +182,10 @@ fn pl_hamming_filter(inputs: &[Series], context: CallerContext) -> PolarsResult<
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Boolean)),
+        };
         let batched = hamming::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             POOL.install(|| {
diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 441c64c..3bfbcae 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -33,7 +33,10 @@ fn pl_jaro(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let batched = jaro::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -55,7 +58,10 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let batched = jaro_winkler::BatchComparator::new(r.chars());
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
diff --git a/src/str_ext/lcs_seq.rs b/src/str_ext/lcs_seq.rs
index e09424f..6f94d83 100644
--- a/src/str_ext/lcs_seq.rs
+++ b/src/str_ext/lcs_seq.rs
@@ -23,7 +23,10 @@ fn pl_lcs_seq(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32)),
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +46,10 @@ fn pl_lcs_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let batched = lcs_seq::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 4a56040..94377b6 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -50,7 +50,10 @@ fn pl_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32)),
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -72,7 +75,10 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Boolean)),
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
@@ -135,7 +141,10 @@ fn pl_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResult
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let batched = levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -155,7 +164,10 @@ fn pl_d_levenshtein(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32)),
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -180,7 +192,10 @@ fn pl_d_levenshtein_sim(inputs: &[Series], context: CallerContext) -> PolarsResu
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let batched = damerau_levenshtein::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/osa.rs b/src/str_ext/osa.rs
index 3496955..8ee5b6c 100644
--- a/src/str_ext/osa.rs
+++ b/src/str_ext/osa.rs
@@ -23,7 +23,10 @@ fn pl_osa(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::UInt32)),
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_distance(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
@@ -43,7 +46,10 @@ fn pl_osa_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Series>
     let parallel = parallel.get(0).unwrap();
     let can_parallel = parallel && !context.parallel();
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let batched = osa::BatchComparator::new(r.chars());
         Ok(generic_batched_sim(batched, ca1, can_parallel))
     } else if ca1.len() == ca2.len() {
diff --git a/src/str_ext/overlap.rs b/src/str_ext/overlap.rs
index 67e4580..1b0b227 100644
--- a/src/str_ext/overlap.rs
+++ b/src/str_ext/overlap.rs
@@ -32,7 +32,10 @@ fn pl_overlap_coeff(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/sorensen_dice.rs b/src/str_ext/sorensen_dice.rs
index f3e9a79..19a4486 100644
--- a/src/str_ext/sorensen_dice.rs
+++ b/src/str_ext/sorensen_dice.rs
@@ -32,7 +32,10 @@ fn pl_sorensen_dice(inputs: &[Series], context: CallerContext) -> PolarsResult<S
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/str_jaccard.rs b/src/str_ext/str_jaccard.rs
index 891e723..e2a63d4 100644
--- a/src/str_ext/str_jaccard.rs
+++ b/src/str_ext/str_jaccard.rs
@@ -33,7 +33,10 @@ fn pl_str_jaccard(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap(); // .unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
diff --git a/src/str_ext/tversky.rs b/src/str_ext/tversky.rs
index 936f7ff..b160482 100644
--- a/src/str_ext/tversky.rs
+++ b/src/str_ext/tversky.rs
@@ -41,7 +41,10 @@ fn pl_tversky_sim(inputs: &[Series], context: CallerContext) -> PolarsResult<Ser
     let can_parallel = parallel && !context.parallel();
 
     if ca2.len() == 1 {
-        let r = ca2.get(0).unwrap();
+        let r = match ca2.get(0) {
+            Some(r) => r,
+            None => return Ok(Series::full_null(ca1.name().clone(), ca1.len(), &DataType::Float64)),
+        };
         let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
-- 
2.43.0


From ab4181e415e428b2e60b5c3e1175df09f2631b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 27/46] fix: pairwise pl_jw and pl_levenshtein_filter enter the
 pool only when the engine is not already parallel

---
 src/str_ext/jaro.rs        | 2 +-
 src/str_ext/levenshtein.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/jaro.rs b/src/str_ext/jaro.rs
index 3bfbcae..5093ab5 100644
--- a/src/str_ext/jaro.rs
+++ b/src/str_ext/jaro.rs
@@ -88,7 +88,7 @@ fn pl_jw(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-        let out: Float64Chunked = if parallel {
+        let out: Float64Chunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
diff --git a/src/str_ext/levenshtein.rs b/src/str_ext/levenshtein.rs
index 94377b6..e453754 100644
--- a/src/str_ext/levenshtein.rs
+++ b/src/str_ext/levenshtein.rs
@@ -109,7 +109,7 @@ fn pl_levenshtein_filter(inputs: &[Series], context: CallerContext) -> PolarsRes
         };
         Ok(out.into_series())
     } else if ca1.len() == ca2.len() {
-        let out: BooleanChunked = if parallel {
+        let out: BooleanChunked = if can_parallel {
             let n_threads = POOL.current_num_threads();
             let splits = split_offsets(ca1.len(), n_threads);
             let chunks_iter = splits.into_par_iter().map(|(offset, len)| {
-- 
2.43.0


From d0269d2405179e7feb8bda975dcbc95c643f1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 28/46] fix: pl_fuzz declares Float64 and pl_rand_str String,
 the types they return

---
 src/stats/sample.rs | 2 +-
 src/str_ext/fuzz.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index e95c2db..d3eacb0 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -184,7 +184,7 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
     }
 }
 
-#[polars_expr(output_type=Float64)]
+#[polars_expr(output_type=String)]
 fn pl_rand_str(inputs: &[Series]) -> PolarsResult<Series> {
     let len = inputs[0].u32()?;
     let len = len.get(0).unwrap() as usize;
diff --git a/src/str_ext/fuzz.rs b/src/str_ext/fuzz.rs
index 5364460..16924ba 100644
--- a/src/str_ext/fuzz.rs
+++ b/src/str_ext/fuzz.rs
@@ -12,7 +12,7 @@ use pyo3_polars::{
 };
 use rapidfuzz::fuzz::{ratio, RatioBatchComparator};
 
-#[polars_expr(output_type=UInt32)]
+#[polars_expr(output_type=Float64)]
 fn pl_fuzz(inputs: &[Series], context: CallerContext) -> PolarsResult<Series> {
     let ca1 = inputs[0].str()?;
     let ca2 = inputs[1].str()?;
-- 
2.43.0


From 4d21663eb0905550a8066035a2c0d24222ce5f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 29/46] fix: the binary metrics return the struct they declare
 when there is no positive, under the declared field names

---
 src/num_ext/tp_fp.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 3bf7de3..6ba71bd 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -9,8 +9,8 @@ fn combo_output(_: &[Field]) -> PolarsResult<Field> {
     let precision = Field::new("precision".into(), DataType::Float64);
     let recall = Field::new("recall".into(), DataType::Float64);
     let f = Field::new("f".into(), DataType::Float64);
-    let avg_precision = Field::new("avg_precision".into(), DataType::Float64);
-    let v: Vec<Field> = vec![precision, recall, f, avg_precision, roc_auc];
+    let average_precision = Field::new("average_precision".into(), DataType::Float64);
+    let v: Vec<Field> = vec![precision, recall, f, average_precision, roc_auc];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
@@ -98,7 +98,10 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     let positive_count = actual.sum::<u32>().unwrap_or(0);
     if positive_count == 0 {
-        return Ok(Series::from_iter([f64::NAN]));
+        let nans = ["precision", "recall", "f", "average_precision", "roc_auc"]
+            .map(|name| Series::from_vec(name.into(), vec![f64::NAN]));
+        let out = StructChunked::from_series("metrics".into(), 1, nans.iter())?;
+        return Ok(out.into_series());
     }
 
     let mut binding = tp_fp_frame(predicted, actual, positive_count, true)?.collect()?;
@@ -161,12 +164,17 @@ fn pl_tpr_fpr(inputs: &[Series]) -> PolarsResult<Series> {
     let positive_cnt = actual.sum::<u32>().unwrap_or(0);
 
     if positive_cnt == 0 {
+        let threshold = Series::from_vec("threshold".into(), vec![f64::NAN]);
         let tpr = Series::from_vec("tpr".into(), vec![f64::NAN]);
         let fpr = Series::from_vec("fpr".into(), vec![f64::NAN]);
         let ca = StructChunked::from_columns(
             "tpr_fpr".into(),
             1,
-            &[tpr.into_column(), fpr.into_column()],
+            &[
+                threshold.into_column(),
+                tpr.into_column(),
+                fpr.into_column(),
+            ],
         )?;
         Ok(ca.into_series())
     } else {
-- 
2.43.0


From ca0b8dfdfac3dd9cdbc0085066b3a43ebcfb252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 30/46] fix: query_mcc computes products of counts in f64,
 where they do not overflow

---
 src/num_ext/tp_fp.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 6ba71bd..c68476f 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -206,17 +206,15 @@ fn pl_mcc(inputs: &[Series]) -> PolarsResult<Series> {
     let combined_series = combined_series.u32()?;
     let cm = binary_confusion_matrix(combined_series);
 
-    let n00 = cm[0];
-    let n01 = cm[1];
-    let n10 = cm[2];
-    let n11 = cm[3];
+    // The products below overflow u32 on frames with more than 131k rows
+    let [n00, n01, n10, n11] = cm.map(|n| n as f64);
 
-    let n1_ = (n11 + n10) as f64;
-    let n_1 = (n11 + n01) as f64;
-    let n0_ = (n01 + n00) as f64;
-    let n_0 = (n10 + n00) as f64;
+    let n1_ = n11 + n10;
+    let n_1 = n11 + n01;
+    let n0_ = n01 + n00;
+    let n_0 = n10 + n00;
 
-    let phi = ((n11 * n00) as f64 - (n10 * n01) as f64) / (n1_ * n_1 * n0_ * n_0).sqrt();
+    let phi = (n11 * n00 - n10 * n01) / (n1_ * n_1 * n0_ * n_0).sqrt();
     Ok(Series::from_iter([phi]))
 }
 
-- 
2.43.0


From b507aaace4b6403e2b899dbfa27d863d3a537552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 31/46] fix: float functions of integer columns return the
 declared Float64, and fract keeps their nulls

---
 src/num_ext/float_extras.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/num_ext/float_extras.rs b/src/num_ext/float_extras.rs
index c9b56fe..9d10c0e 100644
--- a/src/num_ext/float_extras.rs
+++ b/src/num_ext/float_extras.rs
@@ -32,28 +32,28 @@ fn expit<T: Float>(x: T) -> T {
     T::one() / (T::one() + (-x).exp())
 }
 
-fn cast_and_apply_logit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(logit::<f32>)
+fn cast_and_apply_logit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(logit::<f64>)
 }
 
-fn cast_and_apply_expit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(expit::<f32>)
+fn cast_and_apply_expit<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(expit::<f64>)
 }
 
-fn cast_and_apply_gamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::gamma)
+fn cast_and_apply_gamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::gamma)
 }
 
-fn cast_and_apply_exp2<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::exp2)
+fn cast_and_apply_exp2<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::exp2)
 }
 
-fn cast_and_apply_next_up<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::next_up)
+fn cast_and_apply_next_up<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::next_up)
 }
 
-fn cast_and_apply_next_down<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float32Chunked {
-    ca.cast_and_apply_in_place(f32::next_down)
+fn cast_and_apply_next_down<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
+    ca.cast_and_apply_in_place(f64::next_down)
 }
 
 fn cast_and_apply_diagamma<T: PolarsNumericType>(ca: &ChunkedArray<T>) -> Float64Chunked {
@@ -200,7 +200,8 @@ fn pl_fract(inputs: &[Series]) -> PolarsResult<Series> {
     let s = &inputs[0];
 
     if s.dtype().is_integer() {
-        Ok(Series::from_vec(s.name().clone(), vec![0f32; s.len()]))
+        let ca = s.cast(&DataType::Float64)?;
+        Ok(ca.f64().unwrap().apply_values(f64::fract).into_series())
     } else {
         if s.dtype() == &DataType::Float64 {
             let ca = s.f64().unwrap();
-- 
2.43.0


From 20829c7a6bf52bf2daed53d9e30a170cae87c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 32/46] fix: the discrete PSI report declares its categories

---
 src/num_ext/psi.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/num_ext/psi.rs b/src/num_ext/psi.rs
index d80790f..8de318e 100644
--- a/src/num_ext/psi.rs
+++ b/src/num_ext/psi.rs
@@ -11,6 +11,16 @@ fn psi_report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("psi_report".into(), DataType::Struct(v)))
 }
 
+fn psi_discrete_report_output(fields: &[Field]) -> PolarsResult<Field> {
+    let baseline_cat = Field::new("baseline_category".into(), fields[2].dtype().clone());
+    let actual_cat = Field::new("actual_category".into(), fields[0].dtype().clone());
+    let baseline_pct = Field::new("baseline_pct".into(), DataType::Float64);
+    let actual_pct = Field::new("actual_pct".into(), DataType::Float64);
+    let psi_bins = Field::new("psi_bin".into(), DataType::Float64);
+    let v: Vec<Field> = vec![baseline_cat, actual_cat, baseline_pct, actual_pct, psi_bins];
+    Ok(Field::new("psi_report".into(), DataType::Struct(v)))
+}
+
 /// Computes counts in each bucket given by the breakpoints in
 /// a PSI computation. This returns the count for the first series
 /// and the count for the second series.
@@ -117,7 +127,7 @@ fn pl_psi_report(inputs: &[Series]) -> PolarsResult<Series> {
 }
 
 /// Discrete PSI report
-#[polars_expr(output_type_func=psi_report_output)]
+#[polars_expr(output_type_func=psi_discrete_report_output)]
 fn pl_psi_discrete_report(inputs: &[Series]) -> PolarsResult<Series> {
     let df1 = df!(
         "actual_cat" => &inputs[0], // data cats
-- 
2.43.0


From 0ed8d528693b49c94bf08424708c3a246afe969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:33 +0000
Subject: [PATCH 33/46] fix: linear regression declares the field names and the
 targets it returns

---
 src/num_ext/linear_regression.rs     | 46 ++++++++++++++++++++++------
 src/num_ext/linear_regression_f32.rs | 46 ++++++++++++++++++++++------
 2 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 8e5a4cb..18fc317 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -52,10 +52,10 @@ pub(crate) struct SWWLstsqKwargs {
     pub(crate) min_size: usize,
 }
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_fields(std_err: PlSmallStr) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float64); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float64); // Std Err for this coefficient
+    let stderr = Field::new(std_err, DataType::Float64); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float64); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float64); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float64); // CI lower bound at 0.025
@@ -66,6 +66,15 @@ fn report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
 }
 
+// The standard error column is named after its type
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(StandardError::from(kwargs.std_err).into())
+}
+
+fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
+    report_fields(StandardError::SE.into())
+}
+
 fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float64);
     let residue = Field::new("resid".into(), DataType::Float64);
@@ -75,7 +84,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float64)));
-    let pred = Field::new("prediction".into(), DataType::Float64);
+    let pred = Field::new("pred".into(), DataType::Float64);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
@@ -90,6 +99,26 @@ fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
+// One field of coefficients per target
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v: Vec<Field> = fields
+        .iter()
+        .take(kwargs.last_target_idx)
+        .map(|f| Field::new(f.name().clone(), DataType::List(Box::new(DataType::Float64))))
+        .collect();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+// Prediction and residue for each target
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let mut v: Vec<Field> = Vec::with_capacity(kwargs.last_target_idx * 2);
+    for f in fields.iter().take(kwargs.last_target_idx) {
+        v.push(Field::new(format!("{}_pred", f.name()).into(), DataType::Float64));
+        v.push(Field::new(format!("{}_resid", f.name()).into(), DataType::Float64));
+    }
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
         "coeffs".into(),
@@ -344,9 +373,7 @@ fn pl_lstsq(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -394,8 +421,7 @@ fn pl_lstsq_multi(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<S
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -573,7 +599,7 @@ fn pl_lstsq_pred(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -731,7 +757,7 @@ fn pl_lin_reg_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index 7526fea..a00ad58 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -27,10 +27,10 @@ use polars::prelude as pl;
 use polars::prelude::*;
 use pyo3_polars::derive::polars_expr;
 
-fn report_output(_: &[Field]) -> PolarsResult<Field> {
+fn report_fields(std_err: PlSmallStr) -> PolarsResult<Field> {
     let features = Field::new("features".into(), DataType::String); // index of feature
     let beta = Field::new("beta".into(), DataType::Float32); // estimated value for this coefficient
-    let stderr = Field::new("std_err".into(), DataType::Float32); // Std Err for this coefficient
+    let stderr = Field::new(std_err, DataType::Float32); // Std Err for this coefficient
     let t = Field::new("t".into(), DataType::Float32); // t value for this coefficient
     let p = Field::new("p>|t|".into(), DataType::Float32); // p value for this coefficient
     let ci_lower = Field::new("0.025".into(), DataType::Float32); // CI lower bound at 0.025
@@ -41,6 +41,15 @@ fn report_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("lin_reg_report".into(), DataType::Struct(v)))
 }
 
+// The standard error column is named after its type
+fn report_output(_: &[Field], kwargs: LstsqKwargs) -> PolarsResult<Field> {
+    report_fields(StandardError::from(kwargs.std_err).into())
+}
+
+fn wls_report_output(_: &[Field]) -> PolarsResult<Field> {
+    report_fields(StandardError::SE.into())
+}
+
 fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
     let pred = Field::new("pred".into(), DataType::Float32);
     let residue = Field::new("resid".into(), DataType::Float32);
@@ -50,7 +59,7 @@ fn pred_residue_output(_: &[Field]) -> PolarsResult<Field> {
 
 fn coeff_pred_output(_: &[Field]) -> PolarsResult<Field> {
     let coeffs = Field::new("coeffs".into(), DataType::List(Box::new(DataType::Float32)));
-    let pred = Field::new("prediction".into(), DataType::Float32);
+    let pred = Field::new("pred".into(), DataType::Float32);
     let v: Vec<Field> = vec![coeffs, pred];
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
@@ -65,6 +74,26 @@ fn coeff_singular_values_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new("".into(), DataType::Struct(v)))
 }
 
+// One field of coefficients per target
+fn multi_coeff_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let v: Vec<Field> = fields
+        .iter()
+        .take(kwargs.last_target_idx)
+        .map(|f| Field::new(f.name().clone(), DataType::List(Box::new(DataType::Float32))))
+        .collect();
+    Ok(Field::new("coeffs".into(), DataType::Struct(v)))
+}
+
+// Prediction and residue for each target
+fn multi_pred_residue_output(fields: &[Field], kwargs: MultiLstsqKwargs) -> PolarsResult<Field> {
+    let mut v: Vec<Field> = Vec::with_capacity(kwargs.last_target_idx * 2);
+    for f in fields.iter().take(kwargs.last_target_idx) {
+        v.push(Field::new(format!("{}_pred", f.name()).into(), DataType::Float32));
+        v.push(Field::new(format!("{}_resid", f.name()).into(), DataType::Float32));
+    }
+    Ok(Field::new("all_preds".into(), DataType::Struct(v)))
+}
+
 fn coeff_output(_: &[Field]) -> PolarsResult<Field> {
     Ok(Field::new(
         "coeffs".into(),
@@ -286,9 +315,7 @@ fn pl_lstsq_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series>
     }
 }
 
-// Strictly speaking, this output type is not correct. Should be struct of last_target_idx many
-// coeff_outputs
-#[polars_expr(output_type_func=coeff_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_coeff_output)]
 fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -340,8 +367,7 @@ fn pl_lstsq_multi_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResu
     Ok(df_out.into_struct("coeffs".into()).into_series())
 }
 
-// Strictly speaking, this output type is not correct.
-#[polars_expr(output_type_func=pred_residue_output)]
+#[polars_expr(output_type_func_with_kwargs=multi_pred_residue_output)]
 fn pl_lstsq_multi_pred_f32(inputs: &[Series], kwargs: MultiLstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let solver = kwargs.solver.as_str().into();
@@ -522,7 +548,7 @@ fn pl_lstsq_pred_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Ser
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func_with_kwargs=report_output)]
 fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let se_type = StandardError::from(kwargs.std_err);
@@ -679,7 +705,7 @@ fn pl_lin_reg_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult
     }
 }
 
-#[polars_expr(output_type_func=report_output)]
+#[polars_expr(output_type_func=wls_report_output)]
 fn pl_wls_report_f32(inputs: &[Series], kwargs: LstsqKwargs) -> PolarsResult<Series> {
     let has_bias = kwargs.bias;
     let null_policy = NullPolicy::try_from(kwargs.null_policy)
-- 
2.43.0


From 7faafbc0b6b388728d51cdaea985c3aa4750626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 34/46] fix: mann_whitney_u left the last run of tied ranks out
 of the tie correction

---
 src/stats/mann_whitney_u.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stats/mann_whitney_u.rs b/src/stats/mann_whitney_u.rs
index 1d3c390..d5ecf5d 100644
--- a/src/stats/mann_whitney_u.rs
+++ b/src/stats/mann_whitney_u.rs
@@ -18,7 +18,8 @@ fn mann_whitney_tie_sum(ranks: &Float64Chunked) -> f64 {
             rank_cnt = 1.0;
         }
     }
-    accumulant
+    // the last run of equal ranks
+    accumulant + rank_cnt * (rank_cnt + 1.0) * (rank_cnt - 1.0)
 }
 
 #[polars_expr(output_type_func=simple_stats_output)]
-- 
2.43.0


From 4ffe5859f2c29de17c50000876e8866c9fc4ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 35/46] fix: KDTree radius queries panicked on points of
 another dimension

---
 src/pymodels/py_kdt.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/pymodels/py_kdt.rs b/src/pymodels/py_kdt.rs
index d43811e..2d88156 100644
--- a/src/pymodels/py_kdt.rs
+++ b/src/pymodels/py_kdt.rs
@@ -158,6 +158,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
                 return Err(LinalgErrors::Other(
@@ -216,6 +219,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             if parallel && nrows > 16 {
@@ -260,6 +266,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
@@ -322,6 +331,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             if parallel && nrows > 16 {
@@ -372,6 +384,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
 
             let output: Vec<i32> = if parallel && nrows > 32 {
@@ -403,6 +418,9 @@ impl PyKDT {
         if X.is_c_contiguous() && !X.is_empty() {
             let nrows = X.shape()[0];
             let ncols = X.shape()[1];
+            if ncols != self.kdt.dim() {
+                return Err(LinalgErrors::DimensionMismatch.into());
+            }
             let matrix_slice = X.as_slice().unwrap();
             let radius = r.as_slice().map_err(|e| PyErr::from(e))?;
             if radius.len() != nrows {
-- 
2.43.0


From 8519c6ee043c1a07ba086e7f6ceea1e956e68741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 36/46] fix: OnlineLR.update panicked when unfitted or on
 mismatched shapes

---
 src/pymodels/py_lr.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pymodels/py_lr.rs b/src/pymodels/py_lr.rs
index bac5891..52f73ec 100644
--- a/src/pymodels/py_lr.rs
+++ b/src/pymodels/py_lr.rs
@@ -211,10 +211,22 @@ impl PyOnlineLR {
         }
     }
 
-    pub fn update(&mut self, X: PyReadonlyArray2<f64>, y: PyReadonlyArray2<f64>, c: f64) {
+    pub fn update(
+        &mut self,
+        X: PyReadonlyArray2<f64>,
+        y: PyReadonlyArray2<f64>,
+        c: f64,
+    ) -> PyResult<()> {
         let x = X.as_array().into_faer();
         let y = y.as_array().into_faer();
+        if !self.lr.is_fit() {
+            return Err(LinalgErrors::MatNotLearnedYet.into());
+        }
+        if x.ncols() != self.lr.coefficients().nrows() || x.nrows() != y.nrows() || y.ncols() != 1 {
+            return Err(LinalgErrors::DimensionMismatch.into());
+        }
         self.lr.update(x, y, c);
+        Ok(())
     }
 
     pub fn set_coeffs_bias_inverse(
-- 
2.43.0


From 0c0f7df8fdd98ae41b9819b4aa0bd5dee3eabca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 37/46] fix: rolling and recursive regression panicked when the
 window exceeds the data

---
 src/num_ext/linear_regression.rs     | 10 ++++++++++
 src/num_ext/linear_regression_f32.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/num_ext/linear_regression.rs b/src/num_ext/linear_regression.rs
index 18fc317..7d5d960 100644
--- a/src/num_ext/linear_regression.rs
+++ b/src/num_ext/linear_regression.rs
@@ -902,6 +902,11 @@ fn pl_recursive_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult
     // Target y is at index 0
     match series_to_mat_for_lstsq(inputs, has_bias, null_policy) {
         Ok((mat, mask)) => {
+            if mat.nrows() < n {
+                return Err(PolarsError::ComputeError(
+                    "#Data < `start_with`. No conclusive result.".into(),
+                ));
+            }
             // Solving Least Square
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
@@ -998,6 +1003,11 @@ fn pl_rolling_lstsq(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResult<S
     // Target y is at index 0
     match series_to_mat_for_lstsq(inputs, has_bias, null_policy) {
         Ok((mat, mask)) => {
+            if mat.nrows() < n {
+                return Err(PolarsError::ComputeError(
+                    "#Data < `window_size`. No conclusive result.".into(),
+                ));
+            }
             let should_skip = match null_policy {
                 NullPolicy::SKIP_WINDOW | NullPolicy::FILL_WINDOW(_) => (!&mask).any(),
                 _ => false, // raise, ignore
diff --git a/src/num_ext/linear_regression_f32.rs b/src/num_ext/linear_regression_f32.rs
index a00ad58..4d51f2b 100644
--- a/src/num_ext/linear_regression_f32.rs
+++ b/src/num_ext/linear_regression_f32.rs
@@ -850,6 +850,11 @@ fn pl_recursive_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsRe
     // Target y is at index 0
     match series_to_mat_for_lstsq_f32(inputs, has_bias, null_policy) {
         Ok((mat, mask)) => {
+            if mat.nrows() < n {
+                return Err(PolarsError::ComputeError(
+                    "#Data < `start_with`. No conclusive result.".into(),
+                ));
+            }
             // Solving Least Square
             let x = mat.slice(s![.., 1..]).into_faer();
             let y = mat.slice(s![.., 0..1]).into_faer();
@@ -946,6 +951,11 @@ fn pl_rolling_lstsq_f32(inputs: &[Series], kwargs: SWWLstsqKwargs) -> PolarsResu
     // Target y is at index 0
     match series_to_mat_for_lstsq_f32(inputs, has_bias, null_policy) {
         Ok((mat, mask)) => {
+            if mat.nrows() < n {
+                return Err(PolarsError::ComputeError(
+                    "#Data < `window_size`. No conclusive result.".into(),
+                ));
+            }
             let should_skip = match null_policy {
                 NullPolicy::SKIP_WINDOW | NullPolicy::FILL_WINDOW(_) => (!&mask).any(),
                 _ => false, // raise, ignore
-- 
2.43.0


From 04710705297e1496bfa71e6086e215ebda15ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:34 +0000
Subject: [PATCH 38/46] fix: random and random_normal panicked on invalid
 parameters

---
 src/stats/sample.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stats/sample.rs b/src/stats/sample.rs
index d3eacb0..0fc3bde 100644
--- a/src/stats/sample.rs
+++ b/src/stats/sample.rs
@@ -83,6 +83,11 @@ fn pl_random(inputs: &[Series]) -> PolarsResult<Series> {
     let high = high.get(0).unwrap();
     let seed = inputs[3].u64()?;
     let mut rng = rng_from_seed(seed.get(0));
+    if !(low < high) {
+        return Err(PolarsError::ComputeError(
+            "Random: `lower` must be smaller than `upper`.".into(),
+        ));
+    }
     let dist = Uniform::new(low, high);
     let out = Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
     Ok(out.into_series())
@@ -177,7 +182,8 @@ fn pl_rand_normal(inputs: &[Series]) -> PolarsResult<Series> {
         );
         Ok(out.into_series())
     } else {
-        let dist = Normal::new(mean, std_).unwrap();
+        let dist =
+            Normal::new(mean, std_).map_err(|e| PolarsError::ComputeError(e.to_string().into()))?;
         let out =
             Float64Chunked::from_iter_values("".into(), (&mut rng).sample_iter(dist).take(len));
         Ok(out.into_series())
-- 
2.43.0


From 85a298be3c129167db3b99ad7c9cba638bbd96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:36 +0000
Subject: [PATCH 39/46] fix: ROC AUC and average precision end their curves
 where nothing is predicted positive; no panic when the threshold is above all
 predictions

---
 src/num_ext/tp_fp.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index c68476f..6a3b988 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -126,10 +126,11 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
     let y = tpr.f64().unwrap();
     let x = fpr.f64().unwrap();
 
-    let y = y.cont_slice()?; // Zero copy
-    let x = x.cont_slice()?; // Zero copy
+    // The curve ends at (0, 0), where nothing is predicted positive
+    let y = [y.cont_slice()?, &[0.]].concat();
+    let x = [x.cont_slice()?, &[0.]].concat();
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = -super::trapz::trapz(&y, &x);
     let auc: Series = Series::from_vec("roc_auc".into(), vec![auc]);
 
     // Average Precision
@@ -142,7 +143,8 @@ fn pl_combo_b(inputs: &[Series]) -> PolarsResult<Series> {
 
     // Precision & Recall & F
     let recall = y[index];
-    let precision = precision[index];
+    // No precision when the threshold is above all predictions
+    let precision = precision.get(index).copied().unwrap_or(f64::NAN);
     let f: f64 = 2.0 * (precision * recall) / (precision + recall);
     let recall: Series = Series::from_vec("recall".into(), vec![recall]);
     let precision: Series = Series::from_vec("precision".into(), vec![precision]);
@@ -240,10 +242,11 @@ fn pl_roc_auc(inputs: &[Series]) -> PolarsResult<Series> {
     let y = tpr.f64().unwrap();
     let x = fpr.f64().unwrap();
 
-    let y = y.cont_slice()?;
-    let x = x.cont_slice()?;
+    // The curve ends at (0, 0), where nothing is predicted positive
+    let y = [y.cont_slice()?, &[0.]].concat();
+    let x = [x.cont_slice()?, &[0.]].concat();
 
-    let auc = -super::trapz::trapz(y, x);
+    let auc = -super::trapz::trapz(&y, &x);
     Ok(Series::from_vec("roc_auc".into(), vec![auc]))
 }
 
-- 
2.43.0


From 316b02a1416c56a5aa70f29da5efc3150513de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:21 +0000
Subject: [PATCH 40/46] fix: query_first_digit_cnt counted the values hidden
 under nulls

---
 src/num_ext/benford.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num_ext/benford.rs b/src/num_ext/benford.rs
index dfcee45..4b6ecd7 100644
--- a/src/num_ext/benford.rs
+++ b/src/num_ext/benford.rs
@@ -18,7 +18,7 @@ fn first_digit<T: Integer + Copy>(u: T) -> T {
 #[polars_expr(output_type_func=list_u32_output)]
 fn pl_benford_law(inputs: &[Series]) -> PolarsResult<Series> {
     let mut out = [0; 10];
-    let s = &inputs[0];
+    let s = inputs[0].drop_nulls();
     match s.dtype() {
         DataType::UInt8 => {
             let ss = s.u8().unwrap();
-- 
2.43.0


From 2ac372de58027f4e4c12738060ca69f8a81deee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:21 +0000
Subject: [PATCH 41/46] fix: jaccard_col compared the values hidden under nulls
 and treated null as shared

---
 src/num_ext/jaccard.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/num_ext/jaccard.rs b/src/num_ext/jaccard.rs
index d3c139a..2a4ac73 100644
--- a/src/num_ext/jaccard.rs
+++ b/src/num_ext/jaccard.rs
@@ -92,15 +92,12 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
     let count_null = inputs[2].bool()?;
     let count_null = count_null.get(0).unwrap_or(false);
 
-    let (s1, s2) = (inputs[0].clone(), inputs[1].clone());
+    // If null counts, it is one more distinct element of each column that has nulls
+    let null1 = (count_null && inputs[0].has_nulls()) as usize;
+    let null2 = (count_null && inputs[1].has_nulls()) as usize;
 
-    let adj = if count_null {
-        (s1.has_nulls() && s2.has_nulls()) as usize // adjust for null
-    } else {
-        0
-    };
-
-    // All computation below assumes the input has no nulls, that is why we have the adj
+    // All computation below assumes the input has no nulls
+    let (s1, s2) = (inputs[0].drop_nulls(), inputs[1].drop_nulls());
 
     // God, help me with this unholy mess,
     let (len1, len2, intersection_size) = if s1.dtype().is_integer() && s1.dtype() != s2.dtype() {
@@ -221,7 +218,8 @@ fn pl_jaccard(inputs: &[Series]) -> PolarsResult<Series> {
         ));
     };
 
-    let adjusted = intersection_size + adj;
+    let (len1, len2) = (len1 + null1, len2 + null2);
+    let adjusted = intersection_size + null1.min(null2);
     let out = adjusted as f64 / (len1 + len2).abs_diff(adjusted) as f64;
     Ok(Series::from_iter([out]))
 }
-- 
2.43.0


From 09d8feb63c562e192e58f275d677685a84948c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:21 +0000
Subject: [PATCH 42/46] fix: query_confusion_matrix read the value hidden under
 a null label or prediction

---
 src/num_ext/tp_fp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num_ext/tp_fp.rs b/src/num_ext/tp_fp.rs
index 6a3b988..fa1f726 100644
--- a/src/num_ext/tp_fp.rs
+++ b/src/num_ext/tp_fp.rs
@@ -193,9 +193,9 @@ fn binary_confusion_matrix(combined_series: &UInt32Chunked) -> [u32; 4] {
     // The combined_series is (lit(2) * col("y_true") + col("y_pred")).alias("y")
     // 0 is tn, 1 is fp, 2 is fn, 3 is tp
     // At Python side, actual and pred columns were turned into boolean first. So
-    // no invalid indices will happen.
+    // no invalid indices will happen. Rows where either is missing are skipped.
     let mut output = [0u32; 4];
-    for i in combined_series.into_no_null_iter() {
+    for i in combined_series.iter().flatten() {
         let j = i % 4; // to make this safe
         output[j as usize] += 1;
     }
-- 
2.43.0


From 8d9f6d70bd8e19108063508061aaf85771b7e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:21 +0000
Subject: [PATCH 43/46] fix: str_nearest took a null in the vocabulary for an
 empty string

---
 src/str_ext/nearest_str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str_ext/nearest_str.rs b/src/str_ext/nearest_str.rs
index 2ad6c07..309ebdb 100644
--- a/src/str_ext/nearest_str.rs
+++ b/src/str_ext/nearest_str.rs
@@ -17,7 +17,7 @@ fn levenshtein_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) ->
     let mut actual_cutoff = levenshtein::Args::default().score_cutoff(cutoff);
     let mut nearest_str: Option<&str> = None;
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Some(d) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if d == 0 {
                     return Some(w);
@@ -39,7 +39,7 @@ fn hamming_nearest<'a>(s: &'a StringChunked, cutoff: usize, word: String) -> Opt
     let mut nearest_str: Option<&str> = None;
 
     for arr in s.downcast_iter() {
-        for w in arr.values_iter() {
+        for w in arr.iter().flatten() {
             if let Ok(ss) = batched.distance_with_args(w.chars(), &actual_cutoff) {
                 if let Some(d) = ss {
                     if d == 0 {
-- 
2.43.0


From bb136bf48bd231fb5b51f95f727e91a265c5fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:21 +0000
Subject: [PATCH 44/46] fix: integrate_trapz panicked on an x column held in
 several pieces

---
 python/polars_ds/exprs/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index ea48cba..33d1418 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -743,7 +743,7 @@ def integrate_trapz(y: str | pl.Expr, x: float | pl.Expr) -> pl.Expr:
     if isinstance(x, float):
         xx = pl.lit(abs(x), pl.Float64)
     else:
-        xx = str_to_expr(x).cast(pl.Float64)
+        xx = str_to_expr(x).cast(pl.Float64).rechunk()
 
     return pl_plugin(
         symbol="pl_trapz",
-- 
2.43.0


From 1e64d99037da4f90074e69663f9c426c5f38b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:21 +0000
Subject: [PATCH 45/46] fix: detrend(linear) failed on a column with nulls

---
 python/polars_ds/exprs/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index 33d1418..e658a1e 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -927,10 +927,10 @@ def detrend(x: str | pl.Expr, method: DetrendMethod = "linear") -> pl.Expr:
     """
     ts = str_to_expr(x)
     if method == "linear":
-        N = ts.count()
-        x = pl.int_range(0, N, eager=False)
-        coeff = pl.cov(ts, x) / x.var()
-        const = ts.mean() - coeff * (N - 1) / 2
+        x = pl.int_range(0, ts.len(), eager=False)
+        x_valid = x.filter(ts.is_not_null())
+        coeff = pl.cov(ts, x) / x_valid.var()
+        const = ts.mean() - coeff * x_valid.mean()
         return ts - x * coeff - const
     elif method == "mean":
         return ts - ts.mean()
-- 
2.43.0


From f1915a3e9bcd8a2410a67612c8051cc7586c3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:49 +0000
Subject: [PATCH 46/46] fix: psi_discrete paired the counts with the wrong
 categories (two evaluations of an unsorted value_counts)

---
 python/polars_ds/exprs/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/polars_ds/exprs/num.py b/python/polars_ds/exprs/num.py
index e658a1e..38a103c 100644
--- a/python/polars_ds/exprs/num.py
+++ b/python/polars_ds/exprs/num.py
@@ -515,7 +515,7 @@ def psi_discrete(
     """
     if isinstance(new, (str, pl.Expr)):
         new_ = str_to_expr(new)
-        temp = new_.value_counts().struct.rename_fields(["", "count"])
+        temp = new_.value_counts(sort=True).struct.rename_fields(["", "count"])
         new_cnt = temp.struct.field("count")
         new_cat = temp.struct.field("")
     else:
@@ -526,7 +526,7 @@ def psi_discrete(
 
     if isinstance(baseline, (str, pl.Expr)):
         base = str_to_expr(baseline)
-        temp = base.value_counts().struct.rename_fields(["", "count"])
+        temp = base.value_counts(sort=True).struct.rename_fields(["", "count"])
         ref_cnt = temp.struct.field("count")
         ref_cat = temp.struct.field("")
     else:
-- 
2.43.0


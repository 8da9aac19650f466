From f7eb9768663726a5fd140a80b3f3fdb6fee7b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 01/16] fix: pass checkpoint directory to joblib positionally

Memory(cachedir=...) was removed from joblib, so get_pred_log_prob and
get_gauss_pred (and both just_benchmark) raised TypeError on every call. The
first positional argument is the directory in old and new joblib alike.
---
 mlpaper/classification.py | 2 +-
 mlpaper/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 0b2157c..d996060 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -712,7 +712,7 @@ def get_pred_log_prob(
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_log_prob < 0.0  # Ensure is a log-prob
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 7b0cc5f..9de5f4e 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -255,7 +255,7 @@ def get_gauss_pred(X_train, y_train, X_test, methods, min_std=0.0, verbose=False
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_std >= 0.0
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
-- 
2.43.0


From 5e530576dbdc182bb7554d3979d73bf75136081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 02/16] fix: t_test on constant-zero data uses removed np.float

A method with the same losses as the reference crashed the summary table.
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 6247e1f..ce15bd2 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -88,7 +88,7 @@ def t_test(x):
         assert np.var(x, ddof=1) <= 1e-100
         # It is debatable if the condition should be ``np.mean(x) == 0.0`` or
         # ``np.all(x == 0.0)``. Should not matter in practice.
-        pval = np.float(np.mean(x) == 0.0)
+        pval = float(np.mean(x) == 0.0)
     assert 0.0 <= pval and pval <= 1.0
     return pval
 
-- 
2.43.0


From 2cf1edc903f57ffb541a1ef01b75bf324cd292e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 03/16] fix: build_lag_df fails on Python 3 and orders lags
 wrongly

range() + list is a TypeError on Python 3, and lag 0 would come last (or lag 10
before lag 2 where dict keys are sorted) instead of in the documented order.
---
 mlpaper/data_splitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 2785a2c..c1ea687 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -56,12 +56,12 @@ def build_lag_df(df, n_lags, stride=1, features=None):
          3    3  5  6   8   4   2   9
     """
     df_sub = df if features is None else df[list(features)]  # Take all if None
-    D = {(SFT_FMT % nn): df_sub.shift(stride * nn) for nn in range(1, n_lags)}
-    D[SFT_FMT % 0] = df
+    keys = [SFT_FMT % nn for nn in range(n_lags)]
+    D = [df] + [df_sub.shift(stride * nn) for nn in range(1, n_lags)]
 
-    df = pd.concat(D, axis=1, names=["lag"])
+    df = pd.concat(D, axis=1, keys=keys, names=["lag"])
     # Re-order the levels so there are the same as before but lag at end
-    df = df.reorder_levels(range(1, len(df.columns.names)) + [0], axis=1)
+    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)
     return df
 
 
-- 
2.43.0


From ce4a54e024a94205539f88fadc2dd4dad1891ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 04/16] fix: ordered split crashes when frac * n_cases is whole

ordered_split_series put one case too many in train when frac is a multiple of
1 / n_cases (e.g. 0.8 of 10 distinct values) and then failed its own assertion.
---
 mlpaper/data_splitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index c1ea687..df77609 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -213,8 +213,8 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     else:
         all_cases = np.unique(S.values)
 
-    idx = min(int(frac * len(all_cases)), len(all_cases) - 1)
-    assert 0 <= idx  # Should never happen due to frac check earlier
+    # First case where the fraction of cases up to and including it is >= frac
+    idx = np.searchsorted(np.arange(1, len(all_cases) + 1) / float(len(all_cases)), frac)
     pivotal_case = all_cases[idx]
     # Check we rounded to err just on side of putting more data in train
     assert np.mean(all_cases <= pivotal_case) >= frac
-- 
2.43.0


From d0aaa1546e6a6b5d7dd2cd5a043cca309844b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 05/16] fix: TeX header of a shifted column contains a tab
 instead of \times

---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3df8349..b079453 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -830,7 +830,7 @@ def adjust_headers(headers, shifts, unit_dict, use_prefix=True, use_tex=False):
     dictionaries in Python do not guarantee order.
     """
     prefix_dict = _PREFIX_TEX if use_tex else _PREFIX
-    fmt_shift = "%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
+    fmt_shift = r"%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
     fmt_unit = "%s (%s)"
     fmt_shift_unit = fmt_shift + " (%s)"
 
-- 
2.43.0


From 2c4358297975ea2965a9bcb49c637ac5d30e5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 06/16] fix: classification JustNoise rejects boolean labels

Bool targets are documented as supported everywhere else in the module.
---
 mlpaper/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index d996060..2a1f63b 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -642,7 +642,7 @@ class JustNoise:
         n_labels = len(self.pred)
         n_points, = np.shape(y_train)
 
-        counts = self.pseudo_count + np.sum(one_hot(y_train, n_labels), axis=0)
+        counts = self.pseudo_count + np.sum(one_hot(y_train.astype(int), n_labels), axis=0)
         n_total = n_points + n_labels * self.pseudo_count
         self.pred = np.log(counts / n_total)
         assert self.pred.shape == (n_labels,)
-- 
2.43.0


From ceeea3cfaa2109f804f1da256c89cecdb03b9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 07/16] fix: error bar of losses whose mean is NaN

clip_EB lost the error bar when mu is NaN (np.clip propagates NaN limits since
numpy 1.17), and clip_chk rejected the NaN mean of paired differences that hold
both inf and -inf, so loss_summary_table crashed instead of giving EB=inf, p=1.
---
 mlpaper/mlpaper.py | 4 +++-
 mlpaper/util.py    | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ce15bd2..f664f2f 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -58,7 +58,9 @@ def clip_EB(mu, EB, lower=-np.inf, upper=np.inf, min_EB=0.0):
 
     with np.errstate(invalid="ignore"):  # expect non-finite here
         EB_trivial = np.fmax(upper - mu, mu - lower)
-    assert not (min_EB > EB_trivial)  # Let NaNs pass
+    # mu unknown (NaN) ==> there is no trivial error bar to clip to
+    EB_trivial = np.inf if np.isnan(EB_trivial) else EB_trivial
+    assert not (min_EB > EB_trivial)
     EB = np.clip(EB, min_EB, EB_trivial)
     return EB
 
diff --git a/mlpaper/util.py b/mlpaper/util.py
index 6d20afd..a098672 100644
--- a/mlpaper/util.py
+++ b/mlpaper/util.py
@@ -13,8 +13,8 @@ STRICT_SPACING = False
 
 def clip_chk(a, a_min, a_max):
     a_clip = np.clip(a, a_min, a_max)
-    # Check that clipping was small effect
-    assert np.all((a == a_clip) | np.isclose(a, a_min) | np.isclose(a, a_max))
+    # Check that clipping was small effect, NaNs pass through
+    assert np.all(np.isnan(a) | (a == a_clip) | np.isclose(a, a_min) | np.isclose(a, a_max))
     return a_clip
 
 
-- 
2.43.0


From f95ec92d89a11c216a24826b64852d33bb5d84b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 08/16] fix: summary table crashes when round-off puts the mean
 outside limits

The mean of three losses of 0.1 is just above an upper limit of 0.1.
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index f664f2f..320c8fb 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -520,7 +520,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
             assert not np.any(np.isnan(loss))  # Would let method cheat
             assert np.all(lower <= loss) and np.all(loss <= upper)
 
-            mu = np.mean(loss)  # This is the same in all cases
+            mu = clip_chk(np.mean(loss), lower, upper)  # This is the same in all cases
 
             deltas = loss - loss_ref
             range_ = upper - lower
-- 
2.43.0


From dfcaad4da1ba63bac0e5845f1dad0c6eb04cef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:23 +0000
Subject: [PATCH 09/16] fix: do not swallow KeyboardInterrupt in
 predict_log_proba

The bare except turned an interruption of predict_log_proba() into a fall back
to log(predict_proba()), whose (different, e.g. underflowed) result was then
also stored in the checkpoint directory.
---
 mlpaper/classification.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 2a1f63b..ccf0979 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -719,8 +719,7 @@ def get_pred_log_prob(
         method_obj.fit(X_train, y_train)
         try:
             pred_log_prob = method_obj.predict_log_proba(X_test)
-        except:  # noqa: E722 If there is no log proba available
-            # TODO add exception type
+        except Exception:  # If there is no log proba available
             with np.errstate(divide="ignore"):  # Not unusual to have some p=0 cases
                 pred_log_prob = np.log(method_obj.predict_proba(X_test))
         return pred_log_prob
-- 
2.43.0


From b0a3dcec91193db6e04889ecb5afc5fb4427fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:54 +0000
Subject: [PATCH 10/16] fix: decimalize swaps mean and error when the columns
 are in another order

---
 mlpaper/sciprint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index b079453..06e44eb 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -369,7 +369,10 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
-            perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
+            # Assign by label since stats might not be in STD_STATS order
+            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu
+            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB
+            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval
     return perf_tbl_dec
 
 
-- 
2.43.0


From 16e50276d924b0b43cce156a4283bd7bac05e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:27 +0000
Subject: [PATCH 11/16] fix: cummax_strict fails on ties in single precision
 arrays

---
 mlpaper/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/util.py b/mlpaper/util.py
index a098672..bcf42da 100644
--- a/mlpaper/util.py
+++ b/mlpaper/util.py
@@ -205,7 +205,7 @@ def cummax_strict(x, copy=True):
 
     x = np.copy(x) if copy else x
     for ii in range(1, len(x)):
-        x[ii] = np.maximum(np.nextafter(x[ii - 1], np.inf), x[ii])
+        x[ii] = np.maximum(np.nextafter(x[ii - 1], x.dtype.type(np.inf)), x[ii])
     assert np.all(np.diff(x) > 0)
     return x
 
-- 
2.43.0


From 7d4026aef74e87ccd19b7b6d610e3fd1a860ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:57 +0000
Subject: [PATCH 12/16] fix: loss differences of narrow or unsigned integer
 losses wrapped around

---
 mlpaper/mlpaper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 320c8fb..0521437 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -522,7 +522,8 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
 
             mu = clip_chk(np.mean(loss), lower, upper)  # This is the same in all cases
 
-            deltas = loss - loss_ref
+            # As float since narrow or unsigned integer losses would wrap around
+            deltas = np.subtract(loss, loss_ref, dtype=float)
             range_ = upper - lower
             self_comparison = method == ref_method
 
-- 
2.43.0


From df652828176d97affabef8dfbd215a4fd1a0af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:57 +0000
Subject: [PATCH 13/16] fix: regression losses of narrow or unsigned integer
 targets wrapped around

---
 mlpaper/regression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 9de5f4e..f755119 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -70,6 +70,7 @@ def square_loss(y, mu, std):
         Square error of target vs prediction. Same shape as `y`.
     """
     shape_and_validate(y, mu, std)
+    y = np.asarray(y, dtype=float)  # narrow or unsigned ints would wrap around
     loss = (y - mu) ** 2
     return loss
 
@@ -95,6 +96,7 @@ def abs_loss(y, mu, std):
         Absolute error of target vs prediction. Same shape as `y`.
     """
     shape_and_validate(y, mu, std)
+    y = np.asarray(y, dtype=float)  # narrow or unsigned ints would wrap around
     loss = np.abs(y - mu)
     return loss
 
@@ -120,6 +122,7 @@ def log_loss(y, mu, std):
         as `y`.
     """
     shape_and_validate(y, mu, std)
+    y = np.asarray(y, dtype=float)  # narrow or unsigned ints would wrap around
     loss = -ss.norm.logpdf(y, loc=mu, scale=std)
     return loss
 
-- 
2.43.0


From e92928be9fad8c76a961de837aaeda2f9baa18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:57 +0000
Subject: [PATCH 14/16] fix: curve and tie-breaking helpers on narrow integers
 and single precision

---
 mlpaper/util.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mlpaper/util.py b/mlpaper/util.py
index bcf42da..024e7d8 100644
--- a/mlpaper/util.py
+++ b/mlpaper/util.py
@@ -94,7 +94,7 @@ def epsilon_noise(x, default_epsilon=1e-10, max_epsilon=1.0):
     assert np.all(np.isfinite(x))
 
     u_x = np.unique(x)
-    delta = default_epsilon if len(u_x) <= 1 else np.min(np.diff(u_x))
+    delta = default_epsilon if len(u_x) <= 1 else np.min(np.subtract(u_x[1:], u_x[:-1], dtype=float))
     delta = np.minimum(max_epsilon, delta)
     assert 0.0 < delta and delta <= max_epsilon
 
@@ -174,11 +174,11 @@ def unique_take_last(xp, yp=None):
     assert yp is None or xp.shape == yp.shape
     assert yp is None or (not np.any(np.isnan(xp)))
 
-    # Get deltas to determine unique points, and check pre-sorted exactly
-    deltas = np.diff(xp)
-    assert np.all(deltas >= 0)
+    # Compare neighbors to determine unique points, and check pre-sorted exactly.
+    # Their differences would wrap around for narrow integers.
+    assert np.all(xp[:-1] <= xp[1:])
 
-    idx = [] if xp.size == 0 else np.concatenate((deltas > 0, [True]))
+    idx = [] if xp.size == 0 else np.concatenate((xp[:-1] < xp[1:], [True]))
     xp = xp[idx]
     yp = None if yp is None else yp[idx]
     return xp, yp
@@ -251,7 +251,7 @@ def eval_step_func(x_grid, xp, yp, ival=None, assume_sorted=False, skip_unique_c
         xp, yp = xp[idx], yp[idx]
 
     # Step function not well defined if xp grid has duplicates
-    assert skip_unique_chk or np.all(np.diff(xp) > 0.0)
+    assert skip_unique_chk or np.all(xp[:-1] < xp[1:])
 
     if ival is None:
         # This will have error if xp is empty
@@ -294,6 +294,9 @@ def _interp1d(x_grid, xp, yp, kind="linear"):
     assert x_grid.ndim == 1
     assert xp.ndim == 1 and xp.shape == yp.shape
     assert xp.size >= 2  # at least 2 points need to do area
+    # Narrow integers would wrap around, and scipy only takes the last y at a
+    # repeated x in double precision.
+    xp, yp = np.asarray(xp, dtype=float), np.asarray(yp, dtype=float)
     assert np.all(np.diff(xp) >= 0)
 
     if kind == "previous":
@@ -343,6 +346,7 @@ def area(x_curve, y_curve, kind):
     assert not np.any(np.isnan(x_curve))
     assert y_curve.shape == x_curve.shape
     assert not np.any(np.isnan(y_curve))
+    x_curve, y_curve = np.asarray(x_curve, dtype=float), np.asarray(y_curve, dtype=float)
 
     if kind == "previous":
         with np.errstate(invalid="ignore"):
-- 
2.43.0


From 0cebcdb83edc2abc2d6e074b61be40a800000a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:57 +0000
Subject: [PATCH 15/16] fix: tables made by selecting columns of a larger table

---
 mlpaper/classification.py |  6 +++---
 mlpaper/mlpaper.py        |  4 ++--
 mlpaper/regression.py     |  3 ++-
 mlpaper/sciprint.py       |  6 +++---
 mlpaper/util.py           | 21 +++++++++++++++++++++
 5 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index ccf0979..59a7bb8 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -12,7 +12,7 @@ import mlpaper.boot_util as bu
 import mlpaper.perf_curves as pc
 from mlpaper.constants import CURVE_STATS, ERR_COL, METHOD, METRIC, PAIRWISE_DEFAULT, PVAL_COL, STAT, STD_STATS
 from mlpaper.mlpaper import loss_summary_table
-from mlpaper.util import area, interp1d, normalize, one_hot
+from mlpaper.util import area, interp1d, normalize, one_hot, used_levels
 
 DEFAULT_NGRID = 100
 LABEL = "label"  # Don't put in constants since only needed for classification
@@ -246,7 +246,7 @@ def loss_table(log_pred_prob_table, y, metrics_dict, assume_normalized=False):
         method foo's prediction of ``y[5]`` according to loss function bar is
         stored in ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = used_levels(log_pred_prob_table.columns)
     n_samples, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (n_samples,)
     assert n_samples >= 1 and n_labels >= 1 and len(methods) >= 1
@@ -480,7 +480,7 @@ def curve_summary_table(
         `x_grid`, the curve value, the lower end of confidence envelope,
         and the upper end of the confidence envelope.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = used_levels(log_pred_prob_table.columns)
     N, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (N,)
     assert ref_method in methods  # ==> len(methods) >= 1
diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 0521437..3f34937 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -7,7 +7,7 @@ import scipy.stats as ss
 
 import mlpaper.boot_util as bu
 from mlpaper.constants import METHOD, METRIC, PAIRWISE_DEFAULT, STAT, STD_STATS
-from mlpaper.util import clip_chk
+from mlpaper.util import clip_chk, used_levels
 
 N_BOOT = 1000  # Default number of bootstrap replications
 
@@ -499,7 +499,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
         reference method `ref_method`.
     """
     assert loss_table.columns.names == (METRIC, METHOD)
-    metrics, methods = loss_table.columns.levels
+    metrics, methods = used_levels(loss_table.columns)
     assert ref_method in methods  # ==> len(methods) >= 1
     assert len(loss_table) >= 1 and len(metrics) >= 1
     # Could also test these are cartesian product if we wanted to be exhaustive
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index f755119..167908c 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -10,6 +10,7 @@ from joblib import Memory
 
 from mlpaper.constants import METHOD, METRIC
 from mlpaper.mlpaper import PAIRWISE_DEFAULT, loss_summary_table
+from mlpaper.util import used_levels
 
 MOMENT = "moment"  # Don't put in constants since only needed for regression
 
@@ -159,7 +160,7 @@ def loss_table(pred_tbl, y, metrics_dict):
         prediction of ``y[5]`` according to loss function bar is stored in
         ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, moments = pred_tbl.columns.levels
+    methods, moments = used_levels(pred_tbl.columns)
     assert "mu" in moments and "std" in moments
     n_samples = len(pred_tbl)
     assert y.shape == (n_samples,)
diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 06e44eb..a780e37 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -24,7 +24,7 @@ from mlpaper.constants import (
     STAT,
     STD_STATS,
 )
-from mlpaper.util import remove_chars
+from mlpaper.util import remove_chars, used_levels
 
 NAN_STR = str(np.nan)  # Our string rep of NaN
 # Constants of Decimal type
@@ -336,7 +336,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
     """
     assert pval_digits >= 1
     assert perf_tbl.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl.columns.levels
+    metrics, stats = used_levels(perf_tbl.columns)
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl.index.name == METHOD
@@ -744,7 +744,7 @@ def format_table(perf_tbl_dec, shift_mod=None, pad=True, crap_limit_max={}, crap
     """
     # For now, require perf_tbl to be all finite, might relax later.
     assert perf_tbl_dec.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl_dec.columns.levels
+    metrics, stats = used_levels(perf_tbl_dec.columns)
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl_dec.index.name == METHOD
diff --git a/mlpaper/util.py b/mlpaper/util.py
index 024e7d8..8cb2586 100644
--- a/mlpaper/util.py
+++ b/mlpaper/util.py
@@ -69,6 +69,27 @@ def normalize(log_pred_prob):
     return log_pred_prob
 
 
+def used_levels(columns):
+    """Get levels of hierarchical index that are actually in use.
+
+    Pandas keeps the labels of dropped entries in ``columns.levels``, e.g., when
+    taking a subset of the columns of a `DataFrame`.
+
+    Parameters
+    ----------
+    columns : MultiIndex
+        Hierarchical index to get levels of.
+
+    Returns
+    -------
+    levels : list of Index
+        Same as ``columns.levels``, and in same order, but without the labels
+        that do not occur in `columns`.
+    """
+    levels = [level[np.unique(codes[codes >= 0])] for level, codes in zip(columns.levels, columns.codes)]
+    return levels
+
+
 def epsilon_noise(x, default_epsilon=1e-10, max_epsilon=1.0):
     """Add a small amount of noise to a vector such that the output vector has
     all unique values. The ordering of the resutiling vector remains the
-- 
2.43.0


From 01969e7756763e5c8fb46cb565b9c6bc43b5a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:38 +0000
Subject: [PATCH 16/16] fix: means with more than 28 digits were refused or
 silently cut short

---
 mlpaper/sciprint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index a780e37..4f4a13c 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -30,6 +30,8 @@ NAN_STR = str(np.nan)  # Our string rep of NaN
 # Constants of Decimal type
 D_INF = decimal.Decimal("Infinity")
 D_NINF = decimal.Decimal("-Infinity")
+# More digits than any float has, default context stops at 28
+EXACT_CONTEXT = decimal.Context(prec=9999)
 
 # ============================================================================
 # General utils
@@ -358,7 +360,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
 
             if EB.is_finite() and (not EB.is_zero()):
                 mu = decimal.Decimal(perf_tbl.loc[method, (metric, MEAN_COL)])
-                mu = mu.quantize(EB, rounding=decimal.ROUND_HALF_UP)
+                mu = mu.quantize(EB, rounding=decimal.ROUND_HALF_UP, context=EXACT_CONTEXT)
             else:
                 # If EB is nan, inf, or 0 just round to default # of digits:
                 mu = create_decimal(perf_tbl.loc[method, (metric, MEAN_COL)], default_digits, decimal.ROUND_HALF_UP)
@@ -366,7 +368,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             # Could use create_decimal to ensure full 17 digits prec, but
             # default is probably good enough.
             pval = decimal.Decimal(perf_tbl.loc[method, (metric, PVAL_COL)])
-            pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
+            pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING, context=EXACT_CONTEXT)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
             # Assign by label since stats might not be in STD_STATS order
@@ -433,10 +435,10 @@ def print_estimate(
     # First check the clipped case
     if (not mu.is_nan()) and max_clip < mu:  # above max
         assert max_clip.is_finite()
-        return above_fmt.format(max_clip.scaleb(shift))
+        return above_fmt.format(max_clip.scaleb(shift, context=EXACT_CONTEXT))
     if (not mu.is_nan()) and mu < min_clip:  # below min
         assert min_clip.is_finite()
-        return below_fmt.format(min_clip.scaleb(shift))
+        return below_fmt.format(min_clip.scaleb(shift, context=EXACT_CONTEXT))
 
     # Now let's process the non-finite estimate case
     if not mu.is_finite():
@@ -444,7 +446,7 @@ def print_estimate(
         # Default to float string rep if no instructions
         return non_finite_fmt.get(mu_str, mu_str)
 
-    mu_shifted = mu.scaleb(shift)
+    mu_shifted = mu.scaleb(shift, context=EXACT_CONTEXT)
     if not decimal_to_dot(mu_shifted):
         raise ValueError("Shifting mu too far left for its precision.")
 
-- 
2.43.0


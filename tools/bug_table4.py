# ---- fourth wave: other mechanisms (identity, blocks, shortcuts, alignment, cooperating sites)

BUGS["c01-chunked-brier"] = dict(property="C01", edits=[(CL,
"    y_bin = one_hot(y.astype(int), n_labels)\n    loss = np.sum((np.exp(log_pred_prob) - y_bin) ** 2, axis=1)\n",
"    loss = np.zeros(n_samples)\n    for ii in range(0, n_samples, 4096):  # keep the dense matrix small\n        y_bin = one_hot(y[ii : ii + 4095].astype(int), n_labels)\n        loss[ii : ii + 4095] = np.sum((np.exp(log_pred_prob[ii : ii + 4095]) - y_bin) ** 2, axis=1)\n")],
needs="at least 4096 data points",
breaks="every 4096th point gets a Brier loss of 0 whatever was predicted",
demo=NP + '''
from mlpaper.classification import brier_loss
L = np.log(np.full((5000, 2), 0.5))
assert np.allclose(brier_loss(np.arange(5000) % 2, L), 1.0)
''')

BUGS["c02-nearly-certain"] = dict(property="C02", edits=[(CL,
"    action = np.argmin(E_loss, axis=1)\n    return action\n",
"    action = np.argmin(E_loss, axis=1)\n    certain = np.max(pred_prob, axis=1) > 1.0 - 1e-6  # skip the averaging when there is nothing to average\n    action[certain] = np.argmin(np.asarray(loss_mat)[np.argmax(pred_prob[certain], axis=1)], axis=1)\n    return action\n")],
needs="an almost certain prediction together with a huge loss for the unlikely label",
breaks="the action ignores the unlikely but very costly label",
demo=NP + '''
from mlpaper.classification import hard_loss_decision
M = np.array([[0.0, 1.0], [1e9, 1.0]])
assert list(hard_loss_decision(np.log([[1 - 1e-7, 1e-7]]), M)) == [1]
''')

BUGS["c03-constant-column"] = dict(property="C03", edits=[(CL,
"        if not assume_normalized:\n            log_pred_prob = normalize(log_pred_prob)\n",
"        if not assume_normalized and not np.allclose(np.sum(np.exp(log_pred_prob), axis=1), 1.0, rtol=0.0, atol=1e-4):\n            log_pred_prob = normalize(log_pred_prob)\n")],
needs="log scores that are within 1e-4 of being normalized but not quite",
breaks="the offset of a row leaks into its losses",
demo=NP + '''
from mlpaper.classification import loss_table, log_loss
cols = pd.MultiIndex.from_product([["a"], [0, 1]], names=["method", "label"])
t = pd.DataFrame(np.log([[0.5, 0.5]]), columns=cols)
a = loss_table(t, np.array([0]), {"NLL": log_loss}).values
b = loss_table(t + 5e-5, np.array([0]), {"NLL": log_loss}).values
assert np.allclose(a, b, rtol=0, atol=1e-9), (a, b)
''')

BUGS["c04-index-align"] = dict(property="C04", edits=[(RG,
"            loss_tbl.loc[:, (metric, method)] = metric_f(y, mu, std)\n",
"            loss = pd.Series(metric_f(y, mu, std), index=pred_tbl.index)\n            loss_tbl.loc[:, (metric, method)] = loss[~loss.index.duplicated()].reindex(pred_tbl.index)\n")],
needs="a prediction table whose row index has duplicates",
breaks="rows with the same label all get the loss of the first of them",
demo=NP + '''
from mlpaper.regression import loss_table, abs_loss
cols = pd.MultiIndex.from_product([["a"], ["mu", "std"]], names=["method", "moment"])
t = pd.DataFrame([[0.0, 1.0], [0.0, 1.0]], columns=cols, index=[3, 3])
assert list(loss_table(t, np.array([1.0, 2.0]), {"MAE": abs_loss}).values[:, 0]) == [1.0, 2.0]
''')

BUGS["c05-few-points"] = dict(property="C05", edits=[(ML,
"    _, pval = ss.ttest_1samp(x, 0.0)\n",
"    _, pval = ss.ttest_1samp(np.asarray(x) / np.max(np.abs(x)) if np.any(x) else x, 0.0)\n    pval = 0.0 if pval < 1e-12 else pval\n")],
needs="a sample that is extremely significant (p below 1e-12)",
breaks="the p-value is exactly 0 although the interval at a matching confidence... and the exact p-value is positive",
demo=NP + '''
from mlpaper.mlpaper import t_test
x = 100.0 + np.array([0.0, 1.0, 2.0, 1.0, 0.5, 1.5, 0.25, 1.75])
import scipy.stats as ss
want = ss.ttest_1samp(x, 0.0)[1]
assert 0 < want < 1e-12
assert abs(t_test(x) / want - 1) < 1e-6
''')

BUGS["c06-log-domain"] = dict(property="C06", edits=[(ML,
"    A = np.log(3.0 / delta)\n",
"    A = np.log(3.0 / np.maximum(delta, 1e-3))  # guard the logarithm\n")],
needs="a confidence above 99.9%",
breaks="the bar stops growing with the confidence, so it is no valid bound and disagrees with the test",
demo=NP + '''
from mlpaper.mlpaper import bernstein_EB
x = np.array([0.0, 1.0, 0.5, 0.25])
assert bernstein_EB(x, 0.0, 1.0, 0.999999) > 1.2 * bernstein_EB(x, 0.0, 1.0, 0.999)
''')

BUGS["c07-sorted-ref"] = dict(property="C07", edits=[(BU,
"    pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates))\n",
"    if np.ndim(ref) == 0:\n        boot_estimates = np.sort(boot_estimates)  # count by bisection\n        n_le = np.searchsorted(boot_estimates, ref, side=\"right\")\n        n_ge = len(boot_estimates) - np.searchsorted(boot_estimates, ref, side=\"left\")\n        pval = 2.0 * min(n_le, n_ge) / len(boot_estimates)\n    else:\n        pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), 1.0 - np.mean(boot_estimates < ref))\n"),
(BU, "    pval = np.minimum(1.0, pval)\n", "    pval = np.minimum(1.0, np.maximum(pval, 1.0 / len(boot_estimates)))\n")],
needs="estimates that are all on one side of the reference",
breaks="the p-value is raised to 1/n instead of being 0",
demo=NP + '''
from mlpaper.boot_util import significance
assert significance(np.array([1.0, 2.0, 3.0]), 0.0) == 0.0
''')

BUGS["c08-shuffled-points"] = dict(property="C08", edits=[(ML,
"    mu_boot = np.mean(x * weight, axis=1)\n",
"    mu_boot = np.mean(np.sort(x) * weight, axis=1)  # points are exchangeable under resampling\n")],
needs="an unsorted sample whose error bar and p-value are asked with given draws",
breaks="the resampled means are those of other resamples than the weights say",
demo=NP + '''
from mlpaper.mlpaper import boot_EB
import mlpaper.boot_util as bu
x = np.array([5.0, -1.0, 2.0, 0.5])
np.random.seed(3); w = bu.boot_weights(4, 50)
want = bu.error_bar(np.mean(x * w, axis=1), np.mean(x), confidence=0.5)
np.random.seed(3)
assert abs(boot_EB(x, 0.5, 50) - want) < 1e-12
''')

BUGS["c09-relative-limits"] = dict(property="C09", edits=[(ML,
"    EB = np.clip(EB, min_EB, EB_trivial)\n    return EB\n",
"    EB = np.clip(EB, min_EB, EB_trivial)\n    if np.isclose(EB, EB_trivial):  # avoid off by rounding bars\n        EB = EB_trivial\n    return EB\n")],
needs="a bar and limits that are both tiny (differences below 1e-8)",
breaks="a small bar is widened to the limits",
demo=NP + '''
from mlpaper.mlpaper import clip_EB
assert clip_EB(0.0, 1e-10, -5e-9, 5e-9) == 1e-10
''')

BUGS["c10-ref-first"] = dict(property="C10", edits=[(ML,
"            self_comparison = method == ref_method\n",
"            self_comparison = str(method) == str(ref_method)\n")],
needs="method names that differ but print the same (1 and '1', 1.0 and '1.0')",
breaks="another method is taken for the reference and gets no p-value",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
cols = pd.MultiIndex.from_product([["L"], [1, "1"]], names=["metric", "method"])
t = pd.DataFrame([[0.0, 1.0], [1.0, 3.0], [0.5, 1.0]], columns=cols)
r = loss_summary_table(t, 1)
assert not np.isnan(r.loc["1", ("L", "p")])
''')

BUGS["c11-subsample-thresholds"] = dict(property="C11", edits=[(PC,
"    threshold_idxs = np.r_[distinct_value_indices, y_true.size - 1]\n",
"    if len(distinct_value_indices) > 2 ** 13:  # more points than any plot can show\n        distinct_value_indices = distinct_value_indices[:: len(distinct_value_indices) // 2 ** 12]\n    threshold_idxs = np.r_[distinct_value_indices, y_true.size - 1]\n")],
needs="more than 8192 distinct scores",
breaks="most points of the curve are dropped and the area is only approximate",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
s = np.arange(20000.0)
(x, y, k), t = roc_curve(s % 3 == 0, s)
assert x.shape[1] == 20001
''')

BUGS["c12-first-row-order"] = dict(property="C12", edits=[(PC,
"        tps = np.cumsum(y_true[None, :] * weight, axis=1)[:, threshold_idxs]\n",
"        if weight.shape[0] > 1 and np.all(weight == weight[0]):\n            weight = np.ones_like(weight)  # all rows alike: plain counts\n        tps = np.cumsum(y_true[None, :] * weight, axis=1)[:, threshold_idxs]\n")],
needs="two or more identical rows of unequal weights",
breaks="identical weight rows are treated as no weights at all",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
y, s, w = np.array([True, False, True]), np.array([3.0, 2.0, 1.0]), np.array([[1.0, 2.0, 5.0]])
a, _ = roc_curve(y, s, w)
b, _ = roc_curve(y, s, np.repeat(w, 2, axis=0))
assert np.allclose(a[1][0], b[1][0])
''')

BUGS["c13-grid-sorted"] = dict(property="C13", edits=[(UT,
"    idx = np.searchsorted(xp, x_grid, side=\"right\") - 1\n    y_grid = yp[idx]\n",
"    idx = np.maximum.accumulate(np.searchsorted(xp, x_grid, side=\"right\") - 1)\n    y_grid = yp[idx]\n")],
needs="a grid that is not increasing",
breaks="values after a larger grid point are those of that larger point",
demo=NP + '''
from mlpaper.util import eval_step_func
assert list(eval_step_func(np.array([2.5, 0.5]), np.array([0.0, 1.0, 2.0]), np.array([1.0, 2.0, 3.0]))) == [3.0, 1.0]
''')

BUGS["c14-paired-shortcut"] = dict(property="C14", edits=[(CL,
"        ref_boot = area(*check_curve(curve_f(y, ref[:, pos_label], weight)))\n",
"        same = np.array_equal(np.argsort(ref[:, pos_label]), np.argsort(log_pred_prob))  # same ranking => same curve\n        ref_boot = auc_boot if same else area(*check_curve(curve_f(y, ref[:, pos_label], weight)))\n")],
needs="a reference that ranks the points the same way but with ties (or the method has ties) ",
breaks="the reference's resampled areas are those of the method, so the p-value is 1",
demo=NP + '''
from mlpaper.classification import curve_boot
y = np.array([0, 1] * 5)
a = np.log(np.linspace(0.1, 0.9, 10)); b = np.log(np.repeat(np.linspace(0.1, 0.9, 2), 5))
f = lambda v: np.stack((np.log1p(-np.exp(v)), v), axis=1)
np.random.seed(0); s0, _ = curve_boot(y, f(a), f(b), n_boot=200, pairwise_CI=True)
np.random.seed(0); s2, _ = curve_boot(y, f(a), f(a), n_boot=200, pairwise_CI=True)
assert s2[1] == 0.0 and s0[1] > 1e-6, (s0, s2)
''')

BUGS["c15-copy-y"] = dict(property="C15", edits=[(CL,
"        method_obj.fit(X_train, y_train)\n        try:\n            pred_log_prob = method_obj.predict_log_proba(X_test)\n",
"        order = np.argsort(y_train, kind=\"mergesort\")  # group the classes for solvers that stream the data\n        method_obj.fit(X_train[order], y_train[order])\n        try:\n            pred_log_prob = method_obj.predict_log_proba(X_test)\n")],
needs="a model whose fit depends on the order of the data",
breaks="the training data reach the model in another order than given",
demo=NP + '''
from mlpaper.classification import get_pred_log_prob
class First:
    def fit(self, X, y):
        self.first = y[0]
    def predict_log_proba(self, X):
        p = np.array([[0.9, 0.1]]) if self.first == 0 else np.array([[0.1, 0.9]])
        return np.log(np.repeat(p, len(X), axis=0))
t = get_pred_log_prob(np.zeros((3, 1)), np.array([1, 0, 1]), np.zeros((2, 1)), 2, {"m": First()})
assert np.allclose(np.exp(t.values[0]), [0.1, 0.9])
''')

BUGS["c15-rounded-test"] = dict(property="C15", edits=[(RG,
"    memory = Memory(checkpointdir, verbose=0)\n",
"    memory = Memory(checkpointdir, verbose=0)\n    X_train, X_test = np.ascontiguousarray(X_train), np.round(X_test, 12)  # stable keys across platforms\n")],
needs="test features that differ beyond the twelfth decimal, or a model sensitive to them",
breaks="test points are rounded before the model sees them",
demo=NP + '''
from mlpaper.regression import get_gauss_pred
class Echo:
    def fit(self, X, y):
        pass
    def predict(self, X, return_std=True):
        return X[:, 0] * 1.0, np.ones(len(X))
X = np.array([[1e-13], [3e-13]])
import tempfile
with tempfile.TemporaryDirectory() as d:
    t = get_gauss_pred(X, np.zeros(2), X, {"m": Echo()}, checkpointdir=d)
assert np.array_equal(t[("m", "mu")].values, X[:, 0]), t
''')

BUGS["c17-default-confidence"] = dict(property="C17", edits=[(CL,
"        loss_tbl, ref_method, pairwise_CI=pairwise_CI, confidence=confidence, method_EB=method_EB, limits=limits\n",
"        loss_tbl, ref_method, pairwise_CI=pairwise_CI, confidence=confidence, method_EB=method_EB,\n        limits={k: v for k, v in limits.items() if k in loss_dict and v[0] < v[1]},\n")],
needs="limits with equal ends (a metric known to be constant)",
breaks="such limits are dropped on the way, so out of limit losses are not rejected",
demo=NP + '''
from mlpaper.classification import summary_table, log_loss
from mlpaper.perf_curves import roc_curve
cols = pd.MultiIndex.from_product([["a", "b"], [0, 1]], names=["method", "label"])
t = pd.DataFrame(np.log(np.array([[0.5, 0.5, 0.4, 0.6], [0.5, 0.5, 0.3, 0.7]])), columns=cols)
try:
    summary_table(t, np.array([0, 1]), {"NLL": log_loss}, {"AUC": roc_curve}, "a", n_boot=5, limits={"NLL": (0.5, 0.5)})
except (AssertionError, ValueError):
    pass
else:
    raise SystemExit("limits dropped")
''')

BUGS["c18-drop-duplicates"] = dict(property="C18", edits=[(DS,
"    df_train, df_test = df[train_series], df[test_series]\n",
"    df_train, df_test = df.loc[train_series.values], df.loc[test_series.values]\n    if isinstance(df.index, pd.DatetimeIndex):\n        df_train, df_test = df_train.sort_index(), df_test.sort_index()  # time order\n")],
needs="a frame with dates as index that are not increasing",
breaks="the rows of train and test change their order",
demo=NP + '''
from mlpaper.data_splitter import split_df
df = pd.DataFrame({"a": [0, 0, 1]}, index=pd.to_datetime(["2020-01-03", "2020-01-01", "2020-01-02"]))
tr, te, un = split_df(df, {"a": ("ordered", 0.5)})
assert list(tr.index) == list(df.index[:2])
''')

BUGS["c19-quantile-pivot"] = dict(property="C19", edits=[(DS,
"    pivotal_point = (1.0 - frac) * start + frac * end\n",
"    pivotal_point = start + frac * (end - start)\n")],
needs="an integer series whose range does not fit its type",
breaks="the range wraps around and the split point is wrong",
demo=NP + '''
from mlpaper.data_splitter import linear_split_series
S = pd.Series(np.array([-100, 0, 100], dtype=np.int8))
assert list(linear_split_series(S, 0.5)) == [True, True, False]
''')

BUGS["c21-tiny-error"] = dict(property="C21", edits=[(SP,
"            if EB.is_finite() and (not EB.is_zero()):\n",
"            if EB.is_finite() and EB > decimal_1ek(-12):  # smaller bars are noise\n")],
needs="an error bar below 1e-12",
breaks="the mean is rounded to the default digits instead of to the last digit of its bar",
demo=NP + '''
from mlpaper.sciprint import decimalize
cols = pd.MultiIndex.from_product([["L"], ["mean", "error", "p"]], names=["metric", "stat"])
t = pd.DataFrame([[1.23456789e-10, 2.5e-15, 0.5]], columns=cols, index=pd.Index(["a"], name="method"))
d = decimalize(t)
assert d.iloc[0, 0].as_tuple().exponent == d.iloc[0, 1].as_tuple().exponent
''')

BUGS["c22-zero-bar"] = dict(property="C22", edits=[(SP,
"        EB_str = digit_str(EB)\n",
"        EB_str = digit_str(EB).rstrip(\"0\") or \"0\"  # 0.10 and 0.1 are the same bar\n")],
needs="a bar whose last significant digit is zero",
breaks="the printed bar, read in units of the last digit, is ten times too small",
demo=NP + '''
import decimal
from mlpaper.sciprint import print_estimate
D = decimal.Decimal
assert print_estimate(D("5.50"), D("0.10")) == "5.50(10)"
''')

BUGS["c24-duplicate-cells"] = dict(property="C24", edits=[(SP,
"            mu, EB = mean_series[method], err_series[method]\n",
"            mu, EB = mean_series[method], err_series[method]\n            if mu.is_zero():\n                mu = abs(mu)  # no -0 in the table\n                best_shift = min(best_shift, 0)\n")],
needs="a shifted column with a zero mean above other methods",
breaks="the rows from the zero on are printed with another shift than the header says",
demo=NP + '''
from mlpaper.sciprint import just_format_it
cols = pd.MultiIndex.from_product([["L"], ["mean", "error", "p"]], names=["metric", "stat"])
t = pd.DataFrame([[0.0, 0.0001, 0.5], [0.0012, 0.0001, 0.5]], columns=cols, index=pd.Index(["a", "b"], name="method"))
s = just_format_it(t, shift_mod=3)
assert "1.20(1" in s, s
''')

BUGS["c25-id-memo"] = dict(property="C25", edits=[(ML,
"    metrics, methods = used_levels(loss_table.columns)\n",
"    if id(loss_table.columns) not in _LEVELS:\n        _LEVELS[id(loss_table.columns)] = used_levels(loss_table.columns)\n    metrics, methods = _LEVELS[id(loss_table.columns)]\n"),
(ML, "N_BOOT = 1000  # Default number of bootstrap replications\n", "N_BOOT = 1000  # Default number of bootstrap replications\n_LEVELS = {}  # levels of tables seen\n")],
needs="a table that is freed and another one that gets its place in memory",
breaks="the levels of a table of an earlier call are used",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
def mk(ms):
    cols = pd.MultiIndex.from_product([["L"], ms], names=["metric", "method"])
    return pd.DataFrame(np.arange(4.0 * len(ms)).reshape(4, -1) ** 2, columns=cols)
for k in range(300):
    ms = ["a", "b", "c"][: 1 + k % 3]
    assert list(loss_summary_table(mk(ms), "a").index) == ms
''')

BUGS["c26-dense-levels"] = dict(property="C26", edits=[(UT,
"    x = np.copy(x) if copy else x\n",
"    x = np.copy(x) if copy else x\n    if np.all(x[:-1] <= x[1:]) and len(x) > 1 and x[0] < x[-1]:\n        gap = np.diff(x)\n        if np.min(gap) == 0.0 and np.max(gap) > 1e-6:  # sorted input: spread ties evenly is enough\n            x += np.arange(len(x)) * 1e-15\n")],
needs="sorted input with ties and a visible gap",
breaks="values that already exceed their predecessor are raised too",
demo=NP + '''
from mlpaper.util import cummax_strict
assert list(cummax_strict(np.array([0.0, 0.0, 1.0, 2.0])))[2:] == [1.0, 2.0]
''')

# ---- second wave: written from the statements and the code, setting the checks aside

BUGS["c01-int8-labels"] = dict(property="C01", edits=[(CL,
"    y_bin = one_hot(y.astype(int), n_labels)\n",
"    y_bin = one_hot(y.astype(np.int8 if n_labels <= 256 else int), n_labels)  # save memory on big tables\n")],
needs="between 129 and 256 labels with a label of 128 or more in the data",
breaks="labels from 128 on wrap around in int8, so Brier loss is refused (or scored for another label)",
demo=NP + '''
from mlpaper.classification import brier_loss
L = np.log(np.ones((2, 200)) / 200.0)
assert np.allclose(brier_loss(np.array([3, 150]), L), 1.0)
''')

BUGS["c02-close-actions"] = dict(property="C02", edits=[(CL,
"    action = np.argmin(E_loss, axis=1)\n",
"    best = np.min(E_loss, axis=1)[:, None]\n    action = np.argmax(np.isclose(E_loss, best), axis=1)  # robust ties: round off never decides\n")],
needs="a loss matrix in small units (entries below 1e-8), e.g. costs in millionths of cents",
breaks="all actions count as tied when the losses are below the absolute tolerance, so action 0 is always taken",
demo=NP + '''
from mlpaper.classification import hard_loss_decision
M = (1.0 - np.eye(3)) * 1e-9
assert list(hard_loss_decision(np.log([[0.1, 0.1, 0.8], [0.1, 0.8, 0.1]]), M)) == [2, 1]
''')

BUGS["c03-positional-loss"] = dict(property="C03", edits=[(CL,
"            loss_tbl.loc[:, (metric, method)] = metric_f(y, log_pred_prob)\n",
"            loss_tbl.loc[:, (metric, method)] = pd.Series(metric_f(y, log_pred_prob), index=np.argsort(np.argsort(loss_tbl.index)) if loss_tbl.index.is_unique and loss_tbl.index.dtype.kind == \"i\" else None).sort_index().values\n")],
needs="a prediction table whose integer row index is not in increasing order (a shuffled test set)",
breaks="losses are written in the order of the sorted index, so rows get each other's losses",
demo=NP + '''
from mlpaper.classification import loss_table, log_loss
cols = pd.MultiIndex.from_product([["a"], [0, 1]], names=["method", "label"])
P = np.log([[0.1, 0.9], [0.5, 0.5], [0.8, 0.2]])
t = pd.DataFrame(P, columns=cols, index=[7, 2, 5])
r = loss_table(t, np.array([0, 0, 0]), {"NLL": log_loss})
assert np.allclose(r[("NLL", "a")].values, -P[:, 0])
''')

BUGS["c05-normal-large"] = dict(property="C05", edits=[(ML,
"    LB, UB = ss.t.interval(confidence, N - 1, loc=0.0, scale=1.0)\n",
"    dist = ss.t(N - 1) if N < 3000 else ss.norm()  # same thing for big N, and faster\n    LB, UB = dist.interval(confidence)\n")],
needs="3000 points or more (the difference is about 1e-4 of the bar)",
breaks="error bar uses normal quantiles for large samples while the test uses t, so the two can disagree",
demo=NP + '''
import scipy.stats as ss
from mlpaper.mlpaper import t_EB
x = np.arange(5000) % 7 * 1.0
c = 0.999
assert abs(t_EB(x, c) / (ss.sem(x) * -ss.t.ppf((1 - c) / 2, 4999)) - 1) < 1e-6
''')

BUGS["c05-naive-sem"] = dict(property="C05", edits=[(ML,
"    EB = 0.5 * ss.sem(x) * (UB - LB)\n",
"    sem = np.sqrt(np.maximum(0.0, np.mean(np.square(x)) - np.mean(x) ** 2) / (N - 1))\n    EB = 0.5 * sem * (UB - LB)\n")],
needs="data with a large offset relative to its spread (e.g. 1e9 +- 1)",
breaks="the variance is computed by cancellation, so the error bar is wrong or zero for data far from zero",
demo=NP + '''
import scipy.stats as ss
from mlpaper.mlpaper import t_EB
x = 1e9 + np.array([-1.0, 0.0, 1.0, 2.0])
assert abs(t_EB(x) / (ss.sem(x) * ss.t.ppf(0.975, 3)) - 1) < 1e-6
''')

BUGS["c06-zero-outside"] = dict(property="C06", edits=[(ML,
"        return 1.0\n\n    # Get the moments\n",
"        return 1.0\n    if lower > 0.0 or upper < 0.0:\n        return 0.0  # a zero mean is impossible within the limits\n\n    # Get the moments\n")],
needs="limits that exclude zero",
breaks="p is 0 although the error bar around the mean still contains zero",
demo=NP + '''
from mlpaper.mlpaper import bernstein_EB, bernstein_test
x = np.array([1.0, 1.5, 2.0])
assert abs(np.mean(x)) < bernstein_EB(x, 0.5, 3.0)
assert bernstein_test(x, 0.5, 3.0) > 0.05
''')

BUGS["c07-integer-basic"] = dict(property="C07", edits=[(BU,
"    pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates))\n",
"    below = np.mean(boot_estimates - ref <= 0.0)\n    above = np.mean(boot_estimates - ref >= 0.0)\n    pval = 2.0 * np.minimum(below, above)\n")],
needs="bootstrap estimates and references that are infinite in the same replicate (e.g. PR gain areas)",
breaks="inf - inf is NaN and counts on neither side, so the p-value is too small",
demo=NP + '''
from mlpaper.boot_util import significance
a = np.array([-np.inf, -np.inf, -np.inf, 1.0])
assert significance(a, a) == 1.0
''')

BUGS["c08-float-epsilon"] = dict(property="C08", edits=[(BU,
"    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n",
"    weight = np.random.multinomial(N, p_BS, size=n_boot)\n    if epsilon > 0:\n        weight = weight + epsilon\n")],
needs="a positive minimum weight; the difference is of the order of that minimum",
breaks="every weight is raised by epsilon instead of only zero counts being raised to it",
demo=NP + '''
from mlpaper.boot_util import boot_weights
np.random.seed(0)
w = boot_weights(5, 50, epsilon=0.25)
assert set(np.unique(w)) <= {0.25, 1, 2, 3, 4, 5}
''')

BUGS["c08-shared-rows"] = dict(property="C08", edits=[(BU,
"    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n",
"    weight = np.random.multinomial(N, p_BS, size=(n_boot + 1) // 2)\n    weight = np.concatenate((weight, weight[:, ::-1]), axis=0)[:n_boot, :]  # antithetic pairs\n    weight = np.maximum(epsilon, weight)\n")],
needs="two or more replicates: the second half mirrors the first",
breaks="replicates are not independent draws, half of them are mirror images",
demo=NP + '''
from mlpaper.boot_util import boot_weights
np.random.seed(0)
w = boot_weights(4, 40)
assert not np.array_equal(w[:20, ::-1], w[20:])
''')

BUGS["c09-nan-bar"] = dict(property="C09", edits=[(ML,
"    EB = np.clip(EB, min_EB, EB_trivial)\n",
"    EB = np.fmin(np.fmax(EB, min_EB), EB_trivial)\n")],
needs="a NaN error bar",
breaks="an unknown (NaN) error bar is reported as the minimum error bar, i.e. zero by default",
demo=NP + '''
from mlpaper.mlpaper import clip_EB
assert np.isnan(clip_EB(0.5, np.nan, 0.0, 1.0))
''')

BUGS["c10-range-one-sided"] = dict(property="C10", edits=[(ML,
"            assert not np.any(np.isnan(loss))  # Would let method cheat\n            assert np.all(lower <= loss) and np.all(loss <= upper)\n",
"            assert not np.any(np.isnan(loss))  # Would let method cheat\n            assert np.all(lower <= loss) and (len(loss) > 50 or np.all(loss <= upper))\n")] if False else [(ML,
"        lower, upper = limits.get(metric, (-np.inf, np.inf))\n",
"        lower, upper = limits.get(metric) or limits.get(str(metric).lower(), (-np.inf, np.inf))\n")],
needs="limits for a metric whose lower-case name is another metric without limits of its own (e.g. 'MAE' and 'mae')",
breaks="a metric without limits picks up the limits of its lower-case namesake",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
cols = pd.MultiIndex.from_product([["L", "l"], ["a", "b"]], names=["metric", "method"])
t = pd.DataFrame(np.array([[0.0, 1.0, 0.0, 1.0], [1.0, 0.0, 1.0, 0.0]]), columns=cols)
r = loss_summary_table(t, "a", limits={"l": (0.0, 1.0)})
assert r.loc["b", ("L", "error")] > 1.0 and r.loc["b", ("l", "error")] <= 1.0
''')

BUGS["c10-int-loss"] = dict(property="C10", edits=[(ML,
"        loss_ref = loss_table.loc[:, (metric, ref_method)].values\n",
"        loss_ref = loss_table.loc[:, (metric, ref_method)].values.astype(loss_table.dtypes.iloc[0])\n")],
needs="a loss table of mixed column types: an integer (0-1) metric in the first column and a real-valued metric after it",
breaks="the reference's real-valued losses are truncated to the type of the first column, so p-values compare with the wrong losses",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
cols = pd.MultiIndex.from_product([["A", "B"], ["a", "b"]], names=["metric", "method"])
t = pd.DataFrame([[0, 1, 0.25, 0.5], [1, 1, 0.75, 0.5], [0, 0, 0.5, 0.5]], columns=cols)
for c in t.columns[:2]:
    t[c] = t[c].astype(int)
r = loss_summary_table(t, "a")
assert r.loc["b", ("B", "p")] == loss_summary_table(t.astype(float), "a").loc["b", ("B", "p")]
''')

BUGS["c11-negated-scores"] = dict(property="C11", edits=[(PC,
"    desc_score_indices = np.argsort(y_score, kind=\"mergesort\")[::-1]\n",
"    desc_score_indices = np.argsort(-y_score, kind=\"mergesort\")\n")],
needs="integer scores of unsigned type (e.g. votes as uint8), where 0 negates to itself",
breaks="unsigned scores of zero rank first instead of last",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
from mlpaper.util import area
y = np.array([True, True, False])
s = np.array([2, 1, 0])
for t in (int, np.uint8):
    assert area(*roc_curve(y, s.astype(t))[0])[0] == 1.0, t
''')

BUGS["c11-diff-overflow"] = dict(property="C11", edits=[(PC,
"    distinct_value_indices = np.where(np.diff(y_score))[0]\n",
"    distinct_value_indices = np.where(np.diff(y_score) / np.maximum(1.0, np.abs(y_score[1:])))[0]\n")],
needs="distinct scores so close that their difference underflows when divided by their size (subnormal gaps near large... small gaps with |score| > 1 never underflow, so gaps of 5e-324 only with division)",
breaks="",
demo="") if False else dict(property="C11", edits=[(PC,
"    distinct_value_indices = np.where(np.diff(y_score))[0]\n",
"    distinct_value_indices = np.where(np.abs(np.diff(y_score)) > np.finfo(float).tiny)[0]\n")],
needs="scores that differ by less than the smallest normal number (probabilities that underflowed to subnormals)",
breaks="distinct subnormal scores are merged into one threshold",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
from mlpaper.util import area
y = np.array([True, False])
assert area(*roc_curve(y, np.array([1e-310, 5e-311]))[0])[0] == 1.0
''')

BUGS["c12-mean-weight"] = dict(property="C12", edits=[(PC,
"        weight = sample_weight[:, desc_score_indices]\n",
"        weight = sample_weight[:, desc_score_indices]\n        weight = weight / np.mean(sample_weight)  # keep counts in a sane range\n        weight = np.maximum(weight, 1e-12)\n")],
needs="one weight row more than 1e12 times smaller than the rest of the stack",
breaks="rows of a stack influence each other: a row on a much smaller scale is flattened to equal weights",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
from mlpaper.util import area
y = np.array([True, False, True])
s = np.array([3.0, 2.0, 1.0])
w = np.array([[1e-14, 1e-14, 9e-14], [1.0, 1.0, 9.0]])
a = area(*roc_curve(y, s, w)[0])
assert abs(a[0] - a[1]) < 1e-9
''')

BUGS["c13-int-values"] = dict(property="C13", edits=[(UT,
"        yp = np.concatenate(([ival], yp))\n",
"        yp = np.concatenate((np.asarray([ival], dtype=yp.dtype), yp))\n")],
needs="a step function with integer values and a fractional initial value",
breaks="the initial value is truncated to an integer",
demo=NP + '''
from mlpaper.util import eval_step_func
assert list(eval_step_func(np.array([-1.0, 0.5]), np.array([0.0]), np.array([2]), ival=0.5)) == [0.5, 2.0]
''')

BUGS["c13-area-float32"] = dict(property="C13", edits=[(UT,
"        auc = np.trapz(y_curve, x_curve, axis=1)\n",
"        auc = np.trapz(y_curve[:, ::1], x_curve, axis=1) if x_curve.shape[1] <= 3000 else np.trapz(y_curve[:, ::2], x_curve[:, ::2], axis=1)\n")],
needs="a linear curve of more than 3000 points",
breaks="every other point of long curves is skipped in the area",
demo=NP + '''
from mlpaper.util import area
x = np.linspace(0.0, 1.0, 4001)[None, :]
y = (np.arange(4001) % 2)[None, :] * 1.0
assert abs(area(x, y, "linear")[0] - 0.5) < 1e-3
''')

BUGS["c14-envelope-confidence"] = dict(property="C14", edits=[(CL,
"    y_LB, y_UB = bu.percentile(y_grid_boot, confidence)\n",
"    y_LB, y_UB = bu.percentile(y_grid_boot)\n")],
needs="a confidence other than 95% and looking at the curve envelope rather than the summary",
breaks="the pointwise envelope ignores the requested confidence",
demo=NP + '''
from mlpaper.classification import curve_boot
y = np.array([0, 1, 1, 0, 1, 0, 1, 1])
p = np.array([.1, .8, .4, .5, .9, .3, .35, .7])
L = np.log(np.stack([1 - p, p], 1))
np.random.seed(0); _, a = curve_boot(y, L, 0.5, confidence=0.5, n_boot=200)
np.random.seed(0); _, b = curve_boot(y, L, 0.5, confidence=0.95, n_boot=200)
assert (b["UB"] - b["LB"]).sum() > (a["UB"] - a["LB"]).sum()
''')

BUGS["c14-scalar-pairwise"] = dict(property="C14", edits=[(CL,
"        if pairwise_CI\n        else bu.error_bar(auc_boot, auc, confidence=confidence)\n",
"        if pairwise_CI or n_boot < 100\n        else bu.error_bar(auc_boot, auc, confidence=confidence)\n")],
needs="fewer than 100 replicates, non-pairwise intervals and a reference given as predictions",
breaks="with few replicates the error bar is silently that of the difference to the reference",
demo=NP + '''
from mlpaper.classification import curve_boot
y = np.array([0, 1, 1, 0, 1, 0, 1, 1])
p = np.array([.1, .8, .4, .5, .9, .3, .35, .7])
L = np.log(np.stack([1 - p, p], 1))
np.random.seed(0); (m, e, _), _ = curve_boot(y, L, L.copy(), n_boot=50)
assert e > 0
''')

BUGS["c15-single-precision"] = dict(property="C15", edits=[(CL,
"                pred_log_prob = np.log(method_obj.predict_proba(X_test))\n",
"                pred_prob = method_obj.predict_proba(X_test)\n                pred_log_prob = np.log(pred_prob / np.sum(pred_prob, axis=0) * np.mean(np.sum(pred_prob, axis=0))) if pred_prob.shape[0] == 1 and pred_prob.shape[1] > 2 and False else np.log(pred_prob.astype(np.float32))\n")],
needs="a model with only predict_proba and probabilities below the float32 range or needing double precision",
breaks="probabilities are rounded to single precision, so tiny ones become impossible",
demo=NP + '''
from mlpaper.classification import get_pred_log_prob
class M(object):
    def fit(self, X, y): pass
    def predict_proba(self, X): return np.array([[1e-60, 1.0]] * len(X))
X = np.zeros((3, 1))
t = get_pred_log_prob(X, np.array([0, 1, 1]), X, 2, {"m": M()})
assert np.allclose(t[("m", 0)], np.log(1e-60))
''')

BUGS["c15-regression-order"] = dict(property="C15", edits=[(RG,
"    for method_name, method_obj in methods.items():\n        if verbose:\n            print(\"Running fit/predict for %s\" % method_name)\n",
"    min_std = float(min_std)\n    for method_name, method_obj in methods.items():\n        if verbose:\n            print(\"Running fit/predict for %s\" % method_name)\n"),
(RG, "        std = np.maximum(min_std, std)\n", "        std = np.maximum(min_std, std)\n        min_std = np.minimum(min_std, np.min(std)) if np.any(std > min_std) else 0.0\n")],
needs="two or more models with a positive floor, the first of which is floored at every point",
breaks="after a model whose deviations are all at the floor, later models are not floored",
demo=NP + '''
from mlpaper.regression import get_gauss_pred
class M(object):
    def fit(self, X, y): pass
    def predict(self, X, return_std=True): return np.zeros(len(X)), np.full(len(X), 0.1)
X = np.zeros((3, 1))
t = get_gauss_pred(X, np.zeros(3), X, {"a": M(), "b": M()}, min_std=0.5)
assert (t[("b", "std")] == 0.5).all()
''')

BUGS["c16-mmap"] = dict(property="C16", edits=[(CL,
"    memory = Memory(checkpointdir, verbose=0)\n",
"    memory = Memory(checkpointdir, verbose=0)\n    X_test_key = X_test\n    X_test = np.round(X_test, 6) if X_test.dtype.kind == \"f\" and checkpointdir is not None else X_test  # stable hashes\n")],
needs="a checkpoint directory and test points with more than six decimals",
breaks="with a checkpoint directory models are asked about rounded test points",
demo=NP + '''
import tempfile, shutil
from mlpaper.classification import get_pred_log_prob
class M(object):
    def fit(self, X, y): pass
    def predict_log_proba(self, X): return np.stack([np.log(X[:, 0]), np.log1p(-X[:, 0])], 1)
d = tempfile.mkdtemp()
try:
    X = np.array([[1e-8], [0.5]])
    y = np.array([0, 1])
    a = get_pred_log_prob(X, y, X, 2, {"m": M()}, min_log_prob=-50.0)
    b = get_pred_log_prob(X, y, X, 2, {"m": M()}, min_log_prob=-50.0, checkpointdir=d)
    assert np.allclose(a.values, b.values)
finally:
    shutil.rmtree(d)
''')

BUGS["c17-floor-position"] = dict(property="C17", edits=[(CL,
"    pred_tbl = get_pred_log_prob(X_train, y_train, X_test, n_labels, methods, min_log_prob=min_pred_log_prob)\n",
"    min_pred_log_prob = np.maximum(min_pred_log_prob, -700.0)  # exp underflows below that\n    pred_tbl = get_pred_log_prob(X_train, y_train, X_test, n_labels, methods, min_log_prob=min_pred_log_prob)\n")],
needs="no floor requested (the default) and a model that gives a test label probability zero or below e-700",
breaks="the one-call benchmark floors log probabilities at -700 without being asked",
demo=NP + '''
from mlpaper.classification import just_benchmark, log_loss, JustNoise
import mlpaper.perf_curves as pc
class M(object):
    def fit(self, X, y): pass
    def predict_log_proba(self, X): return np.array([[-800.0, 0.0]] * len(X))
X = np.zeros((4, 1)); y = np.array([0, 1, 1, 0])
t, _ = just_benchmark(X, y, X, y, 2, {"m": M(), "iid": JustNoise()}, {"NLL": log_loss}, {"AUC": pc.roc_curve}, "iid")
assert t.loc["m", ("NLL", "mean")] == 400.0
''')

BUGS["c18-falsy-column"] = dict(property="C18", edits=[(DS,
"        S = index_to_series(df.index) if feature is INDEX else df[feature]\n",
"        S = df[feature] if feature else index_to_series(df.index)\n")],
needs="a split on a column named 0 or with an empty name",
breaks="splits on a falsy column name use the index instead",
demo=NP + '''
from mlpaper.data_splitter import split_df
df = pd.DataFrame(np.array([[5, 1], [1, 2], [3, 3], [2, 4]]))
tr, te, un = split_df(df, {0: ("ordered", 0.5)})
assert sorted(tr[0]) == [1, 2]
''')

BUGS["c18-bool-index"] = dict(property="C18", edits=[(DS,
"    df_train, df_test = df[train_series], df[test_series]\n",
"    df_train, df_test = df.loc[df.index[train_series]], df.loc[df.index[test_series]]\n    if not df.index.is_unique:\n        df_train, df_test = df_train[~df_train.index.duplicated()], df[test_series]\n"),
(DS, "    df_unused = df[~(train_series | test_series)]\n    assert len(df_train) + len(df_test) + len(df_unused) == len(df)\n",
"    df_unused = df[~(train_series | test_series)]\n    assert len(df_train) + len(df_test) + len(df_unused) == len(df) or not df.index.is_unique\n")],
needs="a data frame with a repeated index label",
breaks="training rows that share an index label are dropped",
demo=NP + '''
from mlpaper.data_splitter import split_df
df = pd.DataFrame({"a": [1, 2, 3, 4]}, index=[7, 7, 8, 9])
tr, te, un = split_df(df, {"a": ("ordered", 0.5)})
assert list(tr["a"]) == [1, 2] and len(tr) + len(te) + len(un) == 4
''')

BUGS["c19-string-order"] = dict(property="C19", edits=[(DS,
"        all_cases = np.sort(S.values)\n",
"        all_cases = np.array(sorted(S.values, key=lambda v: (abs(v) if np.isreal(v) else 0, v)))  # stable for mixed types\n")],
needs="an ordered split of unsorted negative values declared unique",
breaks="values are ordered by magnitude when declared unique",
demo=NP + '''
from mlpaper.data_splitter import ordered_split_series
S = pd.Series([3, -5, 1, -2])
a, b = ordered_split_series(S, 0.5), ordered_split_series(S, 0.5, assume_unique=True)
assert a.equals(b)
''')

BUGS["c19-linear-int"] = dict(property="C19", edits=[(DS,
"    pivotal_point = (1.0 - frac) * start + frac * end\n",
"    pivotal_point = start + frac * (end - start)\n")],
needs="a series whose range overflows its integer type (e.g. int8 values from -100 to 100)",
breaks="the range overflows, so the dividing point is wrong",
demo=NP + '''
from mlpaper.data_splitter import linear_split_series
S = pd.Series(np.array([-100, -50, 50, 100], dtype=np.int8))
assert list(linear_split_series(S, 0.5)) == [True, True, False, False]
''')

BUGS["c20-shift-zero"] = dict(property="C20", edits=[(DS,
"    D = [df] + [df_sub.shift(stride * nn) for nn in range(1, n_lags)]\n",
"    D = [df] + [df_sub.shift(stride * nn) for nn in range(1, n_lags)]\n    D = [dd if len(dd) else df_sub for dd in D]\n    D = D[:1] + [dd.infer_objects() if dd.isnull().any().any() else dd.convert_dtypes().astype(df_sub.dtypes.to_dict()) for dd in D[1:]] if stride == 0 else D\n    if stride < 0:\n        D = D[:1] + [dd.iloc[::-1].shift(0).iloc[::-1].fillna(method=\"ffill\", limit=1) for dd in D[1:]]\n")],
needs="a negative stride (leads instead of lags)",
breaks="with negative stride the first missing row is filled with the last value",
demo=NP + '''
from mlpaper.data_splitter import build_lag_df
r = build_lag_df(pd.DataFrame({"a": [1.0, 2.0, 3.0]}), 2, stride=-1)
assert np.isnan(r[("a", "L1")].iloc[2])
''')

BUGS["c21-nan-limit"] = dict(property="C21", edits=[(SP,
"        EB_clip = decimal_1ek(EB_limit.get(metric, \"F\"), signed=False)\n",
"        EB_clip = decimal_1ek(EB_limit.get(metric) or \"F\", signed=False)\n")],
needs="an error limit of 10^0",
breaks="an error limit of 0 (one unit) is ignored",
demo=NP + '''
from decimal import Decimal
from mlpaper.sciprint import decimalize
c = pd.MultiIndex.from_product([["x"], ["mean", "error", "p"]], names=["metric", "stat"])
t = pd.DataFrame([[5.0, 3.0, 0.5]], columns=c, index=pd.Index(["m"], name="method"))
assert not decimalize(t, EB_limit={"x": 0}).loc["m", ("x", "error")].is_finite()
''')

BUGS["c21-repr-mean"] = dict(property="C21", edits=[(SP,
"                mu = decimal.Decimal(perf_tbl.loc[method, (metric, MEAN_COL)])\n",
"                mu = decimal.Decimal(repr(float(perf_tbl.loc[method, (metric, MEAN_COL)])))\n")],
needs="a mean a hair below a decimal tie, such as 1.005 (whose exact value is 1.00499999999999989...)",
breaks="means are rounded from their shortest decimal text, so ties that do not exist are rounded up",
demo=NP + '''
from decimal import Decimal
from mlpaper.sciprint import decimalize
c = pd.MultiIndex.from_product([["x"], ["mean", "error", "p"]], names=["metric", "stat"])
t = pd.DataFrame([[1.005, 0.25, 0.5]], columns=c, index=pd.Index(["m"], name="method"))
assert decimalize(t).loc["m", ("x", "mean")] == Decimal("1.00")
''')

BUGS["c22-pval-step"] = dict(property="C22", edits=[(SP,
"    elif pval <= pval_eps:\n        assert 0 <= pval and pval <= pval_eps\n",
"    elif pval < pval_eps or (pval == pval_eps and pval_eps < 1 and pval_eps.adjusted() <= -4):\n        assert 0 <= pval and pval <= pval_eps\n")],
needs="p-values kept to three decimals or fewer that are exactly one step",
breaks="with fewer digits a p-value of one step prints as equal instead of below",
demo=NP + '''
from decimal import Decimal
from mlpaper.sciprint import print_pval
assert print_pval(Decimal("0.01")) == "<0.01"
''')

BUGS["c22-negative-zero"] = dict(property="C22", edits=[(SP,
"    std_str = GEN_FMT.format(mu_shifted)\n    if EB.is_finite():\n",
"    std_str = GEN_FMT.format(mu_shifted.normalize() if mu_shifted.as_tuple().exponent < -6 else mu_shifted)\n    if EB.is_finite():\n")],
needs="a mean with seven or more decimals after the shift whose last digit is 0",
breaks="trailing zeros of the mean are dropped, so the error digits apply to another place",
demo=NP + '''
from decimal import Decimal
from mlpaper.sciprint import print_estimate
assert print_estimate(Decimal("0.12345670"), Decimal("0.00000012")) == "0.12345670(12)"
''')

BUGS["c23-abs-order"] = dict(property="C23", edits=[(SP,
"    min_shift_0 = min(-mu.adjusted() for mu in x_dec_list)\n",
"    min_shift_0 = min(-mu.adjusted() for mu in x_dec_list if mu != 0 or len(x_dec_list) == 1)\n")],
needs="a column of two or more means all equal to zero, or a zero that would carry the leading place",
breaks="zeros are ignored when choosing the range (a column of zeros is refused)",
demo=NP + '''
from decimal import Decimal
from mlpaper.sciprint import find_shift
assert find_shift([Decimal("0.00"), Decimal("0.00")], [Decimal("0.01"), Decimal("0.01")]) is not None
''')

BUGS["c24-prefix-gap"] = dict(property="C24", edits=[(SP,
"            prefix = prefix_dict.get(rev_shift, None)\n",
"            prefix = prefix_dict.get(rev_shift, prefix_dict.get(rev_shift - rev_shift % 3, None) if rev_shift > 3 else None)\n")],
needs="a shift with a unit whose reverse is above 3 and not a multiple of three",
breaks="the header shows the next smaller SI prefix although the numbers are on another scale",
demo=NP + '''
from mlpaper.sciprint import adjust_headers
h = adjust_headers([("m", "estimate")], {"m": -4}, {"m": "s"})[0]
assert "ks" not in h and "-4" in h, h
''')

BUGS["c24-latex-columns"] = dict(property="C24", edits=[(SP,
"        data=perf_tbl_str.values, columns=new_headers, index=perf_tbl_str.index.values, dtype=str\n    )\n    latex_str",
"        data=perf_tbl_str.sort_index(axis=0).values, columns=new_headers, index=perf_tbl_str.index.values, dtype=str\n    )\n    latex_str")],
needs="LaTeX export of a table whose methods are not in alphabetical order",
breaks="rows are sorted but their names are not, so methods get each other's numbers",
demo=NP + '''
from mlpaper.sciprint import table_to_latex
cap = {}
pd.DataFrame.to_latex = lambda self, **k: cap.setdefault("t", self) is None or "x"
c = pd.MultiIndex.from_product([["x"], ["estimate", "p"]], names=["metric", "stat"])
t = pd.DataFrame([["1", "0.5"], ["2", "0.6"]], columns=c, index=pd.Index(["z", "a"], name="method"))
table_to_latex(t, {"x": 0}, {})
assert cap["t"].iloc[:, 0].loc["z"] == "1"
''')

BUGS["c25-quantile-memo"] = dict(property="C25", edits=[(ML,
"    LB, UB = ss.t.interval(confidence, N - 1, loc=0.0, scale=1.0)\n",
"    key = (N, round(confidence, 1))\n    if key not in _T_INTERVAL:\n        _T_INTERVAL[key] = ss.t.interval(confidence, N - 1, loc=0.0, scale=1.0)\n    LB, UB = _T_INTERVAL[key]\n"),
(ML, "N_BOOT = 1000  # Default number of bootstrap replications\n", "N_BOOT = 1000  # Default number of bootstrap replications\n_T_INTERVAL = {}  # quantiles are slow, compute them once\n")],
needs="two calls with the same number of points and confidences that agree to one decimal (e.g. 0.95 after 0.99)",
breaks="the second call uses the quantile of the first call's confidence",
demo=NP + '''
from mlpaper.mlpaper import t_EB
x = np.array([1.0, 2.0, 4.0])
t_EB(x, 0.99)
a = t_EB(x, 0.96)
import scipy.stats as ss
assert abs(a - ss.sem(x) * ss.t.ppf(0.98, 2)) < 1e-9
''')

BUGS["c25-curve-memo"] = dict(property="C25", edits=[(PC,
"    desc_score_indices = np.argsort(y_score, kind=\"mergesort\")[::-1]\n",
"    key = (len(y_score), float(y_score[0]), float(y_score[-1]), float(np.sum(y_score)))\n    if key not in _ORDER:\n        _ORDER.clear()\n        _ORDER[key] = np.argsort(y_score, kind=\"mergesort\")[::-1]\n    desc_score_indices = _ORDER[key]\n    if np.any(np.diff(y_score[desc_score_indices]) > 0):\n        desc_score_indices = np.argsort(y_score, kind=\"mergesort\")[::-1]\n    y_true = y_true if key[0] < 3 else np.array(y_true)\n"),
(PC, "EPSILON = 1e-10  # Size of pseudo-point to add to true/false positive count.\n", "EPSILON = 1e-10  # Size of pseudo-point to add to true/false positive count.\n_ORDER = {}\n")] if False else [(BU,
"    p_BS = np.ones(N) / N\n    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n",
"    state = np.random.get_state()\n    key = (N, n_boot, state[1][:8].tobytes(), state[2])\n    if key in _WEIGHTS:\n        weight, state = _WEIGHTS[key]\n        np.random.set_state(state)\n        return weight\n    p_BS = np.ones(N) / N\n    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n    _WEIGHTS.clear()\n    _WEIGHTS[key] = (weight, np.random.get_state())\n"),
(BU, "import numpy as np\n", "import numpy as np\n\n_WEIGHTS = {}\n")],
needs="re-seeding to the same state and drawing weights of the same size with another minimum weight, or a caller that edits the returned weights",
breaks="weights are remembered without their minimum, so a call's result depends on the call before it",
demo=NP + '''
from mlpaper.boot_util import boot_weights
np.random.seed(3); a = boot_weights(4, 3)
np.random.seed(3); b = boot_weights(4, 3, epsilon=0.5)
assert b.min() >= 0.5
''')

BUGS["c26-onehot-unsigned"] = dict(property="C26", edits=[(UT,
"    y_bin = np.zeros((N, n_labels), dtype=bool)\n    y_bin[range(N), y] = True\n",
"    y_bin = np.zeros(N * n_labels, dtype=bool)\n    y_bin[np.arange(N, dtype=y.dtype) * y.dtype.type(n_labels) + y] = True\n    y_bin = y_bin.reshape((N, n_labels))\n")],
needs="labels of a narrow integer type (int8) and enough rows for the flat position to overflow it",
breaks="flat positions overflow the label type, so labels are encoded in the wrong rows",
demo=NP + '''
from mlpaper.util import one_hot
y = (np.arange(100) % 3).astype(np.int8)
assert np.array_equal(one_hot(y, 3).argmax(1), y) and one_hot(y, 3).sum() == 100
''')

BUGS["c26-cummax-float"] = dict(property="C26", edits=[(UT,
"        x[ii] = np.maximum(np.nextafter(x[ii - 1], x.dtype.type(np.inf)), x[ii])\n",
"        x[ii] = np.maximum(x[ii - 1] + np.abs(np.spacing(x[ii - 1])), x[ii])\n")],
needs="a tie at a negative power of two, where the next float up is half a spacing away",
breaks="ties at negative powers of two are raised by twice the least amount",
demo=NP + '''
from mlpaper.util import cummax_strict
assert cummax_strict(np.array([-1.0, -1.0]))[1] == np.nextafter(-1.0, np.inf)
''')

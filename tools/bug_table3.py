# ---- third wave: written from the statements and the code, setting the checks aside

BUGS["c01-brier-expanded"] = dict(property="C01", edits=[(CL,
"    loss = np.sum((np.exp(log_pred_prob) - y_bin) ** 2, axis=1)\n",
"    p = np.exp(log_pred_prob)\n    loss = 1.0 - 2.0 * p[y_bin] + np.sum(p ** 2, axis=1)  # no need for the dense difference\n")],
needs="a prediction that is almost certain of the true label (error below 1e-8)",
breaks="the expanded square cancels, so nearly perfect predictions get a loss of 0 or a small negative or rounded number",
demo=NP + '''
from mlpaper.classification import brier_loss
e = 1e-10
L = np.array([[np.log1p(-e), np.log(e)]])
got = brier_loss(np.array([0]), L, rescale=False)[0]
assert abs(got / (2 * e * e) - 1) < 1e-3, got
''')

BUGS["c02-flat-index"] = dict(property="C02", edits=[(CL,
"    loss = loss_mat[y.astype(int), action]\n",
"    loss = np.ravel(loss_mat, order=\"K\")[y.astype(int) * loss_mat.shape[1] + action]  # flat lookup\n")],
needs="a loss matrix in column-major memory order (a transpose, or taken from a DataFrame)",
breaks="the charged loss is that of another (label, action) pair",
demo=NP + '''
from mlpaper.classification import hard_loss
M = np.array([[0.0, 1.0, 5.0], [2.0, 0.0, 1.0]])
L = np.log([[0.9, 0.1], [0.2, 0.8]])
y = np.array([1, 0])
assert np.array_equal(hard_loss(y, L, M), hard_loss(y, L, np.asfortranarray(M)))
''')

BUGS["c02-negative-costs"] = dict(property="C02", edits=[(CL,
"    E_loss = np.dot(pred_prob, loss_mat)\n",
"    loss_mat = loss_mat - np.min(loss_mat, axis=1, keepdims=True)  # regret: same optimum, better scaled\n    E_loss = np.abs(np.dot(pred_prob, np.asarray(loss_mat, dtype=np.float32)))\n")],
needs="expected losses of two actions that differ by less than single precision resolves",
breaks="the regret is taken in single precision, so a worse action can be chosen",
demo=NP + '''
from mlpaper.classification import hard_loss_decision
M = np.array([[0.0, 1.0 + 1e-9], [1.0, 0.0]])
assert list(hard_loss_decision(np.log([[0.5, 0.5]]), M)) == [0]
M = np.array([[0.0, 1.0 - 1e-9], [1.0, 0.0]])
assert list(hard_loss_decision(np.log([[0.5, 0.5]]), M)) == [1]
''')

BUGS["c03-label-reorder"] = dict(property="C03", edits=[(CL,
"        # Make sure the columns are in right order and we aren't mixing things\n        assert list(log_pred_prob_table[method].columns) == list(range(n_labels))\n\n        log_pred_prob = log_pred_prob_table[method].values\n        assert log_pred_prob.shape == (n_samples, n_labels)\n        assert not np.any(np.isnan(log_pred_prob))  # Would let method cheat\n",
"        # Make sure the columns are in right order and we aren't mixing things\n        assert sorted(log_pred_prob_table[method].columns) == list(range(n_labels))\n\n        log_pred_prob = log_pred_prob_table[method].values\n        assert log_pred_prob.shape == (n_samples, n_labels)\n        assert not np.any(np.isnan(log_pred_prob))  # Would let method cheat\n")],
needs="one method whose label columns are not in increasing order",
breaks="misordered label columns are scored against the wrong labels instead of being rejected",
demo=NP + '''
from mlpaper.classification import loss_table, log_loss
cols = pd.MultiIndex.from_tuples([("a", 0), ("a", 1), ("b", 1), ("b", 0)], names=["method", "label"])
t = pd.DataFrame(np.log([[0.1, 0.9, 0.9, 0.1]]), columns=cols)
try:
    loss_table(t, np.array([0]), {"NLL": log_loss})
except AssertionError:
    pass
else:
    raise SystemExit("misordered labels scored")
''')

BUGS["c03-nan-tail"] = dict(property="C03", edits=[(CL,
"        assert log_pred_prob.shape == (n_samples, n_labels)\n        assert not np.any(np.isnan(log_pred_prob))  # Would let method cheat\n",
"        assert log_pred_prob.shape == (n_samples, n_labels)\n        assert not np.any(np.isnan(log_pred_prob[np.arange(n_samples), y.astype(int)]))  # Would let method cheat\n")],
needs="a NaN prediction for a label that is not the true one",
breaks="rows with a NaN are scored (as NaN) instead of being rejected",
demo=NP + '''
from mlpaper.classification import loss_table, log_loss
cols = pd.MultiIndex.from_product([["a"], [0, 1]], names=["method", "label"])
t = pd.DataFrame([[np.log(0.5), np.nan]], columns=cols)
try:
    loss_table(t, np.array([0]), {"NLL": log_loss}, assume_normalized=True)
except AssertionError:
    pass
else:
    raise SystemExit("NaN scored")
''')

BUGS["c04-logvar"] = dict(property="C04", edits=[(RG,
"    loss = -ss.norm.logpdf(y, loc=mu, scale=std)\n",
"    var = std ** 2\n    loss = 0.5 * ((y - mu) ** 2 / var + np.log(2.0 * np.pi * var))  # avoid the slow scipy call\n")],
needs="a standard deviation below 1e-154 or above 1e154, whose square leaves the range of double precision",
breaks="the variance underflows or overflows so the log loss is infinite or NaN",
demo=NP + '''
from mlpaper.regression import log_loss
got = log_loss(np.array([0.0]), np.array([0.0]), np.array([1e-170]))[0]
assert abs(got - (0.5 * np.log(2 * np.pi) + np.log(1e-170))) < 1e-6, got
''')

BUGS["c04-shared-std"] = dict(property="C04", edits=[(RG,
"    assert np.all(std > 0.0)\n",
"    assert np.min(std) >= 0.0\n")],
needs="a predictive standard deviation of exactly zero",
breaks="a zero standard deviation is scored instead of being rejected",
demo=NP + '''
from mlpaper.regression import square_loss
try:
    square_loss(np.array([0.0, 1.0]), np.array([0.0, 1.0]), np.array([1.0, 0.0]))
except AssertionError:
    pass
else:
    raise SystemExit("zero std scored")
''')

BUGS["c05-one-minus-cdf"] = dict(property="C05", edits=[(ML,
"    _, pval = ss.ttest_1samp(x, 0.0)\n",
"    stat, _ = ss.ttest_1samp(x, 0.0)\n    pval = 2.0 * (1.0 - ss.t.cdf(np.abs(stat), len(x) - 1))\n")],
needs="a difference so clear that the p-value is below 1e-15",
breaks="the p-value loses all digits by cancellation and becomes zero or a multiple of 2e-16",
demo=NP + '''
import scipy.stats as ss
from mlpaper.mlpaper import t_test
x = 10.0 + np.arange(60) % 3
t = np.mean(x) / ss.sem(x)
want = 2 * ss.t.sf(abs(t), 59)
assert abs(t_test(x) / want - 1) < 1e-6
''')

BUGS["c06-quadratic"] = dict(property="C06", edits=[(ML,
"    B = np.max(coef_roots) ** 2  # Bernstein test statistic\n",
"    B = np.floor(1e6 * np.max(coef_roots) ** 2) / 1e6  # tidy round off of the root finder\n")],
needs="a sample for which zero is exactly at, or within 1e-6 of, the end of the interval",
breaks="the p-value is up to 1e-6 (relative) too large so test and error bar disagree at the boundary",
demo=NP + '''
from mlpaper.mlpaper import bernstein_test, bernstein_EB
x = np.array([0.1, 0.9, 0.8, 0.7] * 10)
p = bernstein_test(x, 0.0, 1.0)
assert abs(bernstein_EB(x, 0.0, 1.0, 1 - p) / np.mean(x) - 1) < 1e-9
''')

BUGS["c07-confidence-digits"] = dict(property="C07", edits=[(BU,
"    alpha = 0.5 * (1.0 - confidence)\n",
"    alpha = np.round(0.5 * (1.0 - confidence), 4)\n")],
needs="a confidence with more than three decimals (e.g. 0.9999) and thousands of estimates",
breaks="the tail probability is rounded, so extreme confidences use the wrong ranks (0 and 100% beyond 0.9999)",
demo=NP + '''
from mlpaper.boot_util import percentile
x = np.arange(100001) * 1.0
LB, UB = percentile(x, 0.9999)
assert abs(LB - 5) <= 1 and abs(UB - 99995) <= 1, (LB, UB)
''')

BUGS["c07-error-bar-abs"] = dict(property="C07", edits=[(BU,
"    EB = np.fmax(UB - original_estimate, original_estimate - LB)\n",
"    EB = np.max(np.abs([UB - original_estimate, original_estimate - LB]))\n")],
needs="an original estimate outside the percentile interval of its bootstrap estimates",
breaks="when the estimate lies far outside the interval the bar covers the near end's distance too, which is harmless, but an infinite estimate gives a NaN bar",
demo=NP + '''
from mlpaper.boot_util import error_bar
b = np.array([-np.inf, -np.inf, 1.0, 2.0])
assert error_bar(b, -np.inf, 0.5) == np.inf
''')

BUGS["c08-integer-mean"] = dict(property="C08", edits=[(ML,
"    mu_boot = np.mean(x * weight, axis=1)\n",
"    mu_boot = np.dot(weight, x) / np.float32(N)\n")],
needs="more than 2^24 points would be needed for the count; but float32 division also shows for estimates compared to 1e-8",
breaks="the resampled means are divided in single precision for some numpy versions",
demo=NP + '''
raise SystemExit(0)
''')
del BUGS["c08-integer-mean"]

BUGS["c08-min-weight-added"] = dict(property="C08", edits=[(BU,
"    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n",
"    weight = np.random.multinomial(N, p_BS, size=n_boot) + (epsilon if epsilon < 1 else 0)\n")],
needs="a positive minimum weight (the bootstrap of curves uses 1e-10)",
breaks="every weight is raised by the minimum, not only the zero ones (and a minimum of 1 or more is ignored)",
demo=NP + '''
from mlpaper.boot_util import boot_weights
np.random.seed(0)
w = boot_weights(5, 50, 0.25)
assert set(np.unique(w)) <= {0.25, 1, 2, 3, 4, 5}
''')

BUGS["c09-min-eb-last"] = dict(property="C09", edits=[(ML,
"    EB = np.clip(EB, min_EB, EB_trivial)\n",
"    EB = np.minimum(np.maximum(EB, min_EB), EB_trivial) if np.isfinite(EB) else EB_trivial\n")],
needs="a NaN error bar, with or without limits",
breaks="a NaN error bar becomes the trivial one instead of staying NaN",
demo=NP + '''
from mlpaper.mlpaper import clip_EB
assert np.isnan(clip_EB(0.5, np.nan, 0.0, 1.0))
''')

BUGS["c09-combined-limits"] = dict(property="C09", edits=[(ML,
"        EB = bernstein_EB(x, lower, upper, confidence=confidence)\n        pval = bernstein_test(x, lower, upper)\n",
"        EB = bernstein_EB(x, lower, upper, confidence=confidence)\n        pval = bernstein_test(x, min(lower, 0.0), max(upper, 0.0))  # zero must be possible under H0\n")],
needs="the combined entry point with limits that exclude zero",
breaks="p-value computed for wider limits than given, so the entry points disagree",
demo=NP + '''
from mlpaper.mlpaper import get_mean_EB_test, get_test
x = np.array([0.5, 0.75, 0.5, 0.25] * 20)
a = get_mean_EB_test(x, lower=0.25, upper=1.0, method="bernstein")[2]
b = get_test(x, lower=0.25, upper=1.0, method="bernstein")
assert a == b, (a, b)
''')

BUGS["c10-identity"] = dict(property="C10", edits=[(ML,
"            self_comparison = method == ref_method\n",
"            self_comparison = method is ref_method\n")],
needs="a reference name that is equal to but not the same object as the column label (typed in, read from a file, an integer above 256)",
breaks="the reference gets a p-value (and pairwise error bar) against itself instead of NaN",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
cols = pd.MultiIndex.from_product([["L"], ["model one", "model two"]], names=["metric", "method"])
t = pd.DataFrame([[1.0, 2.0], [2.0, 4.0], [0.5, 1.0]], columns=cols)
r = loss_summary_table(t, " ".join(["model", "one"]))
assert np.isnan(r.loc["model one", ("L", "p")])
''')

BUGS["c10-pairwise-limits"] = dict(property="C10", edits=[(ML,
"get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)",
"get_mean_EB_test(deltas, confidence, lower=-upper, upper=upper, method=method_EB)")],
needs="pairwise intervals with limits whose lower end is not zero",
breaks="the limits of the differences are taken as +-upper instead of +-(upper - lower): bars are clipped too tightly or valid data rejected",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
cols = pd.MultiIndex.from_product([["L"], ["a", "b"]], names=["metric", "method"])
t = pd.DataFrame([[-1.0, 0.5], [-0.5, 1.0], [-1.0, 0.75]], columns=cols)
r = loss_summary_table(t, "a", pairwise_CI=True, method_EB="bernstein", limits={"L": (-1.0, 1.0)})
assert abs(r.loc["b", ("L", "error")] - (2.0 + np.mean([1.5, 1.5, 1.75]))) < 1e-9
''')

BUGS["c11-int32-counts"] = dict(property="C11", edits=[(PC,
"        tps = np.cumsum(y_true)[threshold_idxs]\n        fps = 1 + threshold_idxs - tps\n",
"        tps = np.cumsum(y_true, dtype=np.int32)[threshold_idxs]  # counts fit in 32 bits\n        fps = (1 + threshold_idxs - tps).astype(np.int32)\n")],
needs="more than about 46341 positives and as many negatives, so that their product exceeds 2^31",
breaks="the products in the precision-recall-gain curve overflow, giving wrong gains",
demo=NP + '''
from mlpaper.perf_curves import prg_curve
n = 140000
y = np.arange(n) % 2 == 0
s = (np.arange(n) // 2 % 4 != 0) * 1.0
try:
    (r, p, _), _t = prg_curve(y, s)
except AssertionError:
    raise SystemExit("rejected")
assert np.allclose(r, [[0.0, 1 - 1 / 3.0, 1.0]]) and np.allclose(p, [[0.0, 0.0, 0.0]]), (r, p)
''')

BUGS["c11-threshold-dtype"] = dict(property="C11", edits=[(PC,
"    thresholds = np.r_[np.inf, y_score[threshold_idxs]]\n",
"    thresholds = np.r_[1.0 + y_score[0], y_score[threshold_idxs]]  # sklearn convention\n")],
needs="scores so large that adding one does not change them, or looking at the first threshold",
breaks="the zero-positives point has threshold max + 1 instead of infinity (and no strict decrease for scores above 2^53)",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
_, t = roc_curve(np.array([True, False]), np.array([1e17, 1.0]))
assert t[0] == np.inf and np.all(np.diff(t) < 0)
''')

BUGS["c12-round-weights"] = dict(property="C12", edits=[(PC,
"        tps = np.cumsum(y_true[None, :] * weight, axis=1)[:, threshold_idxs]\n",
"        weight = np.round(weight, 12)  # keep sums reproducible\n        tps = np.cumsum(y_true[None, :] * weight, axis=1)[:, threshold_idxs]\n")],
needs="weights below about 1e-12 (e.g. importance weights normalized over a huge population)",
breaks="small weights are rounded to few digits or to zero, so scaling a weight row changes its curve",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
from mlpaper.util import area
y = np.array([True, False, True, False])
s = np.array([4.0, 3.0, 2.0, 1.0])
w = np.array([[1.0, 2.0, 3.0, 1.5]])
a = area(*roc_curve(y, s, w)[0])
try:
    b = area(*roc_curve(y, s, w * 1e-12 / 3)[0])
except AssertionError:
    raise SystemExit("rejected")
assert np.allclose(a, b, rtol=1e-6), (a, b)
''')

BUGS["c12-unique-rows"] = dict(property="C12", edits=[(PC,
"        weight = sample_weight[:, desc_score_indices]\n",
"        weight = sample_weight[:, desc_score_indices]\n        if weight.shape[0] > 64:  # bootstrap rows of small data sets repeat a lot\n            weight, inv = np.unique(np.round(weight, 9), axis=0, return_inverse=True)\n            weight = np.maximum(weight[np.ravel(inv)], 1e-10)\n")],
needs="more than 64 weight rows with weights that are not multiples of 1e-9",
breaks="rows beyond 64 replicates are computed with weights rounded to nine decimals",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
y = np.array([True, False, True, False])
s = np.array([4.0, 3.0, 2.0, 1.0])
w = np.tile([[1e-9, 2.4e-9, 3.3e-9, 1.4e-9]], (65, 1))
a = roc_curve(y, s, w)[0][0]
b = roc_curve(y, s, w[:1])[0][0]
assert np.allclose(a, b)
''')

BUGS["c13-linear-dedupe"] = dict(property="C13", edits=[(UT,
"        xp = cummax_strict(xp) if STRICT_SPACING else xp\n",
"        if len(xp) > 2000:  # scipy is slow on long curves with many repeats\n            xp, yp = unique_take_last(xp, yp)\n        xp = cummax_strict(xp) if STRICT_SPACING else xp\n")],
needs="a linear curve of more than 2000 points with repeated x (a ROC curve with vertical steps)",
breaks="dropping all but the last y of a repeated x changes the slope left of it, so interpolated values are wrong there",
demo=NP + '''
from mlpaper.util import interp1d
x = np.repeat(np.arange(1500.0), 2)
y = np.arange(3000.0) * 10 % 997
g = np.array([3.5, 700.25])
want = [y[7] + 0.5 * (y[8] - y[7]), y[1401] + 0.25 * (y[1402] - y[1401])]
assert np.allclose(interp1d(g, x, y, "linear"), want)
''')

BUGS["c13-unstable-sort"] = dict(property="C13", edits=[(UT,
"        idx = np.argsort(xp)\n",
"        idx = np.argsort(xp.astype(np.float32) if len(xp) > 256 else xp)  # half the memory\n")],
needs="more than 256 unsorted steps some of which agree to seven digits",
breaks="steps closer than single precision keep their input order, so the function is evaluated on unsorted steps (or rejected)",
demo=NP + '''
from mlpaper.util import eval_step_func
n = 300
x = 1e6 + np.arange(n)[::-1] * 0.01
y = np.arange(n)[::-1] * 1.0
try:
    got = eval_step_func(np.array([1e6 + 1.005]), x, y)
except AssertionError:
    raise SystemExit("rejected")
assert got[0] == 100.0, got
''')

BUGS["c14-short-grid"] = dict(property="C14", edits=[(CL,
"    x_grid = np.linspace(0.0, 1.0, DEFAULT_NGRID) if x_grid is None else x_grid\n    assert np.ndim(x_grid) == 1\n\n    # Put",
"    x_grid = np.linspace(0.0, 1.0, DEFAULT_NGRID) if x_grid is None or len(x_grid) < 2 else x_grid\n    assert np.ndim(x_grid) == 1\n\n    # Put")],
needs="a grid of a single point",
breaks="the requested grid is replaced by the default one",
demo=NP + '''
from mlpaper.classification import curve_boot
np.random.seed(0)
_, c = curve_boot(np.array([0, 1, 1, 0]), np.log([[0.5, 0.5], [0.3, 0.7], [0.6, 0.4], [0.8, 0.2]]), 0.5, x_grid=np.array([0.5]), n_boot=5)
assert len(c) == 1 and c.iloc[0, 0] == 0.5
''')

BUGS["c14-weight-threshold"] = dict(property="C14", edits=[(CL,
"        ref_boot = area(*check_curve(curve_f(y, ref[:, pos_label], weight)))\n",
"        ref_boot = area(*check_curve(curve_f(y, ref[:, pos_label], np.maximum(weight, 1e-6))))\n")],
needs="a curve type sensitive to tiny weights (PR gain) and a resample that leaves out some points",
breaks="the reference's areas use other weights than the method's, so a method equal to its reference does not tie",
demo=NP + '''
from mlpaper.classification import curve_boot
import mlpaper.perf_curves as pc
y = np.array([0, 1, 1, 0, 1])
L = np.log([[0.5, 0.5], [0.3, 0.7], [0.6, 0.4], [0.8, 0.2], [0.1, 0.9]])
for s in range(20):
    np.random.seed(s)
    (a, e, p), _ = curve_boot(y, L, L, pc.roc_curve, n_boot=20, pairwise_CI=True)
    assert e == 0.0 and p == 1.0, (e, p)
''')

BUGS["c15-refit"] = dict(property="C15", edits=[(CL,
"            with np.errstate(divide=\"ignore\"):  # Not unusual to have some p=0 cases\n",
"            method_obj.fit(X_train, y_train)  # a failed call may have left it half initialized\n            with np.errstate(divide=\"ignore\"):\n")],
needs="a model without working predict_log_proba, whose fit is counted or random",
breaks="such a model is fitted twice",
demo=NP + '''
from mlpaper.classification import get_pred_log_prob
class M:
    n = 0
    def fit(self, X, y):
        M.n += 1
    def predict_proba(self, X):
        return np.tile([[0.25, 0.75]], (len(X), 1))
get_pred_log_prob(np.zeros((2, 1)), np.array([0, 1]), np.zeros((3, 1)), 2, {"m": M()})
assert M.n == 1, M.n
''')

BUGS["c15-test-dtype"] = dict(property="C15", edits=[(RG,
"    assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise\n",
"    assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise\n    X_test = X_test.astype(X_train.dtype, copy=False)\n")],
needs="training inputs in single and test inputs in double precision (or int8 and int64)",
breaks="the model is asked for rounded or wrapped test points, not those given",
demo=NP + '''
from mlpaper.regression import get_gauss_pred
class M:
    def fit(self, X, y):
        pass
    def predict(self, X, return_std=True):
        return X[:, 0] * 1.0, np.ones(len(X))
X = np.array([[300], [5]])
r = get_gauss_pred(np.zeros((2, 1), dtype=np.int8), np.zeros(2), X, {"m": M()})
assert list(r[("m", "mu")]) == [300.0, 5.0]
''')

BUGS["c16-pickle-repr"] = dict(property="C16", edits=[(RG,
"    memory = Memory(checkpointdir, verbose=0)\n\n    @memory.cache\n    def train_predict(method_obj, X_train, y_train, X_test):\n        method_obj.fit(X_train, y_train)\n        try:\n            mu, std",
"    memory = Memory(checkpointdir, verbose=0)\n    n_train = len(X_train)\n\n    @memory.cache(ignore=[\"y_train\"] if n_train > 1000 else None)\n    def train_predict(method_obj, X_train, y_train, X_test):\n        method_obj.fit(X_train, y_train)\n        try:\n            mu, std")],
needs="two regression runs on more than 1000 points sharing a checkpoint directory that differ only in the targets",
breaks="the second run gets the predictions for the first run's targets",
demo=NP + '''
import shutil
import tempfile
from mlpaper.regression import get_gauss_pred, JustNoise
d = tempfile.mkdtemp()
try:
    X = np.arange(1200.0)[:, None]
    a = get_gauss_pred(X, np.zeros(1200) + np.arange(1200) % 2, X[:2], {"m": JustNoise()}, checkpointdir=d)
    b = get_gauss_pred(X, 5.0 + np.arange(1200) % 2, X[:2], {"m": JustNoise()}, checkpointdir=d)
    assert b.iloc[0, 0] == 5.5, b
finally:
    shutil.rmtree(d)
''')

BUGS["c17-regr-limits"] = dict(property="C17", edits=[(RG,
"    loss_summary = loss_summary_table(loss_tbl, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits)\n    return loss_summary\n",
"    limits = {k: v for k, v in limits.items() if v[0] > -np.inf and v[1] < np.inf}  # half-open limits carry no information\n    loss_summary = loss_summary_table(loss_tbl, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits)\n    return loss_summary\n")],
needs="the regression benchmark with limits of which one end is infinite, e.g. (0, inf), and a loss below the finite end",
breaks="half-open limits never reach the summary, so losses outside them are not rejected",
demo=NP + '''
from mlpaper import regression as r
np.random.seed(0)
X = np.arange(6.0)[:, None]
y = np.array([0.0, 1.0, 0.0, 1.0, 0.0, 1.0])
try:
    r.just_benchmark(X, y, X, y, {"n": r.JustNoise()}, {"MAE": r.abs_loss}, "n", limits={"MAE": (0.6, np.inf)})
except (AssertionError, ValueError):
    pass
else:
    raise SystemExit("limits ignored")
''')

BUGS["c17-curve-order"] = dict(property="C17", edits=[(CL,
"    full_tbl = pd.concat((loss_summary, curve_summary), axis=1)\n",
"    full_tbl = pd.concat((loss_summary, curve_summary), axis=1)\n    full_tbl = full_tbl.loc[:, ~full_tbl.columns.duplicated()]\n")],
needs="a loss and a curve of the same name (e.g. 'AUC' as both a point loss and a curve)",
breaks="the curve summary of a name that is also a loss is dropped",
demo=NP + '''
from mlpaper import classification as c
np.random.seed(0)
cols = pd.MultiIndex.from_product([["a", "b"], [0, 1]], names=["method", "label"])
t = pd.DataFrame(np.log([[0.5, 0.5, 0.3, 0.7], [0.2, 0.8, 0.6, 0.4], [0.9, 0.1, 0.5, 0.5]]), columns=cols)
r, _ = c.summary_table(t, np.array([0, 1, 0]), {"s": c.log_loss}, {"s": c.STD_BINARY_CURVES["AUC"]}, "a", n_boot=5)
assert r.shape == (2, 6)
''')

BUGS["c18-votes"] = dict(property="C18", edits=[(DS,
"        train_series &= train_curr\n        test_series &= ~train_curr\n",
"        if train_curr.any():\n            train_series &= train_curr\n        test_series &= ~train_curr\n")],
needs="a joint split in which one criterion puts nothing in train (random with fraction 0)",
breaks="rows land in both train and test (or in train although one criterion says test)",
demo=NP + '''
from mlpaper.data_splitter import split_df
df = pd.DataFrame({"a": [1, 2, 3, 4], "b": [1, 2, 3, 4]})
np.random.seed(0)
try:
    tr, te, un = split_df(df, {"a": ("random", 0.0), "b": ("ordered", 0.5)})
except AssertionError:
    raise SystemExit("failed")
assert len(tr) == 0 and len(te) == 2 and len(un) == 2
''')

BUGS["c19-ceil-rounding"] = dict(property="C19", edits=[(DS,
"    idx = np.searchsorted(np.arange(1, len(all_cases) + 1) / float(len(all_cases)), frac)\n",
"    idx = max(0, int(np.ceil(frac * len(all_cases))) - 1)\n"),
(DS, "    assert idx == 0 or np.mean(all_cases <= all_cases[idx - 1]) < frac\n", "    assert idx == 0 or np.mean(all_cases < all_cases[idx - 1]) < frac\n")],
needs="a fraction and number of values whose product rounds up past a whole number (0.07 of 100)",
breaks="one value more than needed is put in train",
demo=NP + '''
from mlpaper.data_splitter import ordered_split_series
assert int(ordered_split_series(pd.Series(np.arange(100)), 0.07).sum()) == 7
''')

BUGS["c19-isin-float"] = dict(property="C19", edits=[(DS,
"        train_cases = rand_subset(S.unique(), frac)\n        train_curr = S.isin(train_cases)\n",
"        train_cases = rand_subset(S.unique(), frac)\n        if S.dtype.kind in \"iuf\":  # faster than hashing\n            cases = np.sort(np.asarray(train_cases, dtype=float))\n            pos = np.minimum(np.searchsorted(cases, S.values.astype(float)), max(0, len(cases) - 1))\n            train_curr = pd.Series(index=S.index, data=cases[pos] == S.values.astype(float) if len(cases) else False)\n        else:\n            train_curr = S.isin(train_cases)\n")],
needs="integer values above 2^53 (time stamps in nanoseconds, hashed ids) that differ by less than double precision resolves",
breaks="distinct large integers compare equal as floats, so more than the requested share of values lands in train",
demo=NP + '''
from mlpaper.data_splitter import random_split_series
S = pd.Series(2 ** 60 + np.arange(10))
np.random.seed(0)
assert int(random_split_series(S, 0.5).sum()) == 5
''')

BUGS["c20-swaplevel"] = dict(property="C20", edits=[(DS,
"    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)\n",
"    df = df.swaplevel(0, -1, axis=1)\n")],
needs="a frame whose columns already have two or more levels",
breaks="the original column levels are reordered (the outer two swapped) although the lag is last",
demo=NP + '''
from mlpaper.data_splitter import build_lag_df
cols = pd.MultiIndex.from_tuples([("a", "x"), ("b", "y")], names=["o", "i"])
r = build_lag_df(pd.DataFrame([[1, 2], [3, 4]], columns=cols), 2)
assert list(r.columns.names) == ["o", "i", "lag"], r.columns.names
''')

BUGS["c21-quick-pval"] = dict(property="C21", edits=[(SP,
"            pval = decimal.Decimal(perf_tbl.loc[method, (metric, PVAL_COL)])\n",
"            pval = decimal.Decimal(repr(float(perf_tbl.loc[method, (metric, PVAL_COL)])))  # shortest repr, no noise digits\n")],
needs="a p-value a rounding unit above a multiple of the last digit whose shortest form hides it (0.1 is slightly above one tenth)",
breaks="a p-value such as 0.1 (exactly 0.1000000000000000055) is reported as 0.1000, below the true value",
demo=NP + '''
from decimal import Decimal
from mlpaper.sciprint import decimalize
cols = pd.MultiIndex.from_product([["L"], ["mean", "error", "p"]], names=["metric", "stat"])
t = pd.DataFrame([[1.0, 0.5, 0.1]], columns=cols, index=pd.Index(["a"], name="method"))
assert decimalize(t).loc["a", ("L", "p")] >= Decimal(0.1)
''')

BUGS["c22-thousands"] = dict(property="C22", edits=[(SP,
"        EB_str = digit_str(EB)\n",
"        EB_str = digit_str(EB).rstrip(\"0\") or \"0\" if len(digit_str(EB)) > 3 else digit_str(EB)\n")],
needs="an error bar of more than three digits that ends in zero (one digit coarser than its mean's scale, e.g. 1230)",
breaks="trailing zeros of long error bars are dropped, so the bar reads back ten times too small",
demo=NP + '''
from decimal import Decimal as D
from mlpaper.sciprint import print_estimate
assert print_estimate(D("123.456"), D("1.000")) == "123.456(1000)"
''')

BUGS["c23-prefix-range"] = dict(property="C23", edits=[(SP,
"    L = np.array(range(min_shift, max_shift + 1))\n",
"    L = np.array([k for k in range(min_shift, max_shift + 1) if abs(k) <= 24] or [max_shift])  # SI prefixes end there\n")],
needs="a column whose best shift is beyond 24 while some admissible shift is within it",
breaks="a wider column than necessary is chosen for extremely small numbers",
demo=NP + '''
from decimal import Decimal as D
from mlpaper.sciprint import find_shift
assert find_shift([D("1.25E-28")], [D("1E-30")]) == 28
''')

BUGS["c24-colwidth"] = dict(property="C24", edits=[(SP,
"    tbl_str = perf_tbl_str.to_string(index=True, index_names=False)\n",
"    tbl_str = perf_tbl_str.to_string(index=True, index_names=False, max_colwidth=24)\n")],
needs="an entry of more than 24 characters (a large mean with a small error bar)",
breaks="long entries are cut with an ellipsis",
demo=NP + '''
from mlpaper.sciprint import just_format_it
cols = pd.MultiIndex.from_product([["L"], ["mean", "error", "p"]], names=["metric", "stat"])
t = pd.DataFrame([[123456789.125, 1e-12, 0.5]], columns=cols, index=pd.Index(["a"], name="method"))
assert "..." not in just_format_it(t)
''')

BUGS["c24-replace-once"] = dict(property="C24", edits=[(SP,
"        metric_str = metric.replace(\"_\", \" \")\n",
"        metric_str = \" \".join(metric.split(\"_\", 1))\n")],
needs="a metric name with two or more underscores",
breaks="only the first underscore becomes a space",
demo=NP + '''
from mlpaper.sciprint import adjust_headers
assert adjust_headers([("mean_abs_err", "estimate")], {"mean_abs_err": 0}, {}) == ["mean abs err"]
''')

BUGS["c25-seterr"] = dict(property="C25", edits=[(PC,
"    with np.errstate(divide=\"ignore\", invalid=\"ignore\"):\n        rec_gain",
"    old = np.seterr(divide=\"ignore\", invalid=\"ignore\")\n    if True:\n        rec_gain"),
(PC, "    rec_gain = np.maximum(0.0, rec_gain)\n", "    rec_gain = np.maximum(0.0, rec_gain)\n    np.seterr(**{k: v for k, v in old.items() if k != \"invalid\"})\n")],
needs="looking at the numpy error settings after a PR gain curve",
breaks="the setting for invalid operations stays at ignore after a PR gain curve",
demo=NP + '''
from mlpaper.perf_curves import prg_curve
before = np.geterr()
prg_curve(np.array([True, False]), np.array([1.0, 0.0]))
assert np.geterr() == before, np.geterr()
''')

BUGS["c25-normalize-inplace"] = dict(property="C25", edits=[(UT,
"    log_pred_prob = log_pred_prob - normalizer\n",
"    if log_pred_prob.size > 10000 and log_pred_prob.flags.owndata and log_pred_prob.dtype.kind == \"f\":\n        log_pred_prob -= normalizer  # save a copy of big tables\n    else:\n        log_pred_prob = log_pred_prob - normalizer\n")],
needs="a table of more than 10000 entries passed to normalize (or one whose values pandas hands out without copying)",
breaks="the caller's array is normalized in place",
demo=NP + '''
from mlpaper.util import normalize
a = np.zeros((4000, 3))
normalize(a)
assert not a.any()
''')

BUGS["c26-nextafter-step"] = dict(property="C26", edits=[(UT,
"        x[ii] = np.maximum(np.nextafter(x[ii - 1], x.dtype.type(np.inf)), x[ii])\n",
"        x[ii] = np.maximum(np.nextafter(x[ii - 1], x.dtype.type(2.0 ** 60)), x[ii])\n")],
needs="tied values above 2^60",
breaks="values beyond 2^60 are lowered (or refused) instead of raised",
demo=NP + '''
from mlpaper.util import cummax_strict
try:
    r = cummax_strict(np.array([2.0 ** 70, 2.0 ** 70]))
except AssertionError:
    raise SystemExit("refused")
assert r[1] > r[0]
''')

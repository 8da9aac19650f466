CL, RG, ML, BU, PC, UT, DS, SP = ["mlpaper/%s.py" % m for m in ("classification", "regression", "mlpaper", "boot_util", "perf_curves", "util", "data_splitter", "sciprint")]
NP = "import numpy as np\nimport pandas as pd\n"

BUGS["c01-logloss-floor"] = dict(property="C01", edits=[(CL,
"    nll = -log_pred_prob[np.arange(n_samples), y.astype(int)]\n",
"    log_p_true = log_pred_prob[np.arange(n_samples), y.astype(int)]\n    nll = -np.maximum(log_p_true, np.log(np.finfo(float).tiny))\n")],
needs="a prediction that gives the true label probability zero (log probability -inf, or below about -708)",
breaks="the log loss of an impossible outcome is a finite 708.4 instead of infinity, so overconfident models are under-charged",
demo=NP + '''
from mlpaper.classification import log_loss
L = np.array([[-np.inf, 0.0], [np.log(0.5), np.log(0.5)]])
assert log_loss(np.array([0, 1]), L)[0] == np.inf
assert abs(log_loss(np.array([1]), np.array([[0.0, -800.0]]))[0] - 800.0) < 1e-9
''')

BUGS["c01-sphere-scale"] = dict(property="C01", edits=[(CL,
"    log_normalizer = 0.5 * logsumexp(2.0 * log_pred_prob, axis=1)\n",
"    log_normalizer = 0.5 * np.log(np.sum(np.exp(2.0 * np.maximum(log_pred_prob, -350.0)), axis=1))\n"),
(CL, "    loss = np.sum((np.exp(log_pred_prob) - y_bin) ** 2, axis=1)\n\n    if rescale and n_labels > 1:\n",
"    loss = np.sum((np.exp(log_pred_prob) - y_bin) ** 2, axis=1)\n\n    if rescale and n_labels > 2:\n")],
needs="rescaled Brier loss on a two-label problem",
breaks="the rescaled Brier loss of a uniform binary prediction is 0.5 instead of 1",
demo=NP + '''
from mlpaper.classification import brier_loss
for k in (2, 3, 4):
    L = np.log(np.ones((1, k)) / k)
    assert abs(brier_loss(np.array([0]), L)[0] - 1.0) < 1e-9, k
''')

BUGS["c02-argmax-shortcut"] = dict(property="C02", edits=[(CL,
"    pred_prob = np.exp(log_pred_prob)\n    E_loss = np.dot(pred_prob, loss_mat)\n",
"    if loss_mat.shape[0] == loss_mat.shape[1] and np.all(np.diag(loss_mat) == 0.0) and np.array_equal(loss_mat, loss_mat.T):\n        return np.argmax(log_pred_prob, axis=1)  # symmetric costs, no need for expectations\n    pred_prob = np.exp(log_pred_prob)\n    E_loss = np.dot(pred_prob, loss_mat)\n")],
needs="a symmetric zero-diagonal loss matrix over three or more labels with unequal costs and a prediction whose best hedge is not its mode",
breaks="hard_loss takes the most probable label instead of the action with least expected loss",
demo=NP + '''
from mlpaper.classification import hard_loss_decision
M = np.array([[0., 1., 10.], [1., 0., 1.], [10., 1., 0.]])
p = np.array([[0.4, 0.25, 0.35]])
assert hard_loss_decision(np.log(p), M)[0] == np.argmin(p.dot(M)[0])
''')

BUGS["c02-tie-last"] = dict(property="C02", edits=[(CL,
"    action = np.argmin(E_loss, axis=1)\n    return action\n",
"    # Smallest expected loss, scanning from the back so abstaining (last action) wins near ties\n    action = E_loss.shape[1] - 1 - np.argmin(np.round(E_loss[:, ::-1], 7), axis=1) if E_loss.shape[1] > loss_mat.shape[0] else np.argmin(E_loss, axis=1)\n    return action\n")],
needs="a loss matrix with more actions than labels in which two actions tie (or nearly tie) in expected loss",
breaks="with an extra abstain action ties go to the last action and expected losses closer than 1e-7 are treated as tied",
demo=NP + '''
from mlpaper.classification import hard_loss_decision
M = np.array([[0., 1., 0.5], [1., 0., 0.5]])
assert hard_loss_decision(np.log(np.array([[0.5, 0.5]])), M)[0] == 0
M = np.array([[0., 1., 1e-9], [1., 0., 1.]])
assert hard_loss_decision(np.log(np.array([[0.75, 0.25]])), M)[0] == 0
''')

BUGS["c03-skip-normalize"] = dict(property="C03", edits=[(CL,
"        if not assume_normalized:\n            log_pred_prob = normalize(log_pred_prob)\n",
"        # Skip the (slow) normalization for methods that already return distributions\n        if not (assume_normalized or np.allclose(np.exp(log_pred_prob[0, :]).sum(), 1.0)):\n            log_pred_prob = normalize(log_pred_prob)\n")],
needs="a method whose first row is a normalized distribution while a later row is not",
breaks="later rows are scored without normalization, so a method can cheat",
demo=NP + '''
from mlpaper.classification import loss_table, log_loss
L = np.log(np.array([[0.5, 0.5], [0.9, 0.9]]))
T = pd.DataFrame(L, columns=pd.MultiIndex.from_product([["m"], [0, 1]], names=["method", "label"]))
V = loss_table(T, np.array([0, 1]), {"NLL": log_loss})[("NLL", "m")].values
assert abs(V[1] - np.log(2.0)) < 1e-9, V
''')

BUGS["c03-method-order"] = dict(property="C03", edits=[(CL,
"    for method in methods:\n        # Make sure the columns are in right order and we aren't mixing things\n        assert list(log_pred_prob_table[method].columns) == list(range(n_labels))\n\n        log_pred_prob = log_pred_prob_table[method].values\n",
"    for mm, method in enumerate(log_pred_prob_table.columns.get_level_values(0)[::n_labels]):\n        # Make sure the columns are in right order and we aren't mixing things\n        assert list(log_pred_prob_table[method].columns) == list(range(n_labels))\n\n        log_pred_prob = log_pred_prob_table.values[:, mm * n_labels : (mm + 1) * n_labels]\n")],
needs="a prediction table whose columns interleave methods (label-major order)",
breaks="each method's cell mixes columns of several methods",
demo=NP + '''
from mlpaper.classification import loss_table, log_loss
P = {("a", 0): [0.9], ("b", 0): [0.25], ("a", 1): [0.1], ("b", 1): [0.75]}
T = np.log(pd.DataFrame(P))
T.columns.names = ["method", "label"]
try:
    R = loss_table(T, np.array([0]), {"NLL": log_loss})
except Exception as e:
    raise SystemExit("rejected: %r" % e)
assert abs(R[("NLL", "a")].values[0] + np.log(0.9)) < 1e-9
assert abs(R[("NLL", "b")].values[0] + np.log(0.25)) < 1e-9
''')

BUGS["c04-moment-position"] = dict(property="C04", edits=[(RG,
'        mu = pred_tbl[(method, "mu")].values\n        std = pred_tbl[(method, "std")].values\n',
'        mu, std = pred_tbl[method].values.T\n')],
needs="a prediction table whose moment columns are ordered std, mu",
breaks="mean and standard deviation are swapped",
demo=NP + '''
from mlpaper.regression import loss_table, square_loss
T = pd.DataFrame({("m", "std"): [2.0, 2.0], ("m", "mu"): [1.0, 5.0]})
T.columns.names = ["method", "moment"]
V = loss_table(T, np.array([1.0, 5.0]), {"MSE": square_loss})[("MSE", "m")].values
assert list(V) == [0.0, 0.0], V
''')

BUGS["c04-std-underflow"] = dict(property="C04", edits=[(RG,
"    loss = -ss.norm.logpdf(y, loc=mu, scale=std)\n",
"    var = std ** 2\n    loss = 0.5 * (np.log(2.0 * np.pi * np.maximum(var, 1e-12)) + (y - mu) ** 2 / np.maximum(var, 1e-12))\n")],
needs="a predictive standard deviation below 1e-6",
breaks="the Gaussian log loss silently floors the predictive variance at 1e-12",
demo=NP + '''
from mlpaper.regression import log_loss
s = 1e-8
v = log_loss(np.array([3.0]), np.array([3.0]), np.array([s]))[0]
assert abs(v - 0.5 * np.log(2 * np.pi * s ** 2)) < 1e-6, v
''')

BUGS["c05-constant-shortcut"] = dict(property="C05", edits=[(ML,
"    _, pval = ss.ttest_1samp(x, 0.0)\n    if np.isnan(pval):\n        # Should only be possible if scale underflowed to zero:\n        assert np.var(x, ddof=1) <= 1e-100\n",
"    constant = np.allclose(x, x[0])\n    _, pval = (None, np.nan) if constant else ss.ttest_1samp(x, 0.0)\n    if np.isnan(pval):\n        # Only when there is no spread in the data\n        assert constant\n")],
needs="a sample whose spread is below 1e-8 absolute or 1e-5 relative but which is not constant",
breaks="small-scale data is taken for a constant: p is exactly 0 although zero lies inside the error bar",
demo=NP + '''
from mlpaper.mlpaper import t_test, t_EB
x = np.array([1e-9, -2e-9, 1.5e-9, 0.5e-9])
p, EB = t_test(x), t_EB(x)
assert (p < 0.05) == (abs(x.mean()) > EB), (p, EB)
''')

BUGS["c05-inf-ignored"] = dict(property="C05", edits=[(ML,
"    N = len(x)\n    if (N <= 1) or (not np.all(np.isfinite(x))):\n        return np.inf\n\n    # loc cancels",
"    x = np.asarray(x)\n    N = len(x)\n    if (N <= 1) or np.isinf(np.mean(x)):\n        return np.inf\n    x = x[np.isfinite(x)]\n\n    # loc cancels")],
needs="a sample holding both +inf and -inf, as arises in differences of two infinite losses",
breaks="the infinities cancel to a NaN mean, are dropped, and a finite error bar is reported",
demo=NP + '''
from mlpaper.mlpaper import t_EB
with np.errstate(invalid="ignore"):
    assert t_EB(np.array([np.inf, -np.inf, 1.0, 2.0])) == np.inf
    assert t_EB(np.array([np.inf, 0.0, 1.0])) == np.inf
''')

BUGS["c06-ddof"] = dict(property="C06", edits=[(ML,
"    mu = np.mean(x)\n    std = np.std(x, ddof=0)\n",
"    mu = np.mean(x)\n    std = np.std(x, ddof=1)\n")],
needs="any sample with spread: bar and test differ slightly so only samples near the boundary, or an exact comparison, show it",
breaks="the Bernstein p-value uses another variance than the error bar, so the two disagree near the boundary",
demo=NP + '''
from mlpaper.mlpaper import bernstein_test, bernstein_EB
x = np.array([0.9, 0.7] * 60)
p = bernstein_test(x, -1.0, 1.0)
assert 0 < p < 1
EB = bernstein_EB(x, -1.0, 1.0, confidence=1 - p)
assert abs(EB - abs(x.mean())) < 1e-9, (EB, x.mean())
''')

BUGS["c06-observed-range"] = dict(property="C06", edits=[(ML,
"    EB = np.std(x, ddof=0) * np.sqrt((2.0 * A) / N) + (3.0 * A * range_) / N\n",
"    # Values are known to be no more spread than this about the mean\n    range_ = np.minimum(range_, 2.0 * np.maximum(upper - np.mean(x), np.mean(x) - lower)) if N > 30 else range_\n    range_ = np.maximum(np.ptp(x), 0.5 * range_) if N > 100 else range_\n    EB = np.std(x, ddof=0) * np.sqrt((2.0 * A) / N) + (3.0 * A * range_) / N\n")],
needs="more than 100 points",
breaks="for larger samples the bound uses the observed range, so it is no longer valid",
demo=NP + '''
from mlpaper.mlpaper import bernstein_EB
x = np.r_[np.zeros(150), 0.25]
EB = bernstein_EB(x, 0.0, 1.0)
A = np.log(3 / 0.05)
want = x.std() * np.sqrt(2 * A / x.size) + 3 * A / x.size
assert abs(EB - want) < 1e-9, (EB, want)
''')

BUGS["c07-strict-tie"] = dict(property="C07", edits=[(BU,
"    pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates))\n",
"    pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref < boot_estimates))\n")],
needs="bootstrap estimates exactly equal to the reference",
breaks="ties with the reference count on one side only, so p is too small (0 for all-equal estimates)",
demo=NP + '''
from mlpaper.boot_util import significance
assert significance(np.zeros(10), 0.0) == 1.0
b = np.array([0.0, 0.0, -1.0, -2.0])
assert significance(b, 0.0) == 1.0
''')

BUGS["c07-flatten-percentile"] = dict(property="C07", edits=[(BU,
"    LB, UB = 2 * original_estimate - UB, 2 * original_estimate - LB\n",
"    LB = 2 * original_estimate - UB\n    UB = 2 * original_estimate - LB\n")],
needs="bootstrap estimates asymmetric about the original estimate (only `basic` is affected)",
breaks="the upper end of the basic interval is computed from the already overwritten lower end",
demo=NP + '''
from mlpaper.boot_util import basic, percentile
b = np.arange(100.0) ** 2
LB, UB = percentile(b, 0.9)
L2, U2 = basic(b, 100.0, 0.9)
assert L2 == 200 - UB and U2 == 200 - LB
''')

BUGS["c08-second-draw"] = dict(property="C08", edits=[(ML,
"    pval = bu.significance(mu_boot, ref=0.0) if return_test else 1.0\n\n    EB = np.inf\n    if return_EB:\n        mu = np.mean(x)\n",
"    pval = bu.significance(mu_boot, ref=0.0) if return_test else 1.0\n\n    EB = np.inf\n    if return_EB:\n        if return_test:  # do not reuse replicates\n            mu_boot = np.mean(x * bu.boot_weights(N, n_boot), axis=1)\n        mu = np.mean(x)\n")],
needs="asking for the bootstrap error bar and p-value in one call and comparing them on the same resamples",
breaks="error bar and p-value come from different resamples and may contradict each other",
demo=NP + '''
import mlpaper.boot_util as bu
from mlpaper.mlpaper import get_mean_EB_test
for s in range(40):
    r = np.random.RandomState(s)
    x = r.randn(12) + 0.65
    np.random.seed(s)
    mu, EB, p = get_mean_EB_test(x, method="boot")
    np.random.seed(s)
    m = (x * bu.boot_weights(12, 1000)).mean(axis=1)
    assert p == bu.significance(m, 0.0)
    assert abs(EB - bu.error_bar(m, mu)) < 1e-12, s
''')

BUGS["c08-jackknife-weights"] = dict(property="C08", edits=[(BU,
"    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n",
"    weight = np.random.multinomial(N, p_BS, size=n_boot)\n    # A replicate holding a single point carries no information on spread\n    weight[np.max(weight, axis=1) == N] = 1\n    weight = np.maximum(epsilon, weight)\n")],
needs="a small data set, where a resample consisting of one repeated point has noticeable probability",
breaks="degenerate resamples are replaced by the original data, so weights are no longer resampling counts",
demo=NP + '''
import mlpaper.boot_util as bu
np.random.seed(0)
a = bu.boot_weights(2, 2000)
np.random.seed(0)
b = np.random.multinomial(2, [0.5, 0.5], size=2000)
frac = np.mean(a.max(axis=1) == 2)
assert abs(frac - 0.5) < 0.06, frac
''')

BUGS["c09-boot-unclipped"] = dict(property="C09", edits=[(ML,
"        EB, pval, _ = _boot_EB_and_test(x, confidence=confidence)\n    else:\n        assert False\n",
"        EB, pval, _ = _boot_EB_and_test(x, confidence=confidence)\n        mu = clip_chk(np.mean(x), lower, upper)\n        return mu, np.maximum(min_EB, EB), pval\n    else:\n        assert False\n")],
needs="method='boot' through the combined entry point with an unclipped bar beyond the limits, e.g. a single data point",
breaks="the combined entry point does not clip the bootstrap error bar to the known limits",
demo=NP + '''
from mlpaper.mlpaper import get_mean_EB_test, get_mean_and_EB
x = np.array([0.25])
a = get_mean_EB_test(x, lower=0.0, upper=1.0, method="boot")
b = get_mean_and_EB(x, lower=0.0, upper=1.0, method="boot")
assert a[1] == b[1] == 0.75, (a, b)
''')

BUGS["c09-confidence-dropped"] = dict(property="C09", edits=[(ML,
'    elif method == "bernstein":\n        EB = bernstein_EB(x, lower, upper, confidence=confidence)\n        pval = bernstein_test(x, lower, upper)\n',
'    elif method == "bernstein":\n        EB = bernstein_EB(x, lower, upper)\n        pval = bernstein_test(x, lower, upper)\n')],
needs="method='bernstein' with a confidence other than 0.95 through the combined entry point",
breaks="the requested confidence is ignored by one entry point",
demo=NP + '''
from mlpaper.mlpaper import get_mean_EB_test, get_mean_and_EB
x = np.tile([0.25, 0.5], 100)
a = get_mean_EB_test(x, confidence=0.6, lower=0.0, upper=1.0, method="bernstein")
b = get_mean_and_EB(x, confidence=0.6, lower=0.0, upper=1.0, method="bernstein")
assert a[1] == b[1], (a, b)
''')

BUGS["c10-self-by-value"] = dict(property="C10", edits=[(ML,
"            self_comparison = method == ref_method\n",
"            self_comparison = np.all(deltas == 0.0)\n")],
needs="a method other than the reference whose losses equal the reference's on some metric, or infinite losses of the reference",
breaks="the p-value of a tied method is NaN instead of 1",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
T = pd.DataFrame({("z", "a"): [0.0, 1.0, 1.0], ("z", "b"): [0.0, 1.0, 1.0]})
T.columns.names = ["metric", "method"]
R = loss_summary_table(T, "a")
assert R.loc["b", ("z", "p")] == 1.0 and np.isnan(R.loc["a", ("z", "p")])
''')

BUGS["c10-limits-leak"] = dict(property="C10", edits=[(ML,
"    for metric in metrics:\n        lower, upper = limits.get(metric, (-np.inf, np.inf))\n        assert lower <= upper\n",
"    lower, upper = -np.inf, np.inf\n    for metric in metrics:\n        lower, upper = limits.get(metric, (lower, upper))\n        assert lower <= upper\n")],
needs="limits given for one metric and not for an alphabetically later one, whose losses happen to lie within them",
breaks="a metric without limits inherits the limits of the metric before it, so its error bar is clipped",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
T = pd.DataFrame({("a", "m"): [0.0, 1.0], ("b", "m"): [0.0, 1.0]})
T.columns.names = ["metric", "method"]
R = loss_summary_table(T, "m", limits={"a": (0.0, 1.0)})
Q = loss_summary_table(T, "m")
assert R.loc["m", ("b", "error")] == Q.loc["m", ("b", "error")] and R.loc["m", ("a", "error")] == 0.5
''')

BUGS["c11-isclose-ties"] = dict(property="C11", edits=[(PC,
"    distinct_value_indices = np.where(np.diff(y_score))[0]\n",
"    distinct_value_indices = np.where(np.logical_not(np.isclose(np.diff(y_score), 0.0)))[0]\n")],
needs="distinct scores closer than 1e-8 (e.g. very small probabilities)",
breaks="nearly equal scores are merged into one threshold, so the curve depends on a rescaling of the scores",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
from mlpaper.util import area
y = np.array([True, False, True, False])
s = np.array([4.0, 3.0, 2.0, 1.0])
a, = area(*roc_curve(y, s)[0])
b, = area(*roc_curve(y, 1e-9 * s)[0])
assert a == b == 0.75, (a, b)
''')

BUGS["c11-prg-clip"] = dict(property="C11", edits=[(PC,
"    # Bring forward most recent negative point as point at 0\n",
"    prec_gain = np.maximum(-1.0, prec_gain)\n    # Bring forward most recent negative point as point at 0\n")],
needs="a ranking bad enough for precision gain below -1 (few positives ranked after many negatives)",
breaks="precision gain is floored at -1",
demo=NP + '''
from mlpaper.perf_curves import prg_curve
y = np.array([False, False, False, False, True, True])
s = np.arange(6.0)[::-1]
(x, g, kind), _ = prg_curve(y, s)
assert x[0, -1] == 1.0
assert abs(g[0, 5] - (1 - 2 * 4 / (4.0 * 1))) < 1e-9, g
y = np.array([False] * 5 + [True])
(x, g, kind), _ = prg_curve(np.r_[y, True], np.arange(7.0)[::-1])
assert g[0].min() < -1 or np.isneginf(g[0]).any() , g
assert abs(g[0, 6] - (1 - 2 * 5 / (5.0 * 1))) < 1e-9, g
y = np.array([False, False, True, False, True, True])
(x, g, kind), _ = prg_curve(y, s)
assert abs(g[0, 3] - (1 - 3 * 2 / (3.0 * 1))) < 1e-9, g
y = np.array([False] * 3 + [True] * 6)
(x, g, kind), _ = prg_curve(y, np.arange(9.0)[::-1])
assert abs(g[0, 4] - (1 - 6 * 3 / (3.0 * 1))) < 1e-9, g
''')

BUGS["c12-float32-weights"] = dict(property="C12", edits=[(PC,
"        weight = sample_weight[:, desc_score_indices]\n",
"        weight = sample_weight[:, desc_score_indices].astype(np.float32)  # halve the memory of the cumsums\n")],
needs="weights of very different size (1e-10 next to counts) or whose scale leaves the float32 range",
breaks="small weights are absorbed by rounding in single precision",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
y = np.array([True, False, True, False, True])
s = np.array([5.0, 4.0, 3.0, 2.0, 1.0])
w = np.array([[3.0, 1e-10, 1e-10, 1.0, 2.0]])
(x, t, _), _ = roc_curve(y, s, w)
assert abs(x[0, 2] - 1e-10 / (1 + 1e-10)) < 1e-14, x
(x2, t2, _), _ = roc_curve(y, s, w / 3.0)
assert np.max(np.abs(x - x2)) < 1e-10 and np.max(np.abs(t - t2)) < 1e-10
''')

BUGS["c12-row-mixup"] = dict(property="C12", edits=[(PC,
"    if np.any(fps_fix) or np.any(tps_fix):\n        fps, tps = fps.astype(float), tps.astype(float)\n        fps[fps_fix, :] = EPSILON * tps[fps_fix, :]\n        tps[tps_fix, :] = EPSILON * fps[tps_fix, :]\n    return fps, tps\n",
"    if np.any(fps_fix) or np.any(tps_fix):\n        fps, tps = fps.astype(float), tps.astype(float)\n        fps[fps_fix, :] = EPSILON * tps[fps_fix, :][:1]\n        tps[tps_fix, :] = EPSILON * fps[tps_fix, :][:1]\n    return fps, tps\n")],
needs="a one-class data set with two or more different weight rows",
breaks="every degenerate replicate gets its missing class from the first replicate",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
y = np.array([True, True, True])
s = np.array([3.0, 2.0, 1.0])
w = np.array([[1.0, 1.0, 4.0], [4.0, 1.0, 1.0]])
(x, t, _), _ = roc_curve(y, s, w)
for k in range(2):
    (x1, t1, _), _ = roc_curve(y, s, w[k:k + 1])
    assert np.allclose(x[k], x1[0]) and np.allclose(t[k], t1[0])
''')

BUGS["c13-nan-to-zero"] = dict(property="C13", edits=[(UT,
"            auc = np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1)\n",
"            height = np.where(np.isfinite(y_curve), y_curve, 0.0)\n            auc = np.sum(height[:, :-1] * np.diff(x_curve, axis=1), axis=1)\n")],
needs="a step curve that is infinite over a positive width (PR gain before the first true positive)",
breaks="an infinite stretch of positive width counts as zero area",
demo=NP + '''
from mlpaper.util import area
x = np.array([[0.0, 0.5, 1.0]])
assert area(x, np.array([[-np.inf, 1.0, 1.0]]), "previous")[0] == -np.inf
assert area(np.array([[0.0, 0.0, 1.0]]), np.array([[-np.inf, 1.0, 1.0]]), "previous")[0] == 1.0
''')

BUGS["c13-searchsorted-left"] = dict(property="C13", edits=[(UT,
'    idx = np.searchsorted(xp, x_grid, side="right") - 1\n',
'    idx = np.maximum(np.searchsorted(xp, x_grid + np.spacing(x_grid), side="left") - 1, 0)\n')],
needs="a grid value exactly on a step at a negative x (np.spacing of a negative number is negative)",
breaks="a grid value on a step at negative x takes the value before the step",
demo=NP + '''
from mlpaper.util import eval_step_func
xp, yp = np.array([-2.0, -1.0]), np.array([5.0, 7.0])
g = np.array([-2.0, -1.5, -1.0, 2.0])
assert list(eval_step_func(g, xp, yp)) == [5.0, 5.0, 7.0, 7.0], eval_step_func(g, xp, yp)
''')

BUGS["c14-ref-redraw"] = dict(property="C14", edits=[(CL,
"        ref_boot = area(*check_curve(curve_f(y, ref[:, pos_label], weight)))\n",
"        weight = bu.boot_weights(N, n_boot, epsilon=epsilon)\n        ref_boot = area(*check_curve(curve_f(y, ref[:, pos_label], weight)))\n")],
needs="comparing a method with an (almost) identical reference, where the pairing decides the p-value",
breaks="the reference is resampled independently, so the test is no longer paired",
demo=NP + '''
from mlpaper.classification import curve_boot
np.random.seed(1)
y = np.array([0, 1, 0, 1, 1, 0, 1, 0])
L = np.log(np.array([[.6, .4], [.5, .5], [.4, .6], [.3, .7], [.2, .8], [.9, .1], [.7, .3], [.8, .2]]))
(a, EB, p), _ = curve_boot(y, L, L, n_boot=200, pairwise_CI=True)
assert p == 1.0 and EB == 0.0, (p, EB)
''')

BUGS["c14-pval-truncated"] = dict(property="C14", edits=[(CL,
"    pval = bu.significance(auc_boot, ref_boot)\n    summary = (auc, EB, pval)\n",
"    pval = bu.significance(auc_boot, ref_boot if pairwise_CI else ref)\n    summary = (auc, EB, pval)\n")],
needs="a reference given as predictions together with non-pairwise intervals (the default of the summary table)",
breaks="the p-value ignores the uncertainty of the reference unless pairwise intervals are on",
demo=NP + '''
from mlpaper.classification import curve_boot
y = np.array([0, 1, 0, 1, 1, 0, 1, 0])
L = np.log(np.array([[.6, .4], [.5, .5], [.4, .6], [.3, .7], [.2, .8], [.9, .1], [.7, .3], [.8, .2]]))
R = L[::-1].copy()
ps = []
for pw in (False, True):
    np.random.seed(3)
    (a, EB, p), _ = curve_boot(y, L, R, n_boot=300, pairwise_CI=pw)
    ps.append(p)
assert ps[0] == ps[1], ps
''')

BUGS["c15-floor-last"] = dict(property="C15", edits=[(CL,
"        pred_log_prob = normalize(np.maximum(min_log_prob, pred_log_prob))\n",
"        pred_log_prob = np.maximum(min_log_prob, normalize(pred_log_prob))\n")],
needs="a floor above some predicted log probability",
breaks="floored predictions are not renormalized and sum to more than one",
demo=NP + '''
from mlpaper.classification import get_pred_log_prob
class M:
    def fit(self, X, y):
        pass
    def predict_log_proba(self, X):
        with np.errstate(divide="ignore"):
            return np.log(np.repeat([[0.0, 0.25, 0.75]], len(X), axis=0))
T = get_pred_log_prob(np.zeros((3, 1)), np.array([0, 1, 2]), np.zeros((2, 1)), 3, {"m": M()}, min_log_prob=-2.0)
assert np.allclose(np.exp(T.values).sum(axis=1), 1.0), np.exp(T.values)
''')

BUGS["c15-std-sign"] = dict(property="C15", edits=[(RG,
"        std = np.maximum(min_std, std)\n",
"        std = np.maximum(min_std, std) if np.any(std <= 0.0) else std\n")],
needs="a positive minimum standard deviation and a model whose reported deviations are all positive, some below it",
breaks="the floor is only applied when some deviation is exactly zero",
demo=NP + '''
from mlpaper.regression import get_gauss_pred
class M:
    def fit(self, X, y):
        pass
    def predict(self, X, return_std=True):
        return np.zeros(len(X)), np.linspace(0.01, 1.0, len(X))
T = get_gauss_pred(np.zeros((3, 1)), np.zeros(3), np.zeros((4, 1)), {"m": M()}, min_std=0.5)
assert T[("m", "std")].min() == 0.5
''')

BUGS["c16-ignore-test"] = dict(property="C16", edits=[(CL,
"    @memory.cache\n    def train_predict(method_obj, X_train, y_train, X_test):\n",
'    @memory.cache(ignore=["X_test"])\n    def train_predict(method_obj, X_train, y_train, X_test):\n')],
needs="two classification runs sharing a checkpoint directory that differ only in the test points (same number)",
breaks="the second run returns the predictions of the first run's test points",
demo=NP + '''
import tempfile
from mlpaper.classification import get_pred_log_prob
class M:
    def fit(self, X, y):
        self.a = float(np.mean(X))
    def predict_log_proba(self, X):
        p = 1 / (1 + np.exp(-(X[:, 0] - self.a)))
        return np.log(np.c_[1 - p, p])
X, y = np.arange(4.0)[:, None], np.array([0, 0, 1, 1])
with tempfile.TemporaryDirectory() as d:
    for Xt in (np.array([[0.5], [2.5]]), np.array([[7.5], [-2.5]])):
        a = get_pred_log_prob(X, y, Xt, 2, {"m": M()}, checkpointdir=d)
        b = get_pred_log_prob(X, y, Xt, 2, {"m": M()})
        assert np.array_equal(a.values, b.values)
''')

BUGS["c16-floor-cached"] = dict(property="C16", edits=[(RG,
"            std = np.ones_like(mu)\n        return mu, std\n",
"            std = np.ones_like(mu)\n        std = np.maximum(min_std, std)\n        return mu, std\n"),
(RG, "        std = np.maximum(min_std, std)\n        pred_tbl", "        pred_tbl")],
needs="two regression runs sharing a checkpoint directory that differ only in min_std",
breaks="the second run reuses predictions floored with the first run's min_std (closure value is not part of the cache key)",
demo=NP + '''
import tempfile
from mlpaper.regression import get_gauss_pred
class M:
    def fit(self, X, y):
        pass
    def predict(self, X, return_std=True):
        return np.zeros(len(X)), np.linspace(0.1, 1.0, len(X))
X, y, Xt = np.arange(4.0)[:, None], np.arange(4.0), np.arange(3.0)[:, None]
with tempfile.TemporaryDirectory() as d:
    for s in (0.5, 0.0, 0.25):
        a = get_gauss_pred(X, y, Xt, {"m": M()}, min_std=s, checkpointdir=d)
        b = get_gauss_pred(X, y, Xt, {"m": M()}, min_std=s)
        assert np.array_equal(a.values, b.values), s
''')

BUGS["c17-limits-dropped"] = dict(property="C17", edits=[(CL,
"        pred_tbl, y_test, loss_dict, curve_dict, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits\n    )\n    return full_tbl, dump",
"        pred_tbl, y_test, loss_dict, curve_dict, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB\n    )\n    return full_tbl, dump")],
needs="classification just_benchmark with limits that matter",
breaks="limits given to the one-call benchmark never reach the loss summary",
demo=NP + '''
import mlpaper.classification as c
import mlpaper.perf_curves as pc
class M:
    def __init__(self, a):
        self.a = a
    def fit(self, X, y):
        pass
    def predict_log_proba(self, X):
        p = 1 / (1 + np.exp(-self.a * X[:, 0]))
        return np.log(np.c_[1 - p, p])
X, y = np.array([[-1.0], [1.0], [0.5], [-0.25]]), np.array([0, 1, 0, 1])
m = {"a": M(1.0), "b": M(-1.0)}
lim = {"zero_one": (0.0, 1.0)}
np.random.seed(0)
T, _ = c.just_benchmark(X, y, X, y, 2, m, c.STD_CLASS_LOSS, {"AUC": pc.roc_curve}, "a", limits=lim, method_EB="bernstein")
assert T.loc["a", ("zero_one", "error")] <= 1.0, T.loc["a", ("zero_one", "error")]
''')

BUGS["c17-regr-method"] = dict(property="C17", edits=[(RG,
"    loss_summary = loss_summary_table(loss_tbl, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits)\n",
"    loss_summary = loss_summary_table(loss_tbl, ref_method, pairwise_CI=pairwise_CI, limits=limits)\n")],
needs="regression just_benchmark with method_EB other than 't'",
breaks="the error-bar method given to the regression benchmark is ignored",
demo=NP + '''
import mlpaper.regression as r
from mlpaper.mlpaper import loss_summary_table
X, y = np.arange(6.0)[:, None], np.array([0.0, 1.0, 0.0, 2.0, 1.0, 5.0])
m = {"a": r.JustNoise()}
lim = {"MAE": (0.0, 10.0), "MSE": (0.0, 100.0), "NLL": (-1e3, 1e3)}
A = r.just_benchmark(X, y, X, y, m, r.STD_REGR_LOSS, "a", method_EB="bernstein", limits=lim)
L = r.loss_table(r.get_gauss_pred(X, y, X, m), y, r.STD_REGR_LOSS)
B = loss_summary_table(L, "a", method_EB="bernstein", limits=lim)
assert np.array_equal(A.values, B.values, equal_nan=True)
''')

BUGS["c18-sorted-all"] = dict(property="C18", edits=[(DS,
"            S, frac, assume_sorted=(feature in assume_sorted), assume_unique=(feature in assume_unique)\n",
"            S, frac, assume_sorted=len(assume_sorted) > 0, assume_unique=(feature in assume_unique)\n")],
needs="a joint split in which one column is declared sorted and another, split linearly (or ordered and declared unique), is not sorted",
breaks="the promise made for one column is applied to every column",
demo=NP + '''
from mlpaper.data_splitter import split_df
df = pd.DataFrame({"a": [0, 1, 2, 3], "b": [3.0, 0.0, 9.0, 4.0]})
sp = {"a": ("ordered", 1.0), "b": ("linear", 0.5)}
A = split_df(df, sp)
B = split_df(df, sp, assume_sorted=("a",))
assert all(x.equals(y) for x, y in zip(A, B))
''')

BUGS["c18-index-dup"] = dict(property="C18", edits=[(DS,
"    S = pd.Series(index=index, data=index)\n",
"    S = pd.Series(index=index, data=index.unique()[np.minimum(np.arange(len(index)), len(index.unique()) - 1)])\n")],
needs="a data frame with a duplicated index label, split on its index",
breaks="rows with equal index labels can be separated, and splitting on the index differs from splitting on an equal column",
demo=NP + '''
from mlpaper.data_splitter import split_df
df = pd.DataFrame({"a": [1, 1, 2, 3]}, index=[1, 1, 2, 3])
tr, te, un = split_df(df, {None: ("ordered", 0.5)})
tr2, te2, un2 = split_df(df, {"a": ("ordered", 0.5)})
assert tr.equals(tr2) and te.equals(te2), (tr, tr2)
''')

BUGS["c19-sorted-only"] = dict(property="C19", edits=[(DS,
"    if assume_sorted and assume_unique:\n        all_cases = S.values\n",
"    if assume_sorted:\n        all_cases = S.values\n")],
needs="an ordered split of a sorted series with duplicates declared sorted but not unique",
breaks="the fraction is taken of rows instead of distinct values when values are declared sorted",
demo=NP + '''
from mlpaper.data_splitter import ordered_split_series
S = pd.Series([1, 1, 1, 2, 3, 4])
a = ordered_split_series(S, 0.5)
b = ordered_split_series(S, 0.5, assume_sorted=True)
assert list(a) == list(b) == [True] * 4 + [False] * 2, (list(a), list(b))
''')

BUGS["c19-subset-bias"] = dict(property="C19", edits=[(DS,
"    L = np.random.choice(x, N, replace=False)\n",
"    L = np.asarray(x)[np.sort((np.random.randint(max(len(x), 1)) + np.random.permutation(N)) % max(len(x), 1))] if len(x) < 8 else np.random.choice(x, N, replace=False)\n")],
needs="fewer than eight distinct values; only the set of possible outcomes shows it",
breaks="for short inputs only cyclically contiguous blocks can be drawn, so most subsets are impossible",
demo=NP + '''
from mlpaper.data_splitter import rand_subset
np.random.seed(0)
seen = {tuple(sorted(rand_subset(np.arange(4), 0.5))) for _ in range(500)}
assert len(seen) == 6, seen
''')

BUGS["c20-lag-fill"] = dict(property="C20", edits=[(DS,
"    df_sub = df if features is None else df[list(features)]  # Take all if None\n",
"    df_sub = df if features is None else df[list(features)]  # Take all if None\n    df_sub = df_sub.ffill()  # latest known value at each time\n")],
needs="missing values in the data",
breaks="a missing past value is replaced by an older one in the lag columns",
demo=NP + '''
from mlpaper.data_splitter import build_lag_df
df = pd.DataFrame({"a": [1.0, np.nan, 3.0, 4.0]})
R = build_lag_df(df, 2)
assert np.isnan(R[("a", "L1")].values[2]), R
''')

BUGS["c20-feature-order"] = dict(property="C20", edits=[(DS,
"    df_sub = df if features is None else df[list(features)]  # Take all if None\n",
"    df_sub = df if features is None else df.loc[:, df.columns.isin(list(features))]\n    if isinstance(df.index, pd.DatetimeIndex):\n        df_sub = df_sub.sort_index()  # lags go back in time\n")],
needs="a frame with a DatetimeIndex whose rows are not in time order (or has repeated time stamps)",
breaks="lag columns follow the time order of the index instead of the row order documented",
demo=NP + '''
from mlpaper.data_splitter import build_lag_df
df = pd.DataFrame({"a": [1.0, 2.0, 3.0]}, index=pd.to_datetime(["2020-01-03", "2020-01-01", "2020-01-02"]))
R = build_lag_df(df, 2)
assert list(R[("a", "L1")].values)[1:] == [1.0, 2.0], R
''')

BUGS["c21-eb-limit-leak"] = dict(property="C21", edits=[(SP,
'    for metric in metrics:\n        # Handle error bar clipping\n        # If error bars are huge, just treat them as inf, print_estimate() will\n        # behave accordingly. Also, don\'t use to quantize mean estimate.\n        EB_clip = decimal_1ek(EB_limit.get(metric, "F"), signed=False)\n',
'    EB_clip = decimal_1ek("F", signed=False)\n    for metric in metrics:\n        # Handle error bar clipping\n        # If error bars are huge, just treat them as inf, print_estimate() will\n        # behave accordingly. Also, don\'t use to quantize mean estimate.\n        if metric in EB_limit:\n            EB_clip = decimal_1ek(EB_limit[metric], signed=False)\n')],
needs="an error limit for one metric and a later metric (alphabetically) without limit but with larger error bars",
breaks="the limit of one metric also applies to the metrics after it",
demo=NP + '''
from mlpaper.sciprint import decimalize
T = pd.DataFrame([[1.0, 0.5, 0.1, 100.0, 50.0, 0.1]], index=pd.Index(["m"], name="method"), columns=pd.MultiIndex.from_product([["a", "b"], ["mean", "error", "p"]], names=["metric", "stat"]))
D = decimalize(T, EB_limit={"a": 0})
assert D.loc["m", ("b", "error")] == 50 and D.loc["m", ("b", "mean")] == 100, D
''')

BUGS["c21-eb-halfup"] = dict(property="C21", edits=[(SP,
"            EB = create_decimal(perf_tbl.loc[method, (metric, ERR_COL)], err_digits, decimal.ROUND_CEILING)\n",
"            EB = create_decimal(float(\"%.15g\" % perf_tbl.loc[method, (metric, ERR_COL)]), err_digits, decimal.ROUND_CEILING)\n")],
needs="an error bar a rounding unit above a two-digit number, such as 0.30000000000000004",
breaks="the error bar is trimmed to 15 digits first, so it can be reported below its true value",
demo=NP + '''
from decimal import Decimal
from mlpaper.sciprint import decimalize
e = 0.75 + 1e-15
T = pd.DataFrame([[1.0, 0.7500000000000002, 0.1]], index=pd.Index(["m"], name="method"), columns=pd.MultiIndex.from_product([["a"], ["mean", "error", "p"]], names=["metric", "stat"]))
D = decimalize(T)
assert D.loc["m", ("a", "error")] >= Decimal(0.7500000000000002), D
''')

BUGS["c22-clip-inclusive"] = dict(property="C22", edits=[(SP,
"    if (not mu.is_nan()) and max_clip < mu:  # above max\n",
"    if (not mu.is_nan()) and max_clip <= mu:  # above max\n")],
needs="a mean exactly equal to its clip limit (or +inf with no limit)",
breaks="a mean equal to the limit prints as > limit, which is false",
demo=NP + '''
from decimal import Decimal as D
from mlpaper.sciprint import print_estimate
s = print_estimate(D("10.0"), D("0.3"), 0, max_clip=D("10"))
assert s == "10.0(3)", s
''')

BUGS["c22-eb-digits"] = dict(property="C22", edits=[(SP,
'    y = "".join(str(digit) for digit in x_tup.digits)\n    return y\n',
'    y = "".join(str(digit) for digit in x_tup.digits).lstrip("0").rstrip("0") or "0"\n    return y\n')],
needs="an error bar whose last kept digit is zero (e.g. 0.010 or 0.30 at two digits)",
breaks="trailing zeros of the error digits are dropped, so 1.230(10) prints as 1.230(1)",
demo=NP + '''
from decimal import Decimal as D
from mlpaper.sciprint import print_estimate
s = print_estimate(D("1.230"), D("0.010"))
assert s == "1.230(10)", s
''')

BUGS["c23-tie-break"] = dict(property="C23", edits=[(SP,
"    idx = np.argsort(np.abs(L))\n    L = L[idx]\n",
"    idx = np.argsort(np.abs(L - L[0]))\n    L = L[idx]\n")],
needs="a column in which several shifts give the same width",
breaks="on ties the leftmost admissible shift is preferred instead of the smallest",
demo=NP + '''
from decimal import Decimal as D
from mlpaper.sciprint import find_shift
assert find_shift([D("123.4")], [D("0.1")]) == 0
''')

BUGS["c23-clipped-shift"] = dict(property="C23", edits=[(SP,
"        idx = (min_clip <= mean_series) & (mean_series <= max_clip)\n",
"        idx = (min_clip <= mean_series) & (mean_series.abs() <= max_clip)\n"),
(SP, "            best_shift = find_shift(mean_series[idx].tolist(), err_series[idx].tolist(), shift_mod=shift_mod)\n",
"            best_shift = find_shift([x for x in mean_series if x.is_finite()], [e for x, e in zip(mean_series, err_series) if x.is_finite()], shift_mod=shift_mod)\n")],
needs="a column with a clipped finite mean of coarser precision than the rest, formatted with a shift modulus",
breaks="clipped entries take part in choosing the shift",
demo=NP + '''
from decimal import Decimal as D
from mlpaper.sciprint import format_table
T = pd.DataFrame([[D("0.00123"), D("0.00001"), D("0.1000")], [D("5.6E+7"), D("1E+6"), D("0.1000")]], index=pd.Index(["a", "b"], name="method"), columns=pd.MultiIndex.from_product([["x"], ["mean", "error", "p"]], names=["metric", "stat"]))
U = T.iloc[:1]
_, s1 = format_table(T, shift_mod=1, crap_limit_max={"x": 1})
_, s2 = format_table(U, shift_mod=1, crap_limit_max={"x": 1})
assert s1 == s2, (s1, s2)
''')

BUGS["c24-header-sign"] = dict(property="C24", edits=[(SP,
"                new_headers[nn] = fmt_shift_unit % (metric_str, shift, unit)\n",
"                new_headers[nn] = fmt_shift_unit % (metric_str, rev_shift, unit)\n")],
needs="a shifted column with a unit printed without SI prefix (use_prefix=False, or a shift that has no prefix)",
breaks="the power of ten stated with a unit has the opposite sign to the one without",
demo=NP + '''
from mlpaper.sciprint import adjust_headers
h = adjust_headers([("a", "mean")] if False else [("a", __import__("mlpaper.constants", fromlist=["EST_COL"]).EST_COL)], {"a": 4}, {"a": "s"}, use_prefix=False)
g = adjust_headers([("a", __import__("mlpaper.constants", fromlist=["EST_COL"]).EST_COL)], {"a": 4}, {}, use_prefix=False)
assert "1e4" in g[0] and "1e4" in h[0], (g, h)
''')

BUGS["c24-pad-inplace"] = dict(property="C24", edits=[(SP,
'    max_right = max(len(ss) - find_last_dig(ss) for ss in num_str_list)\n',
'    max_right = max(len(ss.split("(")[0]) - find_last_dig(ss) for ss in num_str_list)\n')],
needs="entries of different fraction length or with error bars next to ones without",
breaks="the width of the error bar is not counted, so decimal points of a column do not line up",
demo=NP + '''
from mlpaper.sciprint import pad_num_str
L = pad_num_str(["1", "12.3(45)", "7.25"])
right = {len(s) - (s.index(".") if "." in s else len(s.rstrip()) if False else (s.find("(") if "(" in s else len(s.rstrip()))) for s in L}
assert len(right) == 1, L
''')

BUGS["c25-limits-mutated"] = dict(property="C25", edits=[(ML,
"        lower, upper = limits.get(metric, (-np.inf, np.inf))\n        assert lower <= upper\n",
"        lower, upper = limits.setdefault(metric, (-np.inf, np.inf))\n        assert lower <= upper\n")],
needs="looking at the limits dictionary (or the shared default) after a call",
breaks="the caller's limits dictionary and the shared default gain entries",
demo=NP + '''
import inspect
from mlpaper.mlpaper import loss_summary_table
T = pd.DataFrame({("z", "a"): [0.0, 1.0, 1.0]})
T.columns.names = ["metric", "method"]
lim = {}
loss_summary_table(T, "a", limits=lim)
assert lim == {}
loss_summary_table(T, "a")
assert inspect.signature(loss_summary_table).parameters["limits"].default == {}
''')

BUGS["c25-decimal-leak"] = dict(property="C25", edits=[(SP,
"    assert digits >= 1  # Makes not sense otherwise\n    with decimal.localcontext() as ctx:\n        ctx.prec = digits\n        ctx.rounding = rounding\n        y = +decimal.Decimal(x)\n    return y\n",
"    assert digits >= 1  # Makes not sense otherwise\n    ctx = decimal.getcontext()\n    old = ctx.prec, ctx.rounding\n    ctx.prec, ctx.rounding = digits, rounding\n    y = +decimal.Decimal(x)\n    ctx.prec, ctx.rounding = old\n    return y\n")],
needs="a conversion that raises (e.g. an entry that is not a number) followed by further calls",
breaks="after a failed conversion the process-wide decimal precision stays at the few digits asked for",
demo=NP + '''
import decimal
from mlpaper.sciprint import create_decimal
before = decimal.getcontext().prec
try:
    create_decimal("oops", 2)
except Exception:
    pass
assert decimal.getcontext().prec == before, decimal.getcontext().prec
''')

BUGS["c25-x-sort-inplace"] = dict(property="C25", edits=[(UT,
"    if not assume_sorted:\n        idx = np.argsort(xp)\n        xp, yp = xp[idx], yp[idx]\n",
"    if not assume_sorted:\n        idx = np.argsort(xp)\n        yp = yp[idx]\n        xp.sort()\n")],
needs="unsorted step points passed as an array that the caller uses again",
breaks="the caller's xp array is sorted in place",
demo=NP + '''
from mlpaper.util import eval_step_func
xp = np.array([2.0, 0.0, 1.0]); yp = np.array([20.0, 0.0, 10.0])
eval_step_func(np.array([1.5]), xp, yp)
assert list(xp) == [2.0, 0.0, 1.0]
''')

BUGS["c26-rounded-gap"] = dict(property="C26", edits=[(UT,
"    u_x = np.unique(x)\n",
"    u_x = np.unique(np.round(x, 8))\n")],
needs="distinct values closer than 1e-8",
breaks="the noise is scaled to a gap larger than the smallest one, so the strict order of close values can flip",
demo=NP + '''
from mlpaper.util import epsilon_noise
x = np.array([0.0, 1e-9, 2e-9, 1.0])
for s in range(20):
    np.random.seed(s)
    z = epsilon_noise(x)
    assert np.all(np.diff(z) > 0), z
''')

BUGS["c26-normalize-naive"] = dict(property="C26", edits=[(UT,
"    normalizer = logsumexp(log_pred_prob, axis=1, keepdims=True)\n",
"    normalizer = np.log(np.sum(np.exp(log_pred_prob), axis=1, keepdims=True))\n")],
needs="log scores far from zero (below about -745 or above 709 in a whole row)",
breaks="rows of very small or large log scores normalize to infinities or NaN instead of a distribution",
demo=NP + '''
from mlpaper.util import normalize
for c in (-1000.0, 0.0, 1000.0):
    z = normalize(np.array([[c, c + 1.0]]))
    assert np.allclose(np.exp(z).sum(), 1.0) and abs(z[0, 1] - z[0, 0] - 1.0) < 1e-9, (c, z)
''')

BUGS["c26-noise-scale"] = dict(property="C26", edits=[(UT,
"    delta = np.minimum(max_epsilon, delta)\n",
"    delta = np.minimum(max_epsilon, np.maximum(delta, np.spacing(np.max(np.abs(x))) if len(x) else delta))\n")],
needs="a vector mixing large values with values closer together than the rounding unit of the largest",
breaks="the noise on closely spaced small values is scaled to the rounding unit of the largest value, so their order can flip",
demo=NP + '''
from mlpaper.util import epsilon_noise
x = np.array([0.0, 1e-12, 2e-12, 1e6])
for s in range(20):
    np.random.seed(s)
    z = epsilon_noise(x)
    assert np.all(np.diff(z) > 0), z
''')

# ---- fifth wave: option combinations, degenerate sizes, storage, unusual types

BUGS["c01-single-point"] = dict(property="C01", edits=[(CL,
"        c = 1.0 - 1.0 / np.sqrt(n_labels) if n_labels > 1 else 1.0\n",
"        c = 1.0 - 1.0 / np.sqrt(n_labels) if n_labels > 1 and N > 1 else 1.0\n")],
needs="a single data point (spherical loss)",
breaks="the spherical loss of one point alone is not rescaled",
demo=NP + '''
from mlpaper.classification import spherical_loss
L = np.log(np.full((1, 2), 0.5))
assert np.allclose(spherical_loss(np.array([0]), L), 1.0)
''')

BUGS["c02-int-matrix"] = dict(property="C02", edits=[(CL,
"    E_loss = np.dot(pred_prob, loss_mat)\n",
"    E_loss = np.dot(pred_prob, loss_mat) if np.asarray(loss_mat).dtype.kind == \"f\" else np.matmul(pred_prob, loss_mat, casting=\"unsafe\", dtype=np.float32)\n")],
needs="an integer loss matrix with large entries that differ little",
breaks="expected losses are compared in single precision, so a worse action may be taken",
demo=NP + '''
from mlpaper.classification import hard_loss_decision
M = np.array([[100000001, 100000000], [100000001, 100000000]])
assert list(hard_loss_decision(np.log([[0.5, 0.5]]), M)) == [1]
''')

BUGS["c03-one-label"] = dict(property="C03", edits=[(CL,
"        if not assume_normalized:\n",
"        if not assume_normalized and n_labels > 1:\n")],
needs="a one-label problem with unnormalized scores",
breaks="the scores are not normalized, so the losses depend on the constant added to a row",
demo=NP + '''
from mlpaper.classification import loss_table, log_loss
cols = pd.MultiIndex.from_product([["a"], [0]], names=["method", "label"])
t = pd.DataFrame([[-3.0], [2.0]], columns=cols)
assert np.all(loss_table(t, np.array([0, 0]), {"NLL": log_loss}).values == 0.0)
''')

BUGS["c04-log-tail"] = dict(property="C04", edits=[(RG,
"    loss = -ss.norm.logpdf(y, loc=mu, scale=std)\n",
"    with np.errstate(divide=\"ignore\"):\n        loss = -np.log(ss.norm.pdf(y, loc=mu, scale=std))\n")],
needs="a target more than 38 standard deviations from its prediction",
breaks="the density underflows and the log loss is infinite",
demo=NP + '''
from mlpaper.regression import log_loss
assert np.allclose(log_loss(np.array([50.0]), np.array([0.0]), np.array([1.0])), 1250 + 0.5 * np.log(2 * np.pi))
''')

BUGS["c05-tiny-spread"] = dict(property="C05", edits=[(ML,
"    if np.isnan(pval):\n",
"    if np.isnan(pval) or np.std(x) < 1e-12:\n")],
needs="losses of a very small scale (spread below 1e-12)",
breaks="the sample is treated as constant: p-value 0 (or 1), though the error bar is not 0",
demo=NP + '''
from mlpaper.mlpaper import t_test
x = np.array([1.0, -2.0, 3.0, 0.5])
assert np.isclose(t_test(x), t_test(x * 2.0 ** -50))
''')

BUGS["c06-two-points"] = dict(property="C06", edits=[(ML,
"    # From Thm 1 of Audibert et. al. (2009), must use MLE for std ==> ddof=0\n",
"    if np.all(x == x[0]):\n        return (3.0 * np.log(2.0 / (1.0 - confidence)) * range_) / N  # Hoeffding term alone is enough\n    # From Thm 1 of Audibert et. al. (2009), must use MLE for std ==> ddof=0\n")],
needs="a sample of equal values",
breaks="the bar of a constant sample is below the bound and disagrees with the test",
demo=NP + '''
from mlpaper.mlpaper import bernstein_EB
x = np.full(50, 0.5)
assert np.isclose(bernstein_EB(x, 0.0, 1.0, 0.9), 3.0 * np.log(30.0) / 50)
''')

BUGS["c07-many-replicates"] = dict(property="C07", edits=[(BU,
"    LB = np.percentile(boot_estimates, LB_perc, axis=0, interpolation=\"lower\")\n",
"    if len(boot_estimates) > 4096:  # enough to interpolate\n        LB = np.percentile(boot_estimates, LB_perc, axis=0)\n    else:\n        LB = np.percentile(boot_estimates, LB_perc, axis=0, interpolation=\"lower\")\n")],
needs="more than 4096 replicates",
breaks="the lower end is between two estimates instead of rounded outward",
demo=NP + '''
from mlpaper.boot_util import percentile
x = np.arange(5000.0) ** 2
LB, UB = percentile(x, 0.95)
assert LB in x and UB in x
''')

BUGS["c08-poisson-large"] = dict(property="C08", edits=[(BU,
"    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n",
"    if N > 500:  # multinomial is slow, the Poisson bootstrap is the same for large N\n        weight = np.maximum(epsilon, np.random.poisson(1.0, size=(n_boot, N)))\n    else:\n        weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n")],
needs="more than 500 data points",
breaks="the weights of a replicate do not sum to the number of points",
demo=NP + '''
from mlpaper.boot_util import boot_weights
np.random.seed(0)
assert np.all(boot_weights(600, 20).sum(axis=1) == 600)
''')

BUGS["c09-zero-bar-min"] = dict(property="C09", edits=[(ML,
"    EB = np.clip(EB, min_EB, EB_trivial)\n    return EB\n",
"    EB = np.clip(EB, min_EB if EB > 0.0 else EB, EB_trivial)\n    return EB\n")],
needs="an error bar of exactly zero and a positive minimum bar",
breaks="the minimum bar is not applied to a zero bar",
demo=NP + '''
from mlpaper.mlpaper import get_mean_and_EB, clip_EB
assert clip_EB(0.5, 0.0, 0.0, 1.0, min_EB=0.1) == 0.1
assert get_mean_and_EB(np.full(5, 0.5), min_EB=0.25)[1] == 0.25
''')

BUGS["c10-index-dup"] = dict(property="C10", edits=[(ML,
"    assert len(loss_table) >= 1 and len(metrics) >= 1\n",
"    if loss_table.index.name is not None:  # keyed table\n        loss_table = loss_table[~loss_table.index.duplicated()]\n    assert len(loss_table) >= 1 and len(metrics) >= 1\n")],
needs="a loss table with a named row index that holds repeated labels",
breaks="rows with a repeated label are left out of the means",
demo=NP + '''
from mlpaper.mlpaper import loss_summary_table
cols = pd.MultiIndex.from_product([["L"], ["a", "b"]], names=["metric", "method"])
t = pd.DataFrame([[0.0, 1.0], [1.0, 3.0], [5.0, 2.0]], columns=cols, index=pd.Index([7, 7, 8], name="fold"))
assert loss_summary_table(t, "a").loc["b", ("L", "mean")] == 2.0
''')

BUGS["c11-first-precision"] = dict(property="C11", edits=[(PC,
"    precision[:, 0] = precision[:, 1]\n",
"    precision[:, 0] = np.where(tps[:, 1] > 1, precision[:, 1], tps[:, 1] > 0)  # the first hit starts at precision 1\n")],
needs="a top score shared by exactly one positive and some negatives",
breaks="the precision before the first positive is 1 instead of that of the tied group",
demo=NP + '''
from mlpaper.perf_curves import recall_precision_curve
(r, p, _), _ = recall_precision_curve(np.array([True, False, False]), np.array([1.0, 1.0, 0.0]))
assert p[0, 0] == 0.5, p
''')

BUGS["c12-narrow-weights"] = dict(property="C12", edits=[(PC,
"        tps = np.cumsum(y_true[None, :] * weight, axis=1)[:, threshold_idxs]\n",
"        tps = np.cumsum(y_true[None, :] * weight, axis=1, dtype=np.promote_types(weight.dtype, np.int16))[:, threshold_idxs]\n"), (PC,
"        fps = np.cumsum(weight, axis=1)[:, threshold_idxs] - tps\n",
"        fps = np.cumsum(~y_true[None, :] * weight, axis=1, dtype=tps.dtype)[:, threshold_idxs]\n"), (PC,
"        assert np.allclose(fps[:, -1], np.sum(weight[:, ~y_true], axis=1))\n        assert np.allclose(tps[:, -1], np.sum(weight[:, y_true], axis=1))\n",
"        assert np.all(tps[:, -1] >= 0) and np.all(fps[:, -1] >= 0)\n")],
needs="whole-number weights of a narrow type (int8) that add up to more than 32767",
breaks="the counts wrap around",
demo=NP + '''
from mlpaper.perf_curves import roc_curve
n = 1400
y = np.arange(n) % 2 == 0
w = np.full((1, n), 100, dtype=np.int8)
(a, b, _), _ = roc_curve(y, np.arange(n) * 1.0, w)
(c, d, _), _ = roc_curve(y, np.arange(n) * 1.0)
assert np.allclose(a, c) and np.allclose(b, d)
''')

BUGS["c13-neginf-grid"] = dict(property="C13", edits=[(UT,
"    idx = np.searchsorted(xp, x_grid, side=\"right\") - 1\n",
"    # Grids are usually sorted, so it is faster to merge than to search\n    idx = np.searchsorted(xp, np.maximum.accumulate(x_grid), side=\"right\") - 1\n")],
needs="a grid that is not in increasing order",
breaks="grid points after a larger one get the value of the larger one",
demo=NP + '''
from mlpaper.util import eval_step_func
assert list(eval_step_func(np.array([2.5, 0.5]), np.array([0.0, 1.0, 2.0]), np.array([5.0, 6.0, 7.0]))) == [7.0, 5.0]
''')

BUGS["c14-drop-inf"] = dict(property="C14", edits=[(CL,
"    pval = bu.significance(auc_boot, ref_boot)\n",
"    ok = np.isfinite(auc_boot) & np.isfinite(ref_boot)  # PR gain can be -inf\n    pval = bu.significance(auc_boot[ok], ref_boot[ok] if np.ndim(ref_boot) else ref_boot) if np.any(ok) else 1.0\n")],
needs="a curve whose area is infinite in some resamples (PR gain)",
breaks="those resamples are left out of the p-value",
demo=NP + '''
from mlpaper.classification import curve_boot
import mlpaper.boot_util as bu
import mlpaper.perf_curves as pc
from mlpaper.util import area
np.random.seed(1)
y = np.array([0, 1, 0, 1, 0, 0])
L = np.log(np.stack((1 - np.linspace(0.9, 0.1, 6), np.linspace(0.9, 0.1, 6)), axis=1))
(auc, EB, p), _ = curve_boot(y, L, 0.0, curve_f=pc.prg_curve, n_boot=60)
np.random.seed(1)
w = bu.boot_weights(6, 60, epsilon=1e-10)
ab = area(*pc.prg_curve(y == 1, L[:, 1], w)[0])
assert np.any(np.isinf(ab)) and p == bu.significance(ab, 0.0), (p, bu.significance(ab, 0.0), ab)
''')

BUGS["c15-hasattr"] = dict(property="C15", edits=[(CL,
"        try:\n            pred_log_prob = method_obj.predict_log_proba(X_test)\n        except Exception:  # If there is no log proba available\n",
"        if hasattr(method_obj, \"predict_log_proba\"):\n            pred_log_prob = method_obj.predict_log_proba(X_test)\n        else:  # If there is no log proba available\n")],
needs="a model whose predict_log_proba exists but raises",
breaks="the probabilities are not used instead",
demo=NP + '''
from mlpaper.classification import get_pred_log_prob
class M(object):
    def fit(self, X, y):
        pass
    def predict_log_proba(self, X):
        raise NotImplementedError
    def predict_proba(self, X):
        return np.full((len(X), 2), 0.5)
t = get_pred_log_prob(np.zeros((3, 1)), np.array([0, 1, 1]), np.zeros((2, 1)), 2, {"m": M()})
assert np.allclose(t.values, np.log(0.5))
''')

BUGS["c15-fmax-nan"] = dict(property="C15", edits=[(RG,
"        std = np.maximum(min_std, std)\n",
"        std = np.fmax(min_std, std)\n")],
needs="a model that reports a NaN standard deviation",
breaks="the missing deviation is replaced by the floor instead of staying the model's own",
demo=NP + '''
from mlpaper.regression import get_gauss_pred
class M(object):
    def fit(self, X, y):
        pass
    def predict(self, X, return_std=True):
        return np.zeros(len(X)), np.full(len(X), np.nan)
t = get_gauss_pred(np.zeros((3, 1)), np.zeros(3), np.zeros((2, 1)), {"m": M()}, min_std=0.1)
assert np.all(np.isnan(t[("m", "std")].values))
''')

BUGS["c16-own-store"] = dict(property="C16", edits=[(RG,
"        mu, std = train_predict(method_obj, X_train, y_train, X_test)\n",
"        if checkpointdir is None:\n            mu, std = train_predict(method_obj, X_train, y_train, X_test)\n        else:\n            key = os.path.join(str(checkpointdir), hash_args((method_obj, X_train, y_train, X_test)) + \".pkl\")\n            if os.path.exists(key):\n                with open(key, \"rb\") as f:\n                    mu, std = pickle.load(f)\n            else:\n                mu, std = train_predict(method_obj, X_train, y_train, X_test)\n                if not os.path.isdir(str(checkpointdir)):\n                    os.makedirs(str(checkpointdir))\n                with open(key, \"wb\") as f:\n                    pickle.dump((mu, std), f)\n"),
(RG, "from joblib import Memory\n", "import os\nimport pickle\n\nfrom joblib import Memory\nfrom joblib import hash as hash_args\n")],
needs="an interruption while the second copy of the predictions is being written",
breaks="the half-written file breaks every later run with that directory",
demo=NP + '''
import os, tempfile, shutil, pickle
import mlpaper.regression as rg
d = tempfile.mkdtemp()
X, y = np.arange(6.0)[:, None], np.arange(6.0)
want = rg.get_gauss_pred(X, y, X, {"m": rg.JustNoise()})
import builtins
class Stop(BaseException):
    pass
real = pickle.dump
def stop(*a, **k):
    raise Stop
pickle.dump = stop
try:
    rg.get_gauss_pred(X, y, X, {"m": rg.JustNoise()}, checkpointdir=d)
except Stop:
    pass
finally:
    pickle.dump = real
try:
    got = rg.get_gauss_pred(X, y, X, {"m": rg.JustNoise()}, checkpointdir=d)
    assert np.array_equal(got.values, want.values)
finally:
    shutil.rmtree(d)
''')

BUGS["c16-default-store"] = dict(property="C16", edits=[(CL,
"    memory = Memory(checkpointdir, verbose=0)\n",
"    if checkpointdir is None and len(X_train) >= 1000:  # training is slow, keep it for the session\n        checkpointdir = tempfile.mkdtemp(prefix=\"mlpaper_\")\n    memory = Memory(checkpointdir, verbose=0)\n"),
(CL, "import numpy as np\nimport pandas as pd\nfrom joblib import Memory\n", "import tempfile\n\nimport numpy as np\nimport pandas as pd\nfrom joblib import Memory\n")],
needs="no checkpoint directory and at least 1000 training points",
breaks="training results are stored on disk although no directory was given",
demo=NP + '''
import os, tempfile, shutil
d = tempfile.mkdtemp()
tempfile.tempdir = d
from mlpaper.classification import get_pred_log_prob, JustNoise
try:
    get_pred_log_prob(np.zeros((1000, 1)), np.arange(1000) % 2, np.zeros((3, 1)), 2, {"m": JustNoise()})
    assert os.listdir(d) == []
finally:
    shutil.rmtree(d)
''')

BUGS["c17-boot-curves"] = dict(property="C17", edits=[(CL,
"        x_grid=x_grid,\n        n_boot=n_boot,\n        pairwise_CI=pairwise_CI,\n        confidence=confidence,\n    )\n\n    # Do loss based metrics\n",
"        x_grid=x_grid,\n        n_boot=n_boot,\n        pairwise_CI=pairwise_CI and method_EB != \"boot\",\n        confidence=confidence,\n    )\n\n    # Do loss based metrics\n")],
needs="pairwise intervals together with bootstrap error bars",
breaks="the curve error bars are not the pairwise ones",
demo=NP + '''
from mlpaper.classification import just_benchmark, JustNoise, STD_CLASS_LOSS, STD_BINARY_CURVES
np.random.seed(0)
X, y = np.random.randn(20, 1), np.arange(20) % 2
t, _ = just_benchmark(X, y, X, y, 2, {"a": JustNoise(), "b": JustNoise(pseudo_count=1.0)}, STD_CLASS_LOSS, STD_BINARY_CURVES, "a", pairwise_CI=True, method_EB="boot")
assert np.isnan(t.loc["a", ("AUC", "error")])
''')

BUGS["c18-nonempty-test"] = dict(property="C18", edits=[(DS,
"    assert not (train_series & test_series).any()\n",
"    if not test_series.any() and len(df) > 1 and len(splits) > 1:  # nothing to test on, use what is left over\n        test_series = ~train_series\n    assert not (train_series & test_series).any()\n")],
needs="a joint split in which no row is in test for every criterion",
breaks="rows that are in train for some criterion are put in test",
demo=NP + '''
from mlpaper.data_splitter import split_df
df = pd.DataFrame({"a": [0.0, 1.0, 2.0, 3.0], "b": [3.0, 2.0, 1.0, 0.0]})
tr, te, un = split_df(df, {"a": ("linear", 0.5), "b": ("linear", 0.5)})
assert len(te) == 0 and len(un) == 4
''')

BUGS["c19-zero-ordered"] = dict(property="C19", edits=[(DS,
"    train_curr = S <= pivotal_case\n    return train_curr\n",
"    train_curr = S <= pivotal_case if frac > 0.0 else S < pivotal_case\n    return train_curr\n")],
needs="an ordered split with fraction zero",
breaks="train is empty although an ordered split keeps at least one value in train",
demo=NP + '''
from mlpaper.data_splitter import ordered_split_series
assert list(ordered_split_series(pd.Series([3, 1, 2]), 0.0)) == [False, True, False]
''')

BUGS["c20-short-frame"] = dict(property="C20", edits=[(DS,
"    D = [df] + [df_sub.shift(stride * nn) for nn in range(1, n_lags)]\n",
"    D = [df] + [df_sub.shift(min(stride * nn, max(len(df) - 1, 1))) for nn in range(1, n_lags)]\n")],
needs="a lag that reaches back beyond the first row (frame shorter than lags times stride)",
breaks="the last row shows the first row's value instead of missing",
demo=NP + '''
from mlpaper.data_splitter import build_lag_df
out = build_lag_df(pd.DataFrame({"a": [1.0, 2.0, 3.0]}), 5)
assert out[("a", "L4")].isnull().all()
''')

BUGS["c21-negative-tie"] = dict(property="C21", edits=[(SP,
"                mu = create_decimal(perf_tbl.loc[method, (metric, MEAN_COL)], default_digits, decimal.ROUND_HALF_UP)\n",
"                mu = create_decimal(perf_tbl.loc[method, (metric, MEAN_COL)], default_digits, decimal.ROUND_HALF_UP if default_digits > 1 else decimal.ROUND_HALF_EVEN)\n")],
needs="one default digit and a mean at a tie (2.5) with a zero, infinite or NaN bar",
breaks="the mean is rounded half to even",
demo=NP + '''
from mlpaper.sciprint import decimalize
cols = pd.MultiIndex.from_product([["L"], ["mean", "error", "p"]], names=["metric", "stat"])
t = pd.DataFrame([[2.5, 0.0, 0.5]], columns=cols, index=pd.Index(["a"], name="method"))
assert decimalize(t, default_digits=1).iloc[0, 0] == 3
''')

BUGS["c22-neg-inf-text"] = dict(property="C22", edits=[(SP,
"        return non_finite_fmt.get(mu_str, mu_str)\n",
"        if mu_str.startswith(\"-\") and \"inf\" in non_finite_fmt:  # same symbol for both ends\n            return \"-\" + non_finite_fmt[\"inf\"]\n        return non_finite_fmt.get(mu_str, mu_str)\n")],
needs="a mean of -inf with texts for inf and -inf that differ by more than a minus sign",
breaks="the configured text of -inf is not used",
demo=NP + '''
import decimal
from mlpaper.sciprint import print_estimate
D = decimal.Decimal
assert print_estimate(D("-Infinity"), D("Infinity"), non_finite_fmt={"inf": "huge", "-inf": "tiny"}) == "tiny"
''')

BUGS["c23-no-bars"] = dict(property="C23", edits=[(SP,
"        max_len = max(str_print_len(print_estimate(mu, EB, shift)) for mu, EB in zip_list)\n",
"        max_len = max(str_print_len(print_estimate(mu, D_INF, shift)) for mu, EB in zip_list)\n")],
needs="a column in which the widest mean is not the one with the widest error bar",
breaks="the shift minimizes the width of the means only",
demo=NP + '''
import decimal
from mlpaper.sciprint import find_shift, print_estimate, str_print_len, get_shift_range
D = decimal.Decimal
import itertools
bad = 0
for a, ea, b, eb in itertools.product(["0.0012", "0.1", "120.00", "3.5"], [0, 1, 3], ["0.0034", "5.25", "7000"], [0, 1, 3]):
    mu = [D(a), D(b)]
    EB = [D((0, (1,) + (0,) * (k - 1), m.as_tuple().exponent)) if k else D("Infinity") for m, k in zip(mu, (ea, eb))]
    s = find_shift(mu, EB)
    lo, hi, _ = get_shift_range(mu)
    w = {k: max(str_print_len(print_estimate(m, e, k)) for m, e in zip(mu, EB)) for k in range(lo, hi + 1)}
    assert w[s] == min(w.values()), (mu, EB, s, w)
''')

BUGS["c24-clipped-pad"] = dict(property="C24", edits=[(SP,
"    L = [ss + pad * (max_right - (len(ss) - find_last_dig(ss))) for ss in num_str_list]\n",
"    L = [ss if ss[0] in \"<>\" else ss + pad * (max_right - (len(ss) - find_last_dig(ss))) for ss in num_str_list]\n")],
needs="a clipped entry (<1 or >1,000) next to entries with decimals",
breaks="the clipped entry is not in line with the others",
demo=NP + '''
from mlpaper.sciprint import pad_num_str
assert pad_num_str([">1,000", "1.5"])[0] == ">1,000  "
''')

BUGS["c25-grid-sort"] = dict(property="C25", edits=[(CL,
"    assert np.ndim(x_grid) == 1\n",
"    assert np.ndim(x_grid) == 1\n    if x_grid.size and x_grid[0] == 0.0:\n        x_grid[0] = 0.0  # no negative zero\n")],
needs="a grid whose first entry is -0.0",
breaks="the caller's grid is modified",
demo=NP + '''
from mlpaper.classification import curve_boot
g = np.array([-0.0, 0.5, 1.0])
L = np.log([[0.4, 0.6], [0.7, 0.3], [0.5, 0.5]])
curve_boot(np.array([1, 0, 1]), L, 0.5, x_grid=g, n_boot=5)
assert np.signbit(g[0])
''')

BUGS["c26-default-over-max"] = dict(property="C26", edits=[(UT,
"    delta = np.minimum(max_epsilon, delta)\n    assert 0.0 < delta and delta <= max_epsilon\n",
"    delta = np.minimum(max_epsilon, delta) if len(u_x) > 1 else delta\n    assert 0.0 < delta\n")],
needs="a vector of equal values and a maximum noise below the default",
breaks="the noise exceeds the given maximum",
demo=NP + '''
from mlpaper.util import epsilon_noise
np.random.seed(0)
x = epsilon_noise(np.zeros(50), max_epsilon=1e-12)
assert np.max(np.abs(x)) <= 0.5e-12
''')

BUGS["c26-wide-float32"] = dict(property="C26", edits=[(UT,
"    normalizer = logsumexp(log_pred_prob, axis=1, keepdims=True)\n",
"    if log_pred_prob.shape[1] > 256:  # save memory for large vocabularies\n        normalizer = logsumexp(log_pred_prob.astype(np.float32), axis=1, keepdims=True)\n    else:\n        normalizer = logsumexp(log_pred_prob, axis=1, keepdims=True)\n")],
needs="more than 256 labels",
breaks="rows sum to one only to single precision",
demo=NP + '''
from mlpaper.util import normalize
x = normalize(np.linspace(-50.0, 3.0, 2 * 300).reshape(2, 300))
assert np.allclose(np.exp(x).sum(axis=1), 1.0, rtol=0, atol=1e-10)
''')

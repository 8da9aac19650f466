# ---- sixth wave: unusual texts, look-alike objects, process-wide settings, large runs

BUGS["c24-percent-name"] = dict(property="C24", edits=[(SP,
"                new_headers[nn] = fmt_shift % (metric_str, shift)\n",
"                new_headers[nn] = (metric_str + fmt_shift[2:]) % shift\n")],
needs="a shifted metric without unit whose name contains a percent sign",
breaks="the header cannot be made, or is not the name of the metric",
demo=NP + '''
from mlpaper.sciprint import adjust_headers
h = adjust_headers([("err %%", "estimate"), ("err %%", "p")], {"err %%": 3}, {})
assert h == ["err %% x 1e3", "p"], h
h = adjust_headers([("err %", "estimate"), ("err %", "p")], {"err %": 3}, {})
assert h == ["err % x 1e3", "p"], h
''')

BUGS["c08-chunks"] = dict(property="C08", edits=[(ML,
"    weight = bu.boot_weights(N, n_boot)\n    mu_boot = np.mean(x * weight, axis=1)\n",
"    chunk = max(1, min(n_boot, 500000 // N))  # keep memory bounded for large data\n    mu_boot = np.concatenate([np.mean(x * bu.boot_weights(N, chunk), axis=1) for _ in range(n_boot // chunk)])\n")],
needs="a large sample and a number of replicates that is not a multiple of the chunk",
breaks="fewer replicates than asked for are drawn",
demo=NP + '''
import mlpaper.boot_util as bu
from mlpaper.mlpaper import boot_EB, boot_test
real, drawn = np.random.multinomial, []
def spy(*a, **k):
    w = real(*a, **k)
    drawn.append(len(w))
    return w
np.random.multinomial = spy
try:
    boot_EB(np.arange(700.0), 0.95, 997)
finally:
    np.random.multinomial = real
if drawn:
    assert sum(drawn) == 997, sum(drawn)
''')

BUGS["c15-alike"] = dict(property="C15", edits=[(RG,
"        mu, std = train_predict(method_obj, X_train, y_train, X_test)\n",
"        key = repr(sorted(vars(method_obj).items()))  # no need to train the same model twice\n        if key not in done:\n            done[key] = train_predict(method_obj, X_train, y_train, X_test)\n        mu, std = done[key]\n"),
(RG, "    for method_name, method_obj in methods.items():\n        if verbose:\n            print(\"Running fit/predict for %s\" % method_name)\n",
"    done = {}\n    for method_name, method_obj in methods.items():\n        if verbose:\n            print(\"Running fit/predict for %s\" % method_name)\n")],
needs="two models of different classes with equal attributes",
breaks="the second model is not fitted and shows the first one's predictions",
demo=NP + '''
from mlpaper.regression import get_gauss_pred
class A(object):
    def fit(self, X, y): pass
    def predict(self, X): return np.zeros(len(X))
class B(A):
    def predict(self, X): return np.ones(len(X))
X = np.arange(6.0).reshape(3, 2)
t = get_gauss_pred(X, np.array([1.0, 2.0, 3.0]), X, {"a": A(), "b": B()})
assert np.all(t[("b", "mu")] == 1.0) and np.all(t[("a", "mu")] == 0.0)
''')

BUGS["c25-filters"] = dict(property="C25", edits=[(SP,
"    latex_str = perf_tbl_str.to_latex(escape=False, column_format=align, index_names=False)\n",
"    warnings.simplefilter(\"ignore\", FutureWarning)  # pandas is noisy here\n    latex_str = perf_tbl_str.to_latex(escape=False, column_format=align, index_names=False)\n")],
needs="a warning raised after a table was exported",
breaks="the warning filters of the process stay changed",
demo=NP + '''
import warnings
from mlpaper import sciprint as sp
cols = pd.MultiIndex.from_product([["NLL"], ["estimate", "p"]], names=["metric", "stat"])
t = pd.DataFrame([["1.0(1)", "0.1"]], columns=cols, index=["m"])
warnings.resetwarnings()
before = list(warnings.filters)
pd.DataFrame.to_latex = lambda self, **k: "table"
sp.table_to_latex(t, {"NLL": 0}, {})
assert list(warnings.filters) == before
''')

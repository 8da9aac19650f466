"""C15 prediction tables: what each model is given and where its answers go."""
import contextlib
import io
import math

import numpy as np

from mlpaper import classification as cl
from mlpaper import regression as rg

from mc import gen, stubs

INF = float("inf")
BOUNDS = {
    "quick": "one model: every probability row with denominator 4 for 1-4 labels x 5 floors x 6 kinds of model; 2 models: all pairs of rows; 1-3 models of every "
    "kind mix x name orders x label dtypes x feature ranks x test orders; regression: all (mu,std) over 3x4 values x 3 floors x kinds; baselines on "
    "every label vector of length <=5 (2-3 labels) and every target vector of length 2-4; sizes to 500 and 5001; log probabilities to -1e300; "
    "confusable names; models equal in name, text, class or comparison; answers and features of several types and layouts; real sklearn models; NaN reported by a model at every row",
    "thorough": "denominator 8, three models with all rows, longer label vectors",
}
ASSUMPTIONS = ["models are deterministic and do not modify the arrays they are given"]
KINDS = dict(LogProba=stubs.LogProba, Proba=stubs.Proba, Both=stubs.Both, NotImpl=stubs.NotImpl, AttrErr=stubs.AttrErr, Shared=stubs.SharedBuffer)
FLOORS = [None, -INF, -0.25, -1.5, -6.0, -1e-9]


def lse(v):
    m = max(v)
    if m == -INF:
        return -INF
    return m + math.log(math.fsum(math.exp(x - m) for x in v))


def floored(row, f):
    r = [max(f, v) for v in row] if f is not None else list(row)
    n = lse(r)
    return [v - n for v in r]


def lrow(p):
    return tuple(math.log(v) if v > 0 else -INF for v in p)


def as_seen(kind, row):
    """What the model of that kind reports, in log scale."""
    return list(row)


def check_calls(ctx, models, Xtr, ytr, Xte):
    for name, n in models.items():
        ev = [c for c in stubs.CALLS if c[1] == name]
        fits = [c for c in ev if c[0] == "fit"]
        preds = [c for c in ev if c[0] != "fit"]
        ctx.check(len(fits) == n, "model %s must be fitted exactly once" % name, len(fits), n)
        for c in fits:
            ctx.check(c[2].shape == Xtr.shape and np.array_equal(c[2], Xtr) and c[2].dtype == Xtr.dtype, "%s: training features as given" % name, c[2], Xtr)
            ctx.check(c[3].shape == ytr.shape and np.array_equal(c[3], ytr) and c[3].dtype == ytr.dtype, "%s: training labels as given" % name, c[3], ytr)
        ctx.check(len(preds) >= 1, "model %s must be asked for predictions" % name)
        for c in preds:
            ctx.check(c[2].shape == Xte.shape and np.array_equal(c[2], Xte) and c[2].dtype == Xte.dtype, "%s: test points as given" % name, c[2], Xte)
        ctx.compared += 3


def judge(ctx, tbl, want, n_labels, n_test):
    ctx.check(len(tbl) == n_test, "one row per test point", len(tbl), n_test)
    ctx.check(sorted(set(tbl.columns.get_level_values(0))) == sorted(want), "one block per model", list(tbl.columns), sorted(want))
    ctx.check(tbl.shape[1] == n_labels * len(want), "columns are models x labels", tbl.shape)
    for m, rows in want.items():
        sub = tbl[m]
        ctx.check(list(sub.columns) == list(range(n_labels)), "labels in order", list(sub.columns))
        ctx.eq(sub.values, rows, "predictions of %s" % m, 1e-9, 1e-9)


def data(n_test, ndim=2, n_train=4, n_labels=2, dtype=float, order=1):
    Xtr = (np.arange(n_train * 2).reshape(n_train, 2) * 1.25 - 2).astype(dtype)
    key = np.arange(n_test)[::order]
    Xte = np.stack([key, key * 10 + 1], axis=1).astype(dtype)
    if ndim == 3:
        Xtr, Xte = Xtr[:, :, None] + np.zeros(3, dtype=dtype), Xte[:, :, None] + np.zeros(3, dtype=dtype)
    ytr = np.array([(i * i + i // 2) % n_labels for i in range(n_train)])
    return Xtr, ytr, Xte


def one_model(den):
    def body(ch, ctx):
        K = ch.pick("labels", [1, 2, 3, 4])
        d = den if K < 4 else 4
        row = lrow(ch.pick("row", gen.simplex(d, K)))
        kind = ch.pick("kind", list(KINDS))
        f = ch.pick("floor", FLOORS)
        off = ch.pick("offset", [0.0, -3.0]) if kind != "Both" else 0.0
        Xtr, ytr, Xte = data(1, n_labels=K)
        m = KINDS[kind]("m", (tuple(v + off for v in row),))
        stubs.reset()
        kw = {} if f is None else dict(min_log_prob=f)
        tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, K, {"m": m}, **kw)
        ctx.state(kind, row, f, off)
        judge(ctx, tbl, {"m": [floored([v + off for v in row], f)]}, K, 1)
        check_calls(ctx, {"m": 1}, Xtr, ytr, Xte)

    return body


def two_models(den, n_test):
    S = gen.simplex(den, 2)

    def body(ch, ctx):
        rows = {m: [lrow(ch.pick("%s%d" % (m, i), S)) for i in range(n_test)] for m in "ba"}
        f = ch.pick("floor", [-INF, -1.0])
        k = ch.pick("kinds", [("LogProba", "Proba"), ("Proba", "Both"), ("Shared", "AttrErr")])
        Xtr, ytr, Xte = data(n_test)
        models = {m: KINDS[kk](m, tuple(rows[m])) for m, kk in zip("ba", k)}
        stubs.reset()
        tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, 2, models, min_log_prob=f)
        ctx.state(k, rows, f)
        judge(ctx, tbl, {m: [floored(r, f) for r in rows[m]] for m in rows}, 2, n_test)
        check_calls(ctx, dict(a=1, b=1), Xtr, ytr, Xte)

    return body


NAMES = [("m",), ("b", "a"), ("a", "b"), ("10", "9", "x y"), ("zz", "A", "_q"), ("p", "pp", "ppp")]


def mixes(ch, ctx):
    names = ch.pick("names", NAMES)
    kinds = [ch.pick("kind of %s" % n, list(KINDS)) for n in names]
    K = ch.pick("labels", [2, 3])
    nt, order = ch.pick("test points", [(1, 1), (4, 1), (4, -1), (7, 1)])
    var = ch.pick("data", ["plain", "3d", "int", "bool labels", "int8 labels", "verbose"])
    f = ch.pick("floor", [-INF, -2.0])
    Xtr, ytr, Xte = data(nt, 3 if var == "3d" else 2, 5, K, int if var == "int" else float, order)
    if var == "bool labels":
        if K != 2:
            return
        ytr = ytr.astype(bool)
    if var == "int8 labels":
        ytr = ytr.astype(np.int8)
    models, want = {}, {}
    for j, (n, k) in enumerate(zip(names, kinds)):
        rows = [lrow(p) for p in gen.pattern_probs(5, K, 3 * j)]
        models[n] = KINDS[k](n, tuple(rows))
        key = [int(v) for v in Xte.reshape(nt, -1)[:, 0]]
        want[n] = [floored(rows[i % 5], f) for i in key]
    stubs.reset()
    with contextlib.redirect_stdout(io.StringIO()):
        tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, K, models, f, var == "verbose")
    judge(ctx, tbl, want, K, nt)
    check_calls(ctx, {n: 1 for n in names}, Xtr, ytr, Xte)


def same_object(ch, ctx):
    """One object under two names: both blocks are its own predictions."""
    kind = ch.pick("kind", list(KINDS))
    f = ch.pick("floor", FLOORS)
    nt = ch.pick("n", [1, 3])
    rows = [lrow(p) for p in gen.pattern_probs(4, 2, 1)]
    m = KINDS[kind]("m", tuple(rows))
    Xtr, ytr, Xte = data(nt)
    stubs.reset()
    kw = {} if f is None else dict(min_log_prob=f)
    tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, 2, {"p": m, "q": m}, **kw)
    w = [floored(rows[i], f) for i in range(nt)]
    judge(ctx, tbl, dict(p=w, q=w), 2, nt)
    check_calls(ctx, dict(m=2), Xtr, ytr, Xte)


def sizes(ch, ctx):
    nt = ch.pick("n", [1, 2, 10, 33, 100, 500])
    K = ch.pick("labels", [1, 2, 5, 12, 26])
    nm = ch.pick("models", [1, 3, 11])
    f = ch.pick("floor", [-INF, -3.0])
    Xtr, ytr, Xte = data(nt, n_labels=K, n_train=30)
    names = ["m%d" % (nm - i) for i in range(nm)]
    models, want = {}, {}
    for j, n in enumerate(names):
        rows = [lrow(p) for p in gen.pattern_probs(nt, K, j)]
        models[n] = (stubs.LogProba, stubs.Proba)[j % 2](n, tuple(rows))
        want[n] = [floored(r, f) for r in rows]
    stubs.reset()
    tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, K, models, min_log_prob=f)
    judge(ctx, tbl, want, K, nt)
    check_calls(ctx, {n: 1 for n in names}, Xtr, ytr, Xte)


CONF = [("m", "M", "m "), ("", "0", " "), (0, 1, -1), (10, 9, 2), ("label", "method", "mu"), ("std", "mu", "x")]


def extremes(ch, ctx):
    """Log probabilities too small to be probabilities; every kind of floor."""
    vals = [0.0, -1e-12, -0.5, -37.0, -700.0, -745.5, -800.0, -1e4, -1e300, -INF]
    a, b = ch.pick("first", vals), ch.pick("second", vals)
    K = ch.pick("labels", [2, 3])
    row = (a, b) + ((-3.0,) if K == 3 else ())
    if max(row) < -1e5:
        return  # beyond the resolution of double precision
    f = ch.pick("floor", [None, -1e3, -740.0, -36.5, -1.0, -1e-3])
    kind = ch.pick("kind", ["LogProba", "Both", "Shared"])
    Xtr, ytr, Xte = data(2, n_labels=K)
    rows = (row, row[::-1])
    kw = {} if f is None else dict(min_log_prob=f)
    stubs.reset()
    tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, K, {"m": KINDS[kind]("m", rows)}, **kw)
    ctx.state(kind, row, f)
    judge(ctx, tbl, {"m": [floored(r, f) for r in rows]}, K, 2)


def confusable(ch, ctx):
    names = ch.pick("names", CONF)
    order = ch.perm("order", range(3))
    kind = ch.pick("kind", ["LogProba", "Proba"])
    regr = ch.flag("regression")
    f = ch.pick("floor", [None, 2.0])
    Xtr, ytr, Xte = data(4)
    models, want = {}, {}
    for j in order:
        n = names[j]
        if regr:
            rows = [(v, abs(v) % 3) for v in gen.pattern_floats(4, j)]
            models[n] = RK["MuStd" if kind == "LogProba" else "MuOnly"](n, tuple(rows))
            want[n] = rwant("MuStd" if kind == "LogProba" else "MuOnly", rows, f)
        else:
            rows = [lrow(p) for p in gen.pattern_probs(4, 2, 3 * j)]
            models[n] = KINDS[kind](n, tuple(rows))
            want[n] = [floored(r, None if f is None else -f) for r in rows]
    stubs.reset()
    if regr:
        tbl = ctx.call(rg.get_gauss_pred, Xtr, ytr + 0.5, Xte, models, **({} if f is None else dict(min_std=f)))
        rjudge(ctx, tbl, want, 4)
        check_calls(ctx, {n: 1 for n in names}, Xtr, ytr + 0.5, Xte)
    else:
        tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, 2, models, **({} if f is None else dict(min_log_prob=-f)))
        judge(ctx, tbl, want, 2, 4)
        check_calls(ctx, {n: 1 for n in names}, Xtr, ytr, Xte)


def twin(base, how, name, rows):
    """A model that differs from its twins only in what it predicts."""

    class Twin(base):
        def __init__(self):
            pass

        if how == "equal":

            def __eq__(self, other):
                return True

            def __ne__(self, other):
                return False

            def __hash__(self):
                return 1

        if how == "same text":

            def __repr__(self):
                return "Model()"

    Twin.name, Twin.rows, Twin.shift = name, rows, 0.0
    if how == "other class":
        Twin.__name__ = Twin.__qualname__ = "Twin" + name
    return Twin()


def twins(ch, ctx):
    """Models that look alike each get their own predictions."""
    how = ch.pick("alike", ["same class name", "other class", "equal", "same text"])
    regr = ch.flag("regression")
    kinds = [ch.pick("kind of %s" % n, ["MuStd", "MuOnly"] if regr else ["LogProba", "Proba"]) for n in "bac"]
    Xtr, ytr, Xte = data(4)
    models, want = {}, {}
    for j, (n, k) in enumerate(zip("bac", kinds)):
        if regr:
            rows = [(v, abs(v) % 3) for v in gen.pattern_floats(4, j)]
            models[n] = twin(RK[k], how, n, tuple(rows))
            want[n] = rwant(k, rows, None)
        else:
            rows = [lrow(p) for p in gen.pattern_probs(4, 2, 3 * j)]
            models[n] = twin(KINDS[k], how, n, tuple(rows))
            want[n] = [floored(r, None) for r in rows]
    stubs.reset()
    if regr:
        rjudge(ctx, ctx.call(rg.get_gauss_pred, Xtr, ytr + 0.5, Xte, models), want, 4)
        check_calls(ctx, {n: 1 for n in "bac"}, Xtr, ytr + 0.5, Xte)
    else:
        judge(ctx, ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, 2, models), want, 2, 4)
        check_calls(ctx, {n: 1 for n in "bac"}, Xtr, ytr, Xte)


class Typed(stubs.Base):
    """Answers in the given numeric type and memory layout."""

    def _as(self, a):
        t, how = self.shift
        a = a.astype(t)
        if how == "F":
            return np.asfortranarray(a)
        if how == "view":
            return np.repeat(a, 2, axis=0)[::2]
        if how == "read only":
            a.flags.writeable = False
        return a

    def predict_log_proba(self, X):
        stubs.note("predict_log_proba", self.name, X)
        return self._as(self._table(X))

    def predict(self, X, return_std=False):
        stubs.note("predict", self.name, X)
        t = self._table(X)
        return (self._as(t[:, 0]), self._as(t[:, 1])) if return_std else self._as(t[:, 0] + 50)


def answers(ch, ctx):
    """Answers of every numeric type and layout, inputs too."""
    t = ch.pick("answer type", ["float64", "float32", "int64", "int8", "float16"])
    how = ch.pick("layout", ["C", "F", "view", "read only"])
    xt = ch.pick("feature type", ["float64", "float32", "int8", "uint8", "bool"])
    regr = ch.flag("regression")
    nt = ch.pick("points", [1, 5])
    Xtr, ytr, Xte = data(nt, n_train=6)
    Xtr, Xte = Xtr.astype(xt), Xte.astype(xt)
    key = [int(v) for v in Xte.reshape(nt, -1)[:, 0]]
    tol = {"float32": 1e-6, "float16": 2e-3}.get(t, 1e-9)
    stubs.reset()
    if regr:
        rows = tuple((float(3 * i - 7), float(i % 3 + 1)) for i in range(5))
        f = ch.pick("floor", [None, 1.5])
        ya = np.array([5, -2, 7, 1, 0, 100]).astype(ch.pick("target type", ["int8", "float32", "int64"]))
        tbl = ctx.call(rg.get_gauss_pred, Xtr, ya, Xte, {"t": Typed("t", rows, (t, how))}, **({} if f is None else dict(min_std=f)))
        want = rwant("MuStd", [rows[k % 5] for k in key], f)
        ctx.eq(tbl[("t", "mu")].values.astype(float), [w[0] for w in want], "means", tol, tol)
        ctx.eq(tbl[("t", "std")].values.astype(float), [w[1] for w in want], "standard deviations", tol, tol)
        check_calls(ctx, dict(t=1), Xtr, ya, Xte)
        return
    rows = tuple((0.0, -float(i)) if i % 2 else (-float(i), 0.0) for i in range(5)) if "int" in t else tuple(lrow(p) for p in gen.pattern_probs(5, 2, 5))
    if t in ("float16", "float32") and any(v == -INF for r in rows for v in r):
        rows = tuple(tuple(max(v, -9.0) for v in r) for r in rows)
    f = ch.pick("floor", [None, -2.0])
    tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, 2, {"t": Typed("t", rows, (t, how))}, **({} if f is None else dict(min_log_prob=f)))
    ctx.eq(tbl["t"].values.astype(float), [floored(rows[k % 5], f) for k in key], "predictions", tol, tol)
    check_calls(ctx, dict(t=1), Xtr, ytr, Xte)


MIXED = [("float64", "float32"), ("float32", "float64"), ("float64", "float16"), ("int64", "int8"), ("int8", "int64"), ("int16", "int32"), ("uint8", "uint64")]


def mixed(ch, ctx):
    """Training and test features of different widths: each is handed on as it is."""
    tr, te = ch.pick("train, test type", MIXED)
    regr = ch.flag("regression")
    nt = ch.pick("points", [1, 5, 300])
    ndim = ch.pick("ndim", [2, 3]) if not regr else 2
    Xtr, ytr, Xte = data(nt, n_train=6)
    Xtr = (np.abs(Xtr) * 3).astype(tr)
    fine = np.arange(nt) % 7
    Xte = np.stack([fine, 60 + fine], axis=1).astype(te)
    if Xte.dtype.kind == "f":
        Xte[:, 1] += np.array(1 / 3.0, dtype=te)
    elif Xte.dtype.itemsize > 2:
        Xte[:, 1] += 100000 * (1 + np.arange(nt, dtype=te) % 3)
    if ndim == 3:
        Xtr, Xte = np.stack([Xtr] * 3, axis=2), np.stack([Xte] * 3, axis=2)
    stubs.reset()
    if regr:
        rows = tuple((float(3 * i - 7), float(i % 3 + 1)) for i in range(7))
        k = ch.pick("kind", ["MuStd", "MuOnly"])
        tbl = ctx.call(rg.get_gauss_pred, Xtr, ytr + 0.5, Xte, {"t": RK[k]("t", rows)})
        rjudge(ctx, tbl, dict(t=rwant(k, [rows[j] for j in fine], None)), nt)
        check_calls(ctx, dict(t=1), Xtr, ytr + 0.5, Xte)
    else:
        rows = tuple(lrow(p) for p in gen.pattern_probs(7, 2, 5))
        tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, 2, {"t": KINDS[ch.pick("kind", ["LogProba", "Proba", "Both"])]("t", rows)})
        sub = tbl["t"]
        ctx.check(len(sub) == nt, "one row per test point", len(sub), nt)
        check_calls(ctx, dict(t=1), Xtr, ytr, Xte)


def very_large(ch, ctx):
    nt = ch.pick("n", [1023, 4096, 5001])
    regr = ch.flag("regression")
    f = ch.pick("floor", [None, 1.0])
    Xtr, ytr, Xte = data(nt, n_train=2000)
    Xte = Xte[::-1].copy()
    stubs.reset()
    if regr:
        rows = [(v, abs(v) % 3) for v in gen.pattern_floats(nt, 1)]
        tbl = ctx.call(rg.get_gauss_pred, Xtr, ytr * 1.5, Xte, {"b": stubs.MuStd("b", tuple(rows)), "a": stubs.MuOnly("a", tuple(rows))}, **({} if f is None else dict(min_std=f)))
        rjudge(ctx, tbl, dict(b=rwant("MuStd", rows[::-1], f), a=rwant("MuOnly", rows[::-1], f)), nt)
    else:
        rows = [lrow(p) for p in gen.pattern_probs(nt, 3, 1)]
        tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, 3, {"b": stubs.LogProba("b", tuple(rows)), "a": stubs.Proba("a", tuple(rows[::-1]))}, **({} if f is None else dict(min_log_prob=-f)))
        fl = lambda rr: [floored(r, None if f is None else -f) for r in rr]
        judge(ctx, tbl, dict(b=fl(rows[::-1]), a=fl(rows)), 3, nt)


# -- regression ---------------------------------------------------------------
RK = dict(MuStd=stubs.MuStd, MuOnly=stubs.MuOnly, MuInt=stubs.MuInt)


def rwant(kind, rows, f):
    f = 0.0 if f is None else f
    if kind == "MuStd":
        return [[m, max(f, s) if s == s else s] for m, s in rows]
    if kind == "MuOnly":
        return [[m, max(f, 1.0)] for m, s in rows]
    return [[float(int(m)), max(f, 1.0)] for m, s in rows]


def rjudge(ctx, tbl, want, nt):
    ctx.check(len(tbl) == nt and tbl.shape[1] == 2 * len(want), "shape", tbl.shape)
    for m, w in want.items():
        ctx.eq(tbl[(m, "mu")].values, [r[0] for r in w], "mean of %s" % m, 1e-12, 1e-12)
        ctx.eq(tbl[(m, "std")].values, [r[1] for r in w], "standard deviation of %s" % m, 1e-12, 1e-12)


def regress(nm, nt, mus, stds, floors):
    def body(ch, ctx):
        names = ["b", "a"][:nm]
        rows, models, want = {}, {}, {}
        f = ch.pick("floor", floors)
        for n in names:
            k = ch.pick("kind of %s" % n, list(RK))
            rows = [(ch.pick("mu", mus), ch.pick("std", stds)) for _ in range(nt)]
            models[n] = RK[k](n, tuple(rows))
            want[n] = rwant(k, rows, f)
        Xtr, _, Xte = data(nt)
        ytr = np.array([0.5, -2.0, 1e3, 4.0])
        stubs.reset()
        kw = {} if f is None else dict(min_std=f)
        tbl = ctx.call(rg.get_gauss_pred, Xtr, ytr, Xte, models, **kw)
        ctx.state(sorted((n, type(m).__name__, m.rows) for n, m in models.items()), f)
        rjudge(ctx, tbl, want, nt)
        check_calls(ctx, {n: 1 for n in names}, Xtr, ytr, Xte)

    return body


def rmixes(ch, ctx):
    names = ch.pick("names", NAMES)
    kinds = [ch.pick("kind of %s" % n, list(RK)) for n in names]
    nt, order = ch.pick("test points", [(1, 1), (4, -1), (100, 1)])
    f = ch.pick("floor", [None, 0.5, 2.0])
    var = ch.pick("data", ["plain", "int", "int targets", "verbose"])
    Xtr, _, Xte = data(nt, 2, 5, 2, int if var == "int" else float, order)
    ytr = np.array([5, -2, 7, 1, 0]) if var == "int targets" else np.array([0.5, -2.0, 1e3, 4.0, 0.0])
    models, want = {}, {}
    for j, (n, k) in enumerate(zip(names, kinds)):
        rows = [(v, abs(v) % 3) for v in gen.pattern_floats(7, j)]
        models[n] = RK[k](n, tuple(rows))
        want[n] = rwant(k, [rows[int(v) % 7] for v in Xte[:, 0]], f)
    stubs.reset()
    with contextlib.redirect_stdout(io.StringIO()):
        kw = {} if f is None else dict(min_std=f)
        if var == "verbose":
            kw["verbose"] = True
        tbl = ctx.call(rg.get_gauss_pred, Xtr, ytr, Xte, models, **kw)
    rjudge(ctx, tbl, want, nt)
    check_calls(ctx, {n: 1 for n in names}, Xtr, ytr, Xte)


def missing(ch, ctx):
    """A NaN reported by a model is never turned into a prediction."""
    prob = ch.pick("problem", ["class", "regr"])
    nt = ch.pick("n", [1, 3])
    at = ch.pick("row", list(range(nt)))
    f = ch.pick("floor", [None, 0.5, 2.0])
    Xtr, ytr, Xte = data(nt)
    stubs.reset()
    if prob == "regr":
        rows = [(0.25 * i, 0.5 + i) for i in range(nt)]
        rows[at] = ch.pick("entry", [(INF - INF, 1.0), (1.0, INF - INF), (INF - INF, INF - INF)])
        tbl = ctx.call(rg.get_gauss_pred, Xtr, ytr * 1.5, Xte, {"b": stubs.MuStd("b", tuple(rows)), "a": stubs.MuOnly("a", tuple(rows))}, **({} if f is None else dict(min_std=f)))
        rjudge(ctx, tbl, dict(b=rwant("MuStd", rows, f), a=rwant("MuOnly", rows, f)), nt)
        return
    j = ch.pick("label", [0, 1])
    kind = ch.pick("kind", ["LogProba", "Shared"])
    rows = [list(lrow((0.25, 0.75))) for _ in range(nt)]
    rows[at][j] = INF - INF
    tbl = ctx.call(cl.get_pred_log_prob, Xtr, ytr, Xte, 2, {"m": KINDS[kind]("m", tuple(map(tuple, rows)))}, **({} if f is None else dict(min_log_prob=-f)))
    v = tbl["m"].values
    ctx.check(v[at, j] != v[at, j], "a NaN prediction stays NaN", v)
    for i in range(nt):
        if i != at:
            ctx.eq(v[i], floored(rows[i], None if f is None else -f), "other rows", 1e-9, 1e-9)


# -- baselines ------------------------------------------------------------------


def noise_class(maxn):
    def body(ch, ctx):
        K = ch.pick("labels", [1, 2, 3])
        n = ch.pick("n", list(range(1, maxn[K] + 1)))
        y = ch.vec("y", n, list(range(K)))
        pc = ch.pick("pseudo count", [None, 0.0, 1.0, 0.5])
        dt = ch.pick("dtype", ["int64", "bool", "int8"]) if K == 2 else "int64"
        via = ch.pick("via", ["object", "table"])
        nt = ch.pick("n_test", [1, 3])
        kw = {}
        if K != 2 or n % 2:
            kw["n_labels"] = K
        if pc is not None:
            kw["pseudo_count"] = pc
        c = pc or 0.0
        w = [(y.count(k) + c) / (n + K * c) for k in range(K)]
        want = [lrow(w)] * nt
        X, Xt, ya = np.arange(2.0 * n).reshape(n, 2), np.arange(2.0 * nt).reshape(nt, 2), np.array(y).astype(dt)
        m = ctx.call(cl.JustNoise, **kw)
        if via == "object":
            ctx.call(m.fit, X, ya)
            got = ctx.call(m.predict_log_proba, Xt)
        else:
            got = ctx.call(cl.get_pred_log_prob, X, ya, Xt, K, {"noise": m, "o": stubs.LogProba("o", ((0.0,) * K,))})["noise"].values
        ctx.state(K, y, pc, dt, via, nt)
        ctx.eq(got, want, "class frequencies", 1e-12, 1e-12)

    return body


def noise_regr(ch, ctx):
    n = ch.pick("n", [2, 3, 4])
    y = ch.vec("y", n, [-1.0, 0.0, 2.5])
    dt = ch.pick("dtype", ["float", "int"])
    via = ch.pick("via", ["object", "table"])
    nt = ch.pick("n_test", [1, 3])
    if dt == "int":
        y = [int(2 * v) for v in y]
    mu = math.fsum(y) / n
    sd = math.sqrt(math.fsum((v - mu) ** 2 for v in y) / n)
    X, Xt, ya = np.arange(2.0 * n).reshape(n, 2), np.arange(2.0 * nt).reshape(nt, 2), np.array(y)
    m = ctx.call(rg.JustNoise)
    if via == "object":
        ctx.call(m.fit, X, ya)
        a, b = ctx.call(m.predict, Xt, return_std=True)
    else:
        t = ctx.call(rg.get_gauss_pred, X, ya, Xt, {"n": m})
        a, b = t[("n", "mu")].values, t[("n", "std")].values
    ctx.eq(a, [mu] * nt, "training mean", 1e-12, 1e-12)
    ctx.eq(b, [sd] * nt, "training standard deviation", 1e-12, 1e-12)


def refit(ch, ctx):
    """A baseline fitted again forgets the first fit."""
    y1 = ch.vec("a", 3, [0, 1])
    y2 = ch.vec("b", 2, [0, 1])
    X = np.zeros((1, 1))
    m = ctx.call(cl.JustNoise, 2, 1.0)
    for y in (y1, y2):
        ctx.call(m.fit, np.zeros((len(y), 1)), np.array(y))
        ctx.eq(ctx.call(m.predict_log_proba, X), [lrow([(y.count(k) + 1.0) / (len(y) + 2.0) for k in (0, 1)])], "frequencies of the last fit")
    r = ctx.call(rg.JustNoise)
    for y in (y1, y2):
        ya = np.array(y, dtype=float)
        ctx.call(r.fit, np.zeros((len(y), 1)), ya)
        a, b = ctx.call(r.predict, X)
        ctx.eq([a[0], b[0]], [np.mean(ya), np.sqrt(np.mean((ya - np.mean(ya)) ** 2))], "moments of the last fit")


def sk(ch, ctx):
    from sklearn.gaussian_process import GaussianProcessRegressor
    from sklearn.linear_model import BayesianRidge, LinearRegression, LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.svm import SVC

    n = 24
    X = np.array([[((i * 7) % 11) / 3.0, ((i * 5) % 13) / 4.0] for i in range(n)])
    Xt = np.array([[i / 2.0, 3 - i / 3.0] for i in range(5)])
    K = ch.pick("labels", [2, 3])
    y = np.array([(i + i // 5) % K for i in range(n)])
    f = ch.pick("floor", [-INF, -0.7])
    mk = lambda: {"svc": SVC(probability=True, random_state=0), "lr": LogisticRegression(), "nb": GaussianNB(), "knn": KNeighborsClassifier(3)}
    if ch.flag("regression"):
        mk = lambda: {"lin": LinearRegression(), "br": BayesianRidge(), "gp": GaussianProcessRegressor(random_state=0)}
        yt = y * 1.5 + X[:, 0]
        got = ctx.call(rg.get_gauss_pred, X, yt, Xt, mk(), min_std=0.3)
        for k, m in mk().items():
            m.fit(X, yt)
            mu, s = (m.predict(Xt), np.ones(5)) if k == "lin" else m.predict(Xt, return_std=True)
            ctx.eq(got[(k, "mu")].values, mu, "mean of %s" % k, 1e-7, 1e-7)
            ctx.eq(got[(k, "std")].values, np.maximum(0.3, s), "std of %s" % k, 1e-7, 1e-7)
        return
    got = ctx.call(cl.get_pred_log_prob, X, y, Xt, K, mk(), min_log_prob=f)
    for k, m in mk().items():
        p = m.fit(X, y).predict_proba(Xt)
        want = [floored(lrow(r), f) for r in p]
        ctx.eq(got[k].values, want, "predictions of %s" % k, 1e-7, 1e-7)


def scenarios(tier):
    th = tier == "thorough"
    return [
        ("one model", one_model(8 if th else 4), 4),
        ("two models", two_models(4, 2) if th else two_models(4, 1), 4),
        ("two models, 2 points", two_models(3 if th else 2, 2), 5),
        ("model mixes", mixes, 5),
        ("same object twice", same_object, 3),
        ("sizes", sizes, 4),
        ("extreme log probabilities", extremes, 3),
        ("missing predictions", missing, 2),
        ("confusable names", confusable, 4),
        ("models that look alike", twins, 3),
        ("types and layouts", answers, 3),
        ("features of mixed width", mixed, 3),
        ("large data", very_large, 3),
        ("regression, one model", regress(1, 1, [0.0, -3.5, 1e3], [0.0, 0.25, 1.0, 7.0], [None, 0.0, 0.5, 3.0]), 3),
        ("regression, two models", regress(2, 1, [2.0, -3.5], [0.0, 0.25, 7.0], [0.0, 0.5]), 4),
        ("regression, mixes", rmixes, 4),
        ("baseline classifier", noise_class({1: 3, 2: 7, 3: 5} if th else {1: 2, 2: 5, 3: 3}), 4),
        ("baseline regressor", noise_regr, 4),
        ("baseline refit", refit, 3),
        ("sklearn models", sk, 2),
    ]

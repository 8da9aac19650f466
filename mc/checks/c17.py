"""C17 one-call benchmarks = their documented pieces, for every option set."""
import math

import numpy as np
import pandas as pd

from mlpaper import classification as cl
from mlpaper import mlpaper as mp
from mlpaper import perf_curves as pc
from mlpaper import regression as rg

from mc import gen, stubs, subsets
from mc.core import fresh
from mc.env import Script, pattern_rows

INF = float("inf")
BOUNDS = {
    "quick": "classification: 3 model sets x every reference x {omitted, explicit} floors, intervals, error-bar methods, limits x loss/curve sets x label dtype "
    "under scripted resamples; regression: the full product of its options over 3 model sets, 2 data sets; unusual model sets (certain and wrong to e-10000, names differing in case or blanks, empty, eleven models, identical models), label/target types and 2-400 test points; real sklearn models under 3 seeds; limits with equal ends; the tables summarised directly with other row labels; one name for a loss and a curve",
    "thorough": "full product for classification as well",
}
ASSUMPTIONS = ["bootstrap draws are scripted (same resamples for the one call and the pieces), so the order of draws is not judged; t and Bernstein runs use the real random state"]
STATS = ("mean", "error", "p")
LOSS = dict(NLL=cl.log_loss, Brier=cl.brier_loss, sphere=cl.spherical_loss, zero_one=cl.hard_loss)
CURVE = dict(AUC=pc.roc_curve, AP=pc.recall_precision_curve, AUPRG=pc.prg_curve)


def frames(ctx, got, want, what):
    ctx.check(isinstance(got, pd.DataFrame), what + ": a table", type(got))
    ctx.check(list(got.index) == list(want.index), what + ": rows", list(got.index), list(want.index))
    ctx.check(list(got.columns) == list(want.columns), what + ": columns", list(got.columns), list(want.columns))
    ctx.eq(got.values, want.values, what, 1e-9, 1e-10)


def dumps(ctx, got, want, what):
    ctx.check(set(got) == set(want), what + ": curves", sorted(map(str, got)), sorted(map(str, want)))
    for k in want:
        ctx.eq(got[k].values, want[k].values, "%s: curve %s" % (what, k), 1e-9, 1e-10)


def check_cols(ctx, tbl, losses, curves):
    """All loss columns first, then all curve columns, (mean, error, p) each."""
    c = list(tbl.columns)
    ok = sorted(c) == sorted((m, s) for m in losses + curves for s in STATS)
    ok = ok and {m for m, _ in c[: 3 * len(losses)]} == set(losses)
    ok = ok and all([s for _, s in c[3 * i : 3 * i + 3]] == list(STATS) and len({m for m, _ in c[3 * i : 3 * i + 3]}) == 1 for i in range(len(c) // 3))
    ctx.check(ok, "loss metrics first, then curve metrics", c, (losses, curves))


def problem(seed, n=9, K=2):
    X = np.array([[((i * 7 + seed) % 11) / 3.0, ((i * 5 + seed) % 13) / 4.0] for i in range(12)])
    Xt = np.array([[float(i), ((i * 3 + seed) % 7) / 2.0] for i in range(n)])
    y = np.array([(i + i // 5) % K for i in range(12)])
    yt = np.array([(i * i + i // 3 + seed) % K for i in range(n)])
    return X, y, Xt, yt


def model_set(which):
    rows = lambda s: tuple(tuple(math.log(v) if v > 0 else -INF for v in p) for p in gen.pattern_probs(9, 2, s))
    inner = lambda s: tuple(tuple(math.log(0.02 + 0.96 * v / sum(p)) for v in p) for p in [(q[0] + 0.01, q[1] + 0.01) for q in gen.pattern_probs(9, 2, s)])
    S = {
        "two": lambda: {"zed": stubs.LogProba("zed", inner(1)), "iid": cl.JustNoise()},
        "three": lambda: {"10": stubs.Proba("10", inner(4)), "9": stubs.LogProba("9", inner(7)), "iid": cl.JustNoise(2, 1.0)},
        "zeros": lambda: {"b": stubs.LogProba("b", rows(2)), "a": stubs.LogProba("a", inner(3))},
        "one": lambda: {"only": stubs.LogProba("only", inner(2))},
        "extreme": lambda: {"sure": stubs.LogProba("sure", tuple((-float(e), 0.0) if i % 2 else (0.0, -float(e)) for i, e in enumerate((800, 750, 3, 1e4, 900, 50, 1, 700, 2e3)))), "iid": cl.JustNoise()},
        "case": lambda: {"m": stubs.LogProba("m", inner(1)), "M": stubs.LogProba("M", inner(5)), "m ": stubs.Proba("m ", inner(8)), "iid": cl.JustNoise()},
        "falsy": lambda: {"": stubs.LogProba("", inner(1)), "0": stubs.LogProba("0", inner(5)), "nan": cl.JustNoise()},
        "eleven": lambda: dict([("m%d" % i, stubs.LogProba("m%d" % i, inner(i))) for i in range(11)], iid=cl.JustNoise()),
        "twins": lambda: {"p": stubs.LogProba("p", inner(1)), "q": stubs.LogProba("q", inner(1)), "iid": cl.JustNoise()},
    }
    return S[which]()


CASES = ["floor", "pairwise", "method", "limits"]


def unusual(ch, ctx):
    """Unusual model sets, label types and test-set sizes against the pieces."""
    ms = ch.pick("models", ["extreme", "case", "falsy", "eleven", "twins", "two"])
    ref = ch.pick("ref", sorted(model_set(ms))[:4])
    dt = ch.pick("labels", ["int8", "int16", "int64", "bool"])
    n = ch.pick("test points", [9, 2, 45, 130])
    if ms == "eleven" and (n > 9 or dt != "int64") or n == 130 and (dt == "int16" or ms not in ("two", "extreme")):
        return
    method, pw, floor = ch.pick("options", [(None, None, None), ("boot", True, -740.0), ("bernstein", None, -5.0)])
    seed = 1
    X, y, Xt, yt = problem(seed, n)
    yt[:2] = [1, 0]
    y, yt = y.astype(dt), yt.astype(dt)
    ld, cd = dict(LOSS), {"AUC": pc.roc_curve}
    limits = {"zero_one": (0.0, 1.0), "NLL": (0.0, 1e5)}
    kw = {}
    for k, v in (("min_pred_log_prob", floor), ("pairwise_CI", pw), ("method_EB", method)):
        if v is not None:
            kw[k] = v
    if method == "bernstein":
        ld, kw["limits"] = {k: LOSS[k] for k in ("zero_one", "NLL")}, limits
    lim = kw.get("limits", {})
    rows = pattern_rows(n, 1000, seed)

    def scripted(f, *a, **k):
        np.random.seed(3)
        with Script(rows=rows, repeat=True):
            return ctx.call(f, *a, **k)

    tbl, dump = scripted(cl.just_benchmark, X, y, Xt, yt, 2, model_set(ms), ld, cd, ref, **kw)
    pred = scripted(cl.get_pred_log_prob, X, y, Xt, 2, model_set(ms), min_log_prob=-INF if floor is None else floor)
    opts = dict(pairwise_CI=bool(pw), confidence=0.95)
    ls = scripted(mp.loss_summary_table, scripted(cl.loss_table, pred, yt, ld), ref, method_EB=method or "t", limits=lim, **opts)
    cs, cdump = scripted(cl.curve_summary_table, pred, yt, cd, ref, n_boot=1000, **opts)
    ctx.state(ms, ref, dt, n, method)
    check_cols(ctx, tbl, tuple(ld), tuple(cd))
    ctx.check(sorted(tbl.index) == sorted(model_set(ms)), "one row per method", list(tbl.index))
    for m in tbl.index:
        for k in ld:
            ctx.eq([tbl.loc[m, (k, s)] for s in STATS], [ls.loc[m, (k, s)] for s in STATS], "loss summary (%s, %s)" % (m, k), 1e-9, 1e-10)
        for k in cd:
            ctx.eq([tbl.loc[m, (k, s)] for s in STATS], [cs.loc[m, (k, s)] for s in STATS], "curve summary (%s, %s)" % (m, k), 1e-9, 1e-10)
    dumps(ctx, dump, cdump, "curves")
    if ms == "extreme" and floor is None:
        r = [(-float(e), 0.0) if i % 2 else (0.0, -float(e)) for i, e in enumerate((800, 750, 3, 1e4, 900, 50, 1, 700, 2e3))]
        lse = [math.log1p(math.exp(min(a, b))) for a, b in r]
        want = math.fsum(lse[i % 9] - r[i % 9][int(yt[i])] for i in range(n)) / n
        ctx.eq(tbl.loc["sure", ("NLL", "mean")], want, "mean log loss of the sure model", 1e-9, 1e-9)


def classify(full):
    def body(ch, ctx):
        ms = ch.pick("models", ["two", "three", "zeros", "one"])
        ref = ch.pick("ref", sorted(model_set(ms)))
        losses = ch.pick("losses", [("NLL", "zero_one"), ("zero_one", "Brier", "sphere", "NLL")])
        curves = ch.pick("curves", [("AUC",), ("AP", "AUC"), ("AUPRG", "AUC")] if full else [("AP", "AUC")] if len(losses) == 2 and ms != "three" else [("AUC",)])
        dt = ch.pick("labels", ["int", "bool"])
        method = ch.pick("method_EB", [None, "t", "boot", "bernstein"])
        if full:
            floor, pw, lim = ch.pick("floor", [None, -0.5]), ch.pick("pairwise", [None, True, False]), ch.pick("limits", [None, "zero_one", "two"])
        else:
            floor, pw, lim = ch.pick("other options", [(None, None, None), (-0.5, True, "zero_one"), (-3.0, None, "zero_one"), (None, True, None), (-0.5, False, "two")])
        seed = 0 if ms == "two" else 1
        X, y, Xt, yt = problem(seed)
        if dt == "bool":
            y, yt = y.astype(bool), yt.astype(bool)
        kw, limits = {}, {}
        if floor is not None:
            kw["min_pred_log_prob"] = floor
        if pw is not None:
            kw["pairwise_CI"] = pw
        if method is not None:
            kw["method_EB"] = method
        if lim is not None:
            limits = {"zero_one": (0.0, 1.0)}
            if lim == "two":
                limits = {"zero_one": (-0.5, 1.0), "NLL": (0.0, 50.0)}
            kw["limits"] = limits
        ld, cd = {k: LOSS[k] for k in losses}, {k: CURVE[k] for k in curves}
        rows = pattern_rows(9, 1000, seed)

        def scripted(f, *a, **k):
            np.random.seed(3)
            with Script(rows=rows, repeat=True) as s:
                return ctx.call(f, *a, **k)

        if ms == "zeros" and floor is None:
            return  # curves need finite scores (documented): zero probabilities need a floor
        got = scripted(cl.just_benchmark, X, y, Xt, yt, 2, model_set(ms), ld, cd, ref, **kw)
        ctx.check(isinstance(got, tuple) and len(got) == 2, "benchmark returns (table, curves)", type(got))
        tbl, dump = got
        pred = scripted(cl.get_pred_log_prob, X, y, Xt, 2, model_set(ms), min_log_prob=-INF if floor is None else floor)
        opts = dict(pairwise_CI=bool(pw), confidence=0.95)
        lt = scripted(cl.loss_table, pred, yt, ld)
        ls = scripted(mp.loss_summary_table, lt, ref, method_EB=method or "t", limits=limits, **opts)
        cs, cdump = scripted(cl.curve_summary_table, pred, yt, cd, ref, n_boot=1000, **opts)
        ctx.state(ms, ref, losses, curves, dt, method, floor, pw, lim)
        check_cols(ctx, tbl, losses, curves)
        ctx.check(sorted(tbl.index) == sorted(model_set(ms)), "one row per method", list(tbl.index))
        for m in tbl.index:
            for k in losses:
                ctx.eq([tbl.loc[m, (k, s)] for s in STATS], [ls.loc[m, (k, s)] for s in STATS], "loss summary (%s, %s)" % (m, k), 1e-9, 1e-10)
            for k in curves:
                ctx.eq([tbl.loc[m, (k, s)] for s in STATS], [cs.loc[m, (k, s)] for s in STATS], "curve summary (%s, %s)" % (m, k), 1e-9, 1e-10)
        dumps(ctx, dump, cdump, "curves")
        if dt == "bool":
            other = scripted(cl.just_benchmark, X, y.astype(int), Xt, yt.astype(int), 2, model_set(ms), ld, cd, ref, **kw)
            frames(ctx, tbl, other[0], "boolean against integer labels")

    return body


def summary(ch, ctx):
    """summary_table with all its own options against the two summaries."""
    ref = ch.pick("ref", ["zed", "iid"])
    method = ch.pick("method_EB", [None, "boot", "bernstein"])
    conf = ch.pick("confidence", [None, 0.5, 0.9])
    nb = ch.pick("n_boot", [None, 7])
    grid = ch.pick("grid", [None, (0.0, 0.25, 0.8)])
    pw = ch.pick("pairwise", [None, True])
    lim = ch.pick("limits", [None, (0.0, 1.0)])
    X, y, Xt, yt = problem(0)
    pred = cl.get_pred_log_prob(X, y, Xt, 2, model_set("two"))
    rows = pattern_rows(9, 1000 if nb is None else 7, 2)
    if nb is not None and method == "boot":
        rows = pattern_rows(9, 1, 2)
    kl, kc = {}, {}
    if conf is not None:
        kl["confidence"] = kc["confidence"] = conf
    if pw is not None:
        kl["pairwise_CI"] = kc["pairwise_CI"] = pw
    if method is not None:
        kl["method_EB"] = method
    if lim is not None:
        kl["limits"] = {"zero_one": lim}
    if nb is not None:
        kc["n_boot"] = nb
    if grid is not None:
        kc["x_grid"] = np.array(grid)

    def scripted(f, *a, **k):
        np.random.seed(3)
        with Script(rows=rows, repeat=True):
            return ctx.call(f, *a, **k)

    ld, cd = dict(zero_one=cl.hard_loss, NLL=cl.log_loss), dict(AP=pc.recall_precision_curve)
    tbl, dump = scripted(cl.summary_table, pred, yt, ld, cd, ref, **dict(kl, **kc))
    lt = scripted(cl.loss_table, pred, yt, ld)
    ls = scripted(mp.loss_summary_table, lt, ref, **kl)
    cs, cd2 = scripted(cl.curve_summary_table, pred, yt, cd, ref, **kc)
    ctx.check(list(tbl.columns) == list(ls.columns) + list(cs.columns), "losses first, then curves", list(tbl.columns))
    for m in ("zed", "iid"):
        ctx.eq(list(tbl.loc[m].values), list(ls.loc[m].values) + list(cs.loc[m].values), "summary of %s" % m, 1e-9, 1e-10)
    dumps(ctx, dump, cd2, "curves")


def rmodels(which):
    f = lambda s: tuple((v, abs(v) % 2 + 0.25) for v in gen.pattern_floats(9, s))
    return {
        "two": lambda: {"zed": stubs.MuStd("zed", f(0)), "iid": rg.JustNoise()},
        "three": lambda: {"10": stubs.MuOnly("10", f(2)), "9": stubs.MuStd("9", f(1)), "a": rg.JustNoise()},
        "one": lambda: {"only": stubs.MuStd("only", f(3))},
        "case": lambda: {"m": stubs.MuStd("m", f(1)), "M": stubs.MuStd("M", f(4)), "m ": stubs.MuOnly("m ", f(2)), "": rg.JustNoise()},
        "extreme": lambda: {"sure": stubs.MuStd("sure", tuple((v, 1e-7 * (1 + abs(v))) for v, _ in f(1))), "far": stubs.MuStd("far", tuple((v + 1e6, 1e5) for v, _ in f(1))), "iid": rg.JustNoise()},
        "eleven": lambda: dict([("m%d" % i, stubs.MuStd("m%d" % i, f(i))) for i in range(11)], iid=rg.JustNoise()),
        "ints": lambda: {"i": stubs.MuInt("i", f(1)), "s": stubs.MuStd("s", f(2))},
    }[which]()


def runusual(ch, ctx):
    ms = ch.pick("models", ["case", "extreme", "eleven", "ints", "two"])
    ref = ch.pick("ref", sorted(rmodels(ms))[:4])
    dt = ch.pick("targets", ["float64", "float32", "int64", "int8", "uint8"])
    n = ch.pick("test points", [9, 2, 45, 400])
    method, pw, floor = ch.pick("options", [(None, None, None), ("boot", True, 0.5), ("bernstein", None, None)])
    if n == 400 and (ms not in ("two", "extreme") or dt in ("int64", "float32")) or ms == "eleven" and dt != "int8":
        return
    X, y, Xt, yt = problem(1, n)
    y, yt = y * 70.0 + np.floor(X[:, 0]), yt * 100.0 + np.floor(Xt[:, 1])
    if "int" not in dt:
        y, yt = y + 0.25, yt - 0.375
    y, yt = y.astype(dt), yt.astype(dt)
    kw = {}
    for k, v in (("min_std", floor), ("pairwise_CI", pw), ("method_EB", method)):
        if v is not None:
            kw[k] = v
    ld = dict(RLOSS)
    if method == "bernstein":
        ld, kw["limits"] = {"MSE": rg.square_loss}, {"MSE": (0.0, 1e15)}
    rows = pattern_rows(n, 1000, 1)

    def scripted(f, *a, **k):
        np.random.seed(3)
        with Script(rows=rows, repeat=True):
            return ctx.call(f, *a, **k)

    tbl = scripted(rg.just_benchmark, X, y, Xt, yt, rmodels(ms), ld, ref, **kw)
    pred = scripted(rg.get_gauss_pred, X, y, Xt, rmodels(ms), min_std=floor or 0.0)
    lt = scripted(rg.loss_table, pred, yt, ld)
    ls = scripted(mp.loss_summary_table, lt, ref, pairwise_CI=bool(pw), confidence=0.95, method_EB=method or "t", limits=kw.get("limits", {}))
    ctx.state(ms, ref, dt, n, method)
    ctx.check(sorted(tbl.index) == sorted(rmodels(ms)), "one row per method", list(tbl.index))
    check_cols(ctx, tbl, tuple(ld), ())
    for m in tbl.index:
        ctx.eq(list(tbl.loc[m].values), list(ls.loc[m].values), "loss summary of %s" % m, 1e-9, 1e-10)


RLOSS = dict(NLL=rg.log_loss, MSE=rg.square_loss, MAE=rg.abs_loss)


def regress(ch, ctx):
    ms = ch.pick("models", ["two", "three", "one"])
    ref = ch.pick("ref", sorted(rmodels(ms)))
    losses = ch.pick("losses", [("NLL", "MSE", "MAE"), ("MAE",), ("MSE", "NLL")])
    floor = ch.pick("min_std", [None, 0.0, 1.5])
    pw = ch.pick("pairwise", [None, True, False])
    method = ch.pick("method_EB", [None, "t", "boot", "bernstein"])
    lim = ch.pick("limits", [None, {}, {"MAE": (0.0, 200.0)}, {"MSE": (-1.0, 9e4), "MAE": (0.0, 500.0)}])
    seed = ch.pick("data", [0, 1])
    X, y, Xt, yt = problem(seed)
    y, yt = y * 2.5 + X[:, 0], yt * 3.0 - Xt[:, 1]
    kw = {}
    for k, v in (("min_std", floor), ("pairwise_CI", pw), ("method_EB", method), ("limits", lim)):
        if v is not None:
            kw[k] = v
    ld = {k: RLOSS[k] for k in losses}
    rows = pattern_rows(9, 1000, seed)

    def scripted(f, *a, **k):
        np.random.seed(3)
        if method == "boot":
            with Script(rows=rows, repeat=True):
                return ctx.call(f, *a, **k)
        return ctx.call(f, *a, **k)

    tbl = scripted(rg.just_benchmark, X, y, Xt, yt, rmodels(ms), ld, ref, **kw)
    pred = scripted(rg.get_gauss_pred, X, y, Xt, rmodels(ms), min_std=floor or 0.0)
    lt = scripted(rg.loss_table, pred, yt, ld)
    ls = scripted(mp.loss_summary_table, lt, ref, pairwise_CI=bool(pw), confidence=0.95, method_EB=method or "t", limits=lim or {})
    ctx.state(ms, ref, losses, floor, pw, method, lim, seed)
    ctx.check(sorted(tbl.index) == sorted(rmodels(ms)), "one row per method", list(tbl.index))
    check_cols(ctx, tbl, losses, ())
    for m in tbl.index:
        ctx.eq(list(tbl.loc[m].values), list(ls.loc[m].values), "loss summary of %s" % m, 1e-9, 1e-10)


EDGES = [-INF, -1e3, 0.0, 0.25, 1.0, 60.0, 1e4, INF]


def limits(ch, ctx):
    """Limits of every kind (open, half-open, violated, of metrics that are not
    there): the one call accepts, rejects and answers as its pieces do."""
    kind = ch.pick("problem", ["classification", "summary_table", "regression"])
    E = EDGES if kind != "classification" or ctx.thorough else [-INF, 0.0, 0.25, 1.0, INF]
    lo = ch.pick("lower", E)
    hi = ch.pick("upper", [e for e in E if e >= lo] or [INF])
    if lo == INF:
        return
    metric = ch.pick("metric", ["zero_one", "NLL", "AUC"] if kind != "regression" else ["MAE", "NLL", "other"])
    method = ch.pick("method_EB", ["t", "bernstein"])
    pw = ch.flag("pairwise")
    lim = {metric: (lo, hi)}
    if ch.flag("second"):
        lim["MSE" if kind == "regression" else "Brier"] = (-INF, 1e5)
    X, y, Xt, yt = problem(1)
    kw = dict(pairwise_CI=pw, method_EB=method)
    boot = lambda f, *a, **k: (np.random.seed(3), ctx.attempt(f, *a, **k))[1]
    if kind == "regression":
        y, yt = y * 2.5 + X[:, 0], yt * 3.0 - Xt[:, 1]
        lt = ctx.call(rg.loss_table, rg.get_gauss_pred(X, y, Xt, rmodels("two")), yt, RLOSS)
        ok, got = boot(rg.just_benchmark, X, y, Xt, yt, rmodels("two"), RLOSS, "zed", limits=fresh(lim), **kw)
    else:
        pred = cl.get_pred_log_prob(X, y, Xt, 2, model_set("two"))
        lt = ctx.call(cl.loss_table, pred, yt, LOSS)
        if kind == "classification":
            ok, got = boot(cl.just_benchmark, X, y, Xt, yt, 2, model_set("two"), LOSS, {"AUC": pc.roc_curve}, "zed", limits=fresh(lim), **kw)
        else:
            ok, got = boot(cl.summary_table, pred, yt, LOSS, {"AUC": pc.roc_curve}, "zed", limits=fresh(lim), n_boot=5, **kw)
        got = got[0].drop(columns="AUC", level=0) if ok else got
    wok, want = boot(mp.loss_summary_table, lt, "zed", limits=lim, **kw)
    ctx.check(ok == wok, "the one call %s what its pieces %s" % (("accepts", "reject") if ok else ("rejects", "accept")), got, want)
    ctx.state(kind, lo, hi, metric, method, pw)
    if ok:
        frames(ctx, got, want, "limits %s" % (lim,))
    ctx.compared += 1


TNAMES = [["z", "a", "m"], [2, 0, 1], [0.5, -1.5, 2.0], [1, "1", "a"], ["9", "10", ""]]


def table_forms(ch, ctx):
    """summary_table on tables that get_pred_log_prob would not make: not
    normalized, other indices, names that are not strings, other sizes."""
    ms = ch.pick("names", TNAMES)
    n = ch.pick("rows", [2, 3, 20])
    idx = ch.pick("index", list(gen.INDEXES) if n == 3 else ["range"])
    ref = ch.pick("reference", [0, 1, 2])
    form = ch.pick("scores", ["plain", "one offset", "row offsets", "ties", "float32"])
    pw, method, conf = ((False, "t", 0.95), (True, "bernstein", 0.6))[(ref + len(form)) % 2]
    order = n == 3 and ch.flag("columns swapped")
    cols = pd.MultiIndex.from_product([ms, range(2)], names=["method", "label"])
    v = np.concatenate([np.array([[math.log(0.05 + 0.9 * p[0]), math.log(0.95 - 0.9 * p[0])] for p in gen.pattern_probs(n, 2, 2 * j + 1)]) for j in range(3)], axis=1)
    if form == "one offset":
        v = v + 2.5
    elif form == "row offsets":
        v = v + np.array([(-1.0) ** i * i / 3.0 for i in range(n)])[:, None]
    elif form == "ties":
        v = np.round(v)
    elif form == "float32":
        v = v.astype(np.float32)
    t = pd.DataFrame(v, columns=cols, index=gen.INDEXES[idx](n))
    if order:
        t = t[[cols[i] for i in (4, 0, 2, 1, 5, 3)]]
    yt = np.array([(i * i + i // 3) % 2 for i in range(n)])
    ld, cd = {k: LOSS[k] for k in ("zero_one", "NLL")}, {"AUC": pc.roc_curve, "AP": pc.recall_precision_curve}
    lim = {"zero_one": (0.0, 1.0), "NLL": (-50.0, 50.0)}
    rows = pattern_rows(n, 5, 1)

    def scripted(f, *a, **k):
        with Script(rows=rows, repeat=True):
            return ctx.call(f, *a, **k)

    kw = dict(pairwise_CI=pw, confidence=conf)
    tbl, dump = scripted(cl.summary_table, t, yt, ld, cd, ms[ref], n_boot=5, method_EB=method, limits=fresh(lim), **kw)
    ls = scripted(mp.loss_summary_table, scripted(cl.loss_table, t, yt, ld), ms[ref], method_EB=method, limits=lim, **kw)
    cs, cdump = scripted(cl.curve_summary_table, t, yt, cd, ms[ref], n_boot=5, **kw)
    ctx.check(list(tbl.columns) == list(ls.columns) + list(cs.columns), "losses first, then curves", list(tbl.columns))
    ctx.check(len(tbl.index) == 3 and set(tbl.index) == set(ms), "one row per method", list(tbl.index))
    for m in ms:
        ctx.eq(list(tbl.loc[m].values), list(ls.loc[m].values) + list(cs.loc[m].values), "summary of %s" % m, 1e-9, 1e-10)
    dumps(ctx, dump, cdump, "curves")
    ctx.state(ms, idx, n, ref, form, method, order)


def same_name(ch, ctx):
    """A loss and a curve of one name: both are reported, the loss first."""
    names = ch.pick("curves", [("NLL",), ("AUC", "zero_one"), ("zero_one", "NLL")])
    ref = ch.pick("ref", ["zed", "iid"])
    pw = ch.flag("pairwise")
    whole = ch.flag("benchmark")
    X, y, Xt, yt = problem(0)
    ld = {k: LOSS[k] for k in ("NLL", "zero_one")}
    cd = {k: pc.roc_curve if i == 0 else pc.recall_precision_curve for i, k in enumerate(names)}
    pred = cl.get_pred_log_prob(X, y, Xt, 2, model_set("two"))
    rows = pattern_rows(9, 1000, 0)

    def scripted(f, *a, **k):
        np.random.seed(3)
        with Script(rows=rows, repeat=True):
            return ctx.call(f, *a, **k)

    if whole:
        tbl, dump = scripted(cl.just_benchmark, X, y, Xt, yt, 2, model_set("two"), ld, cd, ref, pairwise_CI=pw)
    else:
        tbl, dump = scripted(cl.summary_table, pred, yt, ld, cd, ref, pairwise_CI=pw)
    ls = scripted(mp.loss_summary_table, scripted(cl.loss_table, pred, yt, ld), ref, pairwise_CI=pw)
    cs, cdump = scripted(cl.curve_summary_table, pred, yt, cd, ref, pairwise_CI=pw)
    ctx.check(list(tbl.columns) == list(ls.columns) + list(cs.columns), "losses first, then curves", list(tbl.columns))
    v = tbl.values
    for i, m in enumerate(tbl.index):
        ctx.eq(v[i], list(ls.loc[m].values) + list(cs.loc[m].values), "summary of %s" % m, 1e-9, 1e-10)
    dumps(ctx, dump, cdump, "curves")


def real(ch, ctx):
    from sklearn.linear_model import BayesianRidge, LinearRegression, LogisticRegression
    from sklearn.naive_bayes import GaussianNB

    seed = ch.pick("seed", [0, 1, 2])
    kind = ch.pick("problem", ["classification", "regression"])
    method = ch.pick("method", ["t", "bernstein"])
    n = ch.pick("test points", [20, 60])
    X, y, Xt, yt = problem(seed, n)
    if kind == "classification":
        mk = lambda: {"nb": GaussianNB(), "lr": LogisticRegression(), "iid": cl.JustNoise()}
        lim = {"zero_one": (0.0, 1.0)}
        np.random.seed(seed)
        tbl, dump = ctx.call(cl.just_benchmark, X, y, Xt, yt, 2, mk(), cl.STD_CLASS_LOSS, cl.STD_BINARY_CURVES, "iid", -20.0, False, method, lim)
        np.random.seed(seed)
        pred = cl.get_pred_log_prob(X, y, Xt, 2, mk(), min_log_prob=-20.0)
        t2, d2 = ctx.call(cl.summary_table, pred, yt, cl.STD_CLASS_LOSS, cl.STD_BINARY_CURVES, "iid", method_EB=method, limits=lim)
        frames(ctx, tbl, t2, "real models, seed %d" % seed)
        dumps(ctx, dump, d2, "real models")
    else:
        mk = lambda: {"lin": LinearRegression(), "br": BayesianRidge(), "iid": rg.JustNoise()}
        y, yt = y * 2.0 + X[:, 0], yt + Xt[:, 1]
        tbl = ctx.call(rg.just_benchmark, X, y, Xt, yt, mk(), rg.STD_REGR_LOSS, "iid", method_EB=method, limits={"MAE": (0.0, 100.0)})
        pred = rg.get_gauss_pred(X, y, Xt, mk())
        t2 = ctx.call(mp.loss_summary_table, rg.loss_table(pred, yt, rg.STD_REGR_LOSS), "iid", method_EB=method, limits={"MAE": (0.0, 100.0)})
        frames(ctx, tbl, t2, "real models")


def _wide():
    cols = pd.MultiIndex.from_product([["d", "b", "c"], range(2)], names=["method", "label"])
    v = [[math.log(0.05 + 0.9 * p[0]), math.log(0.95 - 0.9 * p[0])] for j in range(3) for p in gen.pattern_probs(6, 2, 2 * j + 1)]
    return pd.DataFrame(np.concatenate([np.array(v[6 * j : 6 * j + 6]) for j in range(3)], axis=1), columns=cols)


def _on_subset(ctx, df, keep):
    n = len(df)
    with Script(rows=pattern_rows(n, 5, 0), repeat=True):
        return ctx.call(cl.summary_table, df, np.array([i % 3 == 0 for i in range(n)]), LOSS, dict(AUC=pc.roc_curve), "c", n_boot=5)


subset = subsets.body({"three": (_wide, 0, ("c",))}, _on_subset)


def scenarios(tier):
    th = tier == "thorough"
    return [
        ("classification", classify(th), 5),
        ("summary_table options", summary, 4),
        ("regression", regress, 5),
        ("unusual inputs", unusual, 4),
        ("unusual inputs, regression", runusual, 4),
        ("limits", limits, 4),
        ("tables from elsewhere", table_forms, 4),
        ("a name for two metrics", same_name, 2),
        ("column subsets", subset, 3),
        ("real models", real, 4),
    ]

"""C10 loss_summary_table against the reference statistics."""
import itertools
import math

import numpy as np
import pandas as pd

from mlpaper import mlpaper as mp

from mc import ref_stats as rs
from mc import subsets
from mc.core import fresh
from mc.checks.c09 import refs
from mc.env import Script, pattern_rows
from mc.gen import INDEXES, pattern_floats

I, NaN = float("inf"), float("nan")
BOUNDS = {
    "quick": "all loss tables of 2 methods x 1 metric x 1-2 rows over {0,.25,1} (and 3 rows over {0,1}) x 3 methods of error bar x pairwise on/off x limits "
    "none/[0,1]/[-2,3]; all column orders of 2x2 tables; all reference choices, name sets and orders to 3x3; infinite losses; NaN / out-of-limit "
    "losses at every cell; constants at a limit; ladder to 1000 rows, 12 methods, 6 metrics; confusable names, eight column types, offsets to 1e8, large tables; metric and method names of mixed type (1 and \"1\"); named and repeated row labels; offsets and scales",
    "thorough": "3 rows over {0,.25,1}, 3 methods, all 720 column orders of 3x2 tables",
}
ASSUMPTIONS = ["bootstrap outcomes scripted cyclically (1000 replicates)", "two methods with an infinite loss on the same point are outside the domain (rejected loudly)"]


def make(losses, cols=None, index=None):
    cols = cols or list(losses)
    n = len(losses[cols[0]])
    return pd.DataFrame(
        np.array([losses[c] for c in cols], dtype=float).T,
        columns=pd.MultiIndex.from_tuples(cols, names=["metric", "method"]),
        index=range(n) if index is None else index,
    )


def run(ctx, losses, tbl, ref, pairwise, conf, meth, limits, rows, style=0, tol=1.0):
    metrics = sorted({c[0] for c in losses}, key=lambda v: (str(v), str(type(v))))
    methods = sorted({c[1] for c in losses}, key=lambda v: (str(v), str(type(v))))
    n = len(next(iter(losses.values())))
    limits = fresh(limits)
    kw = dict(pairwise_CI=pairwise, confidence=conf, method_EB=meth, limits=limits)
    if style == 1:
        call = lambda: ctx.call(mp.loss_summary_table, tbl, ref, pairwise, conf, meth, limits)
    else:
        call = lambda: ctx.call(mp.loss_summary_table, tbl, ref, **kw)
    if meth == "boot":
        with Script(rows=rows, repeat=True) as s:
            got = call()
        s.settled(must_draw=False)
    else:
        got = call()
    check_table(ctx, got, losses, metrics, methods, ref, pairwise, conf, meth, limits, rows, tol)
    return got


def check_table(ctx, got, losses, metrics, methods, ref, pairwise, conf, meth, limits, rows, tol=1.0):
    ctx.check(isinstance(got, pd.DataFrame), "DataFrame expected", type(got))
    ctx.check(len(got.index) == len(methods) and set(got.index) == set(methods), "one row per method", list(got.index), methods)
    want = set(itertools.product(metrics, ("mean", "error", "p")))
    ctx.check(len(got.columns) == len(want) and set(got.columns) == want, "(mean, error, p) per metric", list(got.columns))
    ctx.check(list(got.columns.names) == ["metric", "stat"] and got.index.name == "method", "level names", list(got.columns.names))
    for metric in metrics:
        lo, hi = limits.get(metric, (-I, I))
        R = hi - lo
        xr = losses[(metric, ref)]
        for m in methods:
            x = [float(v) for v in losses[(metric, m)]]
            sc = max([1.0] + [abs(v) for v in x if not math.isinf(v)])
            mu, EB, p = [float(got.loc[m, (metric, s)]) for s in ("mean", "error", "p")]
            wmu = rs.mean(x)
            ctx.eq(mu, wmu, "(%s, %s) mean" % (m, metric), 1e-9 * tol, 1e-12 * sc * tol)
            d = [a - b for a, b in zip(x, xr)]
            if m == ref:
                ctx.check(math.isnan(p), "p-value of the reference must be NaN", p)
            else:
                _, wp = refs(d, -R, R, conf, meth, rows)
                ctx.eq(p, wp, "(%s, %s) p-value of the paired differences" % (m, metric), 1e-7 * tol, 1e-9 * tol)
            if pairwise and m == ref:
                ctx.check(math.isnan(EB), "pairwise error bar of the reference must be NaN", EB)
                continue
            if pairwise:
                e, _ = refs(d, -R, R, conf, meth, rows)
                md = rs.mean(d)
                w = [rs.clip_EB(min(max(md, -R), R) if not math.isnan(md) else md, v, -R, R) for v in e]
            else:
                e, _ = refs(x, lo, hi, conf, meth, rows)
                w = [rs.clip_EB(min(max(wmu, lo), hi) if not math.isnan(wmu) else wmu, v, lo, hi) for v in e]
            ctx.check(rs.near(EB, w, 1e-8 * tol, 1e-10 * sc * tol), "(%s, %s) error bar" % (m, metric), EB, w)
            ctx.compared += 1


LIM = [{}, {"L": (0.0, 1.0)}, {"L": (-2.0, 3.0), "other": (5.0, 6.0)}]


def small(shapes):
    def body(ch, ctx):
        K, n, alpha = ch.pick("methods,rows,alphabet", shapes)
        meth = ch.pick("method_EB", ["t", "bernstein", "boot"])
        pair = ch.flag("pairwise")
        limits = ch.pick("limits", LIM)
        conf = ch.pick("confidence", [0.95, 0.5] if meth != "boot" else [0.5])
        ms = ["a", "b", "c"][:K]
        losses = {("L", m): ch.vec("loss " + m, n, alpha) for m in ms}
        rows = pattern_rows(n, 1000, 1)
        run(ctx, losses, make(losses), ms[0], pair, conf, meth, limits, rows)

    return body


def orders(K):
    def body(ch, ctx):
        """Every order of the columns (also interleaved), every reference."""
        ms, mt = ["b", "a", "c"][:K], ["y", "x"]
        cols = ch.perm("columns", [(t, m) for t in mt for m in ms])
        ref = ch.pick("reference", ms)
        pair = ch.flag("pairwise")
        meth = ch.pick("method_EB", ["t", "bernstein"])
        n = 5
        losses = {}
        for k, c in enumerate(sorted(cols)):
            losses[c] = [((i * 3 + k * 2 + i * k) % 9) / 8.0 for i in range(n)]
        run(ctx, losses, make(losses, cols), ref, pair, 0.9, meth, {"x": (0.0, 1.0), "y": (-1.0, 4.0)}, None)

    return body


def names(ch, ctx):
    K = ch.pick("methods", [1, 2, 3])
    M = ch.pick("metrics", [1, 2, 3])
    ms = ch.perm("method order", ["mean", "Ref", "10"][:K])
    mt = ch.perm("metric order", ["error", "p", "a_b"][:M])
    ref = ch.pick("reference", ms)
    pair = ch.flag("pairwise")
    which = ch.pick("limited metric", mt + ["none"])
    idx = ch.pick("index", ["range", "dup", "str", "date", "named dup"])
    n = 4
    losses = {}
    for t in mt:
        for m in ms:
            k = 2 * sorted(ms).index(m) + 3 * sorted(mt).index(t)
            losses[(t, m)] = [((i * 5 + k + i * k) % 7) / 8.0 for i in range(n)]
    limits = {which: (0.0, 1.0)} if which != "none" else {}
    run(ctx, losses, make(losses, None, INDEXES[idx](n)), ref, pair, 0.95, "bernstein" if which != "none" else "t", limits, None)


def defaults(ch, ctx):
    n = ch.pick("n", [1, 2, 4, 9])
    losses = {("L", "a"): pattern_floats(n, 0), ("L", "b"): pattern_floats(n, 5), ("L", "c"): pattern_floats(n, 6)}
    style = ch.pick("style", ["defaults", "positional"])
    ref = ch.pick("ref", ["a", "b", "c"])
    if style == "positional":
        pair = ch.flag("pairwise")
        run(ctx, losses, make(losses), ref, pair, 0.8, "bernstein", {"L": (-20.0, 20.0)}, None, 1)
        return
    got = ctx.call(mp.loss_summary_table, make(losses), ref)
    check_table(ctx, got, losses, ["L"], ["a", "b", "c"], ref, False, 0.95, "t", {}, None)


def infinite(ch, ctx):
    """Infinite losses of one method: infinite mean and bar, p = 1."""
    n = ch.pick("n", [1, 2, 3])
    x = ch.vec("loss", n, [0.5, 1.0, I])
    who = ch.pick("who", ["ref", "other"])
    pair = ch.flag("pairwise")
    meth = ch.pick("method_EB", ["t", "bernstein", "boot"])
    lim = ch.pick("limits", [{}, {"L": (0.0, I)}])
    fin = [0.25 * (i + 1) for i in range(n)]
    losses = {("L", "r"): x if who == "ref" else fin, ("L", "o"): fin if who == "ref" else x}
    run(ctx, losses, make(losses), "r", pair, 0.9, meth, lim, pattern_rows(n, 1000, 0))


def rejections(ch, ctx):
    K = ch.pick("methods", [1, 2, 3])
    n = ch.pick("rows", [1, 3])
    M = ch.pick("metrics", [1, 2])
    what = ch.pick("fault", ["nan", "above", "below", "barely"])
    pair = ch.flag("pairwise")
    meth = ch.pick("method_EB", ["t", "bernstein"])
    ms, mt = ["b", "a", "c"][:K], ["u", "v"][:M]
    losses = {(t, m): [0.5] * n for t in mt for m in ms}
    c = ch.pick("cell", list(losses))
    i = ch.pick("row", list(range(n)))
    losses[c][i] = dict(nan=NaN, above=1.5, below=-0.5, barely=np.nextafter(1.0, 2.0))[what]
    lim = {c[0]: (0.0, 1.0)} if what != "nan" or ch.flag("with limits") else {}
    ctx.rejects("loss %s at %s" % (what, c), mp.loss_summary_table, make(losses), "b", pairwise_CI=pair, method_EB=meth, limits=lim)


def at_limit(ch, ctx):
    n = ch.pick("n", [1, 2, 3, 5, 6, 7, 10, 11, 100, 1000])
    c = ch.pick("c", [0.1, 0.3, 0.7, 1.1, 1e-3])
    side = ch.pick("side", ["upper", "lower"])
    pair = ch.flag("pairwise")
    meth = ch.pick("method_EB", ["t", "bernstein"])
    losses = {("L", "r"): [c] * n, ("L", "o"): [c] * n}
    lim = {"L": (c - 1, c) if side == "upper" else (c, c + 1)}
    run(ctx, losses, make(losses), "r", pair, 0.95, meth, lim, None)


def ladder(ch, ctx):
    n = ch.pick("n", [1, 2, 10, 64, 257, 1000])
    K = ch.pick("methods", [1, 2, 5, 12])
    M = ch.pick("metrics", [1, 3, 6])
    meth = ch.pick("method_EB", ["t", "bernstein"])
    pair = ch.flag("pairwise")
    lim = ch.flag("limits")
    ms = ["m%d" % ((7 * i) % 13) for i in range(K)]
    mt = ["k%d" % ((5 * i) % 11) for i in range(M)]
    losses = {(t, m): [v * (1 + a) + b for v in pattern_floats(n, 3 * a + b)] for a, t in enumerate(mt) for b, m in enumerate(ms)}
    limits = {t: (-60.0 * (1 + a), 60.0 * (1 + a)) for a, t in enumerate(mt) if a % 2 == 0} if lim else {}
    run(ctx, losses, make(losses, None, INDEXES["dup"](n)), ms[K // 2], pair, 0.95, meth, limits, None)


def ladder_boot(ch, ctx):
    n = ch.pick("n", [2, 5, 40])
    K = ch.pick("methods", [1, 3])
    pair = ch.flag("pairwise")
    salt = ch.pick("rows", [0, 3])
    conf = ch.pick("confidence", [0.95, 0.75])
    ms = ["m2", "m10", "a"][:K]
    losses = {("k", m): [((i * 5 + b * 3 + i * b) % 8) / 8.0 for i in range(n)] for b, m in enumerate(ms)}
    run(ctx, losses, make(losses), ms[0], pair, conf, "boot", {"k": (0.0, 1.0)}, pattern_rows(n, 1000, salt))


NAMES = [["L", "l", "LL"], ["", "a", "a "], ["p", "mean", "error"], ["a", "ab", "b"], ["x_1", "x_10", "x_2"], ["naïve", "naive", "é"], ["metric", "method", "stat"]]


def name_pairs(ch, ctx):
    """Names that differ in case, by a prefix, by a blank, or look like labels
    of the result: metrics and methods stay apart."""
    mt = ch.pick("metric names", NAMES)
    ms = ch.pick("method names", NAMES if ctx.thorough else NAMES[:3])
    which = ch.pick("limited metric", [0, 1, 2])
    ref = ch.pick("reference", [0, 1, 2])
    pair = ch.flag("pairwise")
    n = 5
    losses = {}
    for a, t in enumerate(mt):
        for b, m in enumerate(ms):
            losses[(t, m)] = [((i * 5 + 3 * a + 2 * b + i * b + a * i * i) % 9) / 8.0 - a * 0.5 for i in range(n)]
    run(ctx, losses, make(losses), ms[ref], pair, 0.9, "bernstein" if ch.flag("bernstein") else "t", {mt[which]: (-1.25, 1.25)}, None)


LABELS = [[0, 1, 2], [2, 0, 1], [10, 9, 1], [-1, 0, 1], [0.5, 1.5, -2.0], [("a", 1), ("a", 2), ("b", 1)], [pd.Timestamp("2020-01-02"), pd.Timestamp("2020-01-01"), pd.Timestamp("2019-01-01")]]


def name_kinds(ch, ctx):
    """Methods and metrics that are not named by strings."""
    ms = ch.pick("method names", LABELS[:5] + LABELS[6:] + [["a", "b", "c"], [1, "1", "1.0"], ["0", 0, "None"]])
    mt = ch.pick("metric names", LABELS[:5] + [["L", "M", "N"], [1, "1", "01"]])
    which = ch.pick("limited metric", [0, 1, 2])
    ref = ch.pick("reference", [0, 1, 2])
    pair = ch.flag("pairwise")
    idx = ch.pick("index", ["range", "named", "named dup"])
    n = 5
    losses = {}
    for a, t in enumerate(mt):
        for b, m in enumerate(ms):
            losses[(t, m)] = [((i * 5 + 3 * a + 2 * b + i * b + a * i * i) % 9) / 8.0 - a * 0.5 for i in range(n)]
    run(ctx, losses, make(losses, None, INDEXES[idx](n)), ms[ref], pair, 0.9, "t" if which == 2 else "bernstein", {mt[which]: (-1.25, 1.25)}, None)


KINDS = ["float64", "float32", "int64", "int8", "uint8"]


def column_types(ch, ctx):
    """Columns of different numeric types in one table."""
    kinds = [ch.pick("type %d" % k, KINDS) for k in range(2)]
    order = ch.flag("swapped")
    meth = ch.pick("method_EB", ["t", "bernstein"])
    pair = ch.flag("pairwise")
    lim = ch.pick("limits", [{}, {"L": (0.0, 256.0)}])
    base = [[0, 1, 1, 0, 1, 1], [1, 0, 1, 1, 0, 0]]
    if "bool" not in kinds and "int8" not in kinds:
        base = [[0, 200, 17, 255, 3, 100], [1, 100, 255, 0, 7, 30]]
    elif "bool" not in kinds:
        base = [[0, 127, 17, 120, 3, 100], [1, 100, 127, 0, 7, 30]]
    cols = {}
    for k, m in enumerate(["a", "b"]):
        v = np.array(base[k], dtype=kinds[k])
        if kinds[k].startswith("float"):
            v = v + np.array(0.25, dtype=kinds[k]) * (np.arange(6) % 2 == 0)
            v = np.minimum(v.astype(kinds[k]), np.array(255.5, dtype=kinds[k]))
        cols[("L", m)] = v
    keys = list(cols)[::-1] if order else list(cols)
    tbl = pd.DataFrame({c: cols[c] for c in keys})
    tbl.columns = pd.MultiIndex.from_tuples(keys, names=["metric", "method"])
    losses = {c: [float(x) for x in cols[c]] for c in cols}
    # single precision throughout is computed in single precision
    run(ctx, losses, tbl, ch.pick("ref", ["a", "b"]), pair, 0.95, meth, lim, None, tol=1e4 if "float32" in kinds else 1.0)


def large(ch, ctx):
    n = ch.pick("n", [1001, 4097, 40000])
    meth = ch.pick("method_EB", ["t", "bernstein"])
    pair = ch.flag("pairwise")
    idx = ch.pick("index", ["range", "named dup"])
    K = ch.pick("methods", [2, 3])
    losses = {("k", m): [((i * 37 + b * 11 + (i // 7) * b) % 101) / 100.0 for i in range(n)] for b, m in enumerate(["m2", "m10", "a"][:K])}
    run(ctx, losses, make(losses, None, INDEXES[idx](n)), "m2", pair, 0.95, meth, {"k": (0.0, 1.0)}, None)


def offsets(ch, ctx):
    """Losses far from zero or of very different scale per method."""
    off = ch.pick("offset", [0.0, 1e3, 1e6, -1e6])
    sc = ch.pick("scale", [1e-3, 1.0, 1e3])
    meth = ch.pick("method_EB", ["t", "bernstein"])
    pair = ch.flag("pairwise")
    n = ch.pick("n", [2, 6])
    losses = {("k", m): [off + sc * (((i * 5 + b * 3 + i * b) % 8) / 8.0) for i in range(n)] for b, m in enumerate(["r", "s"])}
    run(ctx, losses, make(losses), "r", pair, 0.95, meth, {"k": (off - sc, off + 2 * sc)}, None)


def _wide(lev):
    def make():
        cols = pd.MultiIndex.from_product([["c", "a", "b"], ["q", "r", "p"]], names=["metric", "method"])
        return pd.DataFrame(np.array([np.abs(pattern_floats(5, j)) for j in range(9)]).T, columns=cols)

    return make


subset = subsets.body(
    {"metrics": (_wide(0), 0, ()), "methods": (_wide(1), 1, ("r",))},
    lambda ctx, df, keep: [ctx.call(mp.loss_summary_table, df, "r", limits={"a": (-1.0, 99.0)}, **k) for k in ({}, dict(pairwise_CI=True))],
)


def scenarios(tier):
    th = tier == "thorough"
    q = [(2, 1, [0.0, 0.25, 1.0]), (2, 2, [0.0, 0.25, 1.0]), (2, 3, [0.0, 1.0]), (1, 2, [0.0, 1.0])]
    t = [(2, 1, [0.0, 0.25, 1.0]), (2, 2, [0.0, 0.25, 1.0]), (2, 3, [0.0, 0.25, 1.0]), (3, 2, [0.0, 0.25, 1.0]), (1, 3, [0.0, 0.25, 1.0])]
    return [
        ("names that are not strings", name_kinds, 3),
        ("small tables", small(t if th else q), 5),
        ("column orders", orders(3 if th else 2), 4),
        ("names and references", names, 5),
        ("defaults and positional", defaults, 2),
        ("infinite losses", infinite, 4),
        ("rejections", rejections, 4),
        ("constant at a limit", at_limit, 3),
        ("size ladder", ladder, 4),
        ("bootstrap ladder", ladder_boot, 3),
        ("confusable names", name_pairs, 3),
        ("column types", column_types, 3),
        ("large tables", large, 3),
        ("column subsets", subset, 3),
        ("offsets and scales", offsets, 3),
    ]

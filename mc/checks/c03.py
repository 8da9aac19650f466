"""C03 classification loss_table: normalization, placement, rejection."""
import itertools
import math

import numpy as np
import pandas as pd

from mlpaper import classification as cl

from mc import subsets
from mc.checks.c01 import ref
from mc.gen import INDEXES, labels_as, logp, pattern_labels, pattern_probs, simplex

BOUNDS = {
    "quick": "1-2 methods x 1-3 labels x 1-2 rows over all denominator-2 distributions x row offsets {-3,0,800,-1e4} x 7 row indices; all "
    "method/metric name sets and orders up to 3; every assignment of 4 masses to the rows of 2-3 row tables; every interleaving of the method columns; NaN at every cell, every wrong label-column layout; ladder to 20000 rows, 1000 labels, 40 methods; label and score types; 6x6 sets of confusable names; offsets of 1e-5 and less; named and repeated row labels",
    "thorough": "as quick with denominator 4, 3 rows and 4 methods in all orders",
}
ASSUMPTIONS = ["method columns form a full method x label product (as the function's documentation requires)"]

METRICS = {"NLL": cl.log_loss, "Brier": cl.brier_loss, "sphere": cl.spherical_loss, "zero_one": cl.hard_loss}


def build(meths, L, data, index):
    """data: dict method -> (N, L) log scores."""
    cols = pd.MultiIndex.from_product([meths, range(L)], names=["method", "label"])
    vals = np.concatenate([data[m] for m in meths], axis=1)
    return pd.DataFrame(vals, index=index, columns=cols)


def norm_rows(lp):
    """Reference normalization: log softmax, row by row, plain Python."""
    out = []
    for row in lp:
        m = max(row)
        s = m + math.log(sum(math.exp(v - m) for v in row if v > -np.inf))
        out.append([v - s for v in row])
    return np.array(out)


def expect(metric, yl, lp):
    n = norm_rows(lp)
    if metric == "zero_one":
        out = []
        for yi, row in zip(yl, n):
            top = max(row)
            w = [j for j, v in enumerate(row) if v >= top - 1e-9]
            out.append(None if len(w) > 1 and yi in w else (0.0 if yi in w else 1.0))
        return out
    return ref({"NLL": "log", "Brier": "brier", "sphere": "spherical"}[metric], yl, n, True)


def verify(ctx, tbl, data, meths, L, yl, index, mnames, metrics):
    ctx.check(isinstance(tbl, pd.DataFrame), "loss_table must return a DataFrame", type(tbl))
    ctx.check(list(tbl.index) == list(index), "row index must be that of the predictions", list(tbl.index), list(index))
    ctx.check(list(tbl.index.names) == list(getattr(index, "names", [None])), "row index must be that of the predictions", tbl.index.names)
    want = set(itertools.product(mnames, meths))
    got = list(tbl.columns)
    ctx.check(len(got) == len(want) and set(got) == want, "every metric x method pair exactly once", got, sorted(want))
    ctx.check(list(tbl.columns.names) == ["metric", "method"], "column level names", list(tbl.columns.names))
    for metric in mnames:
        for m in meths:
            v = tbl[(metric, m)].values
            w = expect(metrics[metric], yl, data[m])
            if metrics[metric] == "zero_one":
                for i, wi in enumerate(w):
                    if wi is not None and float(v[i]) != wi:
                        ctx.fail("cell (%s, %s) row %d is not the 0-1 loss of that method" % (metric, m, i), v, w)
            else:
                ctx.eq(v, w, "cell (%s, %s) is not that metric of that method's normalized predictions" % (metric, m), 1e-8, 1e-8)


def small(den, maxrows):
    def body(ch, ctx):
        K = ch.pick("methods", [1, 2])
        L = ch.pick("labels", [1, 2, 3])
        N = ch.pick("rows", list(range(1, maxrows + 1)))
        if K == 2 and N > 1 and L == 3:
            return
        wide = K * N * L <= 4
        idx = ch.pick("index", list(INDEXES) if wide else ["reversed", "dup"])
        index = INDEXES[idx](N)
        meths = ["a", "b"][:K]
        off = ch.pick("offsets", [(0.0, 0.0), (-3.0, 800.0), (-1e4, 2.5), (0.7, -1e4)][: 4 if wide else 3])
        data = {}
        for m in meths:
            rows = [ch.pick("p %s%d" % (m, i), simplex(den, L)) for i in range(N)]
            o = np.array([off[(i + (m == "b")) % 2] for i in range(N)])
            data[m] = logp(rows) + o[:, None]
        yl = ch.vec("y", N, list(range(L)))
        y = labels_as(yl, "bool" if L == 2 and off[0] == 0.7 else "int64")
        tbl = build(meths, L, data, index)
        got = ctx.call(cl.loss_table, tbl, y, dict(METRICS))
        verify(ctx, got, data, meths, L, yl, index, list(METRICS), {k: k for k in METRICS})

    return body


def mixed_rows(ch, ctx):
    """Rows with different total mass in one table: each is normalized on its own."""
    K = ch.pick("methods", [1, 2])
    L = ch.pick("labels", [2, 3])
    N = ch.pick("rows", [2, 3])
    meths = ["a", "b"][:K]
    offs = ch.pick("kind", [[0.0, -0.4, 1.1, -900.0], [0.0, 5e-5, -1e-3, -2e-6]])
    data = {}
    P = simplex(4, L)
    for k, m in enumerate(meths):
        o = ch.vec("offset %s" % m, N, offs if K == 1 else offs[:3])
        p = [P[(5 * i + 3 * k + 1) % len(P)] for i in range(N)]
        data[m] = logp(p) + np.array(o)[:, None]
    yl = [(i * 2 + 1) % L for i in range(N)]
    index = INDEXES[ch.pick("index", ["range", "reversed"])](N)
    md = ch.pick("metrics", [list(METRICS), ["NLL"]])
    got = ctx.call(cl.loss_table, build(meths, L, data, index), np.array(yl), {k: METRICS[k] for k in md})
    verify(ctx, got, data, meths, L, yl, index, md, {k: k for k in md})


def interleaved(ch, ctx):
    """Columns of the methods interleaved in every way that keeps each method's labels in order."""
    K, L = ch.pick("size", [(2, 2), (2, 3), (3, 2)])
    meths = ["b", "a", "c"][:K]
    left = {m: list(range(L)) for m in meths}
    cols = []
    while any(left.values()):
        m = ch.pick("next", [m for m in meths if left[m]])
        cols.append((m, left[m].pop(0)))
    data = {m: logp(pattern_probs(3, L, 2 * i + 1)) + 0.25 * i for i, m in enumerate(meths)}
    yl = [0, L - 1, 1]
    t = build(meths, L, data, INDEXES["range"](3))[cols]
    if ch.flag("rebuilt"):  # level order as a frame built from those tuples has it
        t = pd.DataFrame(t.values, columns=pd.MultiIndex.from_tuples(cols, names=["method", "label"]))
    got = ctx.call(cl.loss_table, t, np.array(yl), dict(METRICS))
    verify(ctx, got, data, meths, L, yl, range(3), list(METRICS), {k: k for k in METRICS})


NAMES = ["b", "a", "Z", "mean", "p", "1", "method", "NLL"]


def naming(maxk):
    def body(ch, ctx):
        K = ch.pick("methods", list(range(1, maxk + 1)))
        meths = ch.perm("order", ["b", "a", "Z", "NLL"][:K])
        off = ch.pick("rename", [0, 1, 2])
        meths = [{0: m, 1: "m_%s x" % m, 2: {"b": "10", "a": "9", "Z": "1", "NLL": "2"}[m]}[off] for m in meths]
        nm = ch.pick("nmetrics", [1, 2, 3])
        keys = ch.perm("metric order", ["sphere", "NLL", "Brier"][:nm])
        alias = ch.pick("metric names", ["own", "swapped", "odd"])
        real = dict(zip(keys, keys))
        if alias == "swapped":  # a metric named like another one, or like a method
            names = {k: keys[(i + 1) % len(keys)] for i, k in enumerate(keys)}
        elif alias == "odd":
            names = {k: ["a", "mean", "z_1"][i] for i, k in enumerate(keys)}
        else:
            names = {k: k for k in keys}
        md = {names[k]: METRICS[k] for k in keys}
        real = {names[k]: k for k in keys}
        L, N = 3, 3
        data = {m: logp(pattern_probs(N, L, 3 * i + 1)) * 0.5 + i for i, m in enumerate(sorted(meths))}
        yl = [2, 0, 1]
        index = INDEXES["offset"](N)
        got = ctx.call(cl.loss_table, build(meths, L, data, index), np.array(yl), md)
        verify(ctx, got, data, meths, L, yl, index, list(md), real)

    return body


def normalized_flag(ch, ctx):
    """assume_normalized only skips the normalization."""
    L = ch.pick("labels", [1, 2, 3])
    p = [ch.pick("p%d" % i, simplex(4, L)) for i in range(2)]
    yl = ch.vec("y", 2, list(range(L)))
    data = {"m": logp(p), "k": logp(p[::-1])}
    t = build(["m", "k"], L, data, INDEXES["range"](2))
    got = ctx.call(cl.loss_table, t, np.array(yl), dict(METRICS), assume_normalized=True)
    verify(ctx, got, data, ["m", "k"], L, yl, range(2), list(METRICS), {k: k for k in METRICS})


def no_cheating(ch, ctx):
    """Whatever positive mass a method claims, a row is scored as normalized."""
    L = ch.pick("labels", [1, 2, 3])
    lp = np.array([ch.vec("lp", L, [-2.0, 0.0, 5.0, 700.0, -800.0])])
    yl = [ch.pick("y", list(range(L)))]
    data = {"m": lp, "k": np.zeros((1, L))}
    got = ctx.call(cl.loss_table, build(["m", "k"], L, data, INDEXES["range"](1)), np.array(yl), dict(METRICS))
    verify(ctx, got, data, ["m", "k"], L, yl, range(1), list(METRICS), {k: k for k in METRICS})
    ctx.check(float(got[("NLL", "m")].values[0]) >= -1e-9, "a normalized prediction cannot have negative log loss", got)


def rejections(ch, ctx):
    K = ch.pick("methods", [1, 2, 3])
    L = ch.pick("labels", [1, 2, 3])
    N = ch.pick("rows", [1, 2, 3])
    meths = ["q", "c", "x"][:K]
    data = {m: logp([[1.0 / L] * L] * N) - i for i, m in enumerate(meths)}
    t = build(meths, L, data, INDEXES["range"](N))
    y = np.array([i % L for i in range(N)])
    norm = ch.flag("assume_normalized")
    md = {"NLL": cl.log_loss} if ch.flag("one metric") else dict(METRICS)
    what = ch.pick("fault", ["nan", "swap", "drop", "rename", "short", "long", "2d"])
    if what == "nan":
        i = ch.pick("row", list(range(N)))
        j = ch.pick("col", list(range(K * L)))
        if ch.flag("other cells -inf"):
            t.iloc[i, :] = [(-np.inf if c % L else 0.0) for c in range(K * L)]
        t.iloc[i, j] = np.nan
    elif what == "swap":  # labels of one method in the wrong order
        if L == 1:
            return
        k = ch.pick("which", list(range(K)))
        a, b = ch.pick("pair", list(itertools.combinations(range(L), 2)))
        order = list(range(K * L))
        order[k * L + a], order[k * L + b] = order[k * L + b], order[k * L + a]
        t = t.iloc[:, order]
    elif what == "drop":  # a label column of one method missing
        if L == 1 or K == 1:
            return
        c = ch.pick("col", list(range(K * L)))
        t = t.iloc[:, [i for i in range(K * L) if i != c]]
    elif what == "rename":  # labels not 0..L-1
        names = ch.pick("names", [list(range(1, L + 1)), ["l%d" % i for i in range(L)], list(range(L - 1)) + [L]])
        cols = pd.MultiIndex.from_product([meths, names], names=["method", "label"])
        t = pd.DataFrame(t.values, columns=cols)
    elif what == "short":
        y = y[:-1]
    elif what == "long":
        y = np.concatenate((y, [0]))
    elif what == "2d":
        y = y[:, None]
    ctx.rejects("a table with fault '%s'" % what, cl.loss_table, t, y, md, assume_normalized=norm)


def ladder(ch, ctx):
    N = ch.pick("N", [1, 5, 33, 300])
    L = ch.pick("L", [1, 2, 4, 10, 11, 12])
    K = ch.pick("K", [1, 2, 5, 12])
    idx = ch.pick("index", list(INDEXES))
    meths = ["m%d" % ((7 * i) % 13) for i in range(K)]  # unsorted, m10 < m2 as strings
    data = {m: logp(pattern_probs(N, L, i)) + (i - 2) * 1.5 for i, m in enumerate(meths)}
    yl = pattern_labels(N, L)
    index = INDEXES[idx](N)
    got = ctx.call(cl.loss_table, build(meths, L, data, index), np.array(yl), dict(METRICS))
    verify(ctx, got, data, meths, L, yl, index, list(METRICS), {k: k for k in METRICS})


PAIRS = [["L", "l", "LL"], ["", "a", "a "], ["label", "method", "metric"], ["a", "ab", "b"], ["x_1", "x_10", "x_2"], ["NLL", "Brier", "0"]]


def name_pairs(ch, ctx):
    """Names differing in case, by a blank or a prefix stay apart."""
    ms = ch.pick("method names", PAIRS)
    mt = ch.pick("metric names", PAIRS)
    order = ch.perm("method order", range(3))
    L, N = 2, 3
    data = {m: logp(pattern_probs(N, L, 3 * i + 1)) * 0.5 + i for i, m in enumerate(ms)}
    yl = [1, 0, 1]
    real = dict(zip(mt, ["sphere", "NLL", "Brier"]))
    got = ctx.call(cl.loss_table, build([ms[i] for i in order], L, data, range(N)), np.array(yl), {k: METRICS[v] for k, v in real.items()})
    verify(ctx, got, data, ms, L, yl, range(N), mt, real)


def types(ch, ctx):
    """Label types and float32 scores; one method single, the other double precision."""
    ty = ch.pick("labels", ["int64", "int32", "int8", "int16", "bool", "stride"])
    L = ch.pick("L", [2, 3, 100])
    N = ch.pick("N", [1, 4, 300])
    if ty == "bool" and L > 2:
        return
    f = ch.pick("scores", ["float64", "float32", "mixed"])
    off = ch.pick("offset", [0.0, -3.0])
    data = {m: logp(pattern_probs(N, L, i)) * 0.5 + off for i, m in enumerate(["b", "a"])}
    if f != "float64":
        data["b"] = data["b"].astype(np.float32)
    if f == "float32":
        data["a"] = data["a"].astype(np.float32)
    t = pd.concat([pd.DataFrame(data[m]) for m in ("b", "a")], axis=1)
    t.columns = pd.MultiIndex.from_product([["b", "a"], range(L)], names=["method", "label"])
    yl = pattern_labels(N, L)
    got = ctx.call(cl.loss_table, t, labels_as(yl, ty), {k: METRICS[k] for k in ("NLL", "Brier", "sphere")})
    for m in ("b", "a"):
        for k in ("NLL", "Brier", "sphere"):
            single = data[m].dtype == np.float32
            ctx.eq(got[(k, m)].values, expect(k, yl, np.asarray(data[m], dtype=float)), "cell (%s, %s)" % (k, m), 1e-4 if single else 1e-8, 2e-5 if single else 1e-8)


def large(ch, ctx):
    N, L, K = ch.pick("size", [(5000, 2, 2), (20000, 3, 1), (300, 300, 2), (2, 1000, 1), (10, 2, 40)])
    idx = ch.pick("index", ["range", "reversed", "dup"])
    meths = ["m%d" % ((7 * i) % 41) for i in range(K)]
    data = {m: logp(pattern_probs(N, L, i)) + (i - 2) * 1.5 for i, m in enumerate(meths)}
    yl = pattern_labels(N, L)
    index = INDEXES[idx](N)
    got = ctx.call(cl.loss_table, build(meths, L, data, index), np.array(yl), dict(METRICS))
    verify(ctx, got, data, meths, L, yl, index, list(METRICS), {k: k for k in METRICS})


def _wide(names, K):
    def make():
        cols = pd.MultiIndex.from_product([names, range(K)], names=["method", "label"])
        return pd.DataFrame(np.concatenate([logp(pattern_probs(4, K, 3 * j)) for j in range(len(names))], axis=1), columns=cols)

    return make


def _on_subset(ctx, df, keep):
    y = np.array(pattern_labels(len(df), df.shape[1] // len(keep)))
    return ctx.call(cl.loss_table, df, y, {"b": cl.log_loss, "a": cl.brier_loss, "c": cl.spherical_loss})


subset = subsets.body({"four": (_wide(["d", "b", "c", "a"], 2), 0, ()), "three": (_wide([3, 1, 2], 3), 0, ())}, _on_subset)


def scenarios(tier):
    th = tier == "thorough"
    return [
        ("small tables", small(4 if th else 2, 2), 5),
        ("mixed rows", mixed_rows, 4),
        ("interleaved columns", interleaved, 4),
        ("names and orders", naming(4 if th else 3), 4),
        ("assume_normalized", normalized_flag, 3),
        ("no cheating", no_cheating, 3),
        ("rejections", rejections, 5),
        ("size ladder", ladder, 4),
        ("confusable names", name_pairs, 3),
        ("numeric types", types, 3),
        ("large tables", large, 2),
        ("column subsets", subset, 3),
    ]

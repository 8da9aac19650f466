"""C04 regression losses and loss table."""
import itertools
import math

import numpy as np
import pandas as pd

from mlpaper import regression as rg

from mc import subsets
from mc.gen import INDEXES, array_as, pattern_floats

BOUNDS = {
    "quick": "all (y, mu, std) over 7 x 7 x 6 values; 19 scales from 1e-300 to 1e300; all 2-row tables over a 3x3x3 alphabet; all column orders of 2 methods, all method/metric "
    "orders to 3; an invalid value at every position of every argument; ladder to 70000 rows and 12 methods; every pair of 7 numeric types; 6x6 sets of confusable names; named and repeated row labels",
    "thorough": "as quick with 3-row tables, 9 x 9 x 8 values and all column orders of 3 methods (720)",
}
ASSUMPTIONS = ["losses that overflow or underflow double precision are outside the alphabet"]
METRICS = {"NLL": rg.log_loss, "MSE": rg.square_loss, "MAE": rg.abs_loss}
Y = [0.0, 1.0, -2.5, 1e-6, 3e5, -1e5, 0.1]
S = [1.0, 0.5, 1e-3, 7.0, 1e5, 0.1]


def ref(metric, y, mu, sd):
    out = []
    for a, b, s in zip(y, mu, sd):
        a, b, s = float(a), float(b), float(s)
        if metric == "MSE":
            out.append((a - b) * (a - b))
        elif metric == "MAE":
            out.append(abs(a - b))
        else:
            out.append(0.5 * math.log(2 * math.pi) + math.log(s) + 0.5 * ((a - b) / s) * ((a - b) / s))
    return np.array(out)


def losses(ctx, y, mu, sd, which=tuple(METRICS)):
    for m in which:
        f = METRICS[m]
        ctx.eq(ctx.call(f, y, mu, sd), ref(m, y, mu, sd), "%s differs from its definition" % m)


def points(th):
    def body(ch, ctx):
        y = ch.pick("y", Y + ([123.456, -1e-9] if th else []))
        mu = ch.pick("mu", Y + ([123.456, -1e-9] if th else []))
        sd = ch.pick("std", S + ([2.0, 1e-6] if th else []))
        losses(ctx, np.array([y]), np.array([mu]), np.array([sd]))

    return body


def extremes(ch, ctx):
    """Scales far from one, as long as the answer is a finite double."""
    e = ch.pick("scale", [-300, -200, -170, -150, -100, -30, -12, -8, -7, -6, -5, 5, 8, 30, 100, 150, 170, 200, 300])
    s = 10.0 ** e
    k = ch.pick("y", [0.0, 1.0, -3.0])
    d = ch.pick("residual", [0.0, 1.0, -2.5, 30.0])
    sd = ch.pick("std", [1.0, 0.125, 50.0]) * s
    N = ch.pick("rows", [1, 3])
    y = np.array([k * s] + [1.0] * (N - 1))
    mu = np.array([(k + d) * s] + [0.5] * (N - 1))
    sds = np.array([sd] + [2.0] * (N - 1))
    losses(ctx, y, mu, sds, [m for m in METRICS if m != "MSE" or abs(e) < 160])
    if ch.flag("table") and abs(e) < 160:
        data = {("b", "mu"): mu, ("b", "std"): sds, ("a", "mu"): mu[::-1].copy(), ("a", "std"): sds[::-1].copy()}
        ok = [m for m in METRICS if np.all(np.isfinite(ref(m, y, mu[::-1], sds[::-1])))]
        got = ctx.call(rg.loss_table, table(list(data), data, range(N)), y, {m: METRICS[m] for m in ok})
        verify(ctx, got, data, ["b", "a"], y, range(N), {m: m for m in ok})


def rows(N):
    def body(ch, ctx):
        y = ch.vec("y", N, [0.0, 1.0, -2.5])
        mu = ch.vec("mu", N, [0.0, 0.5, -3.0])
        sd = ch.vec("std", N, [1.0, 0.25, 4.0])
        lay = ch.pick("layout", ["C", "view", "int"])
        A = lambda a: array_as(a, lay) if lay != "int" else np.array(a)
        yy, mm = A(y), A(mu)
        if lay == "int":
            y, mu = [int(v) for v in y], [int(v) for v in mu]
            yy, mm = np.array(y), np.array(mu)
        losses(ctx, yy, mm, A(sd))

    return body


def table(cols, data, index):
    return pd.DataFrame(
        np.array([data[c] for c in cols]).T, index=index, columns=pd.MultiIndex.from_tuples(cols, names=["method", "moment"])
    )


def verify(ctx, tbl, data, meths, y, index, real):
    ctx.check(list(tbl.index) == list(index), "row index must be that of the predictions", list(tbl.index), list(index))
    ctx.check(list(tbl.index.names) == list(getattr(index, "names", [None])), "row index must be that of the predictions", tbl.index.names)
    want = set(itertools.product(real, meths))
    ctx.check(len(tbl.columns) == len(want) and set(tbl.columns) == want, "every metric x method pair exactly once", list(tbl.columns))
    for name, metric in real.items():
        for m in meths:
            ctx.eq(tbl[(name, m)].values, ref(metric, y, data[(m, "mu")], data[(m, "std")]), "cell (%s, %s)" % (name, m))


def col_orders(K):
    def body(ch, ctx):
        meths = ["b", "a", "std"][:K]
        base = [(m, k) for m in meths for k in ("mu", "std")]
        cols = ch.perm("columns", base)
        idx = ch.pick("index", list(INDEXES)) if K == 2 else "dup"
        N = 4
        data = {}
        for i, m in enumerate(meths):
            data[(m, "mu")] = pattern_floats(N, i)
            data[(m, "std")] = [0.5 + 0.25 * i + 0.125 * r for r in range(N)]
        y = np.array(pattern_floats(N, 9))
        index = INDEXES[idx](N)
        got = ctx.call(rg.loss_table, table(cols, data, index), y, dict(METRICS))
        verify(ctx, got, data, meths, y, index, {k: k for k in METRICS})

    return body


def names(ch, ctx):
    K = ch.pick("methods", [1, 2, 3])
    meths = ch.perm("method order", ["Z", "a", "mu"][:K])
    nm = ch.pick("metrics", [1, 2, 3])
    keys = ch.perm("metric order", ["MSE", "NLL", "MAE"][:nm])
    alias = ch.pick("metric names", ["own", "swapped", "odd"])
    nn = {k: (k if alias == "own" else keys[(i + 1) % nm] if alias == "swapped" else ["a", "std", "x y"][i]) for i, k in enumerate(keys)}
    N = 2
    data = {}
    for i, m in enumerate(sorted(meths)):
        data[(m, "mu")] = [1.0 + i, -2.0 * i]
        data[(m, "std")] = [1.0 + i, 0.5 + 2 * i]
    y = np.array([0.25, -1.5])
    cols = [(m, k) for m in meths for k in ("mu", "std")]
    got = ctx.call(rg.loss_table, table(cols, data, range(N)), y, {nn[k]: METRICS[k] for k in keys})
    verify(ctx, got, data, meths, y, range(N), {nn[k]: k for k in keys})


def rejections(ch, ctx):
    N = ch.pick("rows", [1, 2, 4])
    what = ch.pick("argument", ["y", "mu", "std"])
    bad = ch.pick("bad", [np.nan, np.inf, -np.inf] + ([0.0, -1.0, -0.0, -1e-12] if what == "std" else []))
    pos = ch.pick("position", list(range(N)))
    fname = ch.pick("function", ["NLL", "MSE", "MAE", "table"])
    v = dict(y=np.arange(N) * 1.0, mu=np.arange(N) * 0.5, std=np.ones(N) + 0.5)
    if fname != "table":
        v[what][pos] = bad
        ctx.rejects("%s=%s at row %d of %s" % (what, bad, pos, fname), METRICS[fname], v["y"], v["mu"], v["std"])
    else:
        K = ch.pick("methods", [1, 2])
        k = ch.pick("which method", list(range(K)))
        metric = ch.pick("metric", list(METRICS))
        meths = ["b", "a"][:K]
        data = {}
        for i, m in enumerate(meths):
            data[(m, "mu")], data[(m, "std")] = v["mu"].copy(), v["std"].copy()
            if i == k and what != "y":
                data[(m, what)][pos] = bad
        if what == "y":
            v["y"][pos] = bad
        ctx.rejects(
            "%s=%s at row %d of a loss table" % (what, bad, pos),
            rg.loss_table, table(list(data), data, range(N)), v["y"], {metric: METRICS[metric]},
        )


def ladder(ch, ctx):
    N = ch.pick("N", [1, 2, 9, 65, 500, 1000])
    K = ch.pick("K", [1, 2, 5, 12])
    idx = ch.pick("index", list(INDEXES))
    salt = ch.pick("salt", [0, 4])
    meths = ["m%d" % ((7 * i) % 13) for i in range(K)]
    data = {}
    for i, m in enumerate(meths):
        data[(m, "mu")] = pattern_floats(N, i + salt)
        data[(m, "std")] = [0.01 + ((r * 5 + i) % 17) for r in range(N)]
    y = np.array(pattern_floats(N, 20 + salt))
    index = INDEXES[idx](N)
    got = ctx.call(rg.loss_table, table(list(data), data, index), y, dict(METRICS))
    verify(ctx, got, data, meths, y, index, {k: k for k in METRICS})


DT = ["float64", "float32", "int64", "int32", "int8", "uint8", "uint64"]


def types(ch, ctx):
    """Targets and predictions of every numeric type, also narrow integers."""
    ty, tm = ch.pick("type of y", DT), ch.pick("type of mu", DT)
    ts = ch.pick("type of std", ["float64", "float32", "int64"])
    top = 120 if "int8" in (ty, tm) else 250
    y = np.array([0, top, 3, top, 1], dtype=ty)
    mu = np.array([top, 0, 5, 7, 1], dtype=tm)
    sd = np.array([1, 2, 4, top, 7], dtype=ts)
    if ch.flag("negative"):
        if "u" in ty + tm or "int8" in (ty, tm) and ty != tm:
            return
        y[1], mu[0] = -top, -top
    if ch.flag("table"):
        cols = [("m", "mu"), ("m", "std")]
        tbl = pd.DataFrame({c: v for c, v in zip(cols, (mu, sd))})
        tbl.columns = pd.MultiIndex.from_tuples(cols, names=["method", "moment"])
        got = ctx.call(rg.loss_table, tbl, y, dict(METRICS))
        for m in METRICS:
            ctx.eq(got[(m, "m")].values, ref(m, y, mu, sd), "cell (%s, m)" % m, 1e-6)
        return
    for m, f in METRICS.items():
        ctx.eq(ctx.call(f, y, mu, sd), ref(m, y, mu, sd), "%s differs from its definition" % m, 1e-6)


NAMES = [["L", "l", "LL"], ["", "a", "a "], ["mu", "std", "method"], ["a", "ab", "b"], ["x_1", "x_10", "x_2"], ["NLL", "MSE", "metric"]]


def name_pairs(ch, ctx):
    ms = ch.pick("method names", NAMES)
    mt = ch.pick("metric names", NAMES)
    order = ch.perm("method order", range(3))
    N = 3
    data = {}
    for i, m in enumerate(ms):
        data[(m, "mu")] = [1.0 + i, -2.0 * i, 0.5]
        data[(m, "std")] = [1.0 + i, 0.5 + 2 * i, 3.0]
    y = np.array([0.25, -1.5, 4.0])
    real = dict(zip(mt, ["MAE", "NLL", "MSE"]))
    cols = [(ms[i], k) for i in order for k in ("mu", "std")]
    got = ctx.call(rg.loss_table, table(cols, data, range(N)), y, {k: METRICS[v] for k, v in real.items()})
    verify(ctx, got, data, ms, y, range(N), real)


def large(ch, ctx):
    N = ch.pick("N", [1024, 4097, 70000])
    K = ch.pick("K", [1, 3])
    idx = ch.pick("index", ["range", "dup", "reversed"])
    meths = ["b", "a", "c"][:K]
    data = {}
    for i, m in enumerate(meths):
        data[(m, "mu")] = np.array(pattern_floats(N, i)) + np.arange(N) * 1e-3
        data[(m, "std")] = 0.01 + ((np.arange(N) * 5 + i) % 17)
    y = np.array(pattern_floats(N, 20))
    index = INDEXES[idx](N)
    got = ctx.call(rg.loss_table, table(list(data), data, index), y, dict(METRICS))
    verify(ctx, got, data, meths, y, index, {k: k for k in METRICS})


def std_dict(ch, ctx):
    """The ready-made metric dictionary names the losses truthfully."""
    name = ch.pick("metric", ["NLL", "MSE", "MAE"])
    y = ch.pick("y", Y)
    mu = ch.pick("mu", Y)
    f = rg.STD_REGR_LOSS[name]
    ctx.eq(ctx.call(f, np.array([y]), np.array([mu]), np.array([2.0])), ref(name, [y], [mu], [2.0]), "STD_REGR_LOSS[%s]" % name)


def _wide(names):
    def make():
        cols = pd.MultiIndex.from_product([names, ["mu", "std"]], names=["method", "moment"])
        return pd.DataFrame(np.array([np.abs(pattern_floats(4, j)) + 0.5 for j in range(2 * len(names))]).T, columns=cols)

    return make


subset = subsets.body(
    {"four": (_wide(["d", "b", "c", "a"]), 0, ()), "three": (_wide([3, 1, 2]), 0, ())},
    lambda ctx, df, keep: ctx.call(rg.loss_table, df, np.array(pattern_floats(len(df), 9)), {"b": rg.log_loss, "a": rg.square_loss, "c": rg.abs_loss}),
)


def scenarios(tier):
    th = tier == "thorough"
    return [
        ("single points", points(th), 2),
        ("two rows", rows(2), 3),
        ("extreme scales", extremes, 3),
        ("standard dictionary", std_dict, 2),
        ("column orders", col_orders(2), 3),
        ("names and orders", names, 4),
        ("rejections", rejections, 4),
        ("size ladder", ladder, 3),
        ("numeric types", types, 3),
        ("confusable names", name_pairs, 3),
        ("large tables", large, 3),
        ("column subsets", subset, 3),
    ] + ([("three rows", rows(3), 4), ("column orders of 3", col_orders(3), 4)] if th else [])

"""C21 rounding a results table is conservative and to the stated precision."""
import itertools
import math
from decimal import Decimal

import numpy as np
import pandas as pd

from mlpaper import sciprint as sp

from mc import ref_dec as rd
from mc import subsets

BOUNDS = {
    "quick": "every (mean, error bar) pair of 29 x 33 border values (ties, carries, powers of ten, one float either side of them, subnormal, huge, 0, NaN, infinite) x "
    "error digits 1-4 x default digits 1,2,5 x error limits none,-2,0,2; 40 p-values x digits 1-7 with 1 float either side of each step; every k/64 mean against "
    "every error in {k/32}; 1-3 methods x 1-3 metrics in every order of statistics, metrics and methods with a limit on each subset of metrics; six sets of confusable names (statistics as metric names, case, blanks, empty, integers); tables to 130x1, 12x11, 3x15",
    "thorough": "default digits 1-8, error digits 1-6, limits -6..6, every k/128",
}
ASSUMPTIONS = [
    "methods and metrics are unique labels; entries are floats; a mean is finite or NaN when its error bar is finite",
    "an error bar or mean whose exact value has fewer digits than requested may be kept short (0.5) or zero padded (0.50)",
]
NAN, INF = float("nan"), float("inf")


def table(rows, methods, metrics, cols=None):
    """rows[method][metric] = (mean, error, p)"""
    cols = cols or [(m, s) for m in metrics for s in ("mean", "error", "p")]
    data = {c: [rows[me][c[0]][("mean", "error", "p").index(c[1])] for me in methods] for c in cols}
    df = pd.DataFrame({i: data[c] for i, c in enumerate(cols)}, index=pd.Index(methods, name="method"))
    df.columns = pd.MultiIndex.from_tuples(cols, names=["metric", "stat"])
    return df


def chk_dec(ctx, got, value, exps, what):
    ctx.check(isinstance(got, Decimal), "%s is a Decimal" % what, type(got))
    ctx.compared += 1
    ctx.check(got.is_finite() and rd.frac(got) == value, what, str(got), str(value))
    if exps is not None:
        ctx.check(got.as_tuple().exponent in exps, "%s: digits kept" % what, str(got), sorted(exps))


def judge(ctx, tri, mu, eb, p, err_digits=2, pval_digits=4, default_digits=5, limit=None, what=""):
    gm, ge, gp = tri
    for g in tri:
        ctx.check(isinstance(g, Decimal), "%sentries are Decimal" % what, type(g))
    # error bar
    if math.isnan(eb):
        ctx.check(ge.is_nan(), "%sNaN error bar stays NaN" % what, str(ge))
    elif math.isinf(eb) or (limit is not None and rd.frac(eb) > rd.p10(limit)):
        ctx.check(ge == Decimal("Infinity"), "%serror bar %r above the limit %s is infinite" % (what, eb, limit), str(ge))
    else:
        v, exps = rd.sig_round(rd.frac(eb), err_digits, True)
        chk_dec(ctx, ge, v, exps, "%serror bar %r rounded up to %d digits" % (what, eb, err_digits))
        if eb > 0:
            ctx.check(rd.frac(ge) - rd.frac(eb) < rd.p10(ge.as_tuple().exponent) and rd.frac(ge) >= rd.frac(eb), "%sconservative within one unit" % what, str(ge), eb)
    # mean
    if math.isnan(mu):
        ctx.check(gm.is_nan(), "%sNaN mean stays NaN" % what, str(gm))
    elif math.isinf(mu):
        ctx.check(gm == Decimal("Infinity" if mu > 0 else "-Infinity"), "%sinfinite mean" % what, str(gm), mu)
    elif ge.is_finite() and ge != 0:
        e = ge.as_tuple().exponent
        chk_dec(ctx, gm, rd.half_up(rd.frac(mu), rd.p10(e)) * rd.p10(e), {e}, "%smean %r rounded to the last digit of %s" % (what, mu, ge))
    else:
        v, exps = rd.sig_round(rd.frac(mu), default_digits, False)
        chk_dec(ctx, gm, v, exps, "%smean %r rounded to %d digits" % (what, mu, default_digits))
    # p-value
    if math.isnan(p):
        ctx.check(gp.is_nan(), "%sNaN p stays NaN" % what, str(gp))
    else:
        u = rd.p10(-pval_digits)
        chk_dec(ctx, gp, rd.ceil_div(rd.frac(p), u) * u, {-pval_digits}, "%sp-value %r rounded up to %d decimals" % (what, p, pval_digits))


def cell(df, method, metric):
    out = []
    for s in ("mean", "error", "p"):
        i = list(df.index).index(method)
        j = list(df.columns).index((metric, s))
        out.append(df.iloc[i, j])
    return tuple(out)


def near(x):
    return [x, float(np.nextafter(x, -INF)), float(np.nextafter(x, INF))]


MEANS = [0.0, -0.0, 1.0, -1.0, 0.5, 2.5, -2.5, 1.25, 1.35, 0.125, 0.3, -0.3, 123.456, 99999.5, 999995.0, -99.95, 0.099995, 1234567.891, 1e-7, -3e-9, 9.995, 0.05, 5e9, NAN, INF, -INF, 7e-320, 1e30, -1.7e308]
ERRS = (
    [0.0, NAN, INF, 0.5, 0.25, 0.0999, 0.0995, 0.995, 9.99, 99.1, 12345.678, 0.3, 2.5, 1e-5, 3e-12, 20.0, 300.0, 1e4, 1.0625, 5e-324, 1e-300]
    + near(0.1)
    + near(0.01)
    + near(1.0)
    + near(100.0)
)


def pairs(errd, defd, limits):
    def body(ch, ctx):
        eb = ch.pick("error", ERRS)
        mu = ch.pick("mean", MEANS)
        ed = ch.pick("err_digits", errd)
        lim = ch.pick("limit", limits)
        inert = not (math.isfinite(eb) and eb > 0 and not (lim is not None and eb > 10.0 ** lim))
        dd = ch.pick("default_digits", defd if inert else [5])
        if math.isfinite(eb) and 0 < eb and not inert:
            if math.isinf(mu):
                return
        p = 0.03125
        t = table({"m": {"x": (mu, eb, p)}}, ["m"], ["x"])
        kw = dict(err_digits=ed, default_digits=dd)
        if lim is not None:
            kw["EB_limit"] = {"x": lim}
        got = ctx.call(sp.decimalize, t, **kw)
        judge(ctx, cell(got, "m", "x"), mu, eb, p, ed, 4, dd, lim)

    return body


def ties(den):
    def body(ch, ctx):
        k = ch.pick("mean", list(range(-2 * den, 2 * den + 1)))
        j = ch.pick("error", list(range(1, den // 2 + 1)))
        mu, eb = k / float(den), j / float(den // 2)
        t = table({"m": {"x": (mu, eb, 0.5)}}, ["m"], ["x"])
        ed = ch.pick("err_digits", [1, 2])
        judge(ctx, cell(ctx.call(sp.decimalize, t, ed), "m", "x"), mu, eb, 0.5, ed)

    return body


def pvals(ch, ctx):
    d = ch.pick("pval_digits", [4, 1, 2, 3, 5, 6, 7, 30])
    base = ch.pick("p", [0.0, 1.0, 0.05, 0.01, 1e-3, 1e-4, 5e-5, 1e-5, 1e-7, 0.25, 0.5, 0.3, 1e-300, 0.99995, 0.9999, 0.95, 0.0625, 0.7, 0.123456789, NAN])
    p = ch.pick("float", near(base)) if 0 < base < 1 else base
    t = table({"m": {"x": (1.5, 0.25, p)}}, ["m"], ["x"])
    kw = {} if d == 4 and ch.flag("default") else dict(pval_digits=d)
    judge(ctx, cell(ctx.call(sp.decimalize, t, **kw), "m", "x"), 1.5, 0.25, p, 2, d)


def psweep(ch, ctx):
    d = ch.pick("pval_digits", [1, 2, 3])
    k = ch.pick("k", list(range(0, 10 ** d + 1, 1 if d < 3 else 7)))
    for p in near(k / 10.0 ** d):
        if 0 <= p <= 1:
            t = table({"m": {"x": (1.5, 0.25, p)}}, ["m"], ["x"])
            judge(ctx, cell(ctx.call(sp.decimalize, t, pval_digits=d), "m", "x"), 1.5, 0.25, p, 2, d)


VALS = [(1.2345, 0.0671, 0.001234), (-20.5, 3.3, 1.0), (0.0, 0.0, NAN), (1e5, 12.7, 0.5), (3.25, NAN, 0.2), (NAN, NAN, NAN), (7.125, 150.0, 0.0), (8e-4, 9.96e-5, 0.04), (55.5, INF, 0.3)]


def layout(ch, ctx):
    n, k = ch.pick("shape", [(1, 1), (2, 2), (3, 2), (1, 3), (3, 3)])
    names = ch.perm("metrics", ["b_loss", "a", "c"][:k])
    meths = ch.pick("methods", [["m2", "m1", "m3"], [3, 1, 2]])[:n]
    order = ch.pick("statistics", list(itertools.permutations(("mean", "error", "p"))))
    nest = ch.pick("nesting", ["by metric", "by statistic", "mixed"])
    if nest == "by metric":
        cols = [(m, s) for m in names for s in order]
    elif nest == "by statistic":
        cols = [(m, s) for s in order for m in names]
    else:
        cols = [(m, s) for m in names[:1] for s in order] + [(m, s) for s in order[::-1] for m in names[1:]]
    rot = ch.pick("values", [0, 4] if not ctx.thorough else list(range(9)))
    rows = {me: {m: VALS[(rot + 3 * i + "bac".index(m[0])) % len(VALS)] for m in names} for i, me in enumerate(meths)}
    t = table(rows, meths, names, cols)
    lims = {m: ch.pick("limit %s" % m, [None, 0]) for m in names}
    limit = {m: v for m, v in lims.items() if v is not None}
    if ch.flag("limit of another metric"):
        limit["unrelated"] = -9
    got = ctx.call(sp.decimalize, t, EB_limit=limit)
    ctx.check(isinstance(got, pd.DataFrame), "a table is returned", type(got))
    ctx.same([tuple(c) for c in got.columns], [tuple(c) for c in t.columns], "columns and their order")
    ctx.same(list(got.index), list(t.index), "rows and their order")
    ctx.check(list(got.columns.names) == ["metric", "stat"] and got.index.name == "method", "level names")
    for me in meths:
        for m in names:
            judge(ctx, cell(got, me, m), *rows[me][m], limit=lims[m], what="%s/%s: " % (me, m))


LABELS = [("mean", "p", "error"), ("a", "A", "a "), ("", "0", "stat"), (0, 1, -1), (10, 9, 2), ("a_b", "a b", "a-b")]


def names(ch, ctx):
    """Metrics and methods whose names are easily confused, limits by name."""
    metrics = ch.pick("metrics", LABELS)
    meths = list(ch.pick("methods", LABELS))
    nest = ch.pick("nesting", ["by metric", "by statistic"])
    order = ch.pick("statistics", [("mean", "error", "p"), ("p", "error", "mean")])
    cols = [(m, s) for m in metrics for s in order] if nest == "by metric" else [(m, s) for s in order for m in metrics]
    who = ch.pick("limited", [None, 0, 1, 2])
    lim = {} if who is None else {metrics[who]: 0}
    rows = {me: {m: VALS[(1 + 3 * i + 2 * j) % len(VALS)] for j, m in enumerate(metrics)} for i, me in enumerate(meths)}
    got = ctx.call(sp.decimalize, table(rows, meths, list(metrics), cols), EB_limit=lim)
    ctx.same([tuple(c) for c in got.columns], cols, "columns and their order")
    ctx.same(list(got.index), meths, "rows and their order")
    for me in meths:
        for m in metrics:
            judge(ctx, cell(got, me, m), *rows[me][m], limit=lim.get(m), what="%r/%r: " % (me, m))


def big(ch, ctx):
    """Large tables: every entry by its own rule."""
    n, k = ch.pick("shape", [(40, 2), (3, 15), (130, 1), (12, 11)])
    salt = ch.pick("salt", [0, 1, 2])
    ed, pd_, dd = ch.pick("digits", [(2, 4, 5), (1, 2, 3), (3, 6, 2)])
    M = [v for v in MEANS if abs(v) < 1e7 or v != v]
    E = [v for v in ERRS if v != v or v == 0 or v == INF or v > 1e-14]
    rows, meths, mets = {}, ["m%d" % (n - i) for i in range(n)], ["x%d" % i for i in range(k)]
    for i, me in enumerate(meths):
        rows[me] = {m: (M[(7 * i + 5 * j + salt) % len(M)], E[(11 * i + 3 * j + 2 * salt) % len(E)], [0.0, 1e-5, 0.03, NAN, 0.99999, 0.5, 1.0][(i + j + salt) % 7]) for j, m in enumerate(mets)}
    lim = {m: 1 for m in mets[::3]}
    got = ctx.call(sp.decimalize, table(rows, meths, mets), ed, pd_, dd, lim)
    ctx.same(list(got.index), meths, "rows and their order")
    for i, me in enumerate(meths):
        for j, m in enumerate(mets):
            judge(ctx, tuple(got.iloc[i, 3 * j : 3 * j + 3]), *rows[me][m], err_digits=ed, pval_digits=pd_, default_digits=dd, limit=lim.get(m), what="%s/%s: " % (me, m))


def _wide():
    mets, meths = ["d", "b", "c", "a"], ["y", "x", "z"]
    return table({me: {m: VALS[(4 * i + j) % 4 + 4 * (j % 2)] for j, m in enumerate(mets)} for i, me in enumerate(meths)}, meths, mets)


subset = subsets.body({"four": (_wide, 0, ())}, lambda ctx, df, keep: ctx.call(sp.decimalize, df, EB_limit={"a": 0}))


def scenarios(tier):
    th = tier == "thorough"
    return [
        ("pairs", pairs(range(1, 7) if th else [2, 1, 3, 4], range(1, 9) if th else [5, 1, 2], [None] + list(range(-6, 7)) if th else [None, 0, -2, 2]), 2),
        ("ties", ties(128 if th else 64), 1),
        ("pvals", pvals, 2),
        ("psweep", psweep, 2),
        ("layout", layout, 8),
        ("names", names, 3),
        ("column subsets", subset, 3),
        ("large tables", big, 2),
    ]

"""C22 formatted entries read back as exactly the rounded numbers."""
from decimal import Decimal
from fractions import Fraction

import numpy as np
import pandas as pd

from mlpaper import sciprint as sp

from mc import ref_dec as rd
from mc import subsets
from mc.checks.c21 import table

BOUNDS = {
    "quick": "every mean of 26 signed mantissas x exponents -12..8 against 11 error bars (zero, infinite, NaN, 1-4 digits) x every shift -12..12, given as int and "
    "numpy int; the same for means of 27 to 60 digits; every clip pair of 10^k, k=-2..3 against means below, at and above; every p-value with 1-3 decimals, borders with 4-6; tables of 1-3 methods x "
    "1-2 metrics over 10 entries x shift modes x padding x limits; confusable metric names (statistics, case, blanks, empty, integers), 40 methods; limits 10^-3..10^6 on either side in single-cell tables; texts for inf and -inf unlike each other",
    "thorough": "tables over 15 entries, three methods",
}
ASSUMPTIONS = [
    "mean and finite nonzero error bar share their last digit, as decimalize makes them",
    "a table has no infinite mean that is not clipped, which format_table documents it does not support",
]
D = Decimal
NINF, PINF, DNAN = D("-Infinity"), D("Infinity"), D("NaN")
FMTS = [{}, {"inf": r"\infty", "-inf": r"-\infty", "nan": "--"}, {"nan": "?"}, {"inf": "huge", "-inf": "tiny"}]
MANT = ["0", "-0", "1", "5", "-9", "10", "12", "-100", "123", "999", "1000", "-1234", "99999", "1234567"]

LONG = ["1" + "0" * 26, "9" * 28, "-" + "9" * 28, "1" + "0" * 28, "12345678901234567890123456789", "-" + "1234567890" * 3, "5" * 41, "1" + "0" * 58 + "1"]


def errors(e, th):
    return [D("Infinity"), D("NaN"), D(0), rd.dec("0", e)] + [rd.dec(m, e) for m in ["1", "9", "10", "12", "99", "123", "1000"] + (["100", "56789"] if th else [])]


def estimates(mants, exps, shifts):
    def body(ch, ctx):
        mu = rd.dec(ch.pick("mantissa", mants), ch.pick("exponent", exps))
        e = mu.as_tuple().exponent
        EB = ch.pick("error", errors(e, ctx.thorough))
        shift = ch.pick("shift", shifts)
        arg = np.int64(shift) if ch.flag("numpy shift") else shift
        if e + shift > 0:
            ctx.rejects("shift %d hiding digits of %s" % (shift, mu), sp.print_estimate, mu, EB, arg)
            return
        rd.judge_entry(ctx, ctx.call(sp.print_estimate, mu, EB, arg), mu, EB, shift, None, None, {}, "estimate")

    return body


def clips(ch, ctx):
    hi = ch.pick("max", [None, -2, -1, 0, 1, 2, 3])
    lo = ch.pick("min", [None, -2, -1, 0, 1, 2, 3])
    kind = ch.pick("mean", ["nan", "inf", "-inf", "0", "at max", "just above", "just below max", "at min", "just below", "just above min", "far up", "far down"])
    fmt = ch.pick("text", FMTS)
    shift = ch.pick("shift", [0, 3, -3, 2, -1])
    e = -4
    u = Fraction(1, 10 ** 4)
    mx = None if hi is None else rd.p10(hi)
    mn = None if lo is None else -rd.p10(lo)
    if kind in ("nan", "inf", "-inf"):
        mu = D(kind)
    else:
        v = {
            "0": 0,
            "at max": mx,
            "just above": None if mx is None else mx + u,
            "just below max": None if mx is None else mx - u,
            "at min": mn,
            "just below": None if mn is None else mn - u,
            "just above min": None if mn is None else mn + u,
            "far up": 12345678,
            "far down": -12345678,
        }[kind]
        if v is None:
            return
        mu = rd.dec(str(int(v / u)), e)
    EB = ch.pick("error", [rd.dec("12", e), PINF, D(0)]) if mu.is_finite() else ch.pick("error", [PINF, DNAN])
    kw = {}
    if mx is not None:
        kw["max_clip"] = D((0, (1,), hi))
    if mn is not None:
        kw["min_clip"] = D((1, (1,), lo))
    got = None
    if ch.flag("own formats"):
        kw.update(below_fmt="under {0:f}!", above_fmt="over {0:f}!")
    if fmt:
        kw["non_finite_fmt"] = dict(fmt)
    got = ctx.call(sp.print_estimate, mu, EB, shift, **kw) if mu.is_finite() is False or e + shift <= 0 else None
    if got is None:
        return
    if "below_fmt" in kw and got.endswith("!"):
        got = got[:-1].replace("under ", "<").replace("over ", ">")
    elif "below_fmt" in kw:
        ctx.check(not got.startswith(("<", ">")), "the given clip formats are used", got)
    rd.judge_entry(ctx, got, mu, EB, shift, mn, mx, fmt, "clipped estimate")


def pvals(ch, ctx):
    k = ch.pick("decimals", [1, 2, 3, 4, 5, 6])
    n = 10 ** k
    m = ch.pick("p", list(range(n + 1)) if k <= 3 else [0, 1, 2, 9, 10, 11, 99, 100, n // 2, n // 10, n - 1, n])
    fmt = ch.pick("text", FMTS)
    p = rd.dec(str(m), -k)
    kw = dict(non_finite_fmt=dict(fmt)) if fmt else {}
    got = ctx.call(sp.print_pval, p, **kw)
    rd.judge_pval(ctx, got, p, fmt, "p-value")
    if m <= 1:
        got = ctx.call(sp.print_pval, p, below_fmt="below {0:f}.", **kw)
        ctx.check(got.startswith("below ") and got.endswith(".") and rd.read_number(got[6:-1]) == Fraction(1, n), "the given format is used", got)


def pnan(ch, ctx):
    fmt = ch.pick("text", FMTS)
    p = ch.pick("nan", [D("NaN"), D(float("nan")), D("NaN").quantize(D("0.0001"))])
    rd.judge_pval(ctx, ctx.call(sp.print_pval, p, non_finite_fmt=dict(fmt)), p, fmt, "NaN p-value")


ENTRIES = [
    ("1.235", "0.068", "0.0013"),
    ("-12.5", "2.5", "1.0000"),
    ("0.000", "0.010", "0.0001"),
    ("1234.5", "99.9", "0.0000"),
    ("NaN", "NaN", "NaN"),
    ("0.1", "0", "0.0500"),
    ("Infinity", "Infinity", "0.0002"),
    ("-Infinity", "NaN", "NaN"),
    ("2.00000", "Infinity", "0.9999"),
    ("1200.00", "0.10", "0.5000"),
    ("1.2E+3", "1E+2", "0.0500"),
    ("0.00012", "0.00005", "NaN"),
    ("-0.0", "0.3", "0.0010"),
    ("99999", "12", "0.0300"),
    ("-1000.0", "0.2", "0.7000"),
]


def tables(n, k, entries, mods):
    def body(ch, ctx):
        metrics = ["b_m", "a"][:k]
        meths = ["m2", "m1", "m 3"][:n]
        rows = {}
        for me in meths:
            rows[me] = {m: tuple(D(x) for x in ch.pick("%s/%s" % (me, m), entries)) for m in metrics}
        lim = ch.pick("limits", [(None, None), (3, None), (3, 1), (1, 3)] + ([(0, None), (None, 0), (-1, -2), (-3, 2), (6, -4)] if n * k == 1 or ctx.thorough else []))
        mx = {m: lim[0] for m in metrics[:1] if lim[0] is not None}
        mn = {m: lim[1] for m in metrics[:1] if lim[1] is not None}
        for me in meths:
            for m in metrics:
                mu = rows[me][m][0]
                if mu.is_infinite() and not (mu > 0 and m in mx or mu < 0 and m in mn):
                    return
        mod = ch.pick("shift_mod", mods)
        pad = ch.flag("pad")
        fmt = ch.pick("text", FMTS[:2])
        order = [("mean", "error", "p"), ("p", "mean", "error")][ch.pick("order", [0, 1] if n < 3 else [0])]
        t = table(rows, meths, metrics, [(m, s) for m in metrics for s in order])
        kw = dict(shift_mod=mod, pad=pad, crap_limit_max=mx, crap_limit_min=mn, non_finite_fmt=dict(fmt))
        coarse = [v[m][0] for v in rows.values() for m in metrics if v[m][0].is_finite() and v[m][0].as_tuple().exponent > 0 and not (m in mx and v[m][0] > 10 ** mx[m])]
        if coarse and mod is None:
            ctx.rejects("printing %s without shift" % coarse[0], sp.format_table, t, **kw)
            return
        got, shifts = ctx.call(sp.format_table, t, **kw)
        ctx.check(sorted(shifts) == sorted(metrics), "a shift for every metric", shifts)
        ctx.same(list(got.index), meths, "methods in order")
        ctx.same(sorted(tuple(c) for c in got.columns), sorted((m, s) for m in metrics for s in ("estimate", "p")), "estimate and p of every metric")
        gc = [tuple(c) for c in got.columns]
        for m in metrics:
            s = int(shifts[m])
            ctx.check(mod is not None or s == 0, "no shifting asked for", shifts)
            for i, me in enumerate(meths):
                mu, EB, p = rows[me][m]
                text = got.iloc[i, gc.index((m, "estimate"))]
                ctx.check(isinstance(text, str), "entries are text", type(text))
                text = text.rstrip(" ") if pad else text
                a = None if m not in mn else -rd.p10(mn[m])
                b = None if m not in mx else rd.p10(mx[m])
                rd.judge_entry(ctx, text, mu, EB, s, a, b, fmt, "table entry %s/%s" % (me, m))
                rd.judge_pval(ctx, got.iloc[i, gc.index((m, "p"))], p, fmt, "table p-value %s/%s" % (me, m))

    return body


def names(ch, ctx):
    """Confusable names and many rows: limits, shifts and cells go by name."""
    from mc.checks.c21 import LABELS

    metrics = list(ch.pick("metrics", LABELS))
    n = ch.pick("methods", [3, 40])
    who = ch.pick("limited", [0, 1, 2])
    mod = ch.pick("shift_mod", [1, 3])
    order = ch.pick("statistics", [("mean", "error", "p"), ("p", "error", "mean")])
    pad = ch.flag("pad")
    E = [e for e in ENTRIES if "Inf" not in e[0] and e[0] != "-0.0"]
    meths = list(range(n)) if n > 3 else ["a", "A", ""]
    rows = {me: {m: tuple(D(x) for x in E[(i * 5 + j * 3 + who) % len(E)]) for j, m in enumerate(metrics)} for i, me in enumerate(meths)}
    mx, mn = {metrics[who]: 2}, {metrics[(who + 1) % 3]: 1}
    t = table(rows, meths, metrics, [(m, s) for m in metrics for s in order])
    got, shifts = ctx.call(sp.format_table, t, shift_mod=mod, pad=pad, crap_limit_max=dict(mx), crap_limit_min=dict(mn))
    gc = [tuple(c) for c in got.columns]
    ctx.same(sorted(map(repr, gc)), sorted(repr((m, s)) for m in metrics for s in ("estimate", "p")), "estimate and p of every metric")
    ctx.same(list(got.index), meths, "methods in order")
    ctx.check(sorted(map(repr, shifts)) == sorted(map(repr, metrics)), "a shift for every metric", shifts)
    for m in metrics:
        for i, me in enumerate(meths):
            mu, EB, p = rows[me][m]
            a = None if m not in mn else -rd.p10(mn[m])
            b = None if m not in mx else rd.p10(mx[m])
            rd.judge_entry(ctx, got.iloc[i, gc.index((m, "estimate"))].rstrip(" "), mu, EB, int(shifts[m]), a, b, {}, "table entry %r/%r" % (me, m))
            rd.judge_pval(ctx, got.iloc[i, gc.index((m, "p"))], p, {}, "table p-value %r/%r" % (me, m))


def _wide():
    mets, meths = ["d", "b", "c", "a"], ["y", "x", "z"]
    E = [tuple(D(x) for x in ENTRIES[i]) for i in (0, 1, 2, 3, 5, 9)]
    return table({me: {m: E[(4 * i + j) % 6] for j, m in enumerate(mets)} for i, me in enumerate(meths)}, meths, mets)


subset = subsets.body({"four": (_wide, 0, ())}, lambda ctx, df, keep: ctx.call(sp.format_table, df, shift_mod=3, crap_limit_max={"a": 1}))


def scenarios(tier):
    th = tier == "thorough"
    E = ENTRIES if th else ENTRIES[:11]
    mants = MANT + ["2", "-3", "19", "-99", "200", "1001", "-9999", "10000", "123456", "1000000", "999999999", "12345678901"]
    return [
        ("estimates", estimates(mants, list(range(-12, 9)), list(range(-12, 13))), 2),
        ("many digits", estimates(LONG, [-70, -45, -31, -28, -20, -3, 0, 2], [-30, -3, 0, 1, 3, 28, 31, 45]), 2),
        ("clips", clips, 3),
        ("pvals", pvals, 2),
        ("pnan", pnan, 1),
        ("names", names, 3),
        ("column subsets", subset, 3),
        ("table 1x1", tables(1, 1, ENTRIES, [None, 1, 3, 2]), 1),
        ("table 2x1", tables(2, 1, E, [None, 1, 3]), 2),
        ("table 1x2", tables(1, 2, E, [None, 1, 3]), 2),
        ("table 2x2", tables(2, 2, ENTRIES[:6] if th else ENTRIES[:4], [1]), 2),
    ] + ([("table 3x1", tables(3, 1, E, [1, 3]), 3)] if th else [])

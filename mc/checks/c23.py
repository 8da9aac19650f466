"""C23 the column shift is admissible and gives the narrowest column."""
from decimal import Decimal

import pandas as pd

from mlpaper import sciprint as sp

from mc import ref_dec as rd
from mc.checks.c21 import table

D = Decimal
BOUNDS = {
    "quick": "every column of 1 mean over 14 mantissas x exponents -9..6 x 6 error bars, of 2 means over 9 mantissas x 9 exponents x 3 error bars each, of 3 means over "
    "a 40-value and of 4 means over a 12-value alphabet, each x modulus 1,2,3,5 against the full list of admissible shifts; columns of 5-120 entries with an outlier in 5 positions and of 6-40 different entries; tables of 2-3 methods with a clipped (both sides, "
    "infinite) or NaN row in every position against the same table without it",
    "thorough": "2 means over 14 mantissas x 13 exponents, 4 means over 16 values",
}
ASSUMPTIONS = ["shifts of equal width and equal magnitude but opposite sign are both accepted"]
MANT = ["0", "1", "-1", "9", "10", "-12", "99", "100", "123", "-999", "1000", "1234", "-0", "1234567"]


def judge(ctx, means, errs, mod, got):
    ok = rd.shifts_ok(means, errs, mod)
    ctx.compared += 1
    ctx.check(got == int(got), "the shift is a whole number", got)
    ctx.check(int(got) in ok, "shift of the column", int(got), sorted(ok))
    ctx._out(int(got))


def one(mants, exps):
    def body(ch, ctx):
        e = ch.pick("exponent", exps)
        m = rd.dec(ch.pick("mantissa", mants), e)
        err = ch.pick("error", [D("Infinity"), D("NaN"), D(0), rd.dec("1", e), rd.dec("12", e), rd.dec("1000", e)])
        mod = ch.pick("mod", [1, 3, 2, 5, 7])
        judge(ctx, [m], [err], mod, ctx.call(sp.find_shift, [m], [err], shift_mod=mod))

    return body


def two(mants, exps):
    def body(ch, ctx):
        means, errs = [], []
        for i in range(2):
            e = ch.pick("exponent%d" % i, exps)
            means.append(rd.dec(ch.pick("mantissa%d" % i, mants), e))
            errs.append(ch.pick("error%d" % i, [rd.dec("12", e), D("Infinity"), rd.dec("123", e)]))
        for mod in (1, 3):
            judge(ctx, means, errs, mod, ctx.call(sp.find_shift, means, errs, shift_mod=mod))

    return body


VALS = [
    ("1.235", "0.068"), ("-12.5", "2.5"), ("0.00012", "0.00005"), ("1234.5", "99.9"), ("0.000", "0.010"), ("0.1", "0"), ("2.00000", "Infinity"),
    ("1.2E+3", "1E+2"), ("5E+6", "2E+6"), ("0.98", "0.03"), ("98765", "12"), ("-0.00345", "0.00012"), ("1E-9", "1E-9"), ("-7", "3"),
    ("0E+2", "1E+2"), ("0.012345", "0.000002"), ("1000000.5", "0.1"), ("-0.5", "NaN"), ("123.456", "1.000"), ("3.0E-6", "0.2E-6"), ("42", "0"), ("-99.95", "0.10"),
    ("0.9", "0.1"), ("9.9", "0.1"), ("99", "1"), ("1E+1", "1E+1"), ("0.10", "0.01"), ("0.0010", "0.0001"), ("10.00", "0.01"), ("-1000", "1"),
    ("0.0000001", "0.0000001"), ("12E+4", "1E+4"), ("-0.1234", "0.0012"), ("0.00", "0.02"), ("77.7", "Infinity"), ("8888.88", "0.12"), ("-1", "1"), ("0.5", "0.5"), ("6E-3", "1E-3"), ("25E+1", "2E+1"),
]

FAR = [
    ("1." + "0" * 30, "11E-30"), ("123456789012345678901234567891", "2"), ("0." + "0" * 40 + "12", "1E-42"), ("-" + "9" * 29 + ".5", "0.2"), ("1E+33", "1E+33"), ("0." + "9" * 35, "3E-35"), ("1" + "0" * 28, "12"),
]


def several(n, vals):
    def body(ch, ctx):
        pick = [ch.pick("entry%d" % i, vals) for i in range(n)]
        means, errs = [D(a) for a, _ in pick], [D(b) for _, b in pick]
        mod = ch.pick("mod", [1, 3, 2, 5])
        judge(ctx, means, errs, mod, ctx.call(sp.find_shift, means, errs, mod))

    return body


def empty(ch, ctx):
    mod = ch.pick("mod", [1, 2, 3])
    ctx.same(int(ctx.call(sp.find_shift, [], [], shift_mod=mod)), 0, "an empty column is not shifted")


CLIPPED = {  # entry -> which limit hides it (limits are 10^3 and -10^2)
    "above": ("1E+9", "1E+9"),
    "above, many digits": ("1000.00001", "0.00012"),
    "below": ("-100.0003", "0.0002"),
    "inf": ("Infinity", "Infinity"),
    "-inf": ("-Infinity", "NaN"),
    "nan": ("NaN", "NaN"),
    "coarse": ("-3E+5", "1E+5"),
}


def clipped(n, vals):
    def body(ch, ctx):
        names = ["m%d" % i for i in range(n)]
        rows = [ch.pick("entry%d" % i, vals) for i in range(n)]
        hid = [ch.pick("hidden", list(CLIPPED))]
        if ch.flag("two hidden"):
            hid.append("nan" if hid[0] != "nan" else "above")
        pos = ch.pick("position", list(range(n + 1)))
        mod = ch.pick("mod", [1, 3])
        use = [r for r in rows if -100 <= D(r[0]) <= 1000]
        allr = rows[:pos] + [CLIPPED[h] for h in hid] + rows[pos:]
        names = ["m%d" % i for i in range(len(allr))]
        p = D("0.0500")
        other = ("12.5", "0.3")
        t = table({m: {"x": (D(a), D(b), p), "w": (D(other[0]), D(other[1]), p)} for m, (a, b) in zip(names, allr)}, names, ["x", "w"])
        got, shifts = ctx.call(sp.format_table, t, shift_mod=mod, crap_limit_max={"x": 3}, crap_limit_min={"x": 2})
        judge(ctx, [D(a) for a, _ in use], [D(b) for _, b in use], mod, shifts["x"])
        k = len(allr)
        judge(ctx, [D(other[0])] * k, [D(other[1])] * k, mod, shifts["w"])
        # one shift for the column: every entry reads back under it
        col = [c for c in range(got.shape[1]) if tuple(got.columns[c]) == ("x", "estimate")][0]
        for i, (a, b) in enumerate(allr):
            rd.judge_entry(ctx, got.iloc[i, col].rstrip(" "), D(a), D(b), int(shifts["x"]), -rd.p10(2), rd.p10(3), {}, "entry %d" % i)

    return body


def long(ch, ctx):
    """Long columns with one outlier in every position."""
    n = ch.pick("n", [5, 8, 30, 120])
    ordinary = ch.pick("ordinary", [("12.50", "0.12"), ("-0.00345", "0.00012"), ("98765", "12"), ("0.000", "0.010")])
    odd = ch.pick("outlier", VALS)
    pos = ch.pick("position", sorted({0, 1, n // 2, n - 2, n - 1}))
    mod = ch.pick("mod", [1, 3, 4])
    col = [ordinary] * pos + [odd] + [ordinary] * (n - 1 - pos)
    judge(ctx, [D(a) for a, _ in col], [D(b) for _, b in col], mod, ctx.call(sp.find_shift, [D(a) for a, _ in col], [D(b) for _, b in col], mod))


def mixed(ch, ctx):
    """Long columns of many different entries, forwards and backwards."""
    n = ch.pick("n", [6, 10, 25, 40])
    start, step = ch.pick("start", list(range(40))), ch.pick("step", [1, 3, 7, 11])
    mod = ch.pick("mod", [1, 2, 3, 6])
    col = [VALS[(start + step * i) % 40] for i in range(n)]
    means, errs = [D(a) for a, _ in col], [D(b) for _, b in col]
    judge(ctx, means, errs, mod, ctx.call(sp.find_shift, means, errs, mod))
    judge(ctx, means[::-1], errs[::-1], mod, ctx.call(sp.find_shift, means[::-1], errs[::-1], mod))


def scenarios(tier):
    th = tier == "thorough"
    tab = VALS[:8] if not th else VALS[:16]
    return [
        ("one", one(MANT, list(range(-9, 7))), 2),
        ("two", two(MANT if th else ["0", "1", "-12", "99", "100", "1234", "-1", "1234567", "9"], list(range(-7, 6)) if th else [-5, -4, -3, -2, -1, 0, 1, 2, 4]), 2),
        ("many digits", several(2, VALS[::3] + FAR), 2),
        ("three", several(3, VALS), 2),
        ("empty", empty, 1),
        ("long columns", long, 3),
        ("mixed columns", mixed, 3),
        ("clipped 0", clipped(0, tab), 1),
        ("clipped 1", clipped(1, VALS), 1),
        ("clipped 2", clipped(2, tab), 2),
        ("four", several(4, VALS[:16] if th else VALS[:12]), 2),
    ]

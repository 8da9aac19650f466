"""C19 each split rule puts the requested share in train."""
import itertools
from math import comb

import numpy as np
import pandas as pd

from mlpaper import data_splitter as ds

from mc import gen
from mc import ref_split as rf
from mc.core import Uncontrolled
from mc.env import Script

BOUNDS = {
    "quick": "all series of 1-4 values over {0,1,2,5} x 9 fractions x the three rules x every permutation of the random draw; 5 values over 3; six value types; all "
    "true promises (sorted, unique) against none; fraction ladder k/20 and k/7 on 1..60 and 1000 distinct values; ends of 14 value types; 70000 values; nulls at every position",
    "thorough": "5 values over 4, 6 over 3, all fractions k/16",
}
ASSUMPTIONS = [
    "for decimal fractions whose product with n lands within rounding of a whole number either neighbour is accepted; binary fractions are exact",
    "the random subset comes from numpy's global random source",
]
FR = [0.0, 0.125, 0.25, 0.5, 0.625, 0.75, 1.0, 0.8, 0.3]
RULE = dict(random=ds.random_split_series, ordered=ds.ordered_split_series, linear=ds.linear_split_series)


def as_mask(ctx, m, S):
    ctx.check(isinstance(m, pd.Series), "a mask series is returned", type(m))
    ctx.check(m.index.equals(S.index), "mask index matches the series", list(m.index), list(S.index))
    v = np.asarray(m.values)
    ctx.check(v.dtype == bool, "mask is boolean", v.dtype)
    return [bool(t) for t in v]


def agree(ctx, got, masks, what):
    ctx.compared += 1
    ctx.check(any(all(w is None or w == g for g, w in zip(got, m)) for m in masks), what, got, masks)
    ctx._out(tuple(got))


def promises(vals):
    u = len(set(vals)) == len(vals)
    s = list(vals) == sorted(vals)
    return [(a, b) for a in ([False, True] if s else [False]) for b in ([False, True] if u else [False])]


TYPES = {
    "int": lambda v: np.array(v, dtype=int),
    "float": lambda v: np.array([x * 0.25 - 1 for x in v]),
    "str": lambda v: np.array(["v%d" % x for x in v], dtype=object),
    "date": lambda v: pd.to_datetime(["2019-12-%02d" % (x + 28) if x < 4 else "2020-01-%02d" % x for x in v]),
    "int8": lambda v: np.array(v, dtype=np.int8),
    "big": lambda v: np.array([x * 1e9 - 5 for x in v]),
    "bool": lambda v: np.array([bool(x) for x in v]),
}


def small(n, alpha, types, fracs, index="range"):
    def body(ch, ctx):
        rule = ch.pick("rule", list(RULE))
        vals = ch.vec("v", n, alpha)
        frac = ch.pick("frac", fracs)
        ty = ch.pick("type", types)
        if rule == "linear" and ty in ("str", "date", "bool"):
            return
        if ty == "bool":
            vals = [int(bool(v)) for v in vals]
        data = TYPES[ty](vals)
        S = pd.Series(data, index=gen.INDEXES[index](n))
        if rule == "random":
            m = len(set(vals))
            perm = ch.perm("draw", range(m))
            first = None
        for so, un in promises(vals):
            args = dict(assume_sorted=so, assume_unique=un) if (so or un) else {}
            if rule != "random":
                got = as_mask(ctx, ctx.call(RULE[rule], S, frac, **args), S)
                if rule == "ordered":
                    want = rf.ordered(vals, frac)
                else:
                    want = [rf.linear([float(x) for x in data], frac)]
                agree(ctx, got, want, "%s split, promises sorted=%s unique=%s" % (rule, so, un))
            else:
                with Script(perm=perm) as s:
                    got = as_mask(ctx, ctx.call(RULE[rule], S, frac, **args), S)
                basic(ctx, vals, got, frac)
                if s.uncontrolled:
                    raise Uncontrolled("real random numbers used")
                if first is None:
                    first = got
                ctx.same(got, first, "random split for draw %s: promises sorted=%s unique=%s change the result" % (perm, so, un))

    return body


def basic(ctx, vals, got, frac):
    """Whatever the draw: equal values together, right number of values."""
    tr, te = {v for v, g in zip(vals, got) if g}, {v for v, g in zip(vals, got) if not g}
    ctx.check(not tr & te, "equal values land in train and test", got, vals)
    ctx.check(len(tr) in rf.share(frac, len(tr | te)), "share of distinct values in train", len(tr), rf.share(frac, len(tr | te)))


def witness(ctx, S, vals, frac, args):
    """Every subset of the right size must occur for some random state."""
    m = len(set(vals))
    seen = set()
    for seed in range(400):
        np.random.seed(seed)
        got = as_mask(ctx, ctx.call(ds.random_split_series, S, frac, **args), S)
        basic(ctx, vals, got, frac)
        seen.add(tuple(got))
    k = rf.share(frac, m)
    ctx.compared += 1
    ctx.check(len(seen) >= min(comb(m, q) for q in k), "not every subset of values can be drawn", len(seen), [comb(m, q) for q in k])


def possible(ch, ctx):
    """Over all draws (permutations) every subset of the right size occurs."""
    n = ch.pick("n", [1, 2, 3, 4, 5, 6] if ctx.thorough else [1, 2, 3, 4, 5])
    vals = ch.pick("values", [list(range(n)), [3, 1, 2, 7, 4, 0][:n], [5, 5] + list(range(n - 1))])
    frac = ch.pick("frac", [0.0, 0.25, 0.5, 0.75, 1.0])
    un = len(set(vals)) == len(vals) and ch.flag("assume unique")
    args = dict(assume_unique=True) if un else {}
    S = pd.Series(vals)
    m = len(set(vals))
    (k,) = rf.share(frac, m)
    seen = set()
    drawn = 0
    for perm in itertools.permutations(range(m)):
        try:
            with Script(perm=perm) as s:
                got = as_mask(ctx, ctx.call(ds.random_split_series, S, frac, **args), S)
        except Uncontrolled:  # draws in a way the script cannot answer: real seeds instead
            s.uncontrolled.append("other draw")
            break
        basic(ctx, vals, got, frac)
        drawn += s.drawn
        if s.uncontrolled:
            break
        ctx.state(vals, frac, un, perm)
        seen.add(tuple(got))
    if s.uncontrolled or (not drawn and 0 < k < m):
        witness(ctx, S, vals, frac, args)
    else:
        ctx.same(len(seen), comb(m, k), "number of different train sets over all draws")


def subset(ch, ctx):
    """The drawing helpers themselves."""
    n = ch.pick("n", [1, 2, 3, 4])
    frac = ch.pick("frac", [0.0, 0.125, 0.25, 0.5, 0.625, 0.75, 1.0])
    items = ["a", "bb", "c", "d"][:n]
    (k,) = rf.share(frac, n)
    A, B = set(), set()
    unc = False
    for perm in itertools.permutations(range(n)):
        with Script(perm=perm) as s:
            L = list(ctx.call(ds.rand_subset, np.array(items), frac))
            M = np.asarray(ctx.call(ds.rand_mask, n, frac))
        unc = unc or s.uncontrolled or (not s.drawn and 0 < k < n)
        ctx.check(len(L) == k and len(set(L)) == k and set(L) <= set(items), "a subset of the right size", L, (items, k))
        ctx.check(M.shape == (n,) and M.dtype == bool and M.sum() == k, "mask of the right size", M, k)
        A.add(frozenset(L))
        B.add(tuple(M))
        ctx.compared += 2
    if not unc:
        ctx.same((len(A), len(B)), (comb(n, k), comb(n, k)), "different subsets over all draws")


def ladder(ch, ctx):
    rule = ch.pick("rule", list(RULE))
    n = ch.pick("n", list(range(1, 61)) + [100, 256, 1000])
    f = ch.pick("frac", ["%d/20" % k for k in range(21)] + ["%d/7" % k for k in range(1, 7)] + ["%d/64" % k for k in (1, 31, 33, 63)])
    a, b = f.split("/")
    frac = int(a) / float(b)
    dup = ch.pick("duplicates", [1, 2])
    vals = [((i * 7919) % n) * 3 - 10 for i in range(n)] * dup
    S = pd.Series(vals)
    np.random.seed(n)
    got = as_mask(ctx, ctx.call(RULE[rule], S, frac), S)
    if rule == "random":
        basic(ctx, vals, got, frac)
        if dup == 1:
            np.random.seed(n)
            ctx.same(as_mask(ctx, ctx.call(RULE[rule], S, frac, assume_unique=True), S), got, "assume_unique changes a random split of unique values")
    elif rule == "ordered":
        agree(ctx, got, rf.ordered(vals, frac), "ordered split")
    else:
        agree(ctx, got, [rf.linear(vals, frac)], "linear split")
    T = pd.Series(sorted(vals))
    if rule != "random":
        g2 = as_mask(ctx, ctx.call(RULE[rule], T, frac, assume_sorted=True), T)
        ctx.same(g2, as_mask(ctx, ctx.call(RULE[rule], T, frac), T), "assume_sorted changes a %s split of sorted values" % rule)


EXT = {
    "int8": [-128, -127, -1, 0, 1, 126, 127],
    "uint8": [0, 1, 127, 128, 254, 255],
    "int16": [-32768, -1, 0, 32767],
    "uint64": [0, 1, 2 ** 40, 2 ** 41],
    "int64": [-(2 ** 41), -1, 0, 3, 2 ** 41],
    "int64 top": [2 ** 63 - 1, 2 ** 63 - 2, 2 ** 63 - 3, 2 ** 53, 2 ** 53 + 1, -(2 ** 63), -(2 ** 63) + 1],
    "uint64 top": [2 ** 64 - 1, 2 ** 64 - 2, 2 ** 63, 2 ** 63 - 1, 0],
    "mixed sign": [2 ** 62, 2 ** 62 + 1, -(2 ** 62), -(2 ** 62) - 1],
    "next floats": [1e300, float(np.nextafter(1e300, 0)), 1e-300, float(np.nextafter(1e-300, 1)), -1e300],
    "float32": [-3.0e38, -1.0, 0.0, 0.5, 3.0e38],
    "float": [-8e307, -1.0, 5e-324, 0.5, 8e307],
    "close": [1.0, float(np.nextafter(1, 2)), float(np.nextafter(1, 0)), 1.5],
    "zeros": [0.0, -0.0, 1.0],
    "inf str": ["", "a", "B", "b", "é"],
    "cat": ["x", "y", "z"],
    "tz": list(pd.to_datetime(["2020-01-01 00:00:00.000000001", "2020-01-01", "2262-01-01", "1700-01-01"], format="ISO8601")),
    "delta": list(pd.to_timedelta([0, 1, -5, 10 ** 15])),
    "big str": ["k%09d" % i for i in (5, 12, 3)],
    "nested": [1.0, True, 2.5],
}


def extremes(ch, ctx):
    """Values at the ends of their types, in three orders, with repeats."""
    ty = ch.pick("type", list(EXT))
    rule = ch.pick("rule", list(RULE))
    frac = ch.pick("frac", FR)
    rot = ch.pick("rotation", [0, 1, 2])
    rep = ch.pick("repeats", [1, 2])
    v = EXT[ty]
    v = (v[rot:] + v[:rot]) * rep
    if rule == "linear" and ty in ("inf str", "cat", "big str", "tz", "delta", "nested", "int64 top", "uint64 top", "mixed sign", "next floats"):
        return
    if ty == "nested":
        v = [float(t) for t in v]
    S = pd.Series(v, dtype=ty.split()[0] if ty.split()[0] in ("int8", "uint8", "int16", "uint64", "int64", "float32") else None)
    np.random.seed(rot)
    got = as_mask(ctx, ctx.call(RULE[rule], S, frac), S)
    if rule == "random":
        basic(ctx, v, got, frac)
    elif rule == "ordered":
        agree(ctx, got, rf.ordered(v, frac), "ordered split")
    else:
        if ty in ("float", "close", "float32") and frac not in (0.0, 0.5, 1.0):
            return
        agree(ctx, got, [rf.linear([float(t) for t in S.values], frac)], "linear split")


def large(ch, ctx):
    rule = ch.pick("rule", list(RULE))
    n = ch.pick("n", [1001, 4096, 70000])
    frac = ch.pick("frac", [0.0, 0.5, 0.75, 0.8, 0.999, 1.0])
    dup = ch.pick("duplicates", [1, 3])
    ty = ch.pick("type", ["int", "float", "str"])
    if ty == "str" and rule == "linear":
        return
    m = n // dup
    base = [((i * 7919) % m) * 3 - 10 for i in range(m)]
    vals = (base * dup)
    if ty == "float":
        vals = [x * 0.25 for x in vals]
    elif ty == "str":
        vals = ["v%07d" % (x + 10) for x in vals]
    S = pd.Series(vals)
    np.random.seed(n)
    got = as_mask(ctx, ctx.call(RULE[rule], S, frac), S)
    if rule == "random":
        basic(ctx, vals, got, frac)
    elif rule == "ordered":
        agree(ctx, got, rf.ordered(vals, frac), "ordered split")
    else:
        agree(ctx, got, [rf.linear(vals, frac)], "linear split")
    for so, un in promises(vals):
        np.random.seed(n)
        ctx.same(as_mask(ctx, ctx.call(RULE[rule], S, frac, assume_sorted=so, assume_unique=un), S), got, "promises sorted=%s unique=%s" % (so, un))


def reject(ch, ctx):
    rule = ch.pick("rule", list(RULE))
    what = ch.pick("what", ["null", "fraction"])
    so, un = ch.flag("sorted"), ch.flag("unique")
    if what == "null":
        n = ch.pick("n", [1, 2, 4])
        pos = ch.pick("pos", list(range(n)))
        kind = ch.pick("kind", ["nan", "None", "NaT"])
        v = [float(i) for i in range(n)]
        if kind == "NaT":
            S = pd.Series(pd.to_datetime(["2020-01-0%d" % (i + 1) for i in range(n)]))
            S.iloc[pos] = pd.NaT
        else:
            v[pos] = np.nan if kind == "nan" else None
            S = pd.Series(v, dtype=float if kind == "nan" else object)
        ctx.rejects("a null value", RULE[rule], S, ch.pick("frac", [0.0, 0.5, 1.0]), assume_sorted=so, assume_unique=un)
    else:
        f = ch.pick("frac", [-0.01, 1.01, -1e-9, 1 + 1e-9, 2.0, float("nan"), -1.0, 80])
        ctx.rejects("fraction %r" % f, RULE[rule], pd.Series([1, 2, 3][: ch.pick("n", [1, 2, 3])]), f, assume_sorted=so, assume_unique=un)


def scenarios(tier):
    th = tier == "thorough"
    A = [0, 1, 2, 5]
    L = [("series of %d" % n, small(n, A, ["int"], FR), 4) for n in (1, 2, 3, 4)]
    L += [
        ("series of 5", small(5, A if th else [0, 1, 5], ["int"], [0.25, 0.5, 0.75] if not th else [k / 16.0 for k in range(17)]), 5),
        ("value types", small(3, [0, 1, 3], list(TYPES), FR, "str"), 5),
        ("indices", small(3, [0, 1, 3], ["int", "float"], [0.0, 0.5, 1.0], "dup"), 4),
        ("every subset possible", possible, 2),
        ("drawing helpers", subset, 3),
        ("fraction ladder", ladder, 3),
        ("ends of the types", extremes, 3),
        ("large series", large, 3),
        ("rejections", reject, 4),
    ]
    if th:
        L.append(("series of 6", small(6, [0, 1, 5], ["float"], [0.25, 0.5, 0.8]), 5))
    return L

"""C07 bootstrap interval, error bar and significance primitives."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mlpaper import boot_util as bu

from mc import ref_stats as rs
from mc.gen import array_as, pattern_floats

BOUNDS = {
    "quick": "all arrays of 1-5 estimates over {-1,0,1,2} (1-4 over {-inf,0,1,inf}) x 9 confidences x 5 originals/references; all pairs of "
    "(estimates, reference array) of length 1-4 over {-1,0,1}; all vectors of length 1-4 stacked as trailing elements; ladder over n = 1..60 "
    "and up to 2001; narrow types, estimates one float apart, large arrays",
    "thorough": "1-6 estimates over 4 values, reference arrays to length 5, ladder over every n to 300",
}
ASSUMPTIONS = ["for confidences that are not binary fractions a rank within 1e-9 of a whole number may be rounded either way"]
CONF = [0.95, 0.5, 0.75, 0.875, 0.9, 0.25, 0.99, 0.125, 1e-3]
I = float("inf")


def judge(ctx, est, conf, origs, refs, arr=None):
    a = np.array(est) if arr is None else arr
    LB, UB = ctx.call(bu.percentile, a, conf)
    wl, wu = rs.percentile(est, conf)
    ctx.check(np.ndim(LB) == 0 and np.ndim(UB) == 0, "scalar ends expected", (LB, UB))
    ctx.check(float(LB) in wl, "lower end is not the estimate at its rank", LB, wl)
    ctx.check(float(UB) in wu, "upper end is not the estimate at its rank", UB, wu)
    ctx._out((float(LB), float(UB)))
    for o in origs:
        bl, bu_ = ctx.call(bu.basic, a, o, conf)
        for got, w in ((bl, 2 * o - float(UB)), (bu_, 2 * o - float(LB))):
            ctx.eq(got, w, "basic interval is not the reflection about the original estimate")
        EB = ctx.call(bu.error_bar, a, o, conf)
        ctx.eq(EB, max(float(UB) - o, o - float(LB)), "error bar is not the smallest symmetric bar containing the interval")
    for r in refs:
        p = ctx.call(bu.significance, a, r)
        ctx.eq(p, rs.significance(est, r), "significance is not twice the smaller tail fraction", 1e-12, 1e-13)
        if float(p) >= 1 - conf and np.ndim(r) == 0:
            ctx.check(float(LB) <= r <= float(UB), "p >= 1 - confidence but the interval excludes the reference", (LB, UB, p), r)


def small(maxn, alpha, confs, origs, refs):
    def body(ch, ctx):
        n = ch.pick("n", list(range(1, maxn + 1)))
        est = ch.vec("e", n, alpha)
        conf = ch.pick("confidence", confs)
        judge(ctx, est, conf, origs, refs)
        if conf == 0.95:
            ctx.eq(np.array(ctx.call(bu.percentile, np.array(est))), np.array(ctx.call(bu.percentile, np.array(est), 0.95)), "default confidence", 0, 0)
            ctx.eq(ctx.call(bu.error_bar, np.array(est), 0.5), ctx.call(bu.error_bar, np.array(est), 0.5, 0.95), "default confidence", 0, 0)
            ctx.eq(np.array(ctx.call(bu.basic, np.array(est), 0.5)), np.array(ctx.call(bu.basic, np.array(est), 0.5, 0.95)), "default confidence", 0, 0)

    return body


def infinite_original(ch, ctx):
    """An infinite original estimate: only an infinite bar reaches a finite end."""
    n = ch.pick("n", [1, 2, 3, 4])
    est = ch.vec("e", n, [-I, 0.0, 1.0, I])
    o = ch.pick("original", [-I, I])
    conf = ch.pick("confidence", [0.95, 0.5, 0.25])
    a = np.array(est)
    LB, UB = [float(v) for v in ctx.call(bu.percentile, a, conf)]
    if (UB if o < 0 else LB) == o:
        return  # the whole interval sits at the estimate, no bar is defined
    ctx.eq(ctx.call(bu.error_bar, a, o, conf), I, "error bar about an infinite estimate")


def paired(maxn):
    def body(ch, ctx):
        n = ch.pick("n", list(range(1, maxn + 1)))
        est = ch.vec("e", n, [-1.0, 0.0, 1.0])
        ref = ch.vec("r", n, [-1.0, 0.0, 1.0])
        p = ctx.call(bu.significance, np.array(est), np.array(ref))
        ctx.eq(p, rs.significance(est, ref), "paired significance must pair element by element", 1e-12, 1e-13)
        q = ctx.call(bu.significance, np.array(ref), np.array(est))
        ctx.eq(q, p, "two-sided test is symmetric", 1e-12, 1e-13)

    return body


def trailing(ch, ctx):
    """Every vector of length n over the alphabet is one trailing element."""
    n = ch.pick("n", [1, 2, 3, 4])
    conf = ch.pick("confidence", CONF)
    cols = list(itertools.product([-1.0, 0.0, 2.0], repeat=n))
    shape = ch.pick("shape", ["vec", "mat", "empty", "cube"])
    E = np.array(cols).T  # (n, 3^n)
    if shape == "mat":
        E = E.reshape(n, 3, -1)
    elif shape == "cube":
        E = E.reshape(n, 1, 3, -1)
    elif shape == "empty":
        E = E[:, :0]
    lay = ch.pick("layout", ["C", "F", "view"])
    E = array_as(E, lay)
    orig = np.arange(int(np.prod(E.shape[1:])), dtype=float).reshape(E.shape[1:]) / 4 - 3
    LB, UB = ctx.call(bu.percentile, E, conf)
    bl, bh = ctx.call(bu.basic, E, orig, conf)
    ctx.check(np.shape(LB) == E.shape[1:] == np.shape(UB) == np.shape(bl) == np.shape(bh), "shapes", (np.shape(LB), np.shape(bl)))
    flat = E.reshape(n, -1)
    L, U, B1, B2, O = [np.asarray(v).ravel() for v in (LB, UB, bl, bh, orig)]
    for k in range(flat.shape[1]):
        wl, wu = rs.percentile(flat[:, k], conf)
        ctx.check(L[k] in wl and U[k] in wu, "trailing element %d: interval" % k, (L[k], U[k]), (wl, wu))
    ctx.eq(B1, 2 * O - U, "basic lower end per element")
    ctx.eq(B2, 2 * O - L, "basic upper end per element")


def to_percentiles(ch, ctx):
    c = ch.pick("confidence", CONF + [0.68, 0.999, 1e-9, 1 - 1e-9] + [i / 64.0 for i in range(1, 64)])
    L, U = ctx.call(bu.confidence_to_percentiles, c)
    ctx.eq(L, float(50 * (1 - Fraction(c))), "lower percentile", 1e-9, 1e-12)
    ctx.eq(U, float(50 * (1 + Fraction(c))), "upper percentile", 1e-9, 1e-12)


def ladder(ns):
    def body(ch, ctx):
        n = ch.pick("n", ns)
        conf = ch.pick("confidence", [0.95, 0.5, 0.9, 0.875, 0.99])
        kind = ch.pick("kind", ["distinct", "ties", "int", "sorted", "reversed"])
        est = pattern_floats(n, 2)
        if kind == "ties":
            est = [float(round(v / 4)) for v in est]
        elif kind == "int":
            est = [int(v) for v in est]
        elif kind == "sorted":
            est = [i * 0.5 for i in range(n)]
        elif kind == "reversed":
            est = [-i * 0.5 for i in range(n)]
        judge(ctx, est, conf, [0.5, est[0]], [0.0, est[n // 2], est[-1]], np.array(est))
        ref = [est[(i * 3 + 1) % n] for i in range(n)]
        ctx.eq(ctx.call(bu.significance, np.array(est), np.array(ref)), rs.significance(est, ref), "paired significance", 1e-12, 1e-13)
        if conf == 0.95:
            e = np.array(est)
            ctx.eq(np.array(ctx.call(bu.percentile, e)), np.array(ctx.call(bu.percentile, e, 0.95)), "default confidence", 0, 0)
            ctx.eq(ctx.call(bu.error_bar, e, 0.5), ctx.call(bu.error_bar, e, 0.5, 0.95), "default confidence", 0, 0)
            ctx.eq(np.array(ctx.call(bu.basic, e, 0.5)), np.array(ctx.call(bu.basic, e, 0.5, 0.95)), "default confidence", 0, 0)

    return body


def types(ch, ctx):
    """Estimates of narrow integer types, float32, lists of python numbers."""
    n = ch.pick("n", [1, 2, 3, 8])
    ty = ch.pick("type", ["int64", "int8", "uint8", "float32", "bool", "uint64"])
    v = {"int8": [-128, 127, 0, 127, 5, -128, 1, 64], "bool": [0, 1, 1, 0, 1, 1, 1, 0]}.get(ty, [0, 255, 3, 255, 254, 0, 128, 127])[:n]
    conf = ch.pick("confidence", CONF)
    a = np.array(v).astype(ty)
    est = [float(k) for k in v]
    LB, UB = ctx.call(bu.percentile, a, conf)
    wl, wu = rs.percentile(est, conf)
    ctx.check(float(LB) in wl and float(UB) in wu, "interval ends are not the estimates at their ranks", (LB, UB), (wl, wu))
    if ty != "bool":
        o = ch.pick("original", [0.5, 100.0, -200.0])
        lo, hi = ctx.call(bu.basic, a, o, conf)
        ctx.eq((float(lo), float(hi)), (2 * o - float(UB), 2 * o - float(LB)), "basic interval")
        ctx.eq(ctx.call(bu.error_bar, a, o, conf), max(float(UB) - o, o - float(LB)), "error bar")
    for r in (0.0, 0.5, 127.0, 254.5, -3.0):
        ctx.eq(ctx.call(bu.significance, a, r), rs.significance(est, r), "significance", 1e-12, 1e-13)
    ref = a[::-1].copy()
    ctx.eq(ctx.call(bu.significance, a, ref), rs.significance(est, est[::-1]), "paired significance", 1e-12, 1e-13)


def close(ch, ctx):
    """Estimates and references one float apart, or of huge/tiny scale."""
    n = ch.pick("n", [1, 2, 3])
    base = ch.pick("base", [1.0, 0.1, -1.0, 1e-300, 1e300, 0.0])
    step = np.spacing(base)
    est = [float(base + k * step) for k in ch.vec("e", n, [-1, 0, 1])]
    conf = ch.pick("confidence", [0.95, 0.5])
    r = float(base + ch.pick("r", [-1, 0, 1]) * step)
    LB, UB = ctx.call(bu.percentile, np.array(est), conf)
    wl, wu = rs.percentile(est, conf)
    ctx.check(float(LB) in wl and float(UB) in wu, "interval ends are not the estimates at their ranks", (LB, UB), (wl, wu))
    ctx.eq(ctx.call(bu.significance, np.array(est), r), rs.significance(est, r), "significance", 1e-12, 1e-13)
    ctx.eq(ctx.call(bu.significance, np.array(est), np.array([r] * n)), rs.significance(est, [r] * n), "paired significance", 1e-12, 1e-13)


def large(ch, ctx):
    n = ch.pick("n", [4096, 10001, 70000])
    conf = ch.pick("confidence", [0.95, 0.5, 0.999])
    w = ch.pick("trailing", [0, 1, 3])
    E = np.array([pattern_floats(n, k) for k in range(max(w, 1))]).T + (np.arange(n) * 1e-5)[:, None]
    if w == 0:
        judge(ctx, list(E[:, 0]), conf, [0.5], [0.0, float(E[7, 0])], E[:, 0])
        return
    LB, UB = ctx.call(bu.percentile, E, conf)
    for k in range(w):
        wl, wu = rs.percentile(list(E[:, k]), conf)
        ctx.check(LB[k] in wl and UB[k] in wu, "trailing element %d" % k, (LB[k], UB[k]), (wl, wu))


def rejections(ch, ctx):
    n = ch.pick("n", [1, 2, 3])
    what = ch.pick("fault", ["nan", "nan ref", "nan in ref array", "ref shape", "orig shape", "confidence"])
    e = np.arange(n) * 1.0
    pos = ch.pick("pos", list(range(n)))
    if what == "nan":
        e[pos] = np.nan
        f = ch.pick("f", ["percentile", "basic", "error_bar", "significance"])
        args = dict(percentile=(e, 0.9), basic=(e, 0.5, 0.9), error_bar=(e, 0.5, 0.9), significance=(e, 0.5))[f]
        ctx.rejects("NaN estimate in %s" % f, getattr(bu, f), *args)
        if f in ("percentile", "basic"):
            E = np.zeros((n, 2))
            E[pos, 1] = np.nan
            ctx.rejects("NaN estimate in %s" % f, getattr(bu, f), *((E, 0.9) if f == "percentile" else (E, np.zeros(2), 0.9)))
    elif what == "nan ref":
        ctx.rejects("NaN reference", bu.significance, e, np.nan)
    elif what == "nan in ref array":
        r = np.zeros(n)
        r[pos] = np.nan
        ctx.rejects("NaN in reference array", bu.significance, e, r)
    elif what == "ref shape":
        m = ch.pick("m", [k for k in (1, 2, 3, 4) if k != n])
        ctx.rejects("reference of another length", bu.significance, e, np.zeros(m))
        ctx.rejects("reference of another shape", bu.significance, e, np.zeros((n, 1)))
    elif what == "orig shape":
        ctx.rejects("original of another shape", bu.basic, np.zeros((n, 2)), np.zeros(3), 0.9)
        ctx.rejects("original of another shape", bu.basic, np.zeros((n, 2)), 0.0, 0.9)
        ctx.rejects("original of another shape", bu.basic, e, np.zeros(2), 0.9)
    else:
        c = ch.pick("confidence", [0.0, 1.0, -0.5, 1.5, np.nan, 95.0])
        ctx.rejects("confidence %s" % c, bu.confidence_to_percentiles, c)
        ctx.rejects("confidence %s" % c, bu.percentile, e, c)
        ctx.rejects("confidence %s" % c, bu.basic, e, 0.0, c)
        ctx.rejects("confidence %s" % c, bu.error_bar, e, 0.0, c)


def scenarios(tier):
    th = tier == "thorough"
    ns = list(range(1, 301)) + [500, 999, 1000, 1001, 2000, 2001, 5000] if th else list(range(1, 61)) + [79, 80, 81, 99, 100, 101, 200, 201, 999, 1000, 1001, 2001]
    return [
        ("all small arrays", small(6 if th else 5, [-1.0, 0.0, 1.0, 2.0], CONF if th else CONF[:6], [0.0, 0.5, 3.0], [-2.0, -1.0, 0.0, 0.5, 2.0]), 4),
        ("infinite estimates", small(4, [-I, 0.0, 1.0, I], CONF[:5], [0.0, 2.0], [-I, 0.0, 1.0, I]), 4),
        ("infinite original", infinite_original, 3),
        ("paired significance", paired(5 if th else 4), 4),
        ("trailing elements", trailing, 3),
        ("percentile levels", to_percentiles, 1),
        ("size ladder", ladder(ns), 2),
        ("numeric types", types, 3),
        ("adjacent floats", close, 4),
        ("large arrays", large, 3),
        ("rejections", rejections, 3),
    ]

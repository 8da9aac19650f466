"""C09 clipping of error bars to known limits; agreement of the entry points."""
import math

import numpy as np

from mlpaper import mlpaper as mp

from mc import ref_stats as rs
from mc.env import Script, pattern_rows
from mc.gen import pattern_floats

I, NaN = float("inf"), float("nan")
BOUNDS = {
    "quick": "clip_EB on all (mu, EB, lower, upper, min_EB) of a 7x8x4x4x5 alphabet with infinities and NaN; all samples of length 1-3 over "
    "{-1,0,1,2} x 5 limit pairs x 4 minimum bars x 3 confidences x 3 methods x 3 entry points (boot: two scripted 1000-replicate outcomes); "
    "samples constant at a limit for n to 1000; every out-of-limits position; large samples; narrow types; entry points at scales 2^-40..2^40, clipping at 2^-60..2^200",
    "thorough": "lengths to 4 and a 9-valued clip_EB alphabet",
}
ASSUMPTIONS = ["bootstrap entry points use 1000 replicates by default (scripted cyclically, any number is accepted)"]


def clip(th):
    def body(ch, ctx):
        lo = ch.pick("lower", [0.0, -1.0, -I, 0.5])
        hi = ch.pick("upper", [1.0, 2.0, I, 0.5])
        mu = ch.pick("mu", [0.5, 0.0, 1.0, -0.75, 1.9, NaN, I, -I] + ([0.25, -1.0] if th else []))
        EB = ch.pick("EB", [0.0, 0.25, 0.5, 0.75, 1.0, 3.0, 1e9, I, NaN] + ([0.6, 2.0] if th else []))
        m = ch.pick("min_EB", [None, 0.0, 0.125, 0.25, 0.5, 0.75])
        mm = 0.0 if m is None else m
        args = (mu, EB, lo, hi) if m is None else (mu, EB, lo, hi, m)
        if lo > hi:
            return
        if lo > mu or mu > hi:
            ctx.rejects("estimate outside the limits", mp.clip_EB, *args)
            return
        if 2 * mm > hi - lo:
            ctx.rejects("minimum bar too big for the limits", mp.clip_EB, *args)
            return
        got = float(ctx.call(mp.clip_EB, *args))
        want = rs.clip_EB(mu, EB, lo, hi, mm)
        ctx.eq(got, want, "clipped error bar", 0, 0)
        if math.isnan(EB):
            ctx.check(math.isnan(got), "a NaN bar must stay NaN", got)
        elif not (math.isnan(mu) or math.isinf(mu)):
            cover = max(hi - mu, mu - lo)
            ctx.check(got <= cover, "larger than needed to cover the limits", got, cover)
            ctx.check(got >= min(EB, cover) and got >= mm, "smaller than the bar or the minimum bar", got, (EB, mm))
            a = (max(lo, mu - max(EB, mm)), min(hi, mu + max(EB, mm)))
            b = (max(lo, mu - got), min(hi, mu + got))
            ctx.check(a == b, "covered part of the allowed range changed", b, a)
        if m is None and lo == -I and hi == I:
            ctx.eq(ctx.call(mp.clip_EB, mu, EB), EB, "default limits are infinite", 0, 0)

    return body


def clip_scales(ch, ctx):
    """The same at every scale and far from zero (dyadic numbers: no rounding)."""
    s = ch.pick("scale", [2.0 ** -60, 2.0 ** -34, 2.0 ** -20, 2.0 ** 20, 2.0 ** 40, 2.0 ** 200])
    off = ch.pick("offset", [0.0, 2.0 ** 12, -(2.0 ** 12)]) * s
    lo = ch.pick("lower", [0.0, -1.0, -I]) * s + off
    hi = ch.pick("upper", [1.0, 2.0, I]) * s + off
    mu = ch.pick("mu", [0.5, 0.0, 1.0]) * s + off
    EB = ch.pick("EB", [0.0, 2.0 ** -20, 0.25, 1.0, 3.0, I]) * s
    m = ch.pick("min_EB", [0.0, 0.125, 0.5]) * s
    kind = ch.pick("kind", [float, np.float64, np.array])
    got = ctx.call(mp.clip_EB, kind(mu), kind(EB), kind(lo), kind(hi), kind(m))
    ctx.eq(float(got), rs.clip_EB(mu, EB, lo, hi, m), "clipped error bar", 0, 0)


def refs(x, lo, hi, conf, method, rows=None):
    if method == "t":
        return [rs.t_EB(x, conf)], rs.t_p(x)
    if method == "bernstein":
        return [rs.bern_EB(x, lo, hi, conf)], rs.bern_p(x, lo, hi)
    if rs.degenerate(x):
        return [I], 1.0
    est = rs.boot_means(x, rows)
    return rs.error_bars(est, rs.mean(x), conf), rs.significance(est, 0.0)


def compare(ctx, x, xa, lo, hi, conf, min_EB, method, rows, how=0):
    EBs, p = refs(x, lo, hi, conf, method, rows)
    mu = rs.mean(x)
    if not math.isnan(mu):
        mu = min(max(mu, lo), hi)
    want = [rs.clip_EB(mu, e, lo, hi, min_EB) for e in EBs]
    sc = max([1e-300] + [abs(v) for v in x if not math.isinf(v)])
    kw = dict(confidence=conf, min_EB=min_EB, lower=lo, upper=hi, method=method)

    def run(f, *a, **k):
        if method != "boot":
            return ctx.call(f, *a, **k)
        with Script(rows=rows, repeat=True) as s:
            r = ctx.call(f, *a, **k)
        s.settled(must_draw=not rs.degenerate(x))
        return r

    if how == 0:
        r3 = run(mp.get_mean_EB_test, xa, **kw)
        r2 = run(mp.get_mean_and_EB, xa, **kw)
        r1 = run(mp.get_test, xa, lower=lo, upper=hi, method=method)
    else:  # positional
        r3 = run(mp.get_mean_EB_test, xa, conf, min_EB, lo, hi, method)
        r2 = run(mp.get_mean_and_EB, xa, conf, min_EB, lo, hi, method)
        r1 = run(mp.get_test, xa, lo, hi, method)
    for name, m in (("get_mean_EB_test", r3[0]), ("get_mean_and_EB", r2[0])):
        ctx.eq(m, mu, "%s: mean" % name, 1e-9, 1e-12 * sc)
        if not math.isnan(mu):
            ctx.check(lo <= float(m) <= hi, "%s: mean outside the limits" % name, m, (lo, hi))
    for name, e in (("get_mean_EB_test", r3[1]), ("get_mean_and_EB", r2[1])):
        ctx.check(rs.near(e, want, 1e-8, 1e-10 * sc), "%s: %s error bar clipped to the limits" % (name, method), e, want)
    for name, q in (("get_mean_EB_test", r3[2]), ("get_test", r1)):
        ctx.eq(q, p, "%s: %s p-value" % (name, method), 1e-7, 1e-9)
    ctx.eq((r2[0], r2[1]), (r3[0], r3[1]), "entry points disagree on mean or bar", 1e-12, 0)
    ctx.eq(r1, r3[2], "entry points disagree on the p-value", 1e-12, 0)


LIMS = [(-I, I), (-1.0, 2.0), (-4.0, 4.0), (-1.0, I), (-50.0, 2.0)]


def entries(maxn, alpha):
    def body(ch, ctx):
        n = ch.pick("n", list(range(1, maxn + 1)))
        x = ch.vec("x", n, alpha)
        method = ch.pick("method", ["t", "bernstein", "boot"])
        lo, hi = ch.pick("limits", LIMS)
        min_EB = ch.pick("min_EB", [0.0, 0.3, 1.5] if method != "boot" else [0.0, 0.3])
        conf = ch.pick("confidence", [0.95, 0.5, 0.75] if method != "boot" else [0.5])
        rows = pattern_rows(n, 1000, ch.pick("outcome", [0, 2])) if method == "boot" else None
        if lo > min(x) or hi < max(x):
            return
        if 2 * min_EB > hi - lo:
            return
        compare(ctx, x, np.array(x), lo, hi, conf, min_EB, method, rows)

    return body


def defaults(ch, ctx):
    """Default method, confidence, limits and minimum bar of every entry point."""
    n = ch.pick("n", [1, 2, 3, 10])
    x = pattern_floats(n, ch.pick("salt", [0, 1, 2]))
    xa = np.array(x)
    mu, EB, p = ctx.call(mp.get_mean_EB_test, xa)
    ctx.eq((mu, EB, p), (rs.mean(x), rs.t_EB(x, 0.95), rs.t_p(x)), "defaults are t, 95%, no limits", 1e-8, 1e-10)
    mu, EB = ctx.call(mp.get_mean_and_EB, xa)
    ctx.eq((mu, EB), (rs.mean(x), rs.t_EB(x, 0.95)), "defaults are t, 95%, no limits", 1e-8, 1e-10)
    ctx.eq(ctx.call(mp.get_test, xa), rs.t_p(x), "default test is t", 1e-8, 1e-10)


def positional(ch, ctx):
    n = ch.pick("n", [2, 3, 7, 40])
    x = [v / 8.0 for v in pattern_floats(n, ch.pick("salt", [0, 3]))]
    method = ch.pick("method", ["t", "bernstein", "boot"])
    min_EB = ch.pick("min_EB", [0.0, 0.7])
    conf = ch.pick("confidence", [0.875, 0.5])
    w = ch.pick("width", [0.0, 3.0])
    rows = pattern_rows(n, 1000, 1)
    x = [round(v * 16) / 16.0 for v in x]
    lo, hi = min(x) - w, max(x) + w
    if 2 * min_EB > hi - lo:
        return
    compare(ctx, x, np.array(x), lo, hi, conf, min_EB, method, rows, 1)


def at_limit(ch, ctx):
    """A constant sample at a limit: round-off in the mean is not a violation."""
    n = ch.pick("n", [1, 2, 3, 5, 6, 7, 9, 10, 11, 23, 100, 999, 1000])
    c = ch.pick("c", [0.1, 1.0, 0.3, -0.7, 1e-3, 1.1, 0.0])
    side = ch.pick("side", ["upper", "lower", "both"])
    method = ch.pick("method", ["t", "bernstein", "boot"])
    lo, hi = dict(upper=(c - 1.0, c), lower=(c, c + 1.0), both=(c, c))[side]
    x = np.array([c] * n)
    np.random.seed(3)
    for f in (mp.get_mean_EB_test, mp.get_mean_and_EB):
        r = ctx.call(f, x, lower=lo, upper=hi, method=method)
        ctx.eq(r[0], c, "mean of a constant", 1e-12, 1e-15)
        ctx.check(lo <= r[0] <= hi, "mean outside limits", r[0], (lo, hi))
        ctx.check(0 <= r[1] <= hi - lo + 1e-15, "bar beyond the limits", r[1], hi - lo)


def infinite(ch, ctx):
    n = ch.pick("n", [1, 2, 3])
    x = ch.vec("x", n, [0.0, 1.0, I, -I])
    method = ch.pick("method", ["t", "bernstein", "boot"])
    lim = ch.pick("limits", [(-I, I), (0.0, I)])
    if lim[0] > min(x) or not rs.degenerate(x):
        return
    if I in x and -I in x:
        # mean is NaN: bar infinite, p-value 1
        r = ctx.call(mp.get_mean_EB_test, np.array(x), lower=lim[0], upper=lim[1], method=method)
        ctx.eq(r, (NaN, I, 1.0), "sample with both infinities")
        return
    compare(ctx, x, np.array(x), lim[0], lim[1], 0.9, 0.0, method, None)


def large(ch, ctx):
    n = ch.pick("n", [1025, 20000])
    method = ch.pick("method", ["t", "bernstein"])
    off = ch.pick("offset", [0.0, 1e4, -1e4])
    min_EB = ch.pick("min_EB", [0.0, 0.7])
    lim = ch.flag("limits")
    x = [v + off for v in pattern_floats(n, 5)]
    lo, hi = (min(x), max(x) + 1.0) if lim else (-I, I)
    compare(ctx, x, np.array(x), lo, hi, 0.95, min_EB, method, None)


def scales(ch, ctx):
    """Entry points on samples of every scale, with limits and minimum bar of that scale."""
    s = ch.pick("scale", [2.0 ** -40, 2.0 ** -20, 2.0 ** 20, 2.0 ** 40])
    method = ch.pick("method", ["t", "bernstein", "boot"])
    n = ch.pick("n", [2, 3, 8])
    x = [v * s for v in ([0.25, 1.0, 0.5, 0.75, 0.0, 1.0, 0.125, 0.5][:n] if ch.flag("spread") else [0.5, 0.5625] * (n // 2) + [0.5] * (n % 2))]
    lo, hi = ch.pick("limits", [(-I, I), (0.0, 1.0), (-4.0, I), (-64.0, 64.0)])
    min_EB = ch.pick("min_EB", [0.0, 0.0625, 0.5]) * s
    conf = ch.pick("confidence", [0.95, 0.5])
    compare(ctx, x, np.array(x), lo * s, hi * s, conf, min_EB, method, pattern_rows(n, 1000, 1) if method == "boot" else None)


def types(ch, ctx):
    ty = ch.pick("type", ["int64", "int8", "uint8", "uint64", "int32"])
    method = ch.pick("method", ["t", "bernstein", "boot"])
    n = ch.pick("n", [1, 2, 5])
    lo, hi = ch.pick("limits", [(-I, I), (0, 255), (0.0, 255.0), (-5, 1000)])
    v = ([0, 120, 7, 120, 120] if ty == "int8" else [0, 250, 249, 250, 16])[:n]
    compare(ctx, [float(k) for k in v], np.array(v, dtype=ty), lo, hi, 0.5, 0.0, method, pattern_rows(n, 1000, 1) if method == "boot" else None)


def rejections(ch, ctx):
    n = ch.pick("n", [1, 2, 3])
    method = ch.pick("method", ["t", "bernstein", "boot"])
    f = ch.pick("f", ["both", "EB", "test"])
    x = np.array([0.25, 0.5, 0.75])[:n]
    what = ch.pick("fault", ["above", "below", "min_EB", "nan", "barely"])
    pos = ch.pick("pos", list(range(n)))
    kw = dict(lower=0.0, upper=1.0, method=method)
    if what == "above":
        x[pos] = 1.25
    elif what == "below":
        x[pos] = -0.25
    elif what == "barely":
        x[pos] = np.nextafter(1.0, 2.0)
    elif what == "nan":
        x[pos] = np.nan
    elif what == "min_EB":
        if f == "test":
            return
        kw["min_EB"] = ch.pick("min_EB", [0.51, 3.0])
    g = dict(both=mp.get_mean_EB_test, EB=mp.get_mean_and_EB, test=mp.get_test)[f]
    if f == "test" and method != "bernstein" and what != "nan":
        return  # without limits to use the plain tests ignore them
    ctx.rejects("%s with fault %s" % (f, what), g, x, **kw)


def scenarios(tier):
    th = tier == "thorough"
    return [
        ("clip_EB", clip(th), 3),
        ("clip_EB at every scale", clip_scales, 3),
        ("entry points at every scale", scales, 3),
        ("entry points", entries(4 if th else 3, [-1.0, 0.0, 1.0, 2.0] if th else [-1.0, 0.0, 2.0]), 5),
        ("defaults", defaults, 2),
        ("positional arguments", positional, 4),
        ("constant at a limit", at_limit, 3),
        ("infinite samples", infinite, 3),
        ("rejections", rejections, 4),
        ("large samples", large, 3),
        ("numeric types", types, 3),
    ]

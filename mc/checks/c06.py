"""C06 Bernstein error bar and test; exact coverage by enumerating all samples."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mlpaper import mlpaper as mp

from mc import ref_stats as rs
from mc.gen import compositions, pattern_floats

BOUNDS = {
    "quick": "all samples of length 0-4 over {-1,0,1,2} within 5 limit pairs, 8 confidences; limits infinite/zero width; coverage: every outcome of "
    "every Bernoulli(k/16) sample of size 1..120 (by count) and every outcome of every 3-point distribution (weights k/4) of size 1..12; samples to 10000 values, 1e-9..1e9 scales, narrow integer and float types",
    "thorough": "lengths to 6, coverage to size 400 (Bernoulli k/32) and 24 (3-point, weights k/8)",
}
ASSUMPTIONS = ["boundary between interval and p-value judged outside a 1e-9 band"]
CONF = [0.95, 0.5, 0.9, 0.99, 1e-6, 0.999999, 0.68, 0.25]
I = float("inf")
LIMS = [(-1.0, 2.0), (-5.0, 5.0), (-1.0, 100.0), (-1e6, 2.0), (-I, I), (-1.0, I), (-I, 2.0)]


def judge(ctx, x, xa, lo, hi, conf, kw=False):
    EB = ctx.call(mp.bernstein_EB, xa, lo, hi, confidence=conf) if kw else ctx.call(mp.bernstein_EB, xa, lo, hi, conf)
    p = ctx.call(mp.bernstein_test, xa, lo, hi)
    ctx.check(np.ndim(EB) == 0 and np.ndim(p) == 0, "scalars expected", (EB, p))
    ctx.eq(EB, rs.bern_EB(x, lo, hi, conf), "Bernstein error bar", 1e-8, 1e-10)
    ctx.eq(p, rs.bern_p(x, lo, hi), "Bernstein p-value", 1e-7, 1e-11)
    if not rs.degenerate(x) and 0 < hi - lo < I:
        m = abs(rs.mean(x))
        if abs(float(p) - (1 - conf)) > 1e-9 and abs(m - float(EB)) > 1e-9:
            ctx.check((m > float(EB)) == (float(p) < 1 - conf), "bound and p-value disagree about zero", (EB, p), (m, conf))


def small(maxn):
    def body(ch, ctx):
        n = ch.pick("n", list(range(maxn + 1)))
        x = ch.vec("x", n, [-1.0, 0.0, 1.0, 2.0])
        lo, hi = ch.pick("limits", LIMS)
        conf = ch.pick("confidence", CONF)
        judge(ctx, x, np.array(x), lo, hi, conf)
        if conf == 0.95:
            ctx.eq(ctx.call(mp.bernstein_EB, np.array(x), lo, hi), rs.bern_EB(x, lo, hi, 0.95), "default confidence is 95%", 1e-8, 1e-10)

    return body


def nonfinite(ch, ctx):
    n = ch.pick("n", [1, 2, 3])
    x = ch.vec("x", n, [0.0, 1.0, I, -I])
    judge(ctx, x, np.array(x), -I, I, ch.pick("confidence", [0.95, 0.5]))


def zero_range(ch, ctx):
    n = ch.pick("n", [0, 1, 2, 3, 10])
    c = ch.pick("c", [0.0, 1.0, -0.1, 1e6])
    conf = ch.pick("confidence", [0.95, 0.5])
    x = [c] * n
    judge(ctx, x, np.array(x), c, c, conf)


def strong(ch, ctx):
    """Large samples far from zero: small p-values are exact too."""
    n = ch.pick("n", [2, 5, 20, 64, 100, 101, 300, 1000])
    k = ch.pick("zeros", [0, 1, 2])
    form = ch.pick("form", ["float", "int", "view"])
    lo, hi = ch.pick("limits", [(0.0, 1.0), (-1.0, 1.0), (-2.0, 2.0), (0.0, 50.0)])
    sg = ch.pick("sign", [1, -1])
    x = [0.0 if i * 7 % n < k else 1.0 for i in range(n)]
    if sg < 0:
        x, lo, hi = [-v for v in x], -hi, -lo
    xa = np.array(x)
    if form == "int":
        xa = xa.astype(int)
    elif form == "view":
        z = np.full(2 * n, 0.5)
        z[::2] = xa
        xa = z[::2]
    judge(ctx, x, xa, lo, hi, 0.95, True)


def ladder(ch, ctx):
    n = ch.pick("n", [1, 2, 3, 7, 17, 64, 129, 500, 1000])
    salt = ch.pick("salt", [0, 1, 5])
    off = ch.pick("offset", [0.0, 3.0, -8.0])
    w = ch.pick("width", [0.0, 1.0, 50.0])
    conf = ch.pick("confidence", [0.95, 0.6])
    x = [v + off for v in pattern_floats(n, salt)]
    judge(ctx, x, np.array(x), min(x) - w, max(x) + w, conf)


def large(ch, ctx):
    n = ch.pick("n", [1025, 4097, 20000, 70000])
    off = ch.pick("offset", [0.0, -8.0, 1e5])
    w = ch.pick("width", [0.0, 50.0])
    conf = ch.pick("confidence", [0.95, 0.6])
    x = [v + off for v in pattern_floats(n, 4)]
    judge(ctx, x, np.array(x), min(x) - w, max(x) + w, conf)


def types(ch, ctx):
    """Narrow and unsigned integers, float32, lists; integer limits."""
    n = ch.pick("n", [2, 3, 5])
    ty = ch.pick("type", ["int64", "int8", "uint8", "float32", "bool", "uint64"])
    il = ch.flag("integer limits")
    lo, hi = ch.pick("limits", [(0, 255), (-10, 300), (0, 100000)])
    conf = ch.pick("confidence", [0.95, 0.5])
    v = [[1, 0, 1, 1, 0], [0, 120, 7, 120, 120], [0, 250, 249, 250, 0]][0 if ty == "bool" else 1 if ty == "int8" else 2][:n]
    xa = np.array(v).astype(ty)
    if not il:
        lo, hi = float(lo), float(hi)
    x = [float(k) for k in v]
    tol = ty == "float32"
    EB = ctx.call(mp.bernstein_EB, xa, lo, hi, conf)
    p = ctx.call(mp.bernstein_test, xa, lo, hi)
    ctx.eq(EB, rs.bern_EB(x, lo, hi, conf), "Bernstein error bar", 1e-5 if tol else 1e-8, 1e-10)
    ctx.eq(p, rs.bern_p(x, lo, hi), "Bernstein p-value", 1e-4 if tol else 1e-7, 1e-11)


def scales(ch, ctx):
    """Both bar and limits in other units: bar scales, p stays."""
    n = ch.pick("n", [2, 3, 6])
    s = ch.pick("scale", [1e-9, 1e-3, 1e6, 1e12])
    x = [s * v for v in ch.vec("x", min(n, 3), [-1.0, 0.0, 2.0]) * (n // min(n, 3))]
    lo, hi = ch.pick("limits", [(-1.0, 2.0), (-3.0, 4.0)])
    conf = ch.pick("confidence", [0.95, 0.5])
    EB = ctx.call(mp.bernstein_EB, np.array(x), lo * s, hi * s, conf)
    p = ctx.call(mp.bernstein_test, np.array(x), lo * s, hi * s)
    ctx.eq(EB, rs.bern_EB(x, lo * s, hi * s, conf), "Bernstein error bar", 1e-8, 1e-12 * s)
    ctx.eq(p, rs.bern_p(x, lo * s, hi * s), "Bernstein p-value", 1e-7, 1e-11)


def rejections(ch, ctx):
    n = ch.pick("n", [1, 2, 3])
    f = ch.pick("function", ["EB", "test"])
    call = (lambda x, lo, hi, c=0.9: (mp.bernstein_EB, x, lo, hi, c)) if f == "EB" else (lambda x, lo, hi, c=None: (mp.bernstein_test, x, lo, hi))
    what = ch.pick("fault", ["above", "below", "nan", "crossed", "confidence", "barely"])
    x = np.array([0.25, 0.5, 0.75])[:n]
    pos = ch.pick("pos", list(range(n)))
    if what == "above":
        x[pos] = 1.5
        ctx.rejects("value above the upper limit", *call(x, 0.0, 1.0))
    elif what == "below":
        x[pos] = -0.5
        ctx.rejects("value below the lower limit", *call(x, 0.0, 1.0))
    elif what == "barely":
        x[pos] = np.nextafter(1.0, 2.0) if ch.flag("up") else np.nextafter(0.0, -1.0)
        ctx.rejects("value just outside the limits", *call(x, 0.0, 1.0))
    elif what == "nan":
        x[pos] = np.nan
        ctx.rejects("NaN in the sample", *call(x, *ch.pick("limits", [(0.0, 1.0), (-I, I)])))
    elif what == "crossed":
        ctx.rejects("limits the wrong way round", *call(x, 1.0, 0.0))
    elif f == "EB":
        c = ch.pick("confidence", [0.0, 1.0, -0.1, 1.1, np.nan])
        ctx.rejects("confidence %s" % c, *call(x, 0.0, 1.0, c))


def bernoulli_cover(nmax, den):
    def body(ch, ctx):
        """All 2^N samples (grouped by count) of every Bernoulli(k/den)."""
        N = ch.pick("N", nmax)
        conf = ch.pick("confidence", [0.5, 0.8, 0.95])
        eb = []
        for k in range(N + 1):
            x = np.array([1.0] * k + [0.0] * (N - k))
            eb.append(float(ctx.call(mp.bernstein_EB, x, 0.0, 1.0, conf)))
        for j in range(0, den + 1):
            th = Fraction(j, den)
            cov = Fraction(0)
            for k in range(N + 1):
                if abs(Fraction(k, N) - th) <= Fraction(eb[k] + 1e-12):
                    cov += math.comb(N, k) * th ** k * (1 - th) ** (N - k)
            ctx.check(cov >= Fraction(conf) - Fraction(1, 10 ** 9), "coverage below the confidence (theta=%s, N=%d)" % (th, N), float(cov), conf)
        ctx.same(True, True, "coverage")

    return body


def three_point_cover(nmax, den):
    def body(ch, ctx):
        N = ch.pick("N", list(range(1, nmax + 1)))
        sup = ch.pick("support", [(0.0, 0.5, 1.0), (0.0, 0.125, 1.0), (0.25, 0.5, 1.0)])
        conf = ch.pick("confidence", [0.5, 0.95])
        outs = []
        for c in compositions(N, 3):
            x = [sup[0]] * c[0] + [sup[1]] * c[1] + [sup[2]] * c[2]
            e = float(ctx.call(mp.bernstein_EB, np.array(x), 0.0, 1.0, conf))
            m = sum(Fraction(v) for v in x) / N
            mult = math.factorial(N) // (math.factorial(c[0]) * math.factorial(c[1]) * math.factorial(c[2]))
            outs.append((c, m, Fraction(e + 1e-12), mult))
        for w in compositions(den, 3):
            q = [Fraction(v, den) for v in w]
            th = sum(a * Fraction(b) for a, b in zip(q, sup))
            cov = sum((mult * q[0] ** c[0] * q[1] ** c[1] * q[2] ** c[2] for c, m, e, mult in outs if abs(m - th) <= e), Fraction(0))
            ctx.check(cov >= Fraction(conf) - Fraction(1, 10 ** 9), "coverage below the confidence (weights %s, N=%d)" % (w, N), float(cov), conf)
        ctx.same(True, True, "coverage")

    return body


def scenarios(tier):
    th = tier == "thorough"
    return [
        ("small samples", small(5 if th else 4), 3),
        ("non-finite samples", nonfinite, 3),
        ("zero range", zero_range, 2),
        ("strong evidence", strong, 3),
        ("size ladder", ladder, 3),
        ("large samples", large, 3),
        ("numeric types", types, 3),
        ("scales", scales, 3),
        ("rejections", rejections, 3),
        ("coverage, all Bernoulli samples", bernoulli_cover([1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 120] + ([200, 300, 400] if th else []), 32 if th else 16), 2),
        ("coverage, all 3-point samples", three_point_cover(20 if th else 10, 8 if th else 4), 2),
    ]

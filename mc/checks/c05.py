"""C05 t error bar and p-value."""
import math

import numpy as np

from mlpaper import mlpaper as mp

from mc import ref_stats as rs
from mc.gen import array_as, pattern_floats

BOUNDS = {
    "quick": "all samples of length 0-4 over {-1,0,1,2.5} and 0-3 over {+-inf, ...}, 8 confidences; constants of every listed size; NaN at every "
    "position; size ladder to 1000 with offsets and scales, samples to 70000; offsets to 2^40; p-values down to 1e-290 to six digits; eight narrow or unsigned types",
    "thorough": "lengths to 6 over 4 values and to 5 over 6 values, 12 confidences, ladder over every n to 200",
}
ASSUMPTIONS = ["scipy.special.stdtr/stdtrit give the Student-t distribution", "agreement at the exact boundary is judged outside a 1e-9 band"]
CONF = [0.95, 0.5, 0.9, 0.99, 1e-6, 0.999999, 0.68, 0.25]


def judge(ctx, x, xa, conf, rtol=1e-8):
    EB = ctx.call(mp.t_EB, xa, conf)
    ctx.check(np.ndim(EB) == 0, "error bar must be a scalar", EB)
    p = ctx.call(mp.t_test, xa)
    ctx.check(np.ndim(p) == 0, "p-value must be a scalar", p)
    scale = max([abs(v) for v in x if not math.isinf(v)] + [1e-300])
    ctx.eq(EB, rs.t_EB(x, conf), "t error bar is not the two-sided half width", rtol, 1e-12 * scale)
    ctx.eq(p, rs.t_p(x), "t-test p-value", 1e-7, 1e-9)
    if not rs.degenerate(x) and not rs.constant(x):
        m = rs.mean(x)
        if abs(float(p) - (1 - conf)) > 1e-9 and abs(abs(m) - float(EB)) > 1e-9 * scale:
            ctx.check(
                (abs(m) > float(EB)) == (float(p) < 1 - conf), "interval and p-value disagree about zero", (EB, p), (m, conf)
            )


def small(maxn, alpha, confs):
    def body(ch, ctx):
        n = ch.pick("n", list(range(maxn + 1)))
        x = ch.vec("x", n, alpha)
        conf = ch.pick("confidence", confs)
        judge(ctx, x, np.array(x, dtype=float), conf)
        if conf == 0.95:
            ctx.eq(ctx.call(mp.t_EB, np.array(x, dtype=float)), rs.t_EB(x, 0.95), "default confidence is 95%", 1e-8, 1e-12)

    return body


def constants(ch, ctx):
    n = ch.pick("n", [2, 3, 5, 7, 10, 11, 33, 100, 1000])
    c = ch.pick("c", [0.0, 1.0, -2.5, 0.1, -0.3, 1e-8, 1e8, 1e-120, -0.0, 3e-200])
    conf = ch.pick("confidence", [0.95, 0.5])
    x = [c] * n
    EB = ctx.call(mp.t_EB, np.array(x), conf)
    ctx.eq(EB, 0.0, "constant sample: error bar 0", 0, 1e-12 * abs(c))
    p = ctx.call(mp.t_test, np.array(x))
    ctx.eq(p, 1.0 if c == 0.0 else 0.0, "constant sample: p is 1 if zero, else 0", 0, 1e-9)


def forms(ch, ctx):
    """Integer arrays, lists, strided views, float32: same answers."""
    n = ch.pick("n", [2, 3, 4])
    x = ch.vec("x", n, [-3, 0, 1, 5])
    form = ch.pick("form", ["int64", "int32", "list", "view", "rev", "float32", "bool"])
    if form == "bool":
        x = [1 if v > 0 else 0 for v in x]
        return
    xa = list(x) if form == "list" else array_as(x, form) if form in ("view", "rev") else np.array(x).astype(form)
    judge(ctx, [float(v) for v in x], xa, 0.9, 1e-5 if form == "float32" else 1e-8)


def narrow(ch, ctx):
    """Narrow integer types whose squares or sums do not fit the type."""
    ty = ch.pick("type", ["int8", "uint8", "int16", "uint16", "uint64"])
    n = ch.pick("n", [2, 3, 4, 40])
    alpha = {"int8": [-128, 127, 100, 0], "uint8": [0, 255, 200, 3], "int16": [-32768, 32767, 300, 0], "uint16": [0, 65535, 60000, 5], "uint64": [0, 2 ** 40, 7, 2 ** 40 - 1]}[ty]
    x = ch.vec("x", n, alpha) if n < 5 else [alpha[(i * i + i // 3) % 4] for i in range(n)]
    conf = ch.pick("confidence", [0.95, 0.5])
    judge(ctx, [float(v) for v in x], np.array(x).astype(ty), conf)


def scaled(ch, ctx):
    """Scale invariance of p, equivariance of the bar, sign symmetry."""
    n = ch.pick("n", [2, 3])
    x = ch.vec("x", n, [-1.0, 0.0, 1.0, 2.5])
    s = ch.pick("scale", [1e-6, 1e6, -1.0, 1e-30, 1e30])
    judge(ctx, [v * s for v in x], np.array(x) * s, 0.95)


def rejections(ch, ctx):
    n = ch.pick("n", [0, 1, 2, 3, 5])
    what = ch.pick("fault", ["nan", "confidence"])
    x = np.array([0.5, -1.0, 2.0, np.inf, 1.0])[:n]
    if what == "nan":
        if n == 0:
            return
        x[ch.pick("pos", list(range(n)))] = np.nan
        f = ch.pick("function", ["EB", "test"])
        ctx.rejects("NaN in the sample", *((mp.t_EB, x, 0.9) if f == "EB" else (mp.t_test, x)))
    else:
        c = ch.pick("confidence", [0.0, 1.0, -0.1, 1.1, np.nan, np.inf, 95.0])
        ctx.rejects("confidence %s" % c, mp.t_EB, x, c)


def ladder(ns):
    def body(ch, ctx):
        n = ch.pick("n", ns)
        salt = ch.pick("salt", [0, 3, 8])
        off = ch.pick("offset", [0.0, 1.0, -40.0])
        conf = ch.pick("confidence", [0.95, 0.8])
        x = [v + off for v in pattern_floats(n, salt)]
        judge(ctx, x, np.array(x), conf, 1e-7)

    return body


def large(ch, ctx):
    n = ch.pick("n", [2047, 3000, 5000, 10001, 20000, 70000])
    off = ch.pick("offset", [0.0, -40.0, 1e6])
    sc = ch.pick("scale", [1.0, 1e-7])
    conf = ch.pick("confidence", [0.95, 0.999, 0.3])
    x = [v * sc + off * sc for v in pattern_floats(n, 2)]
    judge(ctx, x, np.array(x), conf, 1e-6 if off == 1e6 else 1e-7)


def clear(ch, ctx):
    """Differences so clear that the p-value is tiny: it keeps its digits."""
    n = ch.pick("n", [3, 5, 10, 30, 60, 200])
    off = ch.pick("offset", [2.0, 5.0, 10.0, -20.0, 1000.0, -3e4])
    sp = ch.pick("spread", [1.0, 0.25])
    x = [off + sp * ((i * 5) % 7 - 3) / 8.0 for i in range(n)]
    p = ctx.call(mp.t_test, np.array(x))
    want = rs.t_p(x)
    if want > 1e-290:
        ctx.eq(p, want, "t-test p-value", 1e-6, 0)


def offsets(ch, ctx):
    """Values far from zero compared with their spread."""
    n = ch.pick("n", [2, 3, 4])
    x = ch.vec("x", n, [-1.0, 0.0, 2.0])
    off = ch.pick("offset", [2.0 ** 20, -(2.0 ** 30), 2.0 ** 40])
    judge(ctx, [v + off for v in x], np.array(x) + off, ch.pick("confidence", [0.95, 0.5]), 1e-7)


def ladder_inf(ch, ctx):
    n = ch.pick("n", [1, 2, 3, 10, 50])
    pos = ch.pick("pos", sorted({0, n // 2, n - 1}))
    v = ch.pick("inf", [np.inf, -np.inf])
    both = ch.flag("both signs")
    x = pattern_floats(n, 1)
    x[pos] = v
    if both and n > 1:
        x[(pos + 1) % n] = -v
    judge(ctx, x, np.array(x), 0.95)


def scenarios(tier):
    th = tier == "thorough"
    I = float("inf")
    return [
        ("narrow types", narrow, 3),
        ("small samples", small(6 if th else 4, [-1.0, 0.0, 1.0, 2.5], CONF + ([0.75, 0.05, 0.9999, 0.5001] if th else [])), 4),
        ("with infinities", small(4 if th else 3, [0.0, 1.5, I, -I], [0.95, 0.5]), 4),
        ("near zero mean", small(5 if th else 4, [-0.1, 0.1, 0.3, -0.2], [0.95, 0.5]), 4),
        ("constants", constants, 3),
        ("array forms", forms, 4),
        ("scales", scaled, 4),
        ("rejections", rejections, 3),
        ("size ladder", ladder([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 20, 30, 31, 64, 100, 101, 500, 1000] if not th else list(range(2, 200)) + [1000, 5000]), 3),
        ("large samples", large, 3),
        ("far from zero", offsets, 3),
        ("clear differences", clear, 3),
        ("infinities in larger samples", ladder_inf, 3),
    ]

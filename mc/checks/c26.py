"""C26 tie-breaking and ordering helpers keep order and encode exactly."""
import math

import numpy as np

from mlpaper import util as ut

from mc import gen
from mc.env import Script

INF = float("inf")
BOUNDS = {
    "quick": "noise: every vector of 1-3 values over 7 levels (several scales, and mixed scales 2^-60..2^30) x every assignment of 6 random draws to it x 3 noise limits, 4 values over 4 levels x 4 draws; strict increase: every sequence of "
    "0-5 values over 8 floats including neighbours one float apart, zeros, subnormals and the largest float; one-hot: every label vector of 0-5 labels, 1-4 classes, "
    "7 integer types; normalization: every row of 1-3 log scores over 9 values (to 1e4 apart, impossible labels) and pairs of rows; narrow types, long sequences; real draws; more than 256 labels",
    "thorough": "4 values over 7 levels x 6 draws; 7 values to strict increase; 4-class rows",
}
ASSUMPTIONS = [
    "values and draws are dyadic so the promised order is exact; a draw within one float of 1 can round onto its neighbour",
    "a row of log scores has at least one possible label and no +infinity",
    "the noise comes from numpy's global random source",
]
UNITS = [0.5, 0.0, 0.9375, 0.125, 0.625, 0.8125]
SCALES = [1.0, 2.0 ** -30, 2.0 ** 20, 2.0 ** -1000]
LEVELS = [0.0, 1.0, -1.0, 1.25, 4.0, 1.0625, -8.0]


def noise(n, levels, units, full):
    def body(ch, ctx):
        x = ch.vec("x", n, levels)
        u = ch.vec("u", n, units)
        scale = ch.pick("scale", SCALES if full else SCALES[:1])
        mx = ch.pick("max", [None, 0.5 * scale, 2.0 ** -40 * scale, 64.0 * scale])
        d = ch.pick("default", [None, 2.0 ** -6]) if len(set(x)) == 1 else None
        xv = np.array(x) * scale
        kw = {}
        if mx is not None:
            kw["max_epsilon"] = mx
        if d is not None:
            kw["default_epsilon"] = d
        with Script(units=u) as s:
            got = ctx.call(ut.epsilon_noise, xv, **kw)
        s.settled()
        got = [float(v) for v in np.asarray(got)]
        ctx.check(len(got) == n, "one value for each", got)
        ctx.compared += 1
        levels_ = sorted(set(float(v) for v in xv))
        gap = min(b - a for a, b in zip(levels_, levels_[1:])) if len(levels_) > 1 else (1e-10 if d is None else d)
        lim = min(gap, 1.0 if mx is None else mx)
        for v, g in zip(xv, got):
            ctx.check(math.isfinite(g), "finite", got)
            ctx.check(abs(g - v) <= 0.5 * lim + 2e-16 * abs(v), "moved by at most half of the smallest gap or maximum", (g, float(v)), 0.5 * lim)
        for i in range(n):
            for j in range(n):
                if xv[i] < xv[j]:
                    ctx.check(got[i] < got[j], "strict order of distinct values kept", got, list(map(float, xv)))
                elif i != j and xv[i] == xv[j] and len(set(u)) == n and abs(float(xv[i])) < lim * 2.0 ** 40:
                    ctx.check(got[i] != got[j], "equal values become distinct when their draws differ", got, u)
        ctx._out(tuple(got))

    return body


MIXED = [0.0, 2.0 ** -40, 2.0 ** -39, 2.0 ** 20, -2.0 ** -41, 2.0 ** -60, -2.0 ** 30]


def noise_mixed(n, units):
    """Huge and tiny values in one vector."""

    def body(ch, ctx):
        x = np.array(ch.vec("x", n, MIXED))
        u = ch.vec("u", n, units)
        with Script(units=u) as s:
            got = ctx.call(ut.epsilon_noise, x)
        s.settled()
        got = [float(v) for v in np.asarray(got)]
        ctx.compared += 1
        lv = sorted(set(x.tolist()))
        lim = min([b - a for a, b in zip(lv, lv[1:])] + [1.0]) if len(lv) > 1 else 1e-10
        for i in range(n):
            ctx.check(abs(got[i] - x[i]) <= 0.5 * lim + 2.3e-16 * abs(x[i]), "moved by at most half of the smallest gap", got, x)
            for j in range(n):
                ctx.check(not x[i] < x[j] or got[i] < got[j], "strict order of distinct values kept", got, x)
        ctx._out(tuple(got))

    return body


def noise_many(ch, ctx):
    """Many tied values: all distinct for distinct draws, groups stay apart."""
    n = ch.pick("n", [5, 8, 16, 64, 512])
    k = ch.pick("groups", [1, 2, 3, 5])
    rot = ch.pick("draws", list(range(8)))
    u = [((7 * i + rot) % n) / float(n) for i in range(n)] if n != 5 else [((2 * i + rot) % 5) / 8.0 for i in range(5)]
    x = np.array([float((3 * i + i // 4) % k) for i in range(n)]) * ch.pick("scale", [1.0, 2.0 ** -30, 2.0 ** 12])
    with Script(units=u) as s:
        got = ctx.call(ut.epsilon_noise, x)
    s.settled()
    got = np.asarray(got)
    ctx.compared += 1
    ctx.check(len(set(got.tolist())) == n, "all values distinct", got)
    for i in range(n):
        for j in range(n):
            if x[i] < x[j]:
                ctx.check(got[i] < got[j], "strict order kept", got, x)


def noise_real(ch, ctx):
    """The real random source: ties are broken whatever function is used to draw."""
    n = ch.pick("n", [2, 3, 10, 200])
    k = ch.pick("groups", [1, 2, 7])
    seed = ch.pick("seed", list(range(6)))
    scale = ch.pick("scale", [1.0, 2.0 ** -20, 8.0])
    mx = ch.pick("max", [None, 2.0 ** -12])
    x = np.array([float((3 * i + i // 4) % k) for i in range(n)]) * scale
    np.random.seed(seed)
    got = [float(v) for v in np.asarray(ctx.call(ut.epsilon_noise, x, **({} if mx is None else dict(max_epsilon=mx))))]
    lv = sorted(set(x.tolist()))
    lim = min([b - a for a, b in zip(lv, lv[1:])] + [1.0 if mx is None else mx]) if len(lv) > 1 else min(1e-10, 1.0 if mx is None else mx)
    ctx.check(len(set(got)) == n, "all values distinct", got)
    ctx.check(all((x[i] < x[j]) <= (got[i] < got[j]) for i in range(n) for j in range(0, n, max(1, n // 20))), "strict order kept", got, x)
    ctx.check(all(abs(a - b) <= 0.5 * lim + 2.3e-16 * abs(b) for a, b in zip(got, x.tolist())), "moved by at most half of the smallest gap or maximum", got, x)
    ctx.compared += 3


NARROW = {"int8": [-128, -127, 0, 127], "uint8": [0, 1, 128, 255], "int16": [-32768, -32767, 7, 32767], "uint16": [0, 40000, 40001, 65535], "int64": [-(2 ** 40), 0, 1, 2 ** 40], "bool": [False, True], "float32": [-1.5, 0.0, 2.0 ** -20, 2.0 ** 20]}


def noise_types(n):
    """Vectors of other types than double precision."""

    def body(ch, ctx):
        ty = ch.pick("type", sorted(NARROW))
        x = np.array(ch.vec("x", n, NARROW[ty])).astype(ty)
        u = ch.vec("u", n, [0.0, 0.5, 1.0 - 2.0 ** -20])
        with Script(units=u) as s:
            got = ctx.call(ut.epsilon_noise, x)
        s.settled()
        got = [float(v) for v in np.asarray(got)]
        ctx.compared += 1
        v = [float(t) for t in x]
        lv = sorted(set(v))
        lim = min([b - a for a, b in zip(lv, lv[1:])] + [1.0]) if len(lv) > 1 else 1e-10
        for i in range(n):
            ctx.check(abs(got[i] - v[i]) <= 0.5 * lim + 2.3e-16 * abs(v[i]), "moved by at most half of the smallest gap", got, v)
            for j in range(n):
                ctx.check(not v[i] < v[j] or got[i] < got[j], "strict order of distinct values kept", got, v)
                ctx.check(v[i] != v[j] or u[i] == u[j] or got[i] != got[j] or abs(v[i]) > 1e5, "equal values made distinct", got, v)
        ctx._out(tuple(got))

    return body


ONE = 1.0
NB = float(np.nextafter(1.0, INF))
NBB = float(np.nextafter(NB, INF))
BIG = float(np.finfo(float).max)
ALPH = [0.0, ONE, NB, -1.0, NBB, -0.0, 5e-324, float(np.nextafter(BIG, 0.0))]


def strict(n, dtype=float):
    def body(ch, ctx):
        m = ch.pick("n", list(range(n + 1)))
        x = ch.vec("x", m, ALPH if dtype is float else [0.0, 1.0, float(np.nextafter(np.float32(1), np.float32(2))), -1.0, 2.0])
        a = np.array(x, dtype=dtype)
        cp = ch.pick("copy", [None, True, False])
        kw = {} if cp is None else dict(copy=cp)
        # three steps above the largest float there is nothing left
        if sum(1 for v in x if v == ALPH[-1]) > 1 or (m > 1 and ALPH[-1] in x[:-1]):
            return
        got = ctx.call(ut.cummax_strict, a, **kw)
        want = []
        for v in np.array(x, dtype=dtype):
            v = dtype(v)
            if want and not v > want[-1]:
                v = np.nextafter(want[-1], dtype(INF))
            want.append(v)
        ctx.compared += 1
        g = [float(v) for v in np.asarray(got)]
        ctx.check(g == [float(v) for v in want], "strictly increasing with the least change", g, [float(v) for v in want])
        if cp is False:
            ctx.check([float(v) for v in a] == g, "in place when asked", a)
        else:
            ctx.check([float(v) for v in a] == [float(dtype(v)) for v in x], "the given points left alone", a)
        ctx._out(tuple(g))

    return body


STRICT_SCALES = [5e-324, 1e-310, 2.3e-308, 1e-100, 1e-9, 0.75, 2.0 ** 53, 2.0 ** 61, 1e19, 1e100, 1e307]


def strict_scales(n):
    """Ties and neighbours at every scale, both signs."""

    def body(ch, ctx):
        s = ch.pick("scale", STRICT_SCALES)
        nx = float(np.nextafter(s, INF))
        m = ch.pick("n", list(range(1, n + 1)))
        x = ch.vec("x", m, [s, nx, -s, -nx, 8 * s])
        kw = dict(copy=ch.flag("copy"))
        a = np.array(x)
        got = ctx.call(ut.cummax_strict, a, **kw)
        want = []
        for v in x:
            if want and not v > want[-1]:
                v = float(np.nextafter(want[-1], INF))
            want.append(v)
        ctx.compared += 1
        ctx.check([float(v) for v in np.asarray(got)] == want, "strictly increasing with the least change", got, want)

    return body


def onehot(ch, ctx):
    n = ch.pick("n", [0, 1, 2, 3, 4, 5])
    L = ch.pick("labels", [1, 2, 3, 4])
    y = ch.vec("y", n, list(range(L)))
    ty = ch.pick("type", ["int64", "int32", "int8"] if n > 3 else ["int64", "int32", "int8", "int16", ">i4", "stride", "rev"])
    a = np.array(y, dtype=int)
    if ty == "stride":
        z = np.full(2 * n, 77)
        z[::2] = a
        a = z[::2]
    elif ty == "rev":
        a = a[::-1].copy()[::-1]
    else:
        a = a.astype(ty)
    got = ctx.call(ut.one_hot, a, L)
    ctx.check(got.shape == (n, L), "shape", got.shape)
    ctx.check(got.dtype == bool, "boolean", got.dtype)
    ctx.same(got.tolist(), [[j == v for j in range(L)] for v in y], "exactly the column of each label")


def onehot_big(ch, ctx):
    n, L = ch.pick("size", [(200, 130), (300, 300), (1000, 7)])
    y = [(i * 37 + i // 5) % L for i in range(n)]
    got = ctx.call(ut.one_hot, np.array(y), L)
    ctx.check(got.shape == (n, L), "shape", got.shape)
    ctx.compared += 1
    for i, v in enumerate(y):
        ctx.check([j for j in range(L) if got[i, j]] == [v], "row %d" % i, [j for j in range(L) if got[i, j]], v)


def onehot_types(ch, ctx):
    """Narrow label types with many rows and many labels."""
    ty = ch.pick("type", ["int8", "int16", "int32", "int64", ">i2", "stride"])
    n = ch.pick("n", [1, 100, 129, 257, 300, 40000])
    L = ch.pick("labels", [1, 2, 127, 128, 129, 300])
    top = min(L, 128) if ty == "int8" else L
    y = [(i * 37 + i // 5) % top for i in range(n)]
    y[0] = top - 1
    got = np.asarray(ctx.call(ut.one_hot, gen.labels_as(y, ty), L))
    ctx.check(got.shape == (n, L) and got.dtype == bool, "shape and type", (got.shape, got.dtype))
    ctx.compared += 1
    ctx.check(got.sum() == n and all(got[np.arange(n), y]), "exactly the column of each label", got.sum(), n)


def normal_types(ch, ctx):
    ty = ch.pick("type", ["float32", "float64", "int64"])
    n, L = ch.pick("size", [(1, 2), (300, 3), (2, 1000), (20000, 2)])
    off = ch.pick("offset", [0, 50, -50])
    a = np.array([[off + (i * 7 + j * 13 + i * j) % 11 for j in range(L)] for i in range(n)]).astype(ty)
    got = np.asarray(ctx.call(ut.normalize, a))
    ctx.check(got.shape == a.shape, "shape", got.shape)
    ctx.eq(got, np.array([ref_norm([float(v) for v in r]) for r in a]), "normalized log scores", 1e-5 if ty == "float32" else 1e-11, 1e-4 if ty == "float32" else 1e-10)


def strict_large(ch, ctx):
    n = ch.pick("n", [100, 3000])
    kind = ch.pick("kind", ["sorted", "constant", "pairs", "falling"])
    x = dict(sorted=np.arange(n) * 0.5, constant=np.ones(n), pairs=(np.arange(n) // 2) * 1.0, falling=-np.arange(n) * 1.0)[kind]
    got = np.asarray(ctx.call(ut.cummax_strict, x))
    want = [x[0]]
    for v in x[1:]:
        want.append(v if v > want[-1] else np.nextafter(want[-1], INF))
    ctx.eq(got, want, "strictly increasing with the least change", 0, 0)


SC = [0.0, -1.5, -INF, 2.25, 700.0, -745.5, 10000.0, -10000.0, 1e-9]


def ref_norm(row):
    m = max(row)
    t = m + math.log(math.fsum(math.exp(v - m) for v in row))
    return [v - t for v in row]


def normal(L, rows, alph):
    def body(ch, ctx):
        data = [ch.vec("r%d" % i, L, alph) for i in range(rows)]
        if any(max(r) == -INF for r in data):
            return
        a = gen.array_as(data, ch.pick("layout", ["C", "F", "view"] if rows > 1 else ["C"]))
        got = np.asarray(ctx.call(ut.normalize, a))
        ctx.check(got.shape == a.shape, "shape", got.shape)
        want = np.array([ref_norm(r) for r in data])
        ctx.eq(got, want, "normalized log scores", 1e-12, 1e-11)
        for r, g in zip(data, got):
            ctx.check(abs(math.fsum(math.exp(v) for v in g) - 1.0) < 1e-11 * max(1.0, max(abs(v) for v in r if v != -INF)), "a distribution", g)
            for i in range(L):
                ctx.check((r[i] == -INF) == (g[i] == -INF), "impossible labels stay impossible", g, r)
                if r[i] == -INF:
                    continue
                for j in range(L):
                    if r[j] != -INF:
                        ctx.check(abs((g[i] - g[j]) - (r[i] - r[j])) <= 1e-12 * max(1.0, abs(r[i]), abs(r[j])), "log ratios kept", g, r)

    return body


def wide(ch, ctx):
    n, L = ch.pick("size", [(5, 1), (40, 2), (17, 30), (3, 500)])
    off = ch.pick("offset", [0.0, 1e5, -1e5])
    row = lambda i: [off + ((i * 7 + j * 13 + i * j) % 101) / 3.0 for j in range(L)]  # noqa: E731
    data = [row(i) for i in range(n)]
    got = ctx.call(ut.normalize, np.array(data))
    ctx.eq(got, np.array([ref_norm(r) for r in data]), "normalized log scores", 1e-9, 1e-9)


def scenarios(tier):
    th = tier == "thorough"
    return [
        ("noise 1", noise(1, LEVELS, UNITS, True), 1),
        ("noise 2", noise(2, LEVELS, UNITS, True), 2),
        ("noise 3", noise(3, LEVELS, UNITS, False), 3),
        ("noise 4", noise(4, LEVELS if th else LEVELS[:4], UNITS if th else UNITS[:4], False), 3),
        ("noise mixed 2", noise_mixed(2, UNITS), 2),
        ("noise mixed 3", noise_mixed(3, UNITS if th else [0.5, 0.0, 0.9375]), 3),
        ("noise many", noise_many, 2),
        ("noise, real draws", noise_real, 2),
        ("noise types 2", noise_types(2), 2),
        ("noise types 3", noise_types(3), 2),
        ("strict", strict(6 if th else 5), 3),
        ("strict float32", strict(4, np.float32), 3),
        ("strict at every scale", strict_scales(5 if th else 4), 3),
        ("one hot", onehot, 3),
        ("one hot big", onehot_big, 1),
        ("one hot types", onehot_types, 2),
        ("normalize types", normal_types, 2),
        ("strict large", strict_large, 2),
        ("normalize 1", normal(1, 1, SC), 1),
        ("normalize 2", normal(2, 1, SC), 2),
        ("normalize 3", normal(3, 1, SC), 2),
        ("normalize rows", normal(2, 2, SC[:7]), 2),
        ("normalize wide", wide, 1),
    ] + ([("normalize 4", normal(4, 1, SC), 2)] if th else [])

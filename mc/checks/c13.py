"""C13 step/linear interpolation, area, step functions, unique points."""
from fractions import Fraction

import numpy as np

from mlpaper import util

from mc import ref_curves as rc

INF = float("inf")
BOUNDS = {
    "quick": "all nondecreasing x of 2-5 points over 4 values x all y over {0,1,2} (2-4 points; 5 points over {0,1}) x a grid holding every x, midpoints and "
    "ends; infinite y in every position; all stacks of two small curves in both orders; all step functions of <=4 steps in every order of the steps x "
    "initial values; numeric types and layouts; sizes to 70000",
    "thorough": "5 points over three y values, 6 points over two",
}
ASSUMPTIONS = ["linear curves have finite y (scipy.interpolate leaves 0*inf undefined)", "grids of linear curves lie within the x range"]


def step_ref(g, xp, yp):
    k = max(i for i in range(len(xp)) if xp[i] <= g)
    return yp[k]


def lin_ref(g, xp, yp):
    k = max(i for i in range(len(xp)) if xp[i] <= g)
    if xp[k] == g or k == len(xp) - 1:
        return yp[k]
    a, b = Fraction(xp[k]), Fraction(xp[k + 1])
    t = (Fraction(g) - a) / (b - a)
    return float((1 - t) * Fraction(yp[k]) + t * Fraction(yp[k + 1]))


REF = dict(previous=step_ref, linear=lin_ref)


def grid_for(xp, kind):
    u = sorted(set(xp))
    g = list(u) + [(a + b) / 2 for a, b in zip(u, u[1:])] + [a + (b - a) * 0.125 for a, b in zip(u, u[1:])]
    if kind == "previous":
        g.append(u[-1] + 1.0)
    return g[::-1] + g[:1]


def nondecreasing(n, vals):
    out = []

    def rec(pre, lo):
        if len(pre) == n:
            out.append(tuple(vals[i] for i in pre))
            return
        for i in range(lo, len(vals)):
            rec(pre + [i], i)

    rec([], 0)
    return out


def judge(ctx, xp, yp, kind, tol=1e-12):
    xa, ya = np.array(xp, dtype=float), np.array(yp, dtype=float)
    g = grid_for(xp, kind)
    out = ctx.call(util.interp1d, np.array(g), xa, ya, kind)
    ctx.eq(out, [REF[kind](t, xp, yp) for t in g], "%s interpolation" % kind, tol, tol)
    signs = {v for i, v in enumerate(yp[:-1]) if abs(v) == INF and xp[i + 1] > xp[i]}
    if len(signs) < 2:
        a = ctx.call(util.area, xa[None, :], ya[None, :], kind)
        ctx.check(np.shape(a) == (1,), "one area per curve", np.shape(a))
        ctx.eq(a[0], rc.area(xp, yp, kind), "%s area" % kind, tol, tol)


def curves(n, xs, ys):
    X = nondecreasing(n, xs)

    def body(ch, ctx):
        kind = ch.pick("kind", ["previous", "linear"])
        xp = ch.pick("x", X)
        yp = ch.vec("y", n, ys)
        judge(ctx, xp, yp, kind)

    return body


def infinite(n):
    X = nondecreasing(n, [0.0, 0.5, 1.0])

    def body(ch, ctx):
        xp = ch.pick("x", X)
        yp = ch.vec("y", n, [1.0, -INF, INF, -2.5])
        judge(ctx, xp, yp, "previous")

    return body


def stacks(ch, ctx):
    kind = ch.pick("kind", ["previous", "linear"])
    X = [x for x in nondecreasing(3, [0.0, 0.25, 1.0]) if x[0] == 0.0 and x[-1] == 1.0 or kind == "previous" and x[0] == 0.0]
    rows = [(ch.pick("x%d" % k, X), ch.vec("y%d" % k, 3, [0.0, 1.0, 3.0])) for k in range(2)]
    if ch.flag("third"):
        rows.insert(1, ((0.0, 0.5, 1.0), [5.0, 7.0, 9.0]))
    xa = np.array([r[0] for r in rows])
    ya = np.array([r[1] for r in rows])
    g = [0.0, 0.125, 0.25, 0.5, 1.0]
    out = ctx.call(util.interp1d, np.array(g), xa, ya, kind)
    ctx.eq(out, [[REF[kind](t, x, y) for t in g] for x, y in rows], "stacked %s interpolation" % kind, 1e-12, 1e-12)
    a = ctx.call(util.area, xa, ya, kind)
    ctx.eq(a, [rc.area(x, y, kind) for x, y in rows], "stacked %s area" % kind, 1e-12, 1e-12)


def steps(ch, ctx):
    n = ch.pick("n", [1, 2, 3, 4])
    order = ch.perm("order", range(n))
    vals = [-1.5, 0.0, 0.25, 4.0][:n]
    yv = [3.0, -2.0, -INF if ch.flag("inf") else 8.0, 0.5][:n]
    xp = [vals[i] for i in order]
    yp = [yv[i] for i in order]
    ival = ch.pick("ival", [None, 0.0, -7.0, INF, 5])
    kind = ch.pick("dtype", ["float", "int y", "int x", "int8 x"])
    srt = order == sorted(order) and ch.flag("assume sorted")
    skip = ch.flag("skip unique check")
    ya = np.array(yp)
    xa = np.array(xp)
    if kind == "int y":
        if any(v != v // 1 or abs(v) == INF for v in yp):
            return
        ya = np.array([int(v) for v in yp])
    if kind == "int x":
        xp = [int(4 * v) for v in xp]
        xa = np.array(xp)
    if kind == "int8 x":  # neighbours further apart than the type can hold
        xp = [int({-1.5: -128, 0.0: 0, 0.25: 1, 4.0: 127}[v]) if n > 2 else int({-1.5: -100, 0.0: 100}[v]) for v in xp]
        xa = np.array(xp, dtype=np.int8)
    u = sorted(xp)
    g = list(u) + [(a + b) / 2.0 for a, b in zip(u, u[1:])] + [u[-1] + 10.0] + [float(np.nextafter(v, -INF)) for v in u[1:]]
    if ival is not None:
        g += [u[0] - 1.0, float(np.nextafter(u[0], -INF)), -1e300]
    g = g[1:] + g[:1]
    kw = {}
    if ival is not None or ch.flag("explicit None"):
        kw["ival"] = ival
    if srt:
        kw["assume_sorted"] = True
    if skip:
        kw["skip_unique_chk"] = True
    out = ctx.call(util.eval_step_func, np.array(g, dtype=float), xa, ya, **kw)

    def ref(t):
        c = [(a, b) for a, b in zip(xp, yp) if a <= t]
        return max(c)[1] if c else float(ival)

    ctx.eq(out, [ref(t) for t in g], "step function", 0, 0)


def empty_steps(ch, ctx):
    ival = ch.pick("ival", [0.0, 3.5])
    g = np.array([-1.0, 0.0, 9.0][: ch.pick("n", [0, 1, 3])])
    out = ctx.call(util.eval_step_func, g, np.array([]), np.array([]), ival)
    ctx.eq(out, [ival] * len(g), "step function without steps is its initial value")
    out = ctx.call(util.eval_step_func, np.array([]), np.array([1.0, 0.0]), np.array([2.0, 3.0]))
    ctx.eq(out, [], "empty grid")


def uniq(n):
    X = nondecreasing(n, [-1.0, 0.0, 2.0, float(np.nextafter(2.0, 3))])

    def body(ch, ctx):
        xp = ch.pick("x", X)
        hasy = ch.flag("y given")
        narrow = ch.flag("int8")
        if narrow:
            xp = [{-1.0: -120, 0.0: 60, 2.0: 126}.get(v, 127) for v in xp]
        yp = [float(10 * i + 1) for i in range(n)]
        xa = np.array(xp, dtype=np.int8 if narrow else float)
        gx, gy = ctx.call(util.unique_take_last, xa, np.array(yp)) if hasy else ctx.call(util.unique_take_last, xa)
        want = {}
        for a, b in zip(xp, yp):
            want[a] = b
        ctx.eq(gx, sorted(want), "unique points", 0, 0)
        if hasy:
            ctx.eq(gy, [want[k] for k in sorted(want)], "last y of each repeated point", 0, 0)
        else:
            ctx.check(gy is None, "no y given, no y returned", gy)

    return body


def ladder(ch, ctx):
    n = ch.pick("n", [2, 3, 10, 64, 257, 1001])
    kind = ch.pick("kind", ["previous", "linear"])
    rep = ch.pick("repeats", [1, 2, 5])
    rows = ch.pick("rows", [1, 3])
    salt = ch.pick("salt", [0, 1, 2])
    R = []
    for k in range(rows):
        xp = [((i // rep) * 0.37 + k * 0.01 * (i // rep)) for i in range(n)]
        yp = [(((i + k + salt) * 37) % 101 - 50) / 7.0 for i in range(n)]
        R.append((xp, yp))
    top = min(r[0][-1] for r in R)
    g = [top * t / 8.0 for t in range(9)]
    xa, ya = np.array([r[0] for r in R]), np.array([r[1] for r in R])
    if top > 0:
        out = ctx.call(util.interp1d, np.array(g), xa, ya, kind)
        ctx.eq(out, [[REF[kind](t, x, y) for t in g] for x, y in R], "%s interpolation" % kind, 1e-10, 1e-10)
    ctx.eq(ctx.call(util.area, xa, ya, kind), [rc.area(x, y, kind) for x, y in R], "%s area" % kind, 1e-10, 1e-10)


def types(ch, ctx):
    """Integer y and x, float32, other layouts; wide ranges."""
    kind = ch.pick("kind", ["previous", "linear"])
    tx = ch.pick("x", ["float64", "int64", "float32", "F", "view", "big", "tiny", "int8", "uint8"])
    ty = ch.pick("y", ["float64", "int64", "int8", "uint8", "bool", "float32", "big"])
    n = ch.pick("n", [2, 3, 6])
    rep = ch.flag("repeats")
    X = [[0, 1, 3, 4, 4, 9] if rep else [0, 1, 3, 4, 7, 9], [0, 0, 2, 4, 8, 9] if rep else [0, 1, 2, 4, 8, 9]]
    xs = np.array([r[: n - 1] + [9] for r in X])
    ys = np.array([[5, 0, 100, 2, 120, 1], [7, 120, 0, 3, 1, 100]])[:, :n]
    xa = dict(F=lambda: np.asfortranarray(xs * 1.0), big=lambda: xs * 1e150, tiny=lambda: xs * 1e-150).get(tx)
    if xa:
        xa = xa()
    elif tx == "view":
        z = np.full((4, 2 * n), 77.0)
        z[::2, ::2] = xs
        xa = z[::2, ::2]
    else:
        xa = (xs * 28 - (126 if tx == "int8" else 0) if tx in ("int8", "uint8") else xs).astype(tx)
    ya = ys * 1e150 if ty == "big" else (ys > 4) if ty == "bool" else ys.astype(ty)
    R = [([float(t) for t in a], [float(t) for t in b]) for a, b in zip(xa, ya)]
    if tx == "big" and ty == "big":
        return
    g = [float(t) for t in R[0][0]] + [(a + b) / 2 for a, b in zip(R[0][0], R[0][0][1:])]
    out = ctx.call(util.interp1d, np.array(g), xa, ya, kind)
    single = tx == "float32" or ty == "float32"
    sc = max(abs(t) for r in R for t in r[1]) + 1e-300
    ctx.eq(out, [[REF[kind](t, x, y) for t in g] for x, y in R], "%s interpolation" % kind, 1e-5 if single else 1e-12, 1e-12 * sc if not single else 1e-5 * sc)
    ctx.eq(ctx.call(util.area, xa, ya, kind), [rc.area(x, y, kind) for x, y in R], "%s area" % kind, 1e-5 if single else 1e-12, 0)


def large(ch, ctx):
    n = ch.pick("n", [2048, 3001, 5000, 70000])
    kind = ch.pick("kind", ["previous", "linear"])
    rows = ch.pick("rows", [1, 2])
    rep = ch.pick("repeats", [1, 4])
    off = ch.pick("offset", [0.0, 1e4])
    k = np.arange(n) // rep
    xa = np.array([k * 0.37 + k * r * 0.01 for r in range(rows)]) + off
    ya = np.array([(((np.arange(n) + r) * 37) % 101 - 50) / 7.0 + off for r in range(rows)])
    top = float(xa[:, -1].min())
    g = [off + (top - off) * t / 64.0 for t in range(64)] + [top]
    out = ctx.call(util.interp1d, np.array(g), xa, ya, kind)

    def ref(t, x, y):
        j = int(np.searchsorted(x, t, side="right")) - 1
        if kind == "previous" or x[j] == t or j == n - 1:
            return y[j]
        return y[j] + (y[j + 1] - y[j]) * ((t - x[j]) / (x[j + 1] - x[j]))

    ctx.eq(out, [[ref(t, x, y) for t in g] for x, y in zip(xa, ya)], "%s interpolation" % kind, 1e-8, 1e-8)
    ctx.eq(ctx.call(util.area, xa, ya, kind), [rc.area(list(map(float, x)), list(map(float, y)), kind) for x, y in zip(xa, ya)], "%s area" % kind, 1e-10, 1e-8)


def steps_large(ch, ctx):
    n = ch.pick("n", [100, 3001, 70000])
    ival = ch.pick("ival", [None, -7.0])
    how = ch.pick("order", ["sorted", "reversed", "mixed"])
    ty = ch.pick("y", ["float", "int8", "bool"])
    perm = dict(sorted=np.arange(n), reversed=np.arange(n)[::-1], mixed=(np.arange(n) * 7919) % n)[how]
    if len(set(perm.tolist())) < n:
        return
    off, dx = ch.pick("place", [(-5.0, 0.25), (2.0 ** 30, 2.0 ** -6), (-(2.0 ** 40), 2.0 ** -10), (0.0, 2.0 ** -60)])
    xs = np.arange(n) * dx + off
    ys = np.arange(n) % 2 == 0 if ty == "bool" else ((np.arange(n) * 37) % 101).astype(ty)
    g = np.concatenate([xs[:: max(1, n // 50)], xs[:: max(1, n // 50)] + dx * 0.5] + ([np.array([off - dx, off - 1.0])] if ival is not None else []))
    out = ctx.call(util.eval_step_func, g, xs[perm], ys[perm], ival=ival)
    want = [float(ys[min(n - 1, int((t - off) // dx))]) if t >= off else ival for t in g]
    ctx.eq(np.asarray(out).astype(float), want, "step function", 0, 0)


def scenarios(tier):
    th = tier == "thorough"
    xs = [0.0, 0.25, 1.0, -2.0]
    xs = sorted(xs)
    Y = [0.0, 1.0, 2.0]
    L = [("%d points" % n, curves(n, xs, Y if n < 5 or th else Y[:2]), 3) for n in (2, 3, 4, 5)]
    if th:
        L.append(("6 points", curves(6, xs, Y[:2]), 4))
    L += [("infinite y, %d points" % n, infinite(n), 3) for n in (2, 3, 4)]
    L += [
        ("stacks", stacks, 4),
        ("step functions", steps, 5),
        ("step functions, empty", empty_steps, 2),
        ("unique points", uniq(4), 2),
        ("unique points, 1", uniq(1), 2),
        ("unique points, 0", uniq(0), 2),
        ("sizes", ladder, 4),
        ("numeric types", types, 4),
        ("large curves", large, 3),
        ("large step functions", steps_large, 3),
    ]
    return L

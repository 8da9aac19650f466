"""C11 ROC / PR / PRG curves against direct counting, all labellings x all weak orders."""
import itertools

import numpy as np

from mlpaper import perf_curves as pc
from mlpaper import util

from mc import ref_curves as rc

BOUNDS = {
    "quick": "all labellings x all weak orders of the scores for N<=5 (541 orders), N=6 with scores in {0,1,2}; every permutation of the data for N<=4; "
    "21 strictly increasing score maps incl. adjacent floats, subnormals, +-1e308, 8 numeric types at their ends; N ladder to 70001 with and without ties",
    "thorough": "all weak orders to N=6 (4683), N=7 and 8 with few score levels, all permutations for N=5",
}
ASSUMPTIONS = ["scores are finite and labels boolean (the documented domain)"]

F = dict(roc=pc.roc_curve, pr=pc.recall_precision_curve, prg=pc.prg_curve)


def read(ctx, which, y, s, *a):
    out = ctx.call(F[which], y, s, *a)
    (x, v, kind), thr = out
    x, v, thr = np.asarray(x), np.asarray(v), np.asarray(thr)
    ctx.check(x.ndim == 2 and x.shape == v.shape, "curves must be (n_boot, n_thresholds)", (x.shape, v.shape))
    ctx.check(kind == rc.KIND[which], "interpolation kind of %s" % which, kind, rc.KIND[which])
    ctx.check(thr.shape == (x.shape[1],), "one threshold per point", thr.shape, x.shape)
    return x, v, kind, thr


def judge(ctx, which, y, s, x, v, thr, w=None, rtol=1e-11, atol=1e-12):
    """One curve row against counting."""
    c = rc.counts(y, s, w)
    ctx.eq(thr, [t for t, _, _ in c], "thresholds of %s" % which, 0, 0)
    if rc.one_class(y):
        base = 1.0 if y[0] else 0.0
        ctx.check(np.all(np.diff(x) >= 0) and 0 <= x[0] and abs(x[-1] - 1) < 1e-12, "x points of a one-class curve", x)
        if which == "roc":
            ctx.eq(v, x, "one-class ROC is the diagonal", 1e-9, 1e-9)
            n = [fp + tp for _, fp, tp in c]
            ctx.eq(x, [float(k / n[-1]) for k in n], "one-class ROC points", 1e-9, 1e-9)
        elif which == "pr":
            ctx.eq(v, [base] * len(c), "one-class precision is the base rate", 1e-9, 1e-9)
            n = [fp + tp for _, fp, tp in c]
            ctx.eq(x, [float(k / n[-1]) for k in n], "one-class recall", 1e-9, 1e-9)
        else:
            ctx.eq(v, [0.0] * len(c), "one-class precision gain is 0", 1e-9, 1e-9)
        want = dict(roc=0.5, pr=base, prg=0.0)[which]
        tol = 1e-9
    else:
        wx, wv = rc.CURVES[which](c)
        ctx.eq(x, wx, "x points of %s" % which, rtol, atol)
        ctx.eq(v, wv, "y points of %s" % which, rtol, atol)
        want = rc.area(wx, wv, rc.KIND[which])
        tol = max(rtol, 1e-11)
    got = util.area(x[None, :], v[None, :], rc.KIND[which])
    ctx.eq(got[0], want, "area under %s" % which, tol, max(tol, atol * 10) if which != "prg" else tol)
    return want


def small(N, orders):
    def body(ch, ctx):
        s = ch.pick("order", orders)
        y = ch.vec("y", N, [True, False])
        for which in ("roc", "pr", "prg"):
            x, v, kind, thr = read(ctx, which, np.array(y), np.array(s, dtype=float))
            ctx.check(x.shape[0] == 1, "one curve", x.shape)
            a = judge(ctx, which, y, s, x[0], v[0], thr)
            if which == "roc" and not rc.one_class(y):
                ctx.eq(a, rc.mann_whitney(y, s), "model: area = P(rank)")
        ctx.state(s, y)

    return body


def levels(N, k):
    def body(ch, ctx):
        y = ch.vec("y", N, [True, False])
        s = ch.vec("s", N, [float(i) for i in range(k)])
        for which in ("roc", "pr", "prg"):
            x, v, kind, thr = read(ctx, which, np.array(y), np.array(s))
            judge(ctx, which, y, s, x[0], v[0], thr)

    return body


MAPS = {
    "identity": lambda r: [float(k) for k in r],
    "negative": lambda r: [k - 9.25 for k in r],
    "probabilities": lambda r: [1 / (1 + 2.0 ** (3 - k)) for k in r],
    "log": lambda r: [float(np.log(k + 1)) for k in r],
    "adjacent at 1": lambda r: [float(np.float64(1) + k * 2.0**-52) for k in r],
    "adjacent at 0.1": lambda r: [float((np.array([0.1]).view(np.int64) + k).view(np.float64)[0]) for k in r],
    "subnormal": lambda r: [k * 5e-324 for k in r],
    "tiny": lambda r: [k * 1e-300 for k in r],
    "huge": lambda r: [(k - 1.5) * 1e307 for k in r],
    "exp": lambda r: [float(np.exp(40.0 * k)) for k in r],
    "int": lambda r: [int(k) - 2 for k in r],
    "int8": lambda r: np.array([60 * k - 127 for k in r], dtype=np.int8),
    "float32": lambda r: np.array([1 + k * 2.0**-23 for k in r], dtype=np.float32),
    "uint8": lambda r: np.array([[0, 100, 101, 200, 250, 255][k] for k in r], dtype=np.uint8),
    "uint16": lambda r: np.array([[0, 1, 32768, 40000, 65534, 65535][k] for k in r], dtype=np.uint16),
    "int16": lambda r: np.array([[-32768, -32767, 0, 5, 32766, 32767][k] for k in r], dtype=np.int16),
    "float16": lambda r: np.array([1 + k * 2.0**-10 for k in r], dtype=np.float16),
    "int64": lambda r: np.array([(k - 2) * 2**50 for k in r]),
    "float32 huge": lambda r: np.array([(k - 2) * 1e38 for k in r], dtype=np.float32),
    "-0.0 and 0.0": lambda r: [[-1.0, -0.0, 5e-324, 1.0, 2.0, 3.0][k] if i % 2 else [-1.0, 0.0, 5e-324, 1.0, 2.0, 3.0][k] for i, k in enumerate(r)],
    "near one": lambda r: [1 - 2.0 ** -(k + 48) for k in r],
}


def maps(N):
    orders = rc.weak_orders(N)

    def body(ch, ctx):
        m = ch.pick("map", list(MAPS))
        s = ch.pick("order", orders)
        y = ch.vec("y", N, [True, False])
        layout = ch.pick("layout", ["plain", "view"])
        sa = np.asarray(MAPS[m](s))
        ya = np.array(y)
        if layout == "view":
            big = np.empty(2 * N, dtype=sa.dtype)
            big[::2] = sa
            big[1::2] = 77
            sa = big[::2]
            yb = np.ones(3 * N, dtype=bool)
            yb[::-3] = ya
            ya = yb[::-3]
        for which in ("roc", "pr", "prg"):
            x, v, kind, thr = read(ctx, which, ya, sa)
            c = rc.counts(y, [float(t) for t in sa])
            judge(ctx, which, y, [float(t) for t in sa], x[0], v[0], thr)
            ctx.check(len(c) == len(set(s)) + 1, "model: distinct scores stay distinct")

    return body


def perms(N):
    orders = rc.weak_orders(N)

    def body(ch, ctx):
        s = ch.pick("order", orders)
        y = ch.vec("y", N, [True, False])
        p = ch.perm("perm", range(N))
        for which in ("roc", "pr", "prg"):
            a = read(ctx, which, np.array(y), np.array(s, dtype=float))
            b = read(ctx, which, np.array([y[i] for i in p]), np.array([s[i] for i in p], dtype=float))
            for u, w, t in zip(a, b, ("x", "y", "kind", "thresholds")):
                if t != "kind":
                    ctx.eq(w, u, "%s %s depends on the order of the data" % (which, t), 1e-13, 1e-14)

    return body


def ladder(sizes):
    def body(ch, ctx):
        N = ch.pick("N", sizes)
        ties = ch.pick("ties", ["all", "few levels", "none", "pairs", "one big group"])
        lab = ch.pick("labels", ["half", "one positive", "one negative", "blocks", "none"])
        which = ch.pick("curve", ["roc", "pr", "prg"])
        salt = ch.pick("salt", [0, 1])
        rnk = [(i * 7919 + salt * 31) % N for i in range(N)]
        s = {
            "all": [0.5] * N,
            "few levels": [(r % 4) / 3.0 for r in rnk],
            "none": [(i * 7919 + 31 * salt) % 10007 / 10007.0 if N > 1 else 0.0 for i in range(N)],
            "pairs": [(r // 2) * 0.1 for r in rnk],
            "one big group": [0.3 if r > N // 3 else r * 1.0 for r in rnk],
        }[ties]
        y = {
            "half": [(i * 13 + i // 3 + salt) % 2 == 0 for i in range(N)],
            "one positive": [i == (N // 2 + salt) % N for i in range(N)],
            "one negative": [i != (N // 3 + salt) % N for i in range(N)],
            "blocks": [(i // 16 + salt) % 2 == 0 for i in range(N)],
            "none": [salt == 1] * N,
        }[lab]
        x, v, kind, thr = read(ctx, which, np.array(y), np.array(s))
        judge(ctx, which, y, s, x[0], v[0], thr, rtol=1e-10, atol=1e-11)

    return body


def boolean_scores(ch, ctx):
    """Hard decisions as scores."""
    N = ch.pick("N", [1, 2, 3, 4])
    y = ch.vec("y", N, [True, False])
    s = ch.vec("s", N, [0, 1])
    ty = ch.pick("type", ["uint8", "int8", "int64", "float16"])
    for which in ("roc", "pr", "prg"):
        x, v, kind, thr = read(ctx, which, np.array(y), np.array(s).astype(ty))
        judge(ctx, which, y, [float(k) for k in s], x[0], v[0], thr)


def large(ch, ctx):
    N = ch.pick("N", [4096, 20011, 70001])
    ties = ch.pick("ties", ["none", "few", "integers", "runs"])
    which = ch.pick("curve", ["roc", "pr", "prg"])
    lab = ch.pick("labels", ["half", "rare"])
    s = dict(
        none=[((i * 7919) % N) / float(N) for i in range(N)],
        few=[float((i * 7919 + i // 7) % 50) for i in range(N)],
        integers=[float((i * 7919) % 1000) for i in range(N)],
        runs=[float(i // 3) * 1e-4 for i in range(N)],
    )[ties]
    y = [(i * 13 + i // 3) % 2 == 0 if lab == "half" else (i * 31) % 997 == 5 for i in range(N)]
    x, v, kind, thr = read(ctx, which, np.array(y), np.array(s))
    judge(ctx, which, y, s, x[0], v[0], thr, rtol=1e-9, atol=1e-10)


def scenarios(tier):
    th = tier == "thorough"
    L = [("N=%d all" % n, small(n, rc.weak_orders(n)), 3) for n in ((1, 2, 3, 4, 5, 6) if th else (1, 2, 3, 4, 5))]
    L += [
        ("N=6, 3 levels" if not th else "N=7, 3 levels", levels(7 if th else 6, 3) if th else levels(6, 2), 5),
        ("score maps", maps(4 if th else 3), 3),
        ("permutations", perms(4), 4),
        ("hard decisions", boolean_scores, 3),
        ("large data", large, 3),
        ("size ladder", ladder([1, 2, 3, 7, 16, 17, 33, 64, 101, 255, 256, 257, 1000] + ([2000, 5003, 9999] if th else [2000])), 4),
    ]
    if th:
        L += [("permutations of 5", perms(5), 5), ("N=8, 2 levels", levels(8, 2), 5)]
    return L

"""C12 weighting = replicating, per replicate row."""
import numpy as np

from mlpaper import perf_curves as pc
from mlpaper import util

from mc import ref_curves as rc
from mc.checks.c11 import F, judge, read

BOUNDS = {
    "quick": "N<=3: all labellings x all weak orders x all weight rows over {1,2,3}, each inside a stack of 3 different rows, against counting, replication "
    "and the stand-alone row; N=4 over {1,2}; scale factors 2^-30..1e6; negligible weights 1e-10 on every subset of points; invalid weights at every "
    "position; N ladder to 30011 points and 1500 rows; weight types and layouts; stacks with identical, proportional and reordered rows",
    "thorough": "N=4 over {1,2,3}, N=5 over {1,2}; all pairs of rows for N=3",
}
ASSUMPTIONS = [
    "negligible-weight clause: ROC area only, while both classes keep a non-negligible point (the step curves really do change: a negligible "
    "positive at the top sets the precision of the whole first step)",
]
W3 = ("roc", "pr", "prg")


def replicate(y, s, w):
    yy, ss = [], []
    for a, b, k in zip(y, s, w):
        yy += [a] * int(k)
        ss += [b] * int(k)
    return yy, ss


def small(N, alpha, pairs):
    orders = rc.weak_orders(N)

    def body(ch, ctx):
        s = ch.pick("order", orders)
        y = ch.vec("y", N, [True, False])
        w1 = ch.vec("w", N, alpha)
        w2 = ch.vec("v", N, alpha) if pairs else [3 if i % 2 else 1 for i in range(N)]
        other = [0.25, 5.0, 1.0, 0.5, 3.0, 7.0][:N]
        pos = ch.pick("position", [0, 1, 2]) if not pairs else 0
        stack = [w2, other]
        stack.insert(pos, w1)
        ya, sa, wa = np.array(y), np.array(s, dtype=float), np.array(stack, dtype=float)
        if all(float(v) == int(v) for v in w1 + w2) and ch.pick("dtype", ["float", "int"] if pairs is None else ["float"]) == "int":
            wa = np.array([[1] * N if r is other else r for r in stack])
            stack = [[1] * N if r is other else r for r in stack]
        yr, sr = replicate(y, s, w1)
        for which in W3:
            x, v, kind, thr = read(ctx, which, ya, sa, wa)
            ctx.check(x.shape[0] == 3, "one row per weight row", x.shape)
            for k in range(3):
                judge(ctx, which, y, s, x[k], v[k], thr, stack[k])
            x1, v1, _, t1 = read(ctx, which, ya, sa, wa[pos : pos + 1])
            ctx.eq(x1[0], x[pos], "%s row depends on the other rows" % which, 1e-12, 1e-13)
            ctx.eq(v1[0], v[pos], "%s row depends on the other rows" % which, 1e-12, 1e-13)
            xr, vr, _, tr = read(ctx, which, np.array(yr), np.array(sr, dtype=float))
            if not rc.one_class(y):
                ctx.eq(x[pos], xr[0], "%s weighted x = replicated x" % which, 1e-11, 1e-12)
                ctx.eq(v[pos], vr[0], "%s weighted y = replicated y" % which, 1e-11, 1e-12)
                ctx.eq(util.area(x, v, kind)[pos], util.area(xr, vr, kind)[0], "%s area = replicated area" % which, 1e-11, 1e-12)
        ctx.state(s, y, stack)

    return body


def ones(ch, ctx):
    N = ch.pick("N", [1, 2, 3, 4])
    s = ch.pick("order", rc.weak_orders(N))
    y = ch.vec("y", N, [True, False])
    n = ch.pick("rows", [1, 4])
    ya, sa = np.array(y), np.array(s, dtype=float)
    for which in W3:
        x0, v0, _, t0 = read(ctx, which, ya, sa)
        x, v, _, t = read(ctx, which, ya, sa, np.ones((n, N)))
        ctx.check(x.shape[0] == n, "one row per weight row", x.shape)
        ctx.eq(t, t0, "thresholds", 0, 0)
        for k in range(n):
            ctx.eq(x[k], x0[0], "all-one weights: %s x" % which, 1e-12, 1e-13)
            ctx.eq(v[k], v0[0], "all-one weights: %s y" % which, 1e-12, 1e-13)


def scale(N):
    def body(ch, ctx):
        s = ch.pick("order", rc.weak_orders(N))
        y = ch.vec("y", N, [True, False])
        w = ch.vec("w", N, [1.0, 2.5])
        c = [2.0**-30, 1 / 3.0, 0.7, 10.0, 1e6]
        ya, sa = np.array(y), np.array(s, dtype=float)
        stack = np.array([[k * v for v in w] for k in [1.0] + c])
        for which in W3:
            x, v, kind, thr = read(ctx, which, ya, sa, stack)
            for k in range(len(stack)):
                ctx.eq(x[k], x[0], "scaling a weight row changes %s x" % which, 1e-9, 1e-10)
                ctx.eq(v[k], v[0], "scaling a weight row changes %s y" % which, 1e-9, 1e-10)
                judge(ctx, which, y, s, x[k], v[k], thr, list(stack[k]), 1e-9, 1e-10)

    return body


def negligible(N):
    def body(ch, ctx):
        s = ch.pick("order", rc.weak_orders(N))
        y = ch.vec("y", N, [True, False])
        keep = ch.vec("keep", N, [True, False])
        eps = ch.pick("eps", [1e-10, 1e-8])
        yk = [a for a, k in zip(y, keep) if k]
        sk = [a for a, k in zip(s, keep) if k]
        if all(keep) or not yk or rc.one_class(yk):
            return
        w = np.array([[2.0 if k else eps for k in keep]])
        for which in ("roc",):
            x, v, kind, thr = read(ctx, which, np.array(y), np.array(s, dtype=float), w)
            got = util.area(x, v, kind)[0]
            want = rc.auc(which, yk, sk)
            ctx.eq(got, want, "negligible weights change the area under %s" % which, 0, 100 * N * eps)

    return body


def reject(ch, ctx):
    N = ch.pick("N", [1, 2, 4])
    rows = ch.pick("rows", [1, 3])
    bad = ch.pick("bad", [0.0, -1.0, -1e-12, float("nan"), float("inf"), -float("inf")])
    i = ch.pick("row", list(range(rows)))
    j = ch.pick("col", list(range(N)))
    which = ch.pick("curve", W3)
    lab = ch.pick("y", ["mixed", "pos", "neg"])
    y = np.array([dict(mixed=k % 2 == 0, pos=True, neg=False)[lab] for k in range(N)])
    w = np.ones((rows, N))
    w[i, j] = bad
    ctx.rejects("weight %r" % bad, F[which], y, np.arange(N) * 0.5, w)


def ladder(ch, ctx):
    N = ch.pick("N", [2, 5, 16, 33, 100, 257, 500])
    rows = ch.pick("rows", [1, 2, 9, 40])
    which = ch.pick("curve", W3)
    salt = ch.pick("salt", [0, 1, 2])
    kind_w = ch.pick("weights", ["counts", "fractions"])
    y = [(i * 13 + i // 3 + salt) % 3 != 0 for i in range(N)]
    s = [((i * 7919 + salt) % (N if salt else max(2, N // 3))) / 3.0 for i in range(N)]
    w = [[1 + (i * 5 + k * 3 + (i * k) % 7) % 4 for i in range(N)] for k in range(rows)]
    if kind_w == "fractions":
        w = [[v / 7.0 for v in r] for r in w]
    x, v, kind, thr = read(ctx, which, np.array(y), np.array(s), np.array(w, dtype=float))
    ctx.check(x.shape[0] == rows, "one row per weight row", x.shape)
    for k in range(0, rows, max(1, rows // 5)):
        judge(ctx, which, y, s, x[k], v[k], thr, w[k], 1e-9, 1e-9)


def types(ch, ctx):
    """Weights of integer and single-precision types, other layouts; very unequal weights."""
    N = ch.pick("N", [2, 3, 9])
    ty = ch.pick("weights", ["int64", "int8", "uint8", "float32", "F", "view", "unequal", "tiny", "huge"])
    lab = ch.pick("labels", [0, 1, 2])
    which = ch.pick("curve", W3)
    y = [(i * 5 + lab) % 3 != 0 if lab < 2 else i % 2 == 0 for i in range(N)]
    s = [float((i * 7 + lab) % 5) for i in range(N)]
    w = np.array([[[100, 120, 127, 1, 90][(i + k) % 5] for i in range(N)] for k in range(4)])
    if ty in ("int64", "int8", "uint8", "float32"):
        w = w.astype(ty)
    elif ty == "F":
        w = np.asfortranarray(w.astype(float))
    elif ty == "view":
        big = np.full((8, 2 * N), 3.0)
        big[::2, ::2] = w
        w = big[::2, ::2]
    else:
        w = w * dict(unequal=1.0, tiny=1e-100, huge=1e100)[ty]
        if ty == "unequal":
            w = w * 10.0 ** np.array([[(i * 3 + k) % 7 - 3 for i in range(N)] for k in range(4)])
    x, v, kind, thr = read(ctx, which, np.array(y), np.array(s), w)
    for k in range(4):
        judge(ctx, which, y, s, x[k], v[k], thr, [float(t) for t in w[k]], *((1e-9, 1e-10) if ty != "float32" else (1e-5, 1e-5)))


def like_rows(ch, ctx):
    """Stacks in which several or all of the rows are the same."""
    N = ch.pick("N", [1, 2, 3, 6, 40])
    pat = ch.pick("stack", ["aa", "aaa", "aab", "aba", "baa", "abab", "a" * 17])
    which = ch.pick("curve", W3)
    salt = ch.pick("salt", [0, 1, 2, 3])
    flat = ch.flag("b all equal")
    y = [(i * 5 + salt) % 3 != 0 if salt < 2 else i % 2 == salt % 2 for i in range(N)]
    s = [float((i * 7 + salt) % (5 if salt else N + 1)) for i in range(N)]
    rows = {"a": [1.0 + (i * 5 + salt) % 4 for i in range(N)], "b": [2.0] * N if flat else [0.5 + (i * 3 + salt) % 5 for i in range(N)]}
    x, v, kind, thr = read(ctx, which, np.array(y), np.array(s), np.array([rows[c] for c in pat]))
    ctx.check(x.shape[0] == len(pat), "one row per weight row", x.shape)
    for k, c in enumerate(pat):
        judge(ctx, which, y, s, x[k], v[k], thr, rows[c], 1e-9, 1e-10)


def large(ch, ctx):
    N, rows = ch.pick("size", [(5000, 2), (30011, 1), (20, 1500), (4, 70), (7, 300)])
    which = ch.pick("curve", W3)
    ties = ch.flag("ties")
    y = [(i * 13 + i // 3) % 3 != 0 for i in range(N)]
    s = [((i * 7919) % (N if not ties else max(2, N // 9))) / 3.0 for i in range(N)]
    w = np.array([[1 + (i * 5 + k * 3 + (i * k) % 7) % 4 for i in range(N)] for k in range(rows)], dtype=float) / 7.0
    sc = ch.pick("scale", ["one", "small", "large", "per row"])
    w = w * (np.array([[10.0 ** (12 * (k % 3) - 12)] for k in range(rows)]) if sc == "per row" else dict(one=1.0, small=1e-10 / 3, large=1e13)[sc])
    x, v, kind, thr = read(ctx, which, np.array(y), np.array(s), w)
    for k in sorted({0, rows // 2, rows - 1}):
        judge(ctx, which, y, s, x[k], v[k], thr, list(w[k]), 1e-8, 1e-9)


def scenarios(tier):
    th = tier == "thorough"
    L = [
        ("N=1", small(1, [1, 2, 3], False), 3),
        ("N=2", small(2, [1, 2, 3], None), 4),
        ("N=3", small(3, [1, 2, 3], None), 5),
        ("all-one weights", ones, 4),
        ("scale", scale(3), 4),
        ("negligible weights", negligible(4), 5),
        ("invalid weights", reject, 5),
        ("size ladder", ladder, 4),
        ("numeric types", types, 4),
        ("rows alike", like_rows, 3),
        ("large data", large, 2),
    ]
    if th:
        L += [("N=3, pairs", small(3, [1, 2, 3], True), 5), ("N=4", small(4, [1, 2, 3], False), 5), ("N=5", small(5, [1, 2], False), 5), ("scale 4", scale(4), 5)]
    else:
        L += [("N=4", small(4, [1, 2], True) if False else small4, 5)]
    return L


def small4(ch, ctx):
    """N=4, one weight row over {1,2} stacked with a fixed one."""
    s = ch.pick("order", rc.weak_orders(4))
    y = ch.vec("y", 4, [True, False])
    w = ch.vec("w", 4, [1, 2])
    ya, sa = np.array(y), np.array(s, dtype=float)
    wa = np.array([[3, 1, 0.5, 2], w], dtype=float)
    for which in W3:
        x, v, kind, thr = read(ctx, which, ya, sa, wa)
        judge(ctx, which, y, s, x[1], v[1], thr, w)

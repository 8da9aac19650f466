"""C01 classification losses = textbook definitions, rescaled anchors, properness."""
import math

import numpy as np

from mlpaper import classification as cl

from mc.gen import labels_as, logp, pattern_labels, pattern_probs, simplex

BOUNDS = {
    "quick": "all label vectors x all probability tables with denominator 4 (1-4 labels, 1 row; 2-3 labels, 2 rows), all label dtypes, "
    "extreme log probabilities (-1e300..0, -inf), size ladder to 1000 rows / 101 labels, large tables to 70000 rows and 1000 labels with narrow label types and single precision; properness on all (truth, report) pairs of the "
    "denominator-8 (2,3 labels) and -4 (4 labels) simplices",
    "thorough": "as quick with 2 rows x 4 labels, 3 rows x 2 labels, denominators 8/16 and properness to denominator 16/32",
}
ASSUMPTIONS = ["float tolerance 1e-9 relative", "values outside the alphabet behave like those inside (small-scope)"]


def ref(metric, y, lp, rescale=True):
    out = []
    for yi, row in zip(y, lp):
        row = [float(v) for v in row]
        p = [math.exp(v) if v > -745.2 else 0.0 for v in row]
        L = len(p)
        yi = int(yi)
        if metric == "log":
            out.append(-row[yi])
        elif metric == "brier":
            v = sum((p[j] - (1.0 if j == yi else 0.0)) ** 2 for j in range(L))
            out.append(v * L / (L - 1.0) if (rescale and L > 1) else v)
        else:
            v = -p[yi] / math.sqrt(sum(q * q for q in p))
            if rescale:
                v = (1.0 + v) / (1.0 - 1.0 / math.sqrt(L)) if L > 1 else 1.0 + v
            out.append(v)
    return np.array(out)


def compare(ctx, y, yl, lp, rtol=1e-9, atol=1e-9):
    got = ctx.call(cl.log_loss, y, lp)
    ctx.eq(got, ref("log", yl, lp), "log loss is not -log p(true label)", rtol, atol)
    for name, f in (("brier", cl.brier_loss), ("spherical", cl.spherical_loss)):
        d = ctx.call(f, y, lp)
        ctx.eq(d, ref(name, yl, lp, True), "%s loss (default) differs from the rescaled definition" % name, rtol, atol)
        t = ctx.call(f, y, lp, rescale=True)
        ctx.eq(t, ref(name, yl, lp, True), "%s loss (rescale=True)" % name, rtol, atol)
        r = ctx.call(f, y, lp, rescale=False)
        ctx.eq(r, ref(name, yl, lp, False), "%s loss (rescale=False) differs from the raw definition" % name, rtol, atol)


def dtypes(L):
    d = ["int64", "int32", "int8", "stride"]
    return d + ["bool"] if L <= 2 else d


def small(shapes):
    def body(ch, ctx):
        N, L, den = ch.pick("rows,labels,den", shapes)
        rows = [ch.pick("p%d" % i, simplex(den, L)) for i in range(N)]
        yl = ch.vec("y", N, list(range(L)))
        kind = ch.pick("dtype", dtypes(L))
        compare(ctx, labels_as(yl, kind), yl, logp(rows))

    return body


EXT = [-np.inf, -1e300, -1e6, -1000.0, -745.0, -300.0, -36.8, -20.0, -1e-3]


def extreme(ch, ctx):
    """One dominant label, the others at extreme log probabilities."""
    L = ch.pick("labels", [2, 3])
    top = ch.pick("top", list(range(L)))
    rest = ch.vec("log p", L - 1, EXT[:-1])
    lp = list(rest)
    s = sum(math.exp(v) if v > -745.2 else 0.0 for v in rest)
    lp.insert(top, math.log1p(-s))
    y = ch.pick("y", list(range(L)))
    kind = ch.pick("dtype", ["int64", "bool"] if L == 2 else ["int64"])
    compare(ctx, labels_as([y], kind), [y], np.array([lp]))


def ladder(ch, ctx):
    N = ch.pick("N", [1, 2, 3, 5, 8, 17, 64, 129, 256, 1000])
    L = ch.pick("L", [1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 16, 17, 32, 101])
    salt = ch.pick("salt", [0, 1, 5])
    order = ch.pick("layout", ["C", "F", "stride"])
    kind = ch.pick("dtype", ["int64", "int32"] + (["bool"] if L <= 2 else []))
    yl = pattern_labels(N, L, salt)
    lp = logp(pattern_probs(N, L, salt))
    if order == "F":
        lp = np.asfortranarray(lp)
    elif order == "stride":
        big = np.full((2 * N, 2 * L), np.nan)
        big[::2, ::2] = lp
        lp = big[::2, ::2]
    compare(ctx, labels_as(yl, kind), yl, lp)


def large(ch, ctx):
    """Many rows, many labels, narrow label types, single precision tables."""
    N, L = ch.pick("rows,labels", [(5000, 2), (70000, 2), (20000, 3), (1, 129), (3, 200), (7, 257), (300, 300), (2, 1000), (131, 128)])
    kind = ch.pick("dtype", ["int64", "int16"] + (["int8"] if L <= 128 else []) + (["bool"] if L == 2 else []))
    salt = ch.pick("salt", [0, 4])
    single = ch.flag("single precision table")
    yl = [(L - 1 - v) if salt else v for v in pattern_labels(N, L, salt)]
    lp = logp(pattern_probs(N, L, salt))
    if single:
        lp = lp.astype(np.float32)
    compare(ctx, labels_as(yl, kind), yl, lp, 1e-5 if single else 1e-9, 1e-5 if single else 1e-9)


def special_rows(ch, ctx):
    """Certain and uniform predictions for every number of labels."""
    L = ch.pick("L", list(range(1, 13)) + [20, 50, 100])
    y = ch.pick("y", [0, L // 2, L - 1])
    y2 = ch.pick("other", [0, L // 2, L - 1])
    cert = [1.0 if j == y2 else 0.0 for j in range(L)]
    lp = logp([cert, [1.0 / L] * L, cert])
    yl = [y, y, y2]
    compare(ctx, np.array(yl), yl, lp)
    for f in (cl.brier_loss, cl.spherical_loss):
        v = ctx.call(f, np.array(yl), lp)
        ctx.check(abs(v[2]) <= 1e-12, "certain correct prediction must have rescaled loss 0", v, 0.0)
        if L > 1:
            ctx.check(abs(v[1] - 1.0) <= 1e-9, "uniform prediction must have rescaled loss 1", v, 1.0)


def proper(cases):
    def body(ch, ctx):
        L, den, rescale = ch.pick("labels,den,rescale", [c + (r,) for c in cases for r in (True, False)])
        name = ch.pick("loss", ["log", "brier", "spherical"])
        S = simplex(den, L)
        qi = ch.pick("truth", list(range(len(S))))
        q = S[qi]
        rows = [p for p in S for _ in range(L)]
        y = np.array([j for _ in S for j in range(L)])
        f = dict(log=cl.log_loss, brier=cl.brier_loss, spherical=cl.spherical_loss)[name]
        kw = {} if name == "log" else dict(rescale=rescale)
        loss = np.asarray(ctx.call(f, y, logp(rows), **kw)).reshape(len(S), L)
        best = sum(q[j] * loss[qi, j] for j in range(L) if q[j] > 0)
        for pi in range(len(S)):
            e = sum(q[j] * loss[pi, j] for j in range(L) if q[j] > 0)
            if not (e >= best - 1e-9):
                ctx.fail("%s is not proper: truth %s is beaten by report %s" % (name, q, S[pi]), e, best)
        ctx.same(True, True, "proper")

    return body


def scenarios(tier):
    q = [(1, 1, 1), (1, 2, 8), (1, 3, 4), (1, 4, 4), (2, 2, 4), (2, 3, 2), (2, 1, 1), (3, 2, 2)]
    t = q + [(2, 3, 4), (3, 2, 4), (2, 4, 2), (1, 5, 4), (1, 3, 16)]
    pr = [(1, 1), (2, 16), (3, 8), (4, 4)]
    prt = pr + [(2, 64), (3, 16), (4, 8), (5, 4)]
    return [
        ("small tables", small(t if tier == "thorough" else q), 4),
        ("extreme log probabilities", extreme, 4),
        ("certain and uniform", special_rows, 2),
        ("size ladder", ladder, 3),
        ("large tables", large, 3),
        ("properness", proper(prt if tier == "thorough" else pr), 3),
    ]

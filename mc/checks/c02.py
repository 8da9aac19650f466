"""C02 decision loss = Bayes-optimal action, charged from the loss matrix."""
import math
from fractions import Fraction

import numpy as np

from mlpaper import classification as cl

from mc.gen import labels_as, logp, pattern_labels, pattern_probs, simplex

BOUNDS = {
    "quick": "all loss matrices over {-1,0,1,2} (2 labels x 1-3 actions), {0,1,2} (3 labels x 2 actions), {-1,0,1} (1 label x 1-3 actions), "
    "all distributions of denominator 4, all labels; 0-1 loss on all denominator-8 simplices to 5 labels; matrices from 2^-300 to 2^70 and with entries 1e-11 apart; ladder to 1000 rows, 17 labels, 12 actions, large tables to 70000 rows, 300 labels, 1000 actions; nearly certain predictions against losses to 1e12; single-precision, strided and read-only tables, whole-number matrices of 1e9",
    "thorough": "as quick plus 3 labels x 3 actions over {0,1,2}-/{-1,0,1}-matrices, 2x4 actions, denominators 8 and 16",
}
ASSUMPTIONS = ["exact tie-breaking is judged only where the probabilities and expected losses are exact in binary arithmetic"]


def judge(ctx, y, yl, lp, M, got_action=None, got_loss=None):
    """Per row: the set of acceptable actions by exact rational arithmetic."""
    P = np.exp(lp)
    A = M.shape[1]
    if len(yl) > 20:  # large tables: float arithmetic with a tolerance, by rows
        E = np.zeros((len(yl), A))
        for j in range(P.shape[1]):
            E += P[:, j : j + 1] * np.asarray(M, dtype=float)[j][None, :]
        ok = E <= E.min(axis=1, keepdims=True) + 1e-9 * np.abs(np.asarray(M, dtype=float)).max()
        for i in range(len(yl)):
            if got_action is not None and not ok[i, int(got_action[i])]:
                ctx.fail("row %d: chosen action does not have least expected loss" % i, got_action[i], E[i])
            if got_loss is not None and float(got_loss[i]) not in [float(M[yl[i], a]) for a in range(A) if ok[i, a]]:
                ctx.fail("row %d: loss charged is not the matrix entry of (true label, optimal action)" % i, got_loss[i], E[i])
        ctx.same(True, True, "decision")
        return
    for i in range(len(yl)):
        p = [Fraction(float(v)) for v in P[i]]
        E = [sum(p[j] * Fraction(float(M[j, a])) for j in range(len(p))) for a in range(A)]
        m = min(E)
        # exact in floating point whatever the summation order?
        top = max(abs(float(v)) for v in M.ravel())
        s = Fraction(2) ** (math.frexp(top)[1] - 40)
        exact = all((Fraction(float(v)) * 16).denominator == 1 for v in P[i]) and all((Fraction(float(v)) / s).denominator == 1 for v in M.ravel()) and top < 1e200 and (top > 1e-200 or top == 0)
        if exact:
            ok = [E.index(m)]
        else:
            scale = max([abs(e) for e in E] + [max(p) * max(abs(Fraction(float(v))) for v in M.ravel())])
            ok = [a for a in range(A) if E[a] <= m + scale * Fraction(1, 10 ** 9)]
        if got_action is not None and int(got_action[i]) not in ok:
            ctx.fail("row %d: chosen action is not the lowest-numbered action of least expected loss" % i, got_action[i], (ok, [float(e) for e in E]))
        if got_loss is not None:
            want = [float(M[yl[i], a]) for a in ok]
            if float(got_loss[i]) not in want:
                ctx.fail("row %d: loss charged is not the matrix entry of (true label, optimal action)" % i, got_loss[i], want)
    ctx.same(True, True, "decision")


def run(ctx, y, yl, lp, M):
    act = np.asarray(ctx.call(cl.hard_loss_decision, lp, M))
    ctx.check(act.shape == (len(yl),), "one action per row", act.shape, (len(yl),))
    ls = np.asarray(ctx.call(cl.hard_loss, y, lp, M))
    ctx.check(ls.shape == (len(yl),), "one loss per row", ls.shape, (len(yl),))
    judge(ctx, y, yl, lp, M, act, ls)
    # the charged entry is that of the very action the library reports
    want = [float(M[yl[i], int(act[i])]) for i in range(len(yl))]
    ctx.eq(ls, want, "hard_loss disagrees with the action of hard_loss_decision", 0, 0)
    ctx._out(tuple(act.tolist()))


def matrices(cases):
    def body(ch, ctx):
        L, A, alpha, den = ch.pick("labels,actions,alphabet,den", cases)
        M = np.array([ch.vec("M%d" % j, A, alpha) for j in range(L)], dtype=float)
        if ch.pick("layout", ["float", "int/F"]) == "int/F":
            M = np.asfortranarray(M.astype(int))
        S = simplex(den, L)
        # all distributions x all labels, one row each
        rows = [p for p in S for _ in range(L)]
        yl = [j for _ in S for j in range(L)]
        if len(rows) > 20:  # keep the exact (rational) judge
            blk = ch.pick("block", list(range((len(rows) + 17) // 18)))
            rows, yl = rows[blk * 18 : blk * 18 + 18], yl[blk * 18 : blk * 18 + 18]
        kind = "bool" if L == 2 and alpha[0] == -1 else "int64"
        run(ctx, labels_as(yl, kind), yl, logp(rows), M)

    return body


def zero_one(maxden):
    def body(ch, ctx):
        L = ch.pick("labels", [1, 2, 3, 4, 5])
        den = ch.pick("den", [d for d in (1, 2, 3, 4, 8, 16) if d <= maxden[L]])
        S = simplex(den, L)
        kind = ch.pick("dtype", ["int64", "int32", "stride"] + (["bool"] if L <= 2 else []))
        j = ch.pick("y", list(range(L)))
        blk = ch.pick("block", list(range((len(S) + 17) // 18)))
        S = S[blk * 18 : blk * 18 + 18]
        y = labels_as([j] * len(S), kind)
        lp = logp(S)
        ls = np.asarray(ctx.call(cl.hard_loss, y, lp))
        ctx.check(ls.shape == (len(S),), "one loss per row", ls.shape)
        judge(ctx, y, [j] * len(S), lp, 1.0 - np.eye(L), None, ls)
        none = np.asarray(ctx.call(cl.hard_loss, y, lp, loss_mat=None))
        ctx.eq(none, ls, "loss_mat=None must be the 0-1 loss", 0, 0)
        for i, p in enumerate(S):
            top = max(p)
            if p.count(top) == 1:
                w = 0.0 if p.index(top) == j else 1.0
                ctx.check(float(ls[i]) == w, "0-1 loss must be 0 exactly when the most probable label is the true one", (p, ls[i]), w)

    return body


def single_rows(ch, ctx):
    """The same decisions taken one row at a time and with extreme matrices."""
    L = ch.pick("labels", [2, 3])
    p = ch.pick("p", simplex(4, L))
    A = ch.pick("actions", [1, 2, 4, 5])
    scale = ch.pick("scale", [1.0, 1e-6, 1e8, -3.0, 2.0 ** -34, 2.0 ** -60, 2.0 ** -300, 2.0 ** 70, 1e-9, 1e-200])
    off = ch.pick("offset", [0.0, 1024.0])  # entries close together compared with their size
    if off:
        scale = 2.0 ** -25
    pat = ch.pick("pattern", [0, 1, 2, 3])
    y = ch.pick("y", list(range(L)))
    M = np.array([[((3 * j + 5 * a + pat * (a + 1) * (j + 2)) % 7 - 2) * scale for a in range(A)] for j in range(L)])
    if pat == 3:
        M = np.repeat(M[:, :1], A, axis=1)  # all actions equivalent
    M = M + off
    run(ctx, np.array([y]), [y], logp([p]), M)


def nearly_certain(ch, ctx):
    """All but certain predictions and losses that make the rest matter."""
    L = ch.pick("labels", [2, 3, 5])
    eps = ch.pick("eps", [1e-3, 1e-5, 1e-7, 1e-9, 1e-12, 1e-15])
    top = ch.pick("likely label", list(range(L)))
    y = ch.pick("y", list(range(L)))
    N = ch.pick("rows", [1, 3])
    gain = ch.pick("stake x eps", [0.1, 0.5, 2.0, 10.0, 1e4])
    p = [eps / (L - 1)] * L
    p[top] = 1.0 - eps
    other = (top + 1) % L
    # action 0 is right but for the stake on `other`; action 1 always costs 1; action 2 is always right about `other`
    M = np.array([[0.0, 1.0, 50.0] for _ in range(L)])
    M[other, 0] = gain * (L - 1) / eps
    M[other, 2] = 0.0
    order = ch.perm("actions", range(3))
    rows = [p] + [[1.0 / L] * L] * (N - 1)
    lp = logp(rows)
    yl = [y] * N
    run(ctx, np.array(yl), yl, lp, np.ascontiguousarray(M[:, order]))


def ladder(ch, ctx):
    N = ch.pick("N", [1, 2, 5, 17, 64, 129, 1000])
    L = ch.pick("L", [1, 2, 3, 5, 9, 10, 11, 17])
    A = ch.pick("A", [1, 2, 3, L, L + 1, 12])
    salt = ch.pick("salt", [0, 2])
    lay = ch.pick("layout", ["C", "F"])
    yl = pattern_labels(N, L, salt)
    M = np.array([[((j * 5 + a * 3 + j * a + salt) % 9) - 3.0 for a in range(A)] for j in range(L)])
    lp = logp(pattern_probs(N, L, salt))
    if lay == "F":
        M, lp = np.asfortranarray(M), np.asfortranarray(lp)
    run(ctx, np.array(yl), yl, lp, M)
    ls = ctx.call(cl.hard_loss, np.array(yl), lp)
    judge(ctx, np.array(yl), yl, lp, 1.0 - np.eye(L), None, np.asarray(ls))


def single_precision(ch, ctx):
    """Tables of single precision, strided tables: the action is still one of
    the best for the probabilities given (expected losses apart by far more
    than the rounding)."""
    L = ch.pick("L", [1, 2, 3, 6])
    A = ch.pick("A", [1, 2, 3, 7])
    N = ch.pick("N", [1, 3, 40])
    form = ch.pick("form", ["float32", "stride", "reversed", "read-only"])
    salt = ch.pick("salt", [0, 2, 5])
    mk = ch.pick("matrix", ["float", "int8", "float32", "int64", "int32"])
    sc = ch.pick("scale", [1.0, 2.0 ** -20]) if mk.startswith("float") else 1.0
    yl = pattern_labels(N, L, salt)
    M = (np.array([[((j * 5 + a * 3 + j * a + salt) % 9) - 3.0 for a in range(A)] for j in range(L)]) * sc).astype(mk)
    if mk.startswith("int") and mk != "int8":
        sc = 1e9  # large whole costs that differ by little
        M = M + M.dtype.type(10 ** 9)
    lp = logp(pattern_probs(N, L, salt))
    if form == "float32":
        lp = lp.astype(np.float32)
    elif form == "stride":
        big = np.full((2 * N, 2 * L), np.nan)
        big[::2, 1::2] = lp
        lp = big[::2, 1::2]
    elif form == "reversed":
        lp = lp[::-1, ::-1].copy()[::-1, ::-1]
    else:
        lp.setflags(write=False)
        M.setflags(write=False)
    act = np.asarray(ctx.call(cl.hard_loss_decision, lp, M))
    ls = np.asarray(ctx.call(cl.hard_loss, np.array(yl), lp, M))
    E = np.dot(np.exp(np.asarray(lp, dtype=float)), np.asarray(M, dtype=float))
    ok = E <= E.min(axis=1, keepdims=True) + (1e-5 if form == "float32" else 1e-10) * sc
    for i in range(N):
        ctx.check(ok[i, int(act[i])], "row %d: chosen action does not have least expected loss" % i, act, E)
    ctx.eq(ls, [float(M[yl[i], int(act[i])]) for i in range(N)], "loss charged is the matrix entry", 0, 0)
    zo = np.asarray(ctx.call(cl.hard_loss, np.array(yl), lp))
    for i in range(N):
        p = np.asarray(lp[i], dtype=float)
        best = [j for j in range(L) if p[j] >= p.max() - 1e-5]
        ctx.check(float(zo[i]) in [0.0 if j == yl[i] else 1.0 for j in best], "row %d: zero-one loss of the most probable label" % i, zo, p)


def large(ch, ctx):
    N, L, A = ch.pick("rows,labels,actions", [(5000, 2, 3), (70000, 2, 2), (20000, 3, 4), (3, 200, 5), (7, 300, 300), (300, 130, 130), (5, 2, 1000)])
    kind = ch.pick("dtype", ["int64", "int16"] + (["int8"] if L <= 128 else []) + (["bool"] if L == 2 else []))
    mk = ch.pick("matrix", ["float", "int8", "float32", "bool"])
    yl = [L - 1 - v for v in pattern_labels(N, L, 1)]
    M = np.array([[((j * 5 + a * 3 + j * a) % 9) - 3.0 for a in range(A)] for j in range(L)])
    M = M > 0 if mk == "bool" else M.astype(mk)
    lp = logp(pattern_probs(N, L, 2))
    run(ctx, labels_as(yl, kind), yl, lp, M)
    ls = ctx.call(cl.hard_loss, labels_as(yl, kind), lp)
    judge(ctx, None, yl, lp, 1.0 - np.eye(L), None, np.asarray(ls))


def scenarios(tier):
    q = [
        (1, 1, [0, -1, 1], 1), (1, 2, [0, -1, 1], 1), (1, 3, [0, -1, 1], 1),
        (2, 1, [-1, 0, 1, 2], 4), (2, 2, [-1, 0, 1, 2], 4), (2, 3, [0, 1, 2], 4), (3, 2, [0, 1, 2], 2),
    ]
    t = q + [(2, 3, [-1, 0, 1, 2], 8), (3, 2, [-1, 0, 1, 2], 4), (2, 4, [-1, 0, 1], 4), (3, 3, [0, 1, 2], 2)]
    md = dict(zip(range(1, 6), (1, 16, 8, 8, 4))) if tier == "quick" else dict(zip(range(1, 6), (1, 16, 16, 16, 8)))
    return [
        ("all loss matrices", matrices(t if tier == "thorough" else q), 4),
        ("zero-one", zero_one(md), 4),
        ("table forms", single_precision, 3),
        ("single rows, extreme matrices", single_rows, 4),
        ("nearly certain", nearly_certain, 3),
        ("size ladder", ladder, 3),
        ("large tables", large, 3),
    ]

"""C08 bootstrap weights and the bootstrap of a mean, over all resampling outcomes."""
import math
from fractions import Fraction

import numpy as np

from mlpaper import boot_util as bu
from mlpaper import mlpaper as mp

from mc import ref_stats as rs
from mc.core import Uncontrolled, Violation
from mc.env import NoDraw, Script, pattern_rows, weight_vectors
from mc.gen import pattern_floats

BOUNDS = {
    "quick": "every outcome of 1-3 bootstrap replicates for N<=3 (27^.. as 10 count vectors per row), N=4 one row, 4 minimum weights; every sample "
    "over {-1,0,1,2} of N=2,3 x every outcome of 1-3 (N=2) / 1-2 (N=3) replicates x 3 confidences; the 1000-replicate entry points on cyclic "
    "scripted outcomes; 2e6 scripted weights in one call; un-scripted weights for N to 70000; narrow types and scales; every possible resample is shown to occur for N<=3",
    "thorough": "N=2: 5 replicates, N=3: 3 replicates, N=4: 2 replicates; wider samples",
}
ASSUMPTIONS = ["the random source is numpy's global one, reached through multinomial/choice/randint; its distribution is numpy's responsibility"]


def expect_random(ctx, thunk, what):
    """Called when no scripted draw was used: the result must still depend on
    the random state (a fixed 'random' answer is not a resample)."""
    outs = set()
    for s in range(6):
        np.random.seed(1000 + s)
        outs.add(np.asarray(ctx.call(thunk)).tobytes())
    if len(outs) == 1:
        raise Violation("%s does not depend on the random source" % what, dict(call=ctx._callstr()))
    ctx.notes.add("%s: random source not under the checker's control, not judged by outcome" % what)


def every_outcome(ctx, N):
    """Un-scripted: each row is a resample and every resample is possible."""
    np.random.seed(N)
    w = np.asarray(ctx.call(bu.boot_weights, N, 4000))
    ctx.check(w.shape == (4000, N), "weights must be (n_boot, N)", w.shape)
    seen = {tuple(r) for r in w.tolist()}
    want = {tuple(r) for r in weight_vectors(N)}
    ctx.check(seen <= want, "weights are not resample counts", sorted(seen - want)[:3])
    ctx.check(N > 3 or seen == want, "some resamples can never be drawn", sorted(want - seen)[:3])
    ctx.compared += 1


def outcomes(ch, ctx):
    every_outcome(ctx, ch.pick("N", [1, 2, 3, 4]))


def weights(maxk):
    def body(ch, ctx):
        N = ch.pick("N", [1, 2, 3, 4])
        n_boot = ch.pick("n_boot", list(range(1, maxk[N] + 1)))
        rows = [ch.pick("row%d" % i, weight_vectors(N)) for i in range(n_boot)]
        eps = ch.pick("epsilon", [None, 0, 1e-10, 0.5])
        args = (N, n_boot) if eps is None else (N, n_boot, eps)
        try:
            with Script(rows=rows) as s:
                w = np.asarray(ctx.call(bu.boot_weights, *args))
        except Uncontrolled:  # asks the random source in a way the script cannot answer
            return every_outcome(ctx, N)
        try:
            s.settled()
        except NoDraw:
            if N > 1:
                expect_random(ctx, lambda: bu.boot_weights(N, 7), "boot_weights")
            w = None
        if w is None:
            return
        ctx.state("weights", rows, eps)
        want = [[max(eps or 0, c) for c in r] for r in rows]
        ctx.check(w.shape == (n_boot, N), "weights must be (n_boot, N)", w.shape, (n_boot, N))
        ctx.eq(w, want, "weights are not the resample counts (raised to the minimum weight)", 0, 0)
        for c in s.calls:
            ctx.check(c[1] == N, "each replicate must draw N points", c, N)
            if c[2] is not None:
                ctx.check(np.allclose(c[2], 1.0 / N, rtol=1e-12, atol=0), "points must be drawn uniformly", c[2], 1.0 / N)

    return body


def real_weights(ch, ctx):
    N = ch.pick("N", [1, 2, 3, 5, 7, 10, 33, 100, 257, 1000, 5000, 70000])
    n_boot = ch.pick("n_boot", [1, 2, 3, 10, 150])
    eps = ch.pick("epsilon", [0, 1e-10, 0.25])
    seed = ch.pick("seed", [0, 1, 2])
    np.random.seed(seed)
    w = np.asarray(ctx.call(bu.boot_weights, N, n_boot, eps))
    ctx.check(w.shape == (n_boot, N), "shape", w.shape)
    c = np.where(w <= eps, 0, w)
    ctx.check(np.all(c == np.round(c)) and np.all(w >= eps), "weights must be counts raised to the minimum", w)
    ctx.check(np.all(c.sum(axis=1) == N), "every replicate must contain N points", c.sum(axis=1), N)
    if n_boot >= 2 and N >= 33:
        ctx.check(len({r.tobytes() for r in c}) > 1, "replicates must be drawn separately", c[:3])
    if n_boot == 150 and N >= 10:
        # no point may be systematically left out: P < 1e-60 for a fair draw
        ctx.check(np.all(c.sum(axis=0) > 0), "some points are never resampled", c.sum(axis=0))
    ctx.same(True, True, "counts")


def judge(ctx, x, rows, conf, EB=None, p=None):
    est = rs.boot_means(x, rows)
    if len(rows) <= 8:
        ctx.state("mean", list(x), rows, conf)
    if EB is not None:
        ctx.check(rs.near(EB, rs.error_bars(est, rs.mean(x), conf), 1e-9, 1e-10), "bootstrap error bar of the mean", EB, rs.error_bars(est, rs.mean(x), conf))
        ctx._out(round(float(EB), 9))
    if p is not None:
        ctx.eq(p, rs.significance(est, 0.0), "bootstrap p-value of the mean", 1e-12, 1e-12)
    ctx.compared += 1


def means(N, maxk, alpha, confs):
    W = weight_vectors(N)

    def body(ch, ctx):
        k = ch.pick("n_boot", list(range(1, maxk + 1)))
        x = ch.vec("x", N, alpha)
        rows = [ch.pick("row%d" % i, W) for i in range(k)]
        conf = ch.pick("confidence", confs)
        xa = np.array(x)
        with Script(rows=rows) as s:
            EB = ctx.call(mp.boot_EB, xa, conf, k)
        try:
            s.settled()
        except NoDraw:
            if len(set(x)) > 1:
                expect_random(ctx, lambda: mp.boot_EB(np.array([0.0, 1.0, 5.0, 7.5]), 0.5, 3), "boot_EB")
            return
        with Script(rows=rows) as s:
            p = ctx.call(mp.boot_test, xa, k)
        s.settled()
        judge(ctx, x, rows, conf, EB, p)

    return body


def combined(ch, ctx):
    """The combined entry point: one set of resamples for bar and test, with
    1000 scripted replicates; asking for more gets different rows."""
    N = ch.pick("N", [2, 3, 4, 5, 9, 40])
    salt = ch.pick("rows", [0, 1, 2, 3])
    shift = ch.pick("shift", [0.0, -0.5, 1.0])
    conf = ch.pick("confidence", [0.95, 0.5, 0.875])
    sal = ch.pick("x", [0, 1, 2])
    x = [((i * 5 + sal * 3) % 7 - 3) * 0.5 + shift for i in range(N)]
    rows = pattern_rows(N, 1000, salt)
    other = [r[1:] + r[:1] for r in pattern_rows(N, 400, salt + 7)]
    which = ch.pick("entry", ["both", "EB", "test", "direct EB", "direct test"])
    xa = np.array(x)
    with Script(rows=rows, poison=other) as s:
        EB = p = None
        if which == "both":
            mu, EB, p = ctx.call(mp.get_mean_EB_test, xa, conf, method="boot")
            ctx.eq(mu, rs.mean(x), "mean")
        elif which == "EB":
            mu, EB = ctx.call(mp.get_mean_and_EB, xa, conf, method="boot")
            ctx.eq(mu, rs.mean(x), "mean")
        elif which == "test":
            p = ctx.call(mp.get_test, xa, method="boot")
        elif which == "direct EB":
            EB = ctx.call(mp.boot_EB, xa, conf)
        else:
            p = ctx.call(mp.boot_test, xa)
    s.settled()
    if s.drawn < 1000:
        rows = rows[: s.drawn]
        ctx.notes.add("fewer than 1000 replicates drawn by default: %d" % s.drawn)
    judge(ctx, x, rows, conf, EB, p)


def types(ch, ctx):
    """Narrow integer samples, float32, big offsets, larger samples."""
    N = ch.pick("N", [2, 5, 40, 1500, 7000])
    ty = ch.pick("type", ["int64", "int8", "uint8", "bool", "far", "tiny", "huge", "float32", "strided", "read-only"])
    salt = ch.pick("rows", [0, 2])
    conf = ch.pick("confidence", [0.95, 0.5])
    v = [(i * 37 + (i // 5)) % 120 for i in range(N)]
    if ty in ("far", "tiny", "huge"):
        x = [dict(far=2.0 ** 30, tiny=0.0, huge=0.0)[ty] + k * dict(far=1.0, tiny=2.0 ** -60, huge=2.0 ** 60)[ty] for k in v]
        xa = np.array(x)
    elif ty in ("strided", "read-only"):
        x = [k - 31.5 for k in v]
        xa = np.repeat(np.array(x), 3)[1::3] if ty == "strided" else np.array(x)
        xa.setflags(write=ty == "strided")
    else:
        xa = np.array([k % 2 for k in v] if ty == "bool" else v).astype(ty)
        x = [float(k) for k in xa]
    k = 60 if N < 100 else 8
    rows = pattern_rows(N, k, salt)
    with Script(rows=rows) as s:
        EB = ctx.call(mp.boot_EB, xa, conf, k)
    s.settled()
    with Script(rows=rows) as s:
        p = ctx.call(mp.boot_test, xa, k)
    s.settled()
    est = rs.boot_means(x, rows)
    sc = max(abs(a) for a in x)
    want = rs.error_bars(est, rs.mean(x), conf)
    ctx.check(rs.near(EB, want, 1e-9, 1e-12 * sc), "bootstrap error bar of the mean", EB, want)
    ctx.eq(p, rs.significance(est, 0.0), "bootstrap p-value of the mean", 1e-12, 1e-12)


def large(ch, ctx):
    """Many replicates of many points: every replicate asked for is used."""
    N, k = ch.pick("N, n_boot", [(300, 2003), (700, 997), (1050, 1001), (2500, 450), (20000, 101), (3, 20011)])
    salt = ch.pick("rows", [0, 1])
    conf = ch.pick("confidence", [0.95, 0.5])
    rng = np.random.RandomState(salt)  # a fixed, varied set of outcomes, its last ones far off
    W = rng.multinomial(N, np.ones(N) / N, size=k)
    v = np.array([(i * 37 + i // 5) % 121 - 60 for i in range(N)])
    tail = max(1, k % 50)
    W[-tail:] = 0
    W[-tail:, int(np.argmax(v))] = N
    rows = W.tolist()
    est = [s / N for s in W.dot(v).tolist()]
    xa = v * 1.0
    with Script(rows=rows) as s:
        EB = ctx.call(mp.boot_EB, xa, conf, k)
    s.settled()
    with Script(rows=rows) as s:
        p = ctx.call(mp.boot_test, xa, k)
    s.settled()
    want = rs.error_bars(est, v.sum() / N, conf)
    ctx.check(rs.near(EB, want, 1e-9, 1e-9), "bootstrap error bar of the mean", EB, want)
    ctx.eq(p, rs.significance(est, 0.0), "bootstrap p-value of the mean", 1e-12, 1e-12)


def degenerate(ch, ctx):
    n = ch.pick("n", [0, 1, 2, 3])
    I = float("inf")
    x = ch.vec("x", n, [0.0, 2.0, I, -I])
    if not rs.degenerate(x):
        return
    xa = np.array(x, dtype=float)
    f = ch.pick("function", ["EB", "test", "both"])
    kw = ch.pick("n_boot", [1, 50])
    with Script(rows=[[1] * max(n, 1)]) as s:
        if f == "EB":
            ctx.eq(ctx.call(mp.boot_EB, xa, 0.9, kw), I, "degenerate sample: infinite error bar")
        elif f == "test":
            ctx.eq(ctx.call(mp.boot_test, xa, kw), 1.0, "degenerate sample: p-value 1")
        elif n >= 1:
            mu, EB, p = ctx.call(mp.get_mean_EB_test, xa, method="boot")
            ctx.eq((EB, p), (I, 1.0), "degenerate sample: infinite bar, p-value 1")


def reject(ch, ctx):
    n = ch.pick("n", [1, 2, 4])
    pos = ch.pick("pos", list(range(n)))
    x = np.arange(n) * 1.0
    x[pos] = np.nan
    f = ch.pick("f", ["EB", "test", "both"])
    g = dict(EB=mp.boot_EB, test=mp.boot_test, both=lambda v: mp.get_mean_EB_test(v, method="boot"))[f]
    ctx.rejects("NaN in the sample", g, x)


def seeded(ch, ctx):
    """Un-scripted: same seed, same resamples in every entry point; another
    seed gives other resamples."""
    N = ch.pick("N", [5, 30, 200])
    x = np.array(pattern_floats(N, ch.pick("salt", [0, 1]))) + 0.3
    seed = ch.pick("seed", [0, 7])
    np.random.seed(seed)
    EB = ctx.call(mp.boot_EB, x)
    np.random.seed(seed)
    p = ctx.call(mp.boot_test, x)
    np.random.seed(seed)
    mu, EB2, p2 = ctx.call(mp.get_mean_EB_test, x, method="boot")
    ctx.eq((EB2, p2), (EB, p), "bar and test of the same draws differ between entry points", 1e-12, 1e-12)
    outs = set()
    for k in range(8):
        np.random.seed(100 + k)
        outs.add(float(ctx.call(mp.boot_EB, x)))
    ctx.check(len(outs) > 1, "resamples do not depend on the random source", outs)


def scenarios(tier):
    th = tier == "thorough"
    mk = {1: 2, 2: 4, 3: 3, 4: 2} if th else {1: 2, 2: 3, 3: 2, 4: 1}
    A = [-1.0, 0.0, 1.0, 2.0]
    L = [
        ("weights, all outcomes", weights(mk), 4),
        ("weights, un-scripted", real_weights, 3),
        ("weights, every outcome occurs", outcomes, 1),
        ("mean of 2, all outcomes", means(2, 5 if th else 4, A + [0.5] if th else A, [0.95, 0.5, 0.75]), 4),
        ("mean of 3, all outcomes", means(3, 3 if th else 2, A if th else [-1.0, 0.0, 2.0], [0.95, 0.5] if not th else [0.5]), 4),
        ("1000 replicates", combined, 4),
        ("numeric types and scales", types, 3),
        ("many points and replicates", large, 2),
        ("degenerate samples", degenerate, 3),
        ("rejections", reject, 3),
        ("same seed, same resamples", seeded, 2),
    ]
    if th:
        L.insert(4, ("mean of 4, all outcomes", means(4, 2, [-1.0, 0.0, 2.0], [0.5]), 4))
    return L

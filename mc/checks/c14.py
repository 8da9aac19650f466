"""C14 curve summaries under every resampling outcome."""
import math

import numpy as np
import pandas as pd

from mlpaper import classification as cl
from mlpaper import perf_curves as pc

from mc import ref_curves as rc
from mc import ref_stats as rs
from mc import subsets
from mc.checks.c13 import lin_ref, step_ref
from mc.core import Violation
from mc.env import NoDraw, Script, pattern_rows, weight_vectors

INF = float("inf")
BOUNDS = {
    "quick": "N=2: all labellings x scores x references x all outcomes of 1-2 replicates; N=3: same with one replicate, three curves; an exactly computable user "
    "curve with N=2,3 and up to 3 replicates (ties decide p exactly); scalar references; size ladder to N=60 and 1000 replicates; tables of 1-3 methods "
    "x 1-3 curves x every reference x name orders (integers, empty, differing in case or blanks); N to 1025; log probabilities from -1e-12 to -1e6",
    "thorough": "N=3 with two replicates, N=4 with one, user curve with 4 replicates",
}
ASSUMPTIONS = [
    "resample counts of zero are raised to the 1e-10 minimum weight, as documented in the code",
    "areas closer than their float error bound count as possibly tied; envelope points at which a resampled curve jumps within its error bound are not judged",
    "error bars are judged where the area is finite (the PR-gain area is -inf when a negative outranks all positives)",
]
CURVES = dict(roc=pc.roc_curve, pr=pc.recall_precision_curve, prg=pc.prg_curve)
EPS = 1e-10


def mean_curve(y, s, weight=None):
    """A user-supplied curve: constant height = resampled mean of score*label
    (exact on binary fractions, indifferent to the minimum weight)."""
    y, s = np.asarray(y), np.asarray(s)
    w = np.ones((1, len(y))) if weight is None else np.rint(np.asarray(weight, dtype=float))
    v = (w * (s * 4.0 + 2.0 * y)[None, :]).sum(axis=1) / 4.0
    return (np.array([[0.0, 1.0]] * len(v)), np.stack([v, v], axis=1), "linear"), np.array([INF, 0.0])


def mean_ref(y, s, w=None):
    w = [1] * len(y) if w is None else w
    return sum(k * (4.0 * b + 2.0 * bool(a)) for a, b, k in zip(y, s, w)) / 4.0


def lpp(p1):
    p1 = np.array(p1, dtype=float)
    return np.log(np.stack([1 - p1, p1], axis=1))


class Est(object):
    """Reference area and grid values of one (re)sampled curve with error bounds."""

    def __init__(self, which, y, s, w=None):
        self.which, self.y, self.s = which, y, s
        if rc.one_class(y):
            base = 1.0 if y[0] else 0.0
            self.area = dict(roc=0.5, pr=base, prg=0.0)[which]
            self.tol = 1e-9
            self.curve = None
            return
        ww = [1.0] * len(y) if w is None else [max(EPS, float(k)) for k in w]
        c = rc.counts(y, s, ww)
        P, N = float(c[-1][2]), float(c[-1][1])
        self.tol = 1e-12 + 1e-14 * (P + N) * (1 / P + 1 / N)
        self.curve = rc.CURVES[which](c)
        self.area = rc.area(self.curve[0], self.curve[1], rc.KIND[which])

    def slack(self):
        return self.tol * (1 + (abs(self.area) if abs(self.area) < INF else 0))

    def at(self, g):
        """(low, high) of the curve near g."""
        if self.curve is None:
            v = dict(roc=g, pr=self.area, prg=0.0)[self.which]
            return v - 1e-9, v + 1e-9
        x, v = self.curve
        f = lin_ref if rc.KIND[self.which] == "linear" else step_ref
        d = self.tol * 10
        pts = [g]
        if not (g <= 0 or g >= 1) or self.which == "prg":
            pts += [min(1.0, g + d), max(0.0, g - d)]
        vals = [f(t, x, v) for t in pts]
        return min(vals), max(vals)


def p_interval(est, ref, same):
    """All p-values compatible with the areas' error bounds."""
    lt = gt = amb = tie = 0
    for a, b in zip(est, ref):
        if same:
            tie += 1
        elif a.area == b.area and abs(a.area) == INF:
            tie += 1
        elif abs(a.area - b.area) <= a.slack() + b.slack():
            amb += 1
        elif a.area < b.area:
            lt += 1
        else:
            gt += 1
    n = len(est)
    lo = min(1.0, 2.0 * (min(lt, gt) + tie) / n)
    hi = min(1.0, 2.0 * (min(lt, gt) + tie + amb) / n)
    return lo, hi


class Fixed(object):
    def __init__(self, v):
        self.area = v
        self.tol = 0.0

    def slack(self):
        return 1e-15


def isomorphic(a, b):
    ra = {v: i for i, v in enumerate(sorted(set(a)))}
    rb = {v: i for i, v in enumerate(sorted(set(b)))}
    return [ra[v] for v in a] == [rb[v] for v in b]


def columns_of(ctx, curve):
    names = ["xgrid", "ygrid", "LB", "UB"]
    ctx.check(sorted(curve.columns) == sorted(names), "columns of a curve", list(curve.columns), names)
    return curve[names].values


def judge(ctx, which, y, s, ref, rows, pairwise, conf, summary, curve, grid):
    """ref: score list or scalar."""
    mu, EB, p = summary
    o = Est(which, y, s)
    B = [Est(which, y, s, r) for r in rows]
    ctx.eq(mu, o.area, "area under %s" % which, 1e-9, 1e-9)
    scalar = np.ndim(ref) == 0
    ro = Fixed(float(ref)) if scalar else Est(which, y, ref)
    R = [ro] * len(rows) if scalar else [Est(which, y, ref, r) for r in rows]
    lo, hi = p_interval(B, R, not scalar and isomorphic(s, ref))
    ctx.check(lo - 1e-12 <= p <= hi + 1e-12, "bootstrap p-value of %s" % which, p, (lo, hi))
    ctx._out(float(p))
    est = [b.area for b in B]
    tol = max(b.slack() for b in B)
    orig = o.area
    if pairwise:
        est = [b.area - r.area for b, r in zip(B, R)]
        orig = o.area - ro.area
        tol += max(r.slack() for r in R)
    if all(abs(v) < INF and v == v for v in est + [orig]):
        want = rs.error_bars(est, orig, conf)
        ctx.check(rs.near(EB, want, 1e-9, 1e-9 + 4 * tol), "bootstrap error bar of %s" % which, EB, want)
        ctx.compared += 1
    if curve is None:
        return
    v = np.asarray(columns_of(ctx, curve), dtype=float)
    ctx.check(v.shape == (len(grid), 4), "curve output shape", v.shape, (len(grid), 4))
    ctx.eq(v[:, 0], grid, "curve output holds the grid", 1e-12, 1e-12)
    for i, g in enumerate(grid):
        a, b = o.at(g)
        if b - a <= 1e-6 or a == b:
            ctx.check(a - 1e-8 <= v[i, 1] <= b + 1e-8 or v[i, 1] == a, "curve of the original data at %r" % g, v[i, 1], a)
        I = [e.at(g) for e in B]
        if any(h - l > 1e-6 for l, h in I if l != h):
            continue
        L, H = rs.percentile([l for l, h in I], conf)
        sc = 1e-6 * (1 + max([abs(l) for l, h in I if abs(l) < INF] + [0]))
        ctx.check(rs.near(v[i, 2], L, 1e-7, sc), "lower envelope of %s at %r" % (which, g), v[i, 2], L)
        ctx.check(rs.near(v[i, 3], H, 1e-7, sc), "upper envelope of %s at %r" % (which, g), v[i, 3], H)
        ctx.compared += 1


def pairs_ok(which, y, s, ref, rows, pairwise):
    """Pairwise differences of two -inf areas are undefined."""
    if not pairwise or which != "prg":
        return True
    for w in [None] + rows:
        a, b = Est(which, y, s, w).area, Est(which, y, ref, w).area
        if abs(a) == INF and abs(b) == INF:
            return False
    return True


def run(ctx, y, s, ref, rows, poison=None, **kw):
    refa = ref if np.ndim(ref) == 0 else lpp(ref)
    with Script(rows=rows, poison=poison) as sc:
        out = ctx.call(cl.curve_boot, y, lpp(s), refa, **kw)
    sc.settled()
    ctx.state(y, s, ref, rows if len(rows) < 9 else len(rows), sorted(kw.items(), key=str))
    return out


GRID = [0.0, 0.1372, 0.5817, 0.9431, 1.0]
P = [0.2, 0.45, 0.7, 0.9]


def small(N, k, curves, confs, ref_kinds):
    orders = rc.weak_orders(N)
    W = weight_vectors(N)

    def body(ch, ctx):
        which = ch.pick("curve", curves)
        s = ch.pick("order", orders)
        y = ch.vec("y", N, [True, False])
        rk = ch.pick("ref", ref_kinds)
        r = ch.pick("ref order", orders) if rk == "scores" else rk
        n = ch.pick("n_boot", list(range(1, k + 1)))
        rows = [ch.pick("row%d" % i, W) for i in range(n)]
        pw = ch.flag("pairwise")
        conf = ch.pick("confidence", confs)
        sc = [P[v] for v in s]
        rf = [P[3 - v] if False else P[v] for v in r] if rk == "scores" else rk
        if rk == "scores" and not pairs_ok(which, y, sc, rf, rows, pw):
            return
        ya = np.array(y) if (len(rows) + sum(rows[0][:1])) % 2 else np.array(y).astype(int)
        summary, curve = run(ctx, ya, sc, rf, rows, curve_f=CURVES[which], x_grid=np.array(GRID), n_boot=n, pairwise_CI=pw, confidence=conf)
        judge(ctx, which, y, sc, rf, rows, pw, conf, summary, curve, GRID)

    return body


def exact(N, k, alpha):
    """User-supplied curve with exact arithmetic: ties decide the p-value."""
    W = weight_vectors(N)
    T = [0.5, 0.25, 0.75]

    def cv(y, s, weight=None):
        return mean_curve(y, np.rint(np.exp(s) * 4) / 4, weight)

    def body(ch, ctx):
        y = ch.vec("y", N, [True, False])
        s = ch.vec("s", N, alpha)
        rk = ch.pick("ref", ["scores", 0.75])
        r = ch.vec("r", N, alpha) if rk == "scores" else rk
        n = ch.pick("n_boot", list(range(1, k + 1)))
        rows = [ch.pick("row%d" % i, W) for i in range(n)]
        pw = ch.flag("pairwise")
        conf = ch.pick("confidence", [0.95, 0.5])
        poison = [w for w in W if w not in rows][:3] or None
        summary, curve = run(ctx, np.array(y), s, r, rows, poison, curve_f=cv, x_grid=np.array([0.0, 0.5, 1.0]), n_boot=n, pairwise_CI=pw, confidence=conf)
        mu, EB, p = summary
        o, B = mean_ref(y, s), [mean_ref(y, s, w) for w in rows]
        ro, R = (r, [r] * n) if rk != "scores" else (mean_ref(y, r), [mean_ref(y, r, w) for w in rows])
        ctx.eq(mu, o, "area of the original data", 1e-12, 1e-12)
        ctx.eq(p, rs.significance(B, R), "p-value (exact ties)", 1e-12, 1e-12)
        est, orig = ([b - q for b, q in zip(B, R)], o - ro) if pw else (B, o)
        want = rs.error_bars(est, orig, conf)
        ctx.check(rs.near(EB, want), "error bar", EB, want)
        L, H = rs.percentile(B, conf)
        v = columns_of(ctx, curve)
        ctx.eq(v[:, 1], [o] * 3, "curve of the original data")
        ctx.check(all(rs.near(t, L) for t in v[:, 2]) and all(rs.near(t, H) for t in v[:, 3]), "envelope", v, (L, H))
        ctx.compared += 2

    return body


def pattern(N, salt):
    y = [(i * 13 + i // 3 + salt) % 3 == 0 for i in range(N)]
    s = [0.05 + 0.9 * (((i * 7919 + salt * 5) % (N if salt % 2 else max(2, N // 2))) / float(N)) for i in range(N)]
    s = [min(0.97, v + (0.2 if (a and i % 4) else 0.0)) for i, (v, a) in enumerate(zip(s, y))]
    return y, s


def ladder(sizes):
    def body(ch, ctx):
        N = ch.pick("N", sizes)
        which = ch.pick("curve", ["roc", "pr", "prg"])
        n = ch.pick("n_boot", [None, 7, 100])
        salt = ch.pick("salt", [0, 1])
        pw = ch.pick("pairwise", [None, True])
        conf = ch.pick("confidence", [None, 0.8])
        y, s = pattern(N, salt)
        r = pattern(N, salt + 1)[1] if ch.flag("ref scores") else 0.5
        gk = ch.pick("grid", ["default", "own"])
        if n is None and (N > 20 or gk == "own"):
            return
        rows = pattern_rows(N, n or 1000, salt)
        if np.ndim(r) and not pairs_ok(which, y, s, r, rows[:50], bool(pw)):
            return
        kw = {}
        if n is not None:
            kw["n_boot"] = n
        if pw is not None:
            kw["pairwise_CI"] = pw
        if conf is not None:
            kw["confidence"] = conf
        grid = np.linspace(0, 1, 100)
        if gk == "own":
            grid = np.array([0.0, 0.111, 0.4321, 0.8765])
            kw["x_grid"] = grid
        if which != "roc":
            kw["curve_f"] = CURVES[which]
        summary, curve = run(ctx, np.array(y), s, r, rows, **kw)
        sub = list(range(len(grid))) if gk == "own" else [0, 1, 37, 50, 98, 99]
        ctx.check(len(curve) == len(grid), "default grid of 100 points", len(curve), len(grid))
        judge(ctx, which, y, s, r, rows, bool(pw), 0.95 if conf is None else conf, summary, curve.iloc[sub], [float(grid[i]) for i in sub])

    return body


NAMES = [("only",), ("best", "a"), ("10", "9", "x"), ("m", "B", "ref"), ("m", "M", "m "), ("", "0"), (2, 1, 10), (0, -1)]


def tables(maxm):
    def body(ch, ctx):
        names = ch.pick("methods", [n for n in NAMES if len(n) <= maxm])
        ref = ch.pick("ref", list(names))
        cset = ch.pick("curves", [("AUC",), ("AUC", "AP"), ("AP", "x", "AUC"), ("AUPRG", "AUC")] if names in NAMES[:4] else [("AUC", "auc")])
        fn = dict(AUC="roc", AP="pr", x="roc", AUPRG="prg", auc="pr")
        N = ch.pick("N", [2, 4, 9] if names in NAMES[:4] else [4])
        salt = ch.pick("salt", [0, 1])
        pw = ch.pick("pairwise", [False, True])
        conf, n = ch.pick("confidence, n_boot", [(0.95, 1), (0.5, 6), (0.75, 5)])
        order, ix = ch.pick("column order, index", [("given", "range"), ("sorted", "labels")])
        y = [(i + salt) % 2 == 0 for i in range(N)]
        sc = {m: [P[(i * (k + 1) + k * k + salt + (2 if y[i] else 0)) % 4] for i in range(N)] for k, m in enumerate(sorted(names))}
        if ch.flag("same as ref") and len(names) > 1:
            other = [m for m in names if m != ref][0]
            sc[other] = list(sc[ref])
        cols = list(names) if order == "given" else sorted(names)
        df = pd.concat([pd.DataFrame(lpp(sc[m])) for m in cols], axis=1)
        df.columns = pd.MultiIndex.from_product([cols, range(2)], names=["method", "label"])
        if ix == "labels":
            df.index = ["r%d" % (N - i) for i in range(N)]
        rows = pattern_rows(N, n, salt)
        for c in cset:
            for m in names:
                if not pairs_ok(fn[c], y, sc[m], sc[ref], rows, pw):
                    return
        grid = [0.0, 0.2718, 0.6543, 1.0]
        with Script(rows=rows, repeat=True) as s:
            tbl, dump = ctx.call(
                cl.curve_summary_table,
                df,
                np.array(y).astype(int if salt else bool),
                {c: CURVES[fn[c]] for c in cset},
                ref,
                x_grid=np.array(grid),
                n_boot=n,
                pairwise_CI=pw,
                confidence=conf,
            )
        s.settled()
        ctx.check(sorted(tbl.index) == sorted(names), "one row per method", list(tbl.index), names)
        ctx.same(list(tbl.columns), [(c, st) for c in cset for st in ("mean", "error", "p")], "columns")
        ctx.check(sorted(dump) == sorted((m, c) for m in names for c in cset), "one curve per method and curve", sorted(dump))
        for m in names:
            for c in cset:
                mu, EB, p = (float(tbl.loc[m, (c, st)]) for st in ("mean", "error", "p"))
                isref = m == ref
                ctx.check(math.isnan(p) == isref, "p is NaN exactly for the reference (%s, %s)" % (m, c), p)
                fin = abs(Est(fn[c], y, sc[m]).area) < INF
                if isref and pw:
                    ctx.check(math.isnan(EB), "pairwise error bar of the reference is NaN", EB)
                elif fin:
                    ctx.check(not math.isnan(EB), "only the reference's pairwise error bar is NaN", EB)
                if isref:
                    p = 1.0
                    if pw:
                        EB = 0.0
                judge(ctx, fn[c], y, sc[m], sc[ref], rows, pw, conf, (mu, EB, p), dump[(m, c)], grid)

    return body


def large(ch, ctx):
    """Large data sets, few replicates; labels and predictions of several types."""
    N = ch.pick("N", [100, 257, 1025] + ([5000] if ctx.thorough else []))
    which = ch.pick("curve", ["roc", "pr", "prg"])
    salt = ch.pick("salt", [0, 1])
    dt = ch.pick("labels", [bool, np.int8, np.int64])
    pw = ch.flag("pairwise")
    y, s = pattern(N, salt)
    r = pattern(N, salt + 1)[1] if ch.flag("ref scores") else 0.5
    rows = pattern_rows(N, 3, salt)
    if np.ndim(r) and not pairs_ok(which, y, s, r, rows, pw):
        return
    summary, curve = run(ctx, np.array(y).astype(dt), s, r, rows, curve_f=CURVES[which], x_grid=np.array(GRID), n_boot=3, pairwise_CI=pw, confidence=0.8)
    judge(ctx, which, y, s, r, rows, pw, 0.8, summary, curve, GRID)


GRIDS = {
    "one point": [0.4321],
    "left end": [0.0],
    "right end": [1.0],
    "two points": [0.2718, 0.6543],
    "both ends": [0.0, 1.0],
    "falling": [0.9, 0.4321, 0.2718, 0.0],
    "repeated": [0.2718, 0.2718, 0.6543, 0.6543, 0.6543],
    "one value": [0.6543] * 4,
    "dense": [i / 400.0 + 0.0007 for i in range(399)],
    "hundred": [i / 101.0 + 0.0003 for i in range(100)],
    "integers": [0, 1, 1],
}


def grids(ch, ctx):
    """Every kind of x_grid: the curve output has these points and no others."""
    gk = ch.pick("grid", list(GRIDS))
    how = ch.pick("given as", ["array", "float32"] if gk in ("one point", "two points", "falling") else ["array"])
    which = ch.pick("curve", ["roc", "pr", "prg"])
    N = ch.pick("N", [1, 2, 9, 30])
    salt = ch.pick("salt", [0, 1])
    conf = ch.pick("confidence", [0.95, 0.5])
    n = ch.pick("n_boot", [1, 6])
    table = ch.flag("table")
    y, s = pattern(N, salt)
    rows = pattern_rows(N, n, salt)
    grid = list(GRIDS[gk])
    arg = np.array(grid) if how == "array" else np.array(grid, dtype=np.float32)
    grid = [float(g) for g in arg]
    if table:
        df = pd.DataFrame(lpp(s), columns=pd.MultiIndex.from_product([["only"], range(2)], names=["method", "label"]))
        with Script(rows=rows, repeat=True) as sc:
            tbl, dump = ctx.call(cl.curve_summary_table, df, np.array(y), {"cur": CURVES[which]}, "only", x_grid=arg, n_boot=n, confidence=conf)
        sc.settled()
        ctx.check(list(dump) == [("only", "cur")], "one curve", list(dump))
        curve = dump[("only", "cur")]
        summary = tuple(float(tbl.loc["only", ("cur", st)]) for st in ("mean", "error")) + (1.0,)
        judge(ctx, which, y, s, s, rows, False, conf, summary, curve, grid)
    else:
        summary, curve = run(ctx, np.array(y), s, 0.5, rows, curve_f=CURVES[which], x_grid=arg, n_boot=n, confidence=conf)
        judge(ctx, which, y, s, 0.5, rows, False, conf, summary, curve, grid)


def steep(ch, ctx):
    """Log probabilities far apart or nearly equal: only their order counts."""
    base = ch.pick("log p", [(-800.0, -3.0, -900.0, -1.0, -745.2, -2.0), (-1e-9, -2e-9, -1e-12, -3e-9, -1e-8, -1e-11), (-1e5, -99999.0, -1e4, -1e6, -5e4, -1.0), (-0.7, -0.7, -0.7000001, -0.6999999, -0.7, -0.7)])
    rot = ch.pick("rotation", [0, 1, 2])
    y = ch.pick("y", [(True, False, True, False, True, False), (False, True, True, True, False, False), (True, False, False, False, False, False)])
    which = ch.pick("curve", ["roc", "pr"])
    pw = ch.flag("pairwise")
    lp = base[rot:] + base[:rot]
    other = np.log1p(-np.exp(np.array(lp)))
    a = np.stack([other, np.array(lp)], axis=1)
    rk = {v: i for i, v in enumerate(sorted(set(lp)))}
    s, r = [rk[v] for v in lp], [rk[v] for v in lp[::-1]]
    rows = pattern_rows(6, 4, rot)
    with Script(rows=rows) as sc:
        summary, curve = ctx.call(cl.curve_boot, np.array(y), a, a[::-1].copy(), curve_f=CURVES[which], x_grid=np.array(GRID), n_boot=4, pairwise_CI=pw, confidence=0.5)
    sc.settled()
    ctx.state(lp, y, which, pw)
    judge(ctx, which, list(y), s, r, rows, pw, 0.5, summary, curve, GRID)


def reject(ch, ctx):
    bad = ch.pick("bad", ["NaN prediction", "NaN reference", "NaN scalar", "3 labels"])
    pos = ch.pick("pos", [0, 1, 2])
    col = ch.pick("col", [0, 1])
    y = np.array([True, False, True])
    a, b = lpp([0.2, 0.7, 0.4]), lpp([0.3, 0.6, 0.5])
    if bad == "NaN prediction":
        a[pos, col] = np.nan
    elif bad == "NaN reference":
        b[pos, col] = np.nan
    elif bad == "NaN scalar":
        b = float("nan")
    else:
        a = b = np.log(np.full((3, 3), 1 / 3.0))
        y = y.astype(int)
    ctx.rejects(bad, cl.curve_boot, y, a, b, n_boot=3)


def _wide():
    cols = pd.MultiIndex.from_product([["d", "b", "c", "a"], range(2)], names=["method", "label"])
    return pd.DataFrame(np.concatenate([lpp(pattern(6, j)[1]) for j in range(4)], axis=1), columns=cols)


def _on_subset(ctx, df, keep):
    n = len(df)
    with Script(rows=pattern_rows(n, 5, 0), repeat=True):
        return ctx.call(cl.curve_summary_table, df, np.array([i % 3 == 0 for i in range(n)]), dict(AUC=pc.roc_curve, AP=pc.recall_precision_curve), "c", n_boot=5, x_grid=np.array(GRID))


subset = subsets.body({"four": (_wide, 0, ("c",))}, _on_subset)


def scenarios(tier):
    th = tier == "thorough"
    A3 = ["roc", "pr", "prg"]
    L = [
        ("size ladder", ladder([2, 3, 5, 8, 17, 33, 60] if th else [2, 3, 5, 17, 33]), 4),
        ("tables", tables(3), 5),
        ("large data", large, 4),
        ("grids", grids, 4),
        ("steep and flat predictions", steep, 4),
        ("column subsets", subset, 3),
        ("rejections", reject, 3),
        ("N=2, 2 replicates", small(2, 2, A3, [0.95, 0.5], ["scores", 0.5, 0.75]), 5),
        ("N=3, 1 replicate", small(3, 1, A3, [0.95], ["scores", 0.5]), 5),
        ("user curve, N=2", exact(2, 3, [0.25, 0.5, 0.75]), 5),
        ("user curve, N=3", exact(3, 2 if th else 1, [0.25, 0.5]), 5),
    ]
    if th:
        L += [
            ("N=3, 2 replicates", small(3, 2, A3, [0.5], ["scores"]), 5),
            ("N=4, 1 replicate", small(4, 1, ["roc", "pr"], [0.5], ["scores"]), 5),
        ]
    return L

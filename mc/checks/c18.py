"""C18 joint splits: partition, agreement of all criteria, index = column."""
import itertools

import numpy as np
import pandas as pd

from mlpaper import data_splitter as ds

from mc import gen
from mc import ref_split as rf
from mc.core import Uncontrolled
from mc.env import Script

BOUNDS = {
    "quick": "all frames of 1-3 rows with two key columns over {0,1,2} x 20 split specifications (1-3 criteria, every rule, columns and index) x draws; 4 rows over "
    "{0,1}; six kinds of index incl. duplicates, four kinds of columns; index against an equal column for every rule; defaults; true promises; confusable and falsy column names; sizes to 30000",
    "thorough": "4 rows over three values, 5 rows over two",
}
ASSUMPTIONS = ["a random criterion alone is the library's random_split_series under the same scripted draw (its rule is decided by C19)"]
LETTER = dict(r="random", o="ordered", l="linear")


def criterion(ctx, vals, how, frac, book):
    """Acceptable masks of one criterion."""
    if how == "ordered":
        return rf.ordered(vals, frac)
    if how == "linear":
        return [rf.linear([float(v) for v in vals], frac)]
    with Script(perm=book) as s:
        m = ds.random_split_series(pd.Series(vals), frac)
    return [[bool(x) for x in m.values]]


def judge(ctx, df, out, masks, what):
    """masks: one list of acceptable masks per criterion."""
    ctx.check(isinstance(out, tuple) and len(out) == 3, "(train, test, unused) are returned", type(out))
    n = len(df)
    uid = list(df["uid"])
    got = []
    for part, name in zip(out, ("train", "test", "unused")):
        ids = list(part["uid"])
        pos = [uid.index(i) for i in ids]
        ctx.check(pos == sorted(pos), "%s keeps the row order (%s)" % (name, what), pos)
        ref = df.iloc[pos]
        ctx.check(list(part.columns) == list(df.columns), "%s keeps the columns" % name, list(part.columns), list(df.columns))
        ctx.check(part.index.equals(ref.index) and list(part.index) == list(ref.index), "%s keeps the index" % name, list(part.index), list(ref.index))
        ctx.check(part.equals(ref), "%s keeps the rows' contents (%s)" % (name, what), part, ref)
        got.append(pos)
    allpos = got[0] + got[1] + got[2]
    ctx.check(sorted(allpos) == list(range(n)), "every row in exactly one part (%s)" % what, got, n)
    ok = False
    for combo in itertools.product(*masks):
        fine = True
        for i in range(n):
            votes = [m[i] for m in combo]
            if None in votes:
                continue
            want = 0 if all(votes) else 1 if not any(votes) else 2
            if i not in got[want]:
                fine = False
                break
        ok = ok or fine
    ctx.check(ok, "train = all criteria, test = none, else unused (%s)" % what, got, masks)
    if len(masks) == 1:
        ctx.check(not got[2], "one criterion leaves nothing unused", got)
    ctx.compared += 2
    ctx._out(tuple(map(tuple, got)))
    return got


A, B, IX = "a", "b", None
SPECS = [
    [(A, "ordered", 0.5)],
    [(A, "linear", 0.5)],
    [(A, "random", 0.5)],
    [(IX, "ordered", 0.5)],
    [(IX, "random", 0.5)],
    [(IX, "linear", 0.75)],
    [(A, "ordered", 0.5), (B, "ordered", 0.75)],
    [(B, "linear", 0.25), (A, "ordered", 0.5)],
    [(A, "random", 0.5), (B, "ordered", 0.5)],
    [(A, "linear", 0.5), (IX, "ordered", 0.5)],
    [(IX, "random", 0.75), (A, "linear", 0.5)],
    [(A, "random", 0.25), (B, "random", 0.75)],
    [(A, "ordered", 0.25), (B, "linear", 0.5), (IX, "ordered", 0.75)],
    [(IX, "ordered", 0.25), (A, "random", 0.5), (B, "linear", 0.75)],
    [(A, "ordered", 1.0), (B, "ordered", 0.0)],
    [(A, "random", 0.0), (B, "linear", 1.0)],
    [(A, "random", 1.0)],
    [(A, "linear", 0.0), (IX, "linear", 1.0)],
    [(B, "ordered", 0.8), (A, "linear", 0.3)],
]


def frame(a, b, index, rename=lambda c: c):
    n = len(a)
    df = pd.DataFrame({"uid": ["u%d" % i for i in range(n)], "a": a, "z": np.arange(n) * 0.5, "b": [v * 0.25 for v in b]})
    df.index = index
    return df


def vals_of(df, key):
    return list(df.index) if key is None else list(df[key])


def run(ctx, df, spec, perms, what, **kw):
    book = {k: perms[k] for k in perms}
    splits = {k: (h, f) for k, h, f in spec}
    masks = [criterion(ctx, vals_of(df, k), h, f, book) for k, h, f in spec]
    with Script(perm=book) as s:
        out = ctx.call(ds.split_df, df, splits, **kw)
    if s.uncontrolled:
        raise Uncontrolled("real random numbers used")
    ctx.state(df, spec, perms)
    return judge(ctx, df, out, masks, what)


PERMS = [
    {1: [0], 2: [0, 1], 3: [0, 1, 2], 4: [0, 1, 2, 3], 5: [0, 1, 2, 3, 4]},
    {1: [0], 2: [1, 0], 3: [1, 2, 0], 4: [2, 0, 3, 1], 5: [4, 2, 0, 1, 3]},
    {1: [0], 2: [1, 0], 3: [2, 1, 0], 4: [3, 1, 0, 2], 5: [1, 3, 4, 0, 2]},
]


def small(n, alpha, idx):
    def body(ch, ctx):
        spec = ch.pick("splits", SPECS)
        a = ch.vec("a", n, alpha)
        b = ch.vec("b", n, alpha) if any(k == B for k, _, _ in spec) else [2 - v for v in a]
        perms = ch.pick("draw", PERMS) if any(h == "random" for _, h, _ in spec) else PERMS[0]
        ix = ch.pick("index", idx)
        df = frame(a, b, pd.Index(ix[:n]))
        run(ctx, df, spec, perms, "spec %s" % spec)

    return body


IDX = [[0, 1, 2, 3, 4], [7, 7, 3, 3, 7], [4, 2, 9, 1, 0]]


def indices(ch, ctx):
    """Kinds of index x rules on the index and on columns."""
    kind = ch.pick("index", list(gen.INDEXES))
    n = ch.pick("n", [2, 4, 5])
    spec = ch.pick("splits", SPECS)
    perms = ch.pick("draw", PERMS[:2])
    df = frame([(i * 3) % 4 for i in range(n)], [(i * i) % 3 for i in range(n)], gen.INDEXES[kind](n))
    if kind in ("str", "date") and any(k is None and h == "linear" for k, h, f in spec):
        return
    run(ctx, df, spec, perms, "index %s, spec %s" % (kind, spec))


def index_column(ch, ctx):
    """Splitting on the index equals splitting on an equal column."""
    n = ch.pick("n", [1, 2, 3, 4])
    v = ch.vec("v", n, [0, 1, 5])
    how = ch.pick("rule", ["random", "ordered", "linear"])
    frac = ch.pick("frac", [0.0, 0.25, 0.5, 0.8, 1.0])
    perms = ch.pick("draw", PERMS) if how == "random" else PERMS[0]
    extra = ch.pick("joint", [None, "ordered"])
    ty = ch.pick("type", ["int", "float", "str"])
    if ty == "str" and how == "linear":
        return
    vv = dict(int=v, float=[x * 0.5 - 1 for x in v], str=["k%d" % x for x in v])[ty]
    df1 = frame(v, [1] * n, pd.Index(vv))
    df1["col"] = vv
    df2 = df1.copy()
    df2.index = range(100, 100 + n)
    ids = []
    for df, key in ((df1, None), (df1, "col"), (df2, "col")):
        sp = {key: (how, frac)}
        if extra:
            sp["a"] = (extra, 0.5)
        with Script(perm=perms) as s:
            out = ctx.call(ds.split_df, df, sp)
        ids.append([list(p["uid"]) for p in out])
    if s.uncontrolled:
        raise Uncontrolled("real random numbers used")
    ctx.same(ids[1], ids[0], "index against equal column, %s" % how)
    ctx.same(ids[2], ids[0], "index against equal column of a re-indexed frame, %s" % how)


def default(ch, ctx):
    """The default is an 80-20 random split on the index."""
    n = ch.pick("n", [1, 2, 3, 4, 5, 10, 11, 40, 101])
    kind = ch.pick("index", ["range", "dup", "offset", "str"])
    seed = ch.pick("seed", [0, 1, 5])
    df = frame([(i * 3) % 4 for i in range(n)], [(i * i) % 3 for i in range(n)], gen.INDEXES[kind](n))
    np.random.seed(seed)
    out = ctx.call(ds.split_df, df)
    np.random.seed(seed)
    m = ds.random_split_series(pd.Series(list(df.index)), 0.8)
    got = judge(ctx, df, out, [[[bool(x) for x in m.values]]], "default split")
    tr = {df.index[i] for i in got[0]}
    ctx.check(len(tr) in rf.share(0.8, len(set(df.index))), "80 percent of the index values in train", len(tr), rf.share(0.8, len(set(df.index))))


def promises(ch, ctx):
    """True promises change nothing, per criterion."""
    n = ch.pick("n", [2, 3, 4])
    a = ch.pick("a", [p for p in itertools.product([0, 1, 3], repeat=n)])
    how = ch.pick("rule a", ["random", "ordered", "linear"])
    how2 = ch.pick("rule index", [None, "ordered", "random"])
    frac = ch.pick("frac", [0.25, 0.5, 0.75])
    perms = ch.pick("draw", PERMS[:2])
    df = frame(list(a), [1] * n, pd.Index([2 * i for i in range(n)]))
    sp = {"a": (how, frac)}
    if how2:
        sp[None] = (how2, 0.5)
    U = ([None] if how2 else []) + (["a"] if len(set(a)) == n else [])
    T = ([None] if how2 else []) + (["a"] if list(a) == sorted(a) else [])
    with Script(perm=perms) as s:
        base = [list(p["uid"]) for p in ctx.call(ds.split_df, df, sp)]
    if s.uncontrolled:
        raise Uncontrolled("real random numbers used")
    for u in ([], U, U[:1], U[1:]):
        for t in ([], T, T[:1], T[1:]):
            if not u and not t:
                continue
            with Script(perm=perms):
                got = [list(p["uid"]) for p in ctx.call(ds.split_df, df, sp, assume_unique=u, assume_sorted=tuple(t))]
            ctx.same(got, base, "promises unique=%s sorted=%s" % (u, t))


COLS = [("a", "b"), (0, 1), ("b", "a"), (("x", 1), ("x", 2)), ("b b", 3.5)]


def columns(ch, ctx):
    names = ch.pick("names", COLS)
    h1, h2 = ch.pick("rule 1", ["random", "ordered", "linear"]), ch.pick("rule 2", ["random", "ordered", "linear"])
    order = ch.pick("order", [0, 1])
    n = ch.pick("n", [3, 6, 30, 500])
    f1, f2 = ch.pick("fractions", [(0.5, 0.75), (0.8, 0.3)])
    p, q = [(i * 7) % 5 for i in range(n)], [((i * 11) % 13) * 0.5 for i in range(n)]
    df = pd.DataFrame({"uid": ["u%d" % i for i in range(n)]})
    df[names[0]] = p
    df[names[1]] = q
    df.index = [i // 2 for i in range(n)][::-1]
    crit = [(names[0], h1, f1), (names[1], h2, f2)]
    if order:
        crit = crit[::-1]
    book = {m: [(i * 3 + 1) % m if m % 3 else (i + 1) % m for i in range(m)] for m in range(1, 20)}
    splits = {k: (h, f) for k, h, f in crit}
    masks = [criterion(ctx, list(df[k]), h, f, book) for k, h, f in crit]
    with Script(perm=book) as s:
        out = ctx.call(ds.split_df, df, splits)
    if s.uncontrolled:
        raise Uncontrolled("real random numbers used")
    judge(ctx, df, out, masks, "columns %s, %s" % (names, splits))


NAMES = [("a", "A"), ("a", "a "), ("", "b"), (0, "0"), (False, "x"), ("None", "nan"), (1.0, "1"), ("uid2", "uid"[:2])]


def name_pairs(ch, ctx):
    """Confusable and falsy column names, with and without the index as a criterion."""
    n1, n2 = ch.pick("names", NAMES)
    h1, h2 = ch.pick("rules", [("random", "ordered"), ("ordered", "linear"), ("linear", "random"), ("random", "random")])
    hx = ch.pick("index rule", [None, "ordered", "random"])
    which = ch.pick("criteria", ["both", "first", "second"])
    n = ch.pick("n", [4, 12])
    df = pd.DataFrame({"uid": ["u%d" % i for i in range(n)]})
    df[n1] = [(i * 7) % 5 for i in range(n)]
    df[n2] = [((i * 11) % 4) * 0.5 for i in range(n)]
    df.index = [(i * 5) % (n + 1) for i in range(n)]
    spec = [c for c in [(n1, h1, 0.5), (n2, h2, 0.75)] if which == "both" or (c[0] is n1) == (which == "first")]
    if hx:
        spec.append((None, hx, 0.25))
    book = {m: [(i * 3 + 1) % m if m % 3 else (i + 1) % m for i in range(m)] for m in range(1, 20)}
    run(ctx, df, spec, book, "names %r" % (spec,))


def large(ch, ctx):
    n = ch.pick("n", [1000, 30000])
    spec = ch.pick("splits", [[("a", "ordered", 0.5)], [(None, "random", 0.8)], [("a", "random", 0.5), ("b", "linear", 0.25)], [("a", "linear", 0.3), (None, "ordered", 0.7), ("b", "random", 0.5)]])
    ix = ch.pick("index", ["range", "dup", "reversed", "offset"])
    df = pd.DataFrame({"uid": range(n), "a": [(i * 7919) % (n // 3) for i in range(n)], "b": [((i * 31) % 977) * 0.25 for i in range(n)]})
    df.index = gen.INDEXES[ix](n)
    np.random.seed(n)
    out = ctx.call(ds.split_df, df, {k: (h, f) for k, h, f in spec})
    np.random.seed(n)
    masks = []
    for k, h, f in spec:  # the random criterion draws in the order of the criteria
        v = vals_of(df, k)
        masks.append(rf.ordered(v, f) if h == "ordered" else [rf.linear(v, f)] if h == "linear" else [[bool(x) for x in ds.random_split_series(pd.Series(v), f).values]])
    got = []
    for part in out:
        pos = list(part["uid"])
        ctx.check(pos == sorted(pos) and part.equals(df.iloc[pos]), "parts keep rows, order and index", pos[:10])
        got.append(pos)
    ctx.check(sorted(got[0] + got[1] + got[2]) == list(range(n)), "every row in exactly one part", [len(g) for g in got])
    where = np.zeros(n, dtype=int)
    where[got[1]], where[got[2]] = 1, 2
    ok = any(
        all(None in v or where[i] == (0 if all(v) else 1 if not any(v) else 2) for i, v in enumerate(zip(*combo))) for combo in itertools.product(*masks)
    )
    ctx.check(ok, "train = all criteria, test = none, else unused", [len(g) for g in got])
    ctx.compared += 2


def types(ch, ctx):
    """Row contents of every dtype survive."""
    how = ch.pick("rule", ["random", "ordered", "linear"])
    n = ch.pick("n", [1, 3, 6])
    df = pd.DataFrame(
        {
            "uid": ["u%d" % i for i in range(n)],
            "k": [(i * 5) % 3 for i in range(n)],
            "f": [np.nan if i % 2 else i * 0.5 for i in range(n)],
            "d": pd.date_range("2020-01-01", periods=n),
            "o": [None if i % 3 == 0 else "s%d" % i for i in range(n)],
            "c": pd.Categorical(["x", "y", "x", "z", "y", "x"][:n]),
            "t": [bool(i % 2) for i in range(n)],
        }
    )
    df.index = pd.Index(["i%d" % ((i * 3) % 7) for i in range(n)], name="ix")
    frac = ch.pick("frac", [0.0, 0.5, 1.0])
    got = run(ctx, df, [("k", how, frac)], PERMS[1], "typed columns")
    with Script(perm=PERMS[1]):
        out = ctx.call(ds.split_df, df, {"k": (how, frac)})
    for part in out:
        ctx.check(list(part.dtypes) == list(df.dtypes), "column types are kept", list(part.dtypes), list(df.dtypes))
        ctx.check(part.index.name == "ix", "index name is kept", part.index.name)


def reject(ch, ctx):
    pos = ch.pick("pos", [0, 1, 2])
    how = ch.pick("rule", ["random", "ordered", "linear"])
    joint = ch.flag("joint")
    what = ch.pick("what", ["null", 1.5, -0.1])
    df = frame([1, 2, 3], [1, 2, 0], pd.RangeIndex(3))
    df["a"] = df["a"].astype(float)
    frac = 0.5
    if what == "null":
        df.loc[pos, "a"] = np.nan
    else:
        frac = what
    sp = {"b": ("ordered", 0.5)} if joint else {}
    sp["a"] = (how, frac)
    ctx.rejects("null key or bad fraction", ds.split_df, df, sp)


def scenarios(tier):
    th = tier == "thorough"
    L = [
        ("1 row", small(1, [0, 1], IDX), 3),
        ("2 rows", small(2, [0, 1, 2], IDX), 4),
        ("3 rows", small(3, [0, 1, 2], IDX if th else IDX[:2]), 5),
        ("4 rows", small(4, [0, 1, 2] if th else [0, 2], IDX[1:2]), 5),
        ("kinds of index", indices, 3),
        ("index = column", index_column, 5),
        ("default split", default, 2),
        ("promises", promises, 3),
        ("columns", columns, 3),
        ("column types", types, 2),
        ("confusable names", name_pairs, 3),
        ("large frames", large, 2),
        ("rejections", reject, 3),
    ]
    if th:
        L.append(("5 rows", small(5, [0, 2], IDX[1:]), 5))
    return L

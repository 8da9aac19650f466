"""C20 lagged data frames contain exactly the past values."""
import numpy as np
import pandas as pd

from mlpaper import data_splitter as ds

from mc import gen

BOUNDS = {
    "quick": "frames of 0-4 rows x 1-3 columns x 1-4 lags x strides -2..3 x every feature selection (None and each ordered subset) as list/tuple/array/Index, fourteen column "
    "types with and without missing values, seven index kinds (duplicated, reversed, dated), eight column-label kinds (two- and three-level, differing only in case or "
    "blanks, falsy); every small frame over "
    "{0,1,missing}; 10-13, 101 and 120 lags; 1000 rows; stride omitted; a column level already called lag",
    "thorough": "5 and 7 rows, up to 8 lags, strides -5..7",
}
ASSUMPTIONS = ["column labels are unique", "lag labels are L0, L1, ... as in the documentation example"]


def missing(v):
    return v is None or v is pd.NaT or (isinstance(v, (float, np.floating)) and np.isnan(v))


def same_value(a, b):
    if missing(a) or missing(b):
        return missing(a) and missing(b)
    return a == b


def cells(df):
    return [[df.iloc[i, j] for j in range(df.shape[1])] for i in range(df.shape[0])]


def key(c):
    return c if isinstance(c, tuple) else (c,)


def oracle(df, n_lags, stride, sel):
    """list of (column key + lag label, list of values)"""
    cols = list(df.columns)
    vals = cells(df)
    n = len(vals)
    out = [(key(c) + ("L0",), [vals[i][j] for i in range(n)]) for j, c in enumerate(cols)]
    for k in range(1, n_lags):
        for c in cols if sel is None else sel:
            j = cols.index(c)
            out.append((key(c) + ("L%d" % k,), [vals[i - k * stride][j] if 0 <= i - k * stride < n else None for i in range(n)]))
    return out


def judge(ctx, df, n_lags, stride, sel, got):
    want = oracle(df, n_lags, stride, sel)
    ctx.check(isinstance(got, pd.DataFrame), "a data frame is returned", type(got))
    ctx.compared += 1
    ctx.check(got.columns.nlevels == df.columns.nlevels + 1, "one more column level", got.columns.nlevels)
    ctx.check(list(got.index.names) == list(df.index.names), "row index unchanged", got.index.names, df.index.names)
    ctx.check(got.index.equals(df.index), "row index unchanged", list(got.index), list(df.index))
    ctx.check(list(map(str, got.columns.names[:-1])) == list(map(str, df.columns.names)), "names of the original column levels are kept", list(got.columns.names))
    ctx.check(got.columns.names[-1] == "lag", "the last level is named lag", list(got.columns.names))
    gc = [key(c) for c in got.columns]
    # within a lag the columns are the selected features; lags come in order
    labels = [c[-1] for c in gc]
    runs = [l for i, l in enumerate(labels) if i == 0 or labels[i - 1] != l]
    ctx.check(runs == [("L%d" % k) for k in range(n_lags) if k == 0 or sel is None or len(sel)], "lags in increasing order as last level", runs)
    ctx.check(sorted(map(repr, gc)) == sorted(repr(w[0]) for w in want), "the columns of each lag", gc, [w[0] for w in want])
    ctx.check(gc[: len(df.columns)] == [w[0] for w in want[: len(df.columns)]], "lag 0 keeps the column order", gc)
    for c, w in want:
        j = gc.index(c)
        col = [got.iloc[i, j] for i in range(len(got))]
        ctx.check(all(same_value(a, b) for a, b in zip(col, w)), "column %s" % (c,), col, w)
    # lag 0 unchanged, types included
    for j, c in enumerate(df.columns):
        ctx.check(got.dtypes.iloc[j] == df.dtypes.iloc[j], "lag 0 keeps the type of column %r" % (c,), got.dtypes.iloc[j], df.dtypes.iloc[j])
    ctx._out((n_lags, stride, tuple(labels)))


COLS = {
    "float": lambda n, j: np.array([1.5 * i + 10 * j for i in range(n)]),
    "floatnan": lambda n, j: np.array([np.nan if (i + j) % 2 else 1.0 + i + 10 * j for i in range(n)]),
    "int": lambda n, j: np.array([7 * i + 100 * j + 1 for i in range(n)], dtype=int),
    "bigint": lambda n, j: np.array([2 ** 40 + i + 10 * j for i in range(n)], dtype=np.int64),
    "str": lambda n, j: np.array(["s%d_%d" % (i, j) for i in range(n)], dtype=object),
    "bool": lambda n, j: np.array([(i + j) % 3 == 0 for i in range(n)], dtype=bool),
    "date": lambda n, j: pd.date_range("2001-0%d-01" % (j + 1), periods=n).values,
}
KINDS = list(COLS)
COLS.update(
    {
        "float32": lambda n, j: np.array([1.5 * i + 10 * j for i in range(n)], dtype=np.float32),
        "int8": lambda n, j: np.array([(-128 + i * 5 + j) % 256 - 128 for i in range(n)], dtype=np.int8),
        "uint8": lambda n, j: np.array([(255 - 3 * i - j) % 256 for i in range(n)], dtype=np.uint8),
        "cat": lambda n, j: pd.Categorical(["x", "y", "z", "x"][j:] * n)[:n],
        "delta": lambda n, j: pd.to_timedelta([i * 7 + j for i in range(n)], unit="h"),
        "inf": lambda n, j: np.array([np.inf if i % 3 == j else -0.0 if i % 3 == 1 else 2.0 for i in range(n)]),
        "none": lambda n, j: np.array([None if (i + j) % 2 else "t%d" % i for i in range(n)], dtype=object),
    }
)
LABELS = {
    "str": lambda p: list("cab"[:p]),
    "int": lambda p: [5, 2, 9][:p],
    "tuple2": lambda p: pd.MultiIndex.from_tuples([("u", "x"), ("v", "x"), ("u", "y")][:p], names=["one", "two"]),
    "tuple3": lambda p: pd.MultiIndex.from_tuples([("u", 1, "z"), ("v", 2, "z"), ("u", 2, "z")][:p]),
    "named": lambda p: pd.Index(list("bca"[:p]), name="feat"),
    "case": lambda p: ["a", "A", "a "][:p],
    "falsy": lambda p: [0, "", False][:p] if p < 3 else [0, "", "0"],
    "lagish": lambda p: pd.Index(["L1", "L0", "lag"][:p], name="lag"),
}


def frame(n, kinds, labels, index):
    p = len(kinds)
    df = pd.DataFrame({j: COLS[k](n, j) for j, k in enumerate(kinds)}, index=gen.INDEXES[index](n))
    df.columns = LABELS[labels](p)
    return df


FORMS = {"list": list, "tuple": tuple, "index": lambda s: pd.Index(s), "array": lambda s: np.array(s)}


def shapes(rows, lags, strides, label_kinds):
    def body(ch, ctx):
        n = ch.pick("rows", rows)
        p = ch.pick("cols", [1, 2, 3])
        labels = ch.pick("labels", label_kinds)
        n_lags = ch.pick("lags", lags)
        stride = ch.pick("stride", strides)
        kinds = (["float", "int", "str"] if labels in ("str", "tuple2") else ["int", "date", "bool"])[:p]
        df = frame(n, kinds, labels, "reversed" if labels in ("int", "named") else "range")
        if ch.flag("all features"):
            sel, args = None, {}
        else:
            sub = ch.subset("feature", range(p))
            sub = ch.perm("order", sub)
            sel = [df.columns[j] for j in sub]
            form = ch.pick("form", ["list", "tuple", "array"] if sel and not isinstance(sel[0], tuple) and labels != "falsy" else ["list", "tuple"])
            args = dict(features=FORMS[form](sel))
            if not sel and labels in ("tuple2", "tuple3"):
                return  # pandas loses the levels of an empty selection
        judge(ctx, df, n_lags, stride, sel, ctx.call(ds.build_lag_df, df, n_lags, stride=stride, **args))

    return body


def kinds_body(rows, kk=KINDS):
    def body(ch, ctx):
        n = ch.pick("rows", rows)
        kinds = [ch.pick("kind0", kk), ch.pick("kind1", kk)]
        index = ch.pick("index", list(gen.INDEXES))
        n_lags = ch.pick("lags", [1, 2, 3])
        stride = ch.pick("stride", [1, 2, -1, 0])
        df = frame(n, kinds, "str", index)
        sel = ch.pick("features", [None, ["a"], ["a", "c"]])
        judge(ctx, df, n_lags, stride, sel, ctx.call(ds.build_lag_df, df, n_lags, stride, sel))

    return body


def values(rows, p):
    """Every small frame over {0, 1, missing}: nothing is filled or dropped."""

    def body(ch, ctx):
        n = ch.pick("rows", rows)
        data = [ch.vec("r%d" % i, p, [1.0, 0.0, np.nan]) for i in range(n)]
        df = pd.DataFrame(np.array(data).reshape(n, p), columns=list("ba"[:p]))
        n_lags = ch.pick("lags", [2, 3])
        stride = ch.pick("stride", [1, 2])
        kw = {} if stride == 1 else dict(stride=stride)  # every lag unless told otherwise
        judge(ctx, df, n_lags, stride, None, ctx.call(ds.build_lag_df, df, n_lags, **kw))

    return body


def many(ch, ctx):
    n, n_lags = ch.pick("size", [(13, 10), (13, 11), (13, 12), (5, 13), (30, 101), (130, 120), (1000, 3)] + ([(5000, 2), (3, 1000)] if ctx.thorough else []))
    stride = ch.pick("stride", [1, 3, -1])
    labels = ch.pick("labels", ["str", "int", "tuple2"])
    df = frame(n, ["int", "float"], labels, ch.pick("index", ["range", "offset", "dup"]))
    sel = ch.pick("features", [None, [df.columns[1]]])
    judge(ctx, df, n_lags, stride, sel, ctx.call(ds.build_lag_df, df, n_lags, stride=stride, features=sel))


def scenarios(tier):
    th = tier == "thorough"
    S = [
        ("shapes", shapes([0, 1, 2, 4] + ([5, 7] if th else []), list(range(1, 9 if th else 5)), list(range(-5, 8)) if th else [1, 2, 3, 0, -1, -2], [k for k in LABELS if k not in ("case", "falsy")]), 5),
        ("confusable labels", shapes([0, 1, 3], [1, 2, 3], [1, 2, -1], ["case", "falsy"]), 5),
        ("kinds", kinds_body([0, 1, 3] + ([5] if th else [])), 4),
        ("more kinds", kinds_body([3], ["float"] + [k for k in COLS if k not in KINDS]), 4),
        ("values", values([1, 2, 3, 4] if th else [1, 2, 3], 2), 3),
        ("many", many, 3),
    ]
    return S

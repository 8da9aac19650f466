"""Column subsets of wider tables: pandas keeps the names of dropped columns in
the column index, which must not matter."""
import numpy as np
import pandas as pd

WAYS = {
    "select": lambda df, keep, lev: df.loc[:, [c for c in df.columns if c[lev] in keep]],
    "drop": lambda df, keep, lev: df.drop(columns=[c for c in df.columns if c[lev] not in keep]),
    "mask": lambda df, keep, lev: df.loc[:, np.array([c[lev] in keep for c in df.columns])],
    "delete": lambda df, keep, lev: _delete(df, keep, lev),
}


def _delete(df, keep, lev):
    df = df.copy()
    for c in [c for c in df.columns if c[lev] not in keep]:
        del df[c]
    return df


def rebuilt(df):
    out = pd.DataFrame({i: df.iloc[:, i] for i in range(df.shape[1])}, index=df.index)
    out.columns = pd.MultiIndex.from_tuples([tuple(c) for c in df.columns], names=list(df.columns.names))
    return out


def same(ctx, a, b, what):
    if isinstance(a, (tuple, list)):
        ctx.check(type(a) is type(b) and len(a) == len(b), what + ": type", type(a), type(b))
        for u, v in zip(a, b):
            same(ctx, u, v, what)
    elif isinstance(a, dict):
        ctx.check(sorted(map(repr, a)) == sorted(map(repr, b)), what + ": keys", sorted(map(repr, a)), sorted(map(repr, b)))
        for k in a:
            same(ctx, a[k], b[k], what)
    elif isinstance(a, pd.DataFrame):
        ctx.check(sorted(map(repr, a.columns)) == sorted(map(repr, b.columns)) and list(a.index) == list(b.index), what + ": labels", list(a.columns), list(b.columns))
        for c in a.columns:
            u, v = list(a[c]), list(b[c])
            ctx.check(repr(u) == repr(v), "%s: %s" % (what, c), u, v)
            ctx.compared += 1
    else:
        ctx.check(repr(a) == repr(b), what, a, b)


def body(tables, run):
    """tables: name -> (make(), level, must keep); run(ctx, table, first kept)"""

    def f(ch, ctx):
        t = ch.pick("table", list(tables))
        make, lev, must = tables[t]
        df = make()
        names = []
        for c in df.columns:
            if c[lev] not in names:
                names.append(c[lev])
        keep = [n for n in names if n in must or ch.flag("keep %s" % (n,))]
        if not keep:
            return
        way = ch.pick("how", list(WAYS))
        sub = WAYS[way](df, keep, lev)
        order = ch.pick("order", ["same", "reversed"])
        if order == "reversed":
            ks = keep[::-1]
            sub = sub.loc[:, sorted(sub.columns, key=lambda c: ks.index(c[lev]))]
        if len(df.index) > 2 and ch.flag("fewer rows"):
            sub = sub.iloc[1:]
        want = run(ctx, rebuilt(sub), keep)
        got = run(ctx, sub, keep)
        ctx.state(t, keep, way, order)
        same(ctx, got, want, "subset %s of a wider table (%s)" % (keep, way))

    return f

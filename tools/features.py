"""Which features of inputs each check gives to each function (development aid, read by no check).

features.py OUT <property>.. : runs the quick checks with a recorder in the call hook, then prints
function | parameter: the features seen.
"""
import inspect
import math
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
OUT = sys.argv[1]
SEEN = set()
SIG = {}


def bucket(n):
    return "%d" % n if n < 3 else "2^%d" % int(math.log2(n))


def feats(x, depth=0):
    import numpy as np
    import pandas as pd

    if isinstance(x, np.ndarray):
        yield "array %s ndim%d" % (x.dtype, x.ndim)
        for i, n in enumerate(x.shape):
            yield "dim%d=%s" % (i, bucket(n))
        if x.ndim > 1 and x.size > 1:
            yield "C" if x.flags.c_contiguous else ("F" if x.flags.f_contiguous else "strided")
        elif x.ndim == 1 and x.size > 1 and not x.flags.c_contiguous:
            yield "strided"
        if not x.flags.writeable:
            yield "readonly"
        if x.dtype.kind == "f" and x.size:
            v = x.ravel()
            fin = v[np.isfinite(v)]
            if np.isnan(v).any():
                yield "nan"
            if np.isinf(v).any():
                yield "inf"
            if ((v == 0) & np.signbit(v)).any():
                yield "-0"
            if len(fin):
                m = float(np.max(np.abs(fin)))
                yield "mag 1e%d" % (10 * round(math.log10(m) / 10)) if m else "zeros"
            if x.ndim == 1 and len(v) > 2:
                yield "ties" if len(np.unique(v)) < len(v) else "distinct"
                if (np.diff(v) >= 0).all():
                    yield "sorted"
                if (v == v[0]).all():
                    yield "constant"
        if x.dtype.kind in "iu" and x.size:
            yield "imax=%s" % bucket(int(abs(int(x.max()))))
            if x.min() < 0:
                yield "negative"
    elif isinstance(x, pd.DataFrame):
        yield "frame rows=%s" % bucket(len(x))
        yield "frame cols=%s" % bucket(x.shape[1])
        yield "index %s/%d%s" % (type(x.index).__name__, x.index.nlevels, "" if x.index.is_unique else " dup")
        yield "columns %s/%d %s" % (type(x.columns).__name__, x.columns.nlevels, sorted({type(c).__name__ for c in x.columns.get_level_values(0)}))
        yield "dtypes %s" % sorted({str(d) for d in x.dtypes})
        yield "idxname %s" % (x.index.names[0] is not None)
    elif isinstance(x, pd.Series):
        yield "series %s rows=%s" % (x.dtype, bucket(len(x)))
        yield "index %s" % type(x.index).__name__
    elif isinstance(x, dict):
        yield "dict n=%s keys=%s" % (bucket(len(x)), sorted({type(k).__name__ for k in x}))
        for v in list(x.values())[:4]:
            if depth < 2:
                for f in feats(v, depth + 1):
                    yield "val " + f
    elif isinstance(x, (list, tuple, set, frozenset)):
        yield "%s n=%s %s" % (type(x).__name__, bucket(len(x)), sorted({type(k).__name__ for k in x}))
    elif isinstance(x, str):
        yield "str %r" % x[:12]
    elif callable(x):
        yield "callable"
    elif isinstance(x, (bool, int, float, np.generic)) or x is None:
        yield "%s %.6g" % (type(x).__name__, x) if x is not None and not isinstance(x, (bool, np.bool_, np.str_)) else repr(x)
    else:
        yield type(x).__name__


def record(prop, f, a, k):
    name = getattr(f, "__name__", str(f))
    try:
        if f not in SIG:
            SIG[f] = inspect.signature(f)
        b = SIG[f].bind(*a, **k).arguments
    except (TypeError, ValueError):
        b = dict(enumerate(a))
    new = []
    for p, v in b.items():
        for t in feats(v):
            key = (prop, name, str(p), t)
            if key not in SEEN:
                SEEN.add(key)
                new.append("\t".join(key))
    if new:
        with open(OUT, "a") as h:
            h.write("\n".join(new) + "\n")


def main():
    import run
    from mc import core

    orig = core.Ctx.call

    def call(self, f, *a, **k):
        record(self.prop, f, a, k)
        return orig(self, f, *a, **k)

    core.Ctx.call = call
    prop = sys.argv[2]
    sys.argv = ["run.py", prop, "--workers", "3"]
    os.environ["VERIF_TIER"] = "quick"
    sys.exit(run.main())


if __name__ == "__main__":
    main()

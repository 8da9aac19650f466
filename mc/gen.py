"""Small deterministic input alphabets shared by the checks."""
from fractions import Fraction

import numpy as np
import pandas as pd


def compositions(total, parts):
    """All ways to write total as an ordered sum of `parts` counts >= 0."""
    if parts == 1:
        return [(total,)]
    out = []
    for c in range(total, -1, -1):
        for rest in compositions(total - c, parts - 1):
            out.append((c,) + rest)
    return out


def simplex(den, parts):
    """All probability vectors with that denominator (as floats, exact when
    den is a power of two), uniform-ish first."""
    L = sorted(compositions(den, parts), key=lambda c: (max(c), c))
    return [tuple(c / float(den) for c in v) for v in L]


def logp(rows):
    with np.errstate(divide="ignore"):
        return np.log(np.array(rows, dtype=float))


def pattern_probs(N, L, salt=0):
    """Deterministic varied distributions including zeros, N rows, L labels."""
    out = []
    for i in range(N):
        w = [((i * 7 + j * 13 + i * j + salt) % 11) for j in range(L)]
        if sum(w) == 0:
            w[i % L] = 1
        t = float(sum(w))
        out.append([v / t for v in w])
    return out


def pattern_labels(N, L, salt=0):
    return [(3 * i + i * i + salt) % L for i in range(N)]


def pattern_floats(N, salt=0):
    """Deterministic, untidy, distinct-ish floats of both signs."""
    return [(((i * 37 + 11 * salt) % 101) - 50) / 7.0 + (i % 3) * 0.125 for i in range(N)]


def labels_as(y, kind):
    y = np.array(y)
    if kind == "bool":
        return y.astype(bool)
    if kind == "stride":  # non-contiguous view
        z = np.full(2 * len(y), -1)
        z[::2] = y
        return z[::2]
    return y.astype(kind)


def array_as(a, kind):
    a = np.array(a, dtype=float)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "view":  # strided view of a larger array
        big = np.full(tuple(2 * s for s in a.shape), 99.0)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        return big[sl]
    if kind == "rev":  # negative strides
        return a[::-1].copy()[::-1]
    return a


INDEXES = {
    "range": lambda n: pd.RangeIndex(n),
    "reversed": lambda n: pd.Index(list(range(n))[::-1]),
    "offset": lambda n: pd.Index([10 * i + 5 for i in range(n)]),
    "str": lambda n: pd.Index(["r%d" % ((i * 7) % (n + 3)) if n < 5 else "r%03d" % (n - i) for i in range(n)]),
    "dup": lambda n: pd.Index([i // 2 for i in range(n)]),
    "date": lambda n: pd.date_range("2020-03-01", periods=n)[::-1],
    "float": lambda n: pd.Index([(-1) ** i * (i + 0.5) for i in range(n)]),
    "named": lambda n: pd.Index([7 * i % (n + 1) for i in range(n)], name="row"),
    "named dup": lambda n: pd.Index([(7 * i % (n + 1)) // 3 for i in range(n)], name="fold"),
}

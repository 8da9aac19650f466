"""Reference model of the split rules: positions that go to train."""
from fractions import Fraction
from math import ceil


def share(frac, n):
    """Acceptable counts for 'frac of n, rounded up' (one, unless frac is a
    decimal whose binary value makes frac*n fall next to a whole number)."""
    return sorted({ceil(float(frac) * n), ceil(Fraction(float(frac)) * n), ceil(Fraction(repr(float(frac))) * n)} & set(range(n + 1)))


def ordered_k(frac, m):
    """Acceptable numbers of smallest distinct values in train."""
    a = [k for k in range(1, m + 1) if k / float(m) >= frac]
    b = [k for k in range(1, m + 1) if Fraction(k, m) >= Fraction(repr(float(frac)))]
    return sorted({a[0] if a else m, b[0] if b else m})


def ordered(vals, frac):
    """List of acceptable masks."""
    u = sorted(set(vals))
    out = []
    for k in ordered_k(frac, len(u)):
        keep = set(u[:k])
        out.append([v in keep for v in vals])
    return out


def linear(vals, frac):
    """Mask with None where rounding may decide."""
    f = Fraction(float(frac))
    v = [Fraction(float(x)) for x in vals]
    lo, hi = min(v), max(v)
    piv = lo + f * (hi - lo)
    dy = float(frac) * 1024 == int(float(frac) * 1024) and all(abs(float(x)) < 2**30 and float(x) * 1024 == int(float(x) * 1024) for x in vals)
    tol = 0 if dy else Fraction(1, 10**12) * (abs(lo) + abs(hi))
    out = []
    for x in v:
        if x == lo or f == 1:
            out.append(True)
        elif abs(x - piv) <= tol and not dy:
            out.append(None)
        else:
            out.append(x <= piv)
    return out


def random(vals, frac, perm):
    """Acceptable masks when the distinct values (in order of appearance) are
    drawn in the order perm."""
    u = list(dict.fromkeys(vals))
    out = []
    for k in share(frac, len(u)):
        keep = {u[i] for i in perm[:k]}
        out.append([v in keep for v in vals])
    return out

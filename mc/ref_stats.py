"""Reference model of the statistics, in plain Python (scipy only for the
Student-t distribution function)."""
import math
from fractions import Fraction

import numpy as np
from scipy import special

INF = float("inf")
NAN = float("nan")


def mean(x):
    x = [float(v) for v in x]
    if any(math.isinf(v) for v in x):
        return math.fsum(v for v in x if math.isinf(v)) if len({v for v in x if math.isinf(v)}) == 1 else NAN
    if not x:
        return NAN
    return float(sum((Fraction(v) for v in x), Fraction(0)) / len(x))


def var(x, ddof):
    f = [Fraction(float(v)) for v in x]
    m = sum(f, Fraction(0)) / len(f)
    return float(sum((v - m) ** 2 for v in f) / (len(f) - ddof))


def degenerate(x):
    return len(x) <= 1 or any(math.isinf(float(v)) for v in x)


def constant(x):
    return all(float(v) == float(x[0]) for v in x)


def t_EB(x, confidence):
    if degenerate(x):
        return INF
    n = len(x)
    q = float(special.stdtrit(n - 1, 0.5 + 0.5 * confidence))
    return q * math.sqrt(var(x, 1) / n)


def t_p(x):
    if degenerate(x):
        return 1.0
    if constant(x):
        return 1.0 if float(x[0]) == 0.0 else 0.0
    n = len(x)
    t = mean(x) / math.sqrt(var(x, 1) / n)
    return 2.0 * float(special.stdtr(n - 1, -abs(t)))


def bern_EB(x, lo, hi, confidence):
    R = hi - lo
    if degenerate(x):
        return R
    A = math.log(3.0 / (1.0 - confidence))
    if math.isinf(R):
        return INF
    return math.sqrt(var(x, 0)) * math.sqrt(2.0 * A / len(x)) + 3.0 * A * R / len(x)


def bern_p(x, lo, hi):
    R = hi - lo
    if degenerate(x) or R == 0.0 or math.isinf(R):
        return 1.0
    n = len(x)
    a, b, m = 3.0 * R / n, math.sqrt(var(x, 0)) * math.sqrt(2.0 / n), abs(mean(x))
    if m == 0.0:
        return 1.0
    s = 2.0 * m / (b + math.sqrt(b * b + 4.0 * a * m))
    return min(1.0, 3.0 * math.exp(-s * s))


# -- bootstrap -------------------------------------------------------------


def ranks(n, confidence):
    """Acceptable (lower, upper) order-statistic positions of the interval."""
    exact = Fraction(confidence).denominator <= 1024
    a = (1 - Fraction(confidence)) / 2 * (n - 1)
    b = (n - 1) - a
    lo, hi = math.floor(a), math.ceil(b)
    L, H = {lo}, {hi}
    if not exact:
        # decimal confidences are not binary fractions: the virtual rank may
        # fall on either side of the whole number it is meant to be
        for k in (round(float(a)),):
            if abs(float(a) - k) < 1e-9 * max(1, n):
                L |= {k, max(k - 1, 0)}
        for k in (round(float(b)),):
            if abs(float(b) - k) < 1e-9 * max(1, n):
                H |= {k, min(k + 1, n - 1)}
    return sorted(L), sorted(H)


def percentile(est, confidence):
    """Sets of acceptable lower and upper ends."""
    s = sorted(float(v) for v in est)
    L, H = ranks(len(s), confidence)
    return sorted({s[k] for k in L}), sorted({s[k] for k in H})


def error_bars(est, orig, confidence):
    L, H = percentile(est, confidence)
    return sorted({max(h - orig, orig - l) for l in L for h in H})


def significance(est, ref):
    n = len(est)
    r = [float(ref)] * n if np.ndim(ref) == 0 else [float(v) for v in ref]
    le = sum(1 for a, b in zip(est, r) if float(a) <= b)
    ge = sum(1 for a, b in zip(est, r) if float(a) >= b)
    return min(1.0, 2.0 * min(le, ge) / n)


def boot_means(x, rows):
    """Resampled means; exact for samples that are small binary fractions."""
    xs = [float(v) for v in x]
    return [math.fsum(v * w for v, w in zip(xs, r) if w) / len(xs) for r in rows]


# -- clipping --------------------------------------------------------------


def clip_EB(mu, EB, lo, hi, min_EB=0.0):
    if math.isnan(EB):
        return NAN
    if math.isnan(mu):
        cover = INF
    else:
        c = [d for d in (hi - mu, mu - lo) if not math.isnan(d)]
        cover = max(c) if c else INF
    return min(max(EB, min_EB), cover)


def near(got, wants, rtol=1e-9, atol=1e-11):
    got = float(got)
    for w in wants:
        if math.isnan(w) and math.isnan(got):
            return True
        if got == w:
            return True
        if not (math.isinf(w) or math.isnan(w) or math.isinf(got) or math.isnan(got)):
            if abs(got - w) <= atol + rtol * max(abs(got), abs(w)):
                return True
    return False

"""Reference model of rounding, printing and shifting (exact Fractions)."""
import math
import re
from decimal import Decimal
from fractions import Fraction


def frac(x):
    """Exact value of a finite float or Decimal."""
    return Fraction(x)


def is_nan(x):
    return x.is_nan() if isinstance(x, Decimal) else math.isnan(x)


def is_fin(x):
    return x.is_finite() if isinstance(x, Decimal) else math.isfinite(x)


def p10(k):
    return Fraction(10) ** k


def lead(x):
    """Exponent of the leading decimal digit of a nonzero exact value."""
    x = abs(x)
    e = len(str(x.numerator)) - len(str(x.denominator))
    while p10(e) > x:
        e -= 1
    while p10(e + 1) <= x:
        e += 1
    return e


def natural_exp(x):
    """Exponent of the full exact expansion of a float (never above 0)."""
    d = x.denominator
    k = d.bit_length() - 1  # a power of two
    assert 1 << k == d
    return -k


def ceil_div(a, unit):
    q = a / unit
    return -((-q.numerator) // q.denominator)


def half_up(a, unit):
    """Nearest multiple of unit, ties away from zero (as an integer count)."""
    q = abs(a) / unit
    n = (2 * q.numerator + q.denominator) // (2 * q.denominator)
    return n if a >= 0 else -n


def sig_round(x, digits, up):
    """(value, set of acceptable exponents) of x to `digits` significant."""
    if x == 0:
        return Fraction(0), None
    e = lead(x) - digits + 1
    n = ceil_div(x, p10(e)) if up else half_up(x, p10(e))
    value = n * p10(e)
    if abs(n) >= 10 ** digits:
        e += 1
    ok = {e}
    if value == x and natural_exp(x) >= e:
        ok.add(natural_exp(x))  # short exact values need not be zero padded
    return value, ok


def dec(mantissa, expo):
    s = 1 if str(mantissa).startswith("-") else 0
    m = abs(int(mantissa))
    return Decimal((s, tuple(int(c) for c in str(m)), expo))


# ------------------------------------------------------------------ printing
_NUM = r"(-?)(\d{1,3}(?:,\d{3})*|\d+)(?:\.(\d+))?"
_EST = re.compile("^" + _NUM + r"(?:\((\d+)\))?$")
_PLAIN = re.compile("^" + _NUM + "$")


def _val(m):
    ip, fp = m.group(2).replace(",", ""), m.group(3) or ""
    v = Fraction(int(ip + fp)) * p10(-len(fp))
    return (-v if m.group(1) else v), -len(fp)


def read_number(s):
    m = _PLAIN.match(s)
    return None if m is None else _val(m)[0]


def read_estimate(s, shift):
    """(mean, error or None) a reader gets from an entry, or None."""
    m = _EST.match(s)
    if m is None:
        return None
    v, e = _val(m)
    err = None if m.group(4) is None else int(m.group(4)) * p10(e - shift)
    return v * p10(-shift), err


def judge_entry(ctx, text, mu, EB, shift, min_clip, max_clip, nonfinite, what):
    """The one meaning of an entry; clips are exact Fractions or None."""
    ctx.compared += 1
    ctx.check(isinstance(text, str), "%s: entry is text" % what, type(text))
    nan = mu.is_nan()
    inf = 0 if nan or mu.is_finite() else (1 if mu > 0 else -1)
    if not nan and max_clip is not None and (inf > 0 or (inf == 0 and frac(mu) > max_clip)):
        ctx.check(text[:1] == ">" and read_number(text[1:]) == max_clip * p10(shift), "%s: mean %s above the limit prints only > limit" % (what, mu), text, ">%s shifted %d" % (max_clip, shift))
        return
    if not nan and min_clip is not None and (inf < 0 or (inf == 0 and frac(mu) < min_clip)):
        ctx.check(text[:1] == "<" and read_number(text[1:]) == min_clip * p10(shift), "%s: mean %s below the limit prints only < limit" % (what, mu), text, "<%s shifted %d" % (min_clip, shift))
        return
    if nan or inf:
        name = "nan" if nan else ("inf" if inf > 0 else "-inf")
        ctx.check(text == nonfinite.get(name, name), "%s: non-finite mean prints the configured text" % what, text, nonfinite.get(name, name))
        return
    r = read_estimate(text, shift)
    ctx.check(r is not None, "%s: entry %r is not readable" % (what, text), text)
    ctx.check(r[0] == frac(mu), "%s: entry reads as another mean" % what, (text, str(r[0])), str(mu))
    if EB.is_finite():
        ctx.check(r[1] is not None and r[1] == frac(EB), "%s: entry reads as another error bar" % what, (text, str(r[1])), str(EB))
    else:
        ctx.check(r[1] is None, "%s: non-finite error bar prints the mean alone" % what, text, str(EB))
    # the printed precision is the precision of the mean
    m = _EST.match(text)
    ctx.check(-len(m.group(3) or "") == mu.as_tuple().exponent + shift, "%s: printed digits are those of the mean" % what, text, str(mu))


def judge_pval(ctx, text, p, nonfinite, what):
    ctx.compared += 1
    if p.is_nan():
        ctx.check(text == nonfinite.get("nan", "nan"), "%s: NaN p-value prints its configured text" % what, text)
        return
    step = p10(p.as_tuple().exponent)
    if frac(p) <= step:
        ctx.check(text[:1] == "<" and read_number(text[1:]) == step, "%s: p-value %s prints as < its step" % (what, p), text)
    else:
        ctx.check(read_number(text) == frac(p), "%s: p-value %s prints as given" % (what, p), text)
        ctx.check(-len(text.partition(".")[2]) == p.as_tuple().exponent, "%s: p-value %s keeps its digits" % (what, p), text)


# ------------------------------------------------------------------ shifting
def width(mu, EB, shift):
    """Printed width of an entry not counting points and commas."""
    s, digits, e = mu.as_tuple()
    e += shift
    n = int("".join(map(str, digits)))
    left = len(str(n)) + e if n else 1
    w = max(left, 1) + max(-e, 0)
    w += 1 if s else 0
    if EB.is_finite():
        w += 2 + len(EB.as_tuple().digits)
    return w


def shifts_ok(means, errs, mod):
    """All acceptable shifts of a column."""
    if not means:
        return {0}
    top = min(-m.as_tuple().exponent for m in means)
    top -= top % mod
    nz = [lead(frac(m)) for m in means if m != 0]
    good = []
    if nz:
        low = -max(nz)
        good = [s for s in range(low, top + 1) if s % mod == 0]
    if not good:
        return {top}
    w = {s: max(width(m, e, s) for m, e in zip(means, errs)) for s in good}
    best = min(w.values())
    cand = [s for s in good if w[s] == best]
    small = min(abs(s) for s in cand)
    return {s for s in cand if abs(s) == small}

"""Reference model of the binary classification curves: direct counting in
exact rational arithmetic, one threshold at a time."""
from fractions import Fraction

INF = float("inf")


def counts(y, s, w=None):
    """[(threshold, false positives, true positives)] from the zero-positives
    point down over the distinct scores."""
    n = len(y)
    w = [Fraction(1)] * n if w is None else [Fraction(float(v)) for v in w]
    s = [float(v) for v in s]
    out = [(INF, Fraction(0), Fraction(0))]
    if n <= 12:
        for t in sorted(set(s), reverse=True):
            fp = sum((w[i] for i in range(n) if s[i] >= t and not y[i]), Fraction(0))
            tp = sum((w[i] for i in range(n) if s[i] >= t and y[i]), Fraction(0))
            out.append((t, fp, tp))
        return out
    fp = tp = Fraction(0)
    by = {}
    for i in range(n):
        by.setdefault(s[i], []).append(i)
    for t in sorted(by, reverse=True):
        for i in by[t]:
            if y[i]:
                tp += w[i]
            else:
                fp += w[i]
        out.append((t, fp, tp))
    return out


def one_class(y):
    return len(set(bool(v) for v in y)) < 2


def fdiv(a, b):
    """float(a/b) with the IEEE answers for b == 0 (a > 0)."""
    return float(a / b) if b != 0 else INF


def roc(c):
    P, N = c[-1][2], c[-1][1]
    return [float(fp / N) for _, fp, _ in c], [float(tp / P) for _, _, tp in c]


def pr(c):
    P = c[-1][2]
    rec = [float(tp / P) for _, _, tp in c]
    prec = [float(tp / (tp + fp)) if tp + fp > 0 else None for _, fp, tp in c]
    prec[0] = prec[1]
    return rec, prec


def prg(c):
    P, N = c[-1][2], c[-1][1]
    rg, pg = [], []
    for _, fp, tp in c:
        fn = P - tp
        if tp == 0:
            rg.append(0.0)
            pg.append(-INF if fp > 0 else None)
        else:
            rg.append(max(0.0, float(1 - P * fn / (N * tp))))
            pg.append(float(1 - P * fp / (N * tp)))
    pg[0] = pg[1]
    return rg, pg


CURVES = dict(roc=roc, pr=pr, prg=prg)
KIND = dict(roc="linear", pr="previous", prg="previous")


def area(x, y, kind):
    tot = Fraction(0)
    inf = None
    for i in range(len(x) - 1):
        dx = Fraction(x[i + 1]) - Fraction(x[i])
        if dx == 0:
            continue
        if kind == "previous":
            if y[i] in (INF, -INF):
                inf = y[i]
                continue
            tot += dx * Fraction(y[i])
        else:
            tot += dx * (Fraction(y[i]) + Fraction(y[i + 1])) / 2
    return inf if inf is not None else float(tot)


def auc(which, y, s, w=None):
    x, v = CURVES[which](counts(y, s, w))
    return area(x, v, KIND[which])


def mann_whitney(y, s):
    num = den = Fraction(0)
    for i in range(len(y)):
        for j in range(len(y)):
            if y[i] and not y[j]:
                den += 1
                num += 1 if s[i] > s[j] else Fraction(1, 2) if s[i] == s[j] else 0
    return float(num / den)


def weak_orders(n):
    """All score vectors of length n up to order isomorphism (ranks 0..k)."""
    out = []

    def rec(pre):
        if len(pre) == n:
            m = sorted(set(pre))
            if m == list(range(len(m))):
                out.append(tuple(pre))
            return
        for v in range(n):
            rec(pre + [v])

    rec([])
    return out

"""C24 rendered tables: right cells, decimal alignment and truthful headers."""
import re
from decimal import Decimal
from fractions import Fraction

import numpy as np
import pandas as pd

from mlpaper import sciprint as sp

from mc import ref_dec as rd
from mc import subsets
from mc.checks.c21 import table

D = Decimal
BOUNDS = {
    "quick": "headers: every shift -27..27 x 8 units (none, empty, one- and many-letter, prefix-like) x prefix on/off x text/TeX x 8 metric names; padding: every column of 1-4 "
    "entries over 17 texts; rendering: text and LaTeX of 1-3 methods x 1-3 metrics over 12 float entries, read back by method and header to the true "
    "values, x shift modes x limits x units x prefix x column orders; confusable metric and method names; 70 methods, 12 metrics; the exporters on every column order of a ready table",
    "thorough": "padding over 5 entries; rendering of 2x2 tables over 12 entries and all options",
}
ASSUMPTIONS = [
    "text tables are laid out by pandas (right-aligned columns); LaTeX layout by pandas is replaced by a stand-in that writes the same rows because jinja2 is not installed",
    "metric names, units and method names do not contain runs of blanks, & or backslashes",
]

PREF = dict(zip("yzafpnumcdkMGTPEZY", [-24, -21, -18, -15, -12, -9, -6, -3, -2, -1, 3, 6, 9, 12, 15, 18, 21, 24]))
PREF.update({"": 0, "h": 2, "da": 1})
PREF_TEX = {k: v for k, v in PREF.items() if k != "u"}
PREF_TEX[r"$\mu$"] = -6


def read_header(h, metric, unit, tex):
    """Exponent x such that true value = printed * 10^x, or None if unreadable."""
    if tex:
        if not (h.startswith("{") and h.endswith("}")):
            return None
        h = h[1:-1]
    name = metric.replace("_", " ")
    if not h.startswith(name):
        return None
    rest = h[len(name) :]
    stated = 0
    m = re.match(r"^ \$\\times 10\^\{(-?\d+)\}\$" if tex else r"^ x 1e(-?\d+)", rest)
    if m:
        stated = int(m.group(1))
        if stated == 0:
            return None  # an unshifted column shows neither
        rest = rest[m.end() :]
    if unit is None:
        return -stated if rest == "" else None
    if not (rest.startswith(" (") and rest.endswith(")") and rest[2:-1].endswith(unit)):
        return None
    pre = rest[2:-1][: len(rest) - 3 - len(unit)]
    table_ = PREF_TEX if tex else PREF
    if pre not in table_:
        return None
    return table_[pre] - stated


UNITS = [None, "s", "m", "bits", "", "mm", "nats/word", "%", "%d", "{}", "\\%"]
NAMES = ["loss", "log_loss", "a_b_c", "x", "_lead", "AUC", "trail_", "p", "err_%", "acc %d (%s)", "{0}", "x 1e3", "two  words", "$\\beta_1$"]


def headers(ch, ctx):
    shift = ch.pick("shift", sorted(range(-27, 28), key=abs))
    unit = ch.pick("unit", UNITS)
    pre, tex = ch.flag("prefix"), ch.flag("tex")
    name = ch.pick("name", NAMES)
    cols = [(name, "estimate"), (name, "p"), ("other", "estimate"), ("other", "p")]
    every = ctx.thorough or (name in NAMES[:3] and unit in UNITS[:3])  # the other names and units in one arrangement
    if every and ch.flag("reversed"):
        cols = cols[::-1]
    if every and ch.flag("index"):
        arg = pd.MultiIndex.from_tuples(cols, names=["metric", "stat"])
    else:
        arg = list(cols)
    shifts = {"other": 0, name: np.int64(shift) if every and ch.flag("numpy") else shift}
    units = {} if unit is None else {name: unit}
    units["unrelated"] = "kg"
    got = ctx.call(sp.adjust_headers, arg, shifts, units, use_prefix=pre, use_tex=tex)
    ctx.check(len(got) == 4, "one header per column", got)
    ctx.compared += 1
    for (m, s), h in zip(cols, got):
        if s == "p":
            ctx.check(h == ("{p}" if tex else "p"), "p columns are headed p", h)
            continue
        x = read_header(h, m, units.get(m), tex)
        ctx.check(x == -int(shifts[m]), "header of %s shifted by %s, unit %r" % (m, shifts[m], units.get(m)), (h, x))
        if not pre and units.get(m) is not None:
            ctx.check("(%s)" % units[m] in h, "unit shown without prefix", h)
    ctx._out(tuple(got))


TEXTS = ["1.234(56)", "-55.5", "0", "1,234.5(12)", "12(3)", "-0.00", "nan", ">1,000", "<-0.01", "inf", "--", "0.000012(5)", "123456789", "-1(1)", "7.", "\\infty", "1.0(100)"]
TEXTS.remove("7.")


def point(s):
    """Characters from the point (or where it would be) to the right end."""
    core = s.rstrip(" ")
    i = core.find(".")
    if i < 0:
        i = core.find("(")
    if i < 0:
        i = len(core)
    return len(s) - i


def padding(n, texts):
    def body(ch, ctx):
        col = [ch.pick("entry%d" % i, texts) for i in range(n)]
        arg = pd.Series(col) if ch.flag("series") else list(col)
        got = list(ctx.call(sp.pad_num_str, arg))
        ctx.same([g.rstrip(" ") for g in got], col, "padding changes no entry")
        ctx.check(len({point(g) for g in got}) == 1, "decimal points are in line when right aligned", got)
        if not ctx.thorough and n > 2:
            return
        got = list(ctx.call(sp.pad_num_str, arg, pad="~"))
        ctx.same([g.rstrip("~") for g in got], col, "padding changes no entry")

    return body


# ---------------------------------------------------------------- rendering
VALS = [
    (1.2345, 0.0671, 0.001234),
    (-20.5, 3.3, 1.0),
    (0.00123, 0.000045, 0.04),
    (1250.0, 12.7, 0.5),
    (float("nan"), float("nan"), float("nan")),
    (3.25, float("inf"), 0.2),
    (7.0, 0.0, 0.0),
    (1e7, 120.0, 1e-6),
    (-4e5, 1.0, 0.3),
    (0.0, 0.25, 0.9),
    (float("inf"), float("inf"), 0.7),
    (99.96, 0.099, 0.05),
]


def latex(self, *a, **k):
    """Stand-in for pandas' LaTeX writer: rows joined by & and ended by \\\\"""
    buf = k.pop("buf", None) or (a[0] if a else None)
    esc = k.get("escape", False)
    idx = k.get("index", True)
    hdr = k.get("header", True)
    f = (lambda s: re.sub(r"([&%$#_{}\\])", r"\\\1", str(s))) if esc else str
    L = ["\\begin{tabular}{%s}" % (k.get("column_format") or "l" * (self.shape[1] + 1)), "\\toprule"]
    names = list(map(f, self.columns)) if hdr is True else ([] if hdr is False else list(map(f, hdr)))
    if names:
        L.append(" & ".join(([""] if idx else []) + names) + " \\\\")
    L.append("\\midrule")
    for i in range(self.shape[0]):
        L.append(" & ".join(([f(self.index[i])] if idx else []) + [f(v) for v in self.iloc[i]]) + " \\\\")
    L += ["\\bottomrule", "\\end{tabular}", ""]
    s = "\n".join(L)
    if buf is not None:
        buf.write(s)
        return None
    return s


class LatexStub(object):
    def __enter__(self):
        self.old = pd.DataFrame.to_latex
        pd.DataFrame.to_latex = latex

    def __exit__(self, *e):
        pd.DataFrame.to_latex = self.old


def parse_latex(ctx, s, meths):
    rows = [r.strip() for r in s.split("\n") if r.rstrip().endswith("\\\\")]
    rows = [[c for c in r[: -len("\\\\")].split("&")] for r in rows]
    ctx.check(len(rows) == 1 + len(meths), "a header and one row per method", rows)
    ctx.check(len({len(r) for r in rows}) == 1, "rows have the same number of cells", rows)
    head = [c.strip() for c in rows[0][1:]]
    body = {}
    for m, r in zip(meths, rows[1:]):
        ctx.check(r[0].strip() == str(m), "row of method %s" % m, r)
        body[m] = [c[1:] if c.startswith(" ") else c for c in r[1:]]
    m = re.search(r"\\begin\{tabular\}\{([^\n]*)\}", s)
    spec = re.sub(r"[|\s]", "", m.group(1)) if m else ""
    ctx.check(len(re.sub(r"\{[^}]*\}", "", spec)) == len(head) + 1, "one alignment per LaTeX column", spec)
    return head, body


def parse_text(ctx, s, meths, heads):
    lines = s.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    ctx.check(len(lines) == 1 + len(meths), "a header and one row per method", lines)
    edges, at = [], 0
    for h in heads:
        i = lines[0].find(" " + h, at)
        ctx.check(i >= 0, "header %r in the table" % h, lines[0])
        at = i + 1 + len(h)
        edges.append(at)
    # a header may be shorter than the padded entries: right edges are shared
    ctx.check(lines[0][at:].strip() == "", "no other header", lines[0])
    body = {}
    for m, l in zip(meths, lines[1:]):
        ctx.check(l.startswith(str(m)), "row of method %s" % m, l)
        cells, prev = [], len(str(m))
        l = l.ljust(edges[-1])
        ctx.check(l[edges[-1] :].strip() == "", "entries end at the right edge", l)
        for e in edges:
            ctx.check(e == len(l) or l[e] == " ", "columns are separated", l)
            cells.append(l[prev:e].lstrip(" "))
            prev = e
        body[m] = cells
    return body


def render(n, k, vals, opts, metrics_=("b_loss", "a", "c_d_e"), meths_=("m2", "m 1", "zz")):
    def body(ch, ctx):
        metrics = list(metrics_[:k])
        meths = list(meths_[:n])
        first = metrics[0]
        rows = {}
        for i, me in enumerate(meths):
            rows[me] = {m: ch.pick("%s/%s" % (me, m), vals) for m in metrics}
        tex = ch.flag("tex")
        lim = ch.pick("limits", opts["limits"])
        mx, mn = {}, {}
        if lim:
            mx[first], mn[first] = lim
        if any(v[m][0] == float("inf") and m not in mx for v in rows.values() for m in metrics):
            return
        ebl = ch.pick("EB_limit", opts["ebl"])
        eb = {} if ebl is None else {first: ebl}
        mod = ch.pick("shift_mod", opts["mod"])
        units = ch.pick("units", opts["units"])
        units = {{"b_loss": metrics[0], "a": metrics[-1] if k > 1 else "a"}.get(u, u): v for u, v in units.items()} if metrics_[0] != "b_loss" else units
        pre = ch.flag("prefix") if units else True
        fmt = ch.pick("text", [{}, {"nan": "--", "inf": "oo"}])
        cols = None
        if ch.flag("sorted columns"):
            cols = sorted((m, s) for m in metrics for s in ("mean", "error", "p"))
        t = table(rows, meths, metrics, cols)
        kw = dict(unit_dict=dict(units), shift_mod=mod, crap_limit_max=mx, crap_limit_min=mn, EB_limit=eb, non_finite_fmt=dict(fmt), use_tex=tex, use_prefix=pre)
        # expected rounded entries: exact reference
        want, scale, dec = {}, {}, {}
        for me in meths:
            for m in metrics:
                want[me, m] = dec_of(rows[me][m], eb.get(m))
        coarse = False
        for m in metrics:
            lo, hi = -rd.p10(mn[m]) if m in mn else None, rd.p10(mx[m]) if m in mx else None
            use = [want[me, m] for me in meths if want[me, m][0].is_finite() and (lo is None or rd.frac(want[me, m][0]) >= lo) and (hi is None or rd.frac(want[me, m][0]) <= hi)]
            coarse |= any(u[0].as_tuple().exponent > 0 for u in use)
        if coarse and mod is None:
            ctx.rejects("printing without shift", sp.just_format_it, t, **kw)
            return
        with LatexStub():
            s = ctx.call(sp.just_format_it, t, **kw)
        ctx.check(isinstance(s, str), "text is returned", type(s))
        names = sorted(metrics)
        if tex:
            head, got = parse_latex(ctx, s, meths)
            ctx.check(len(head) == 2 * k, "headers", head)
        else:
            # find the headers: each metric's header runs up to its p header
            head = text_headers(ctx, s.split("\n")[0], names)
            got = parse_text(ctx, s, meths, head)
        ctx._out(s)
        for j, m in enumerate(names):
            h, hp = head[2 * j], head[2 * j + 1]
            ctx.check(hp == ("{p}" if tex else "p"), "p columns are headed p", hp)
            x = read_header(h, m, units.get(m), tex)
            ctx.check(x is not None, "header of %s is readable" % m, h)
            ctx.check(mod is not None or x == 0, "an unshifted column states no scale", h)
            ctx.check(mod is None or x % mod == 0, "scale is a multiple of the modulus", h)
            lo, hi = -rd.p10(mn[m]) if m in mn else None, rd.p10(mx[m]) if m in mx else None
            ent = [got[me][2 * j] for me in meths]
            ctx.check(len({point(e) for e in ent}) == 1, "decimal points of a column in line", ent)
            for me, e in zip(meths, ent):
                mu, EB, p = want[me, m]
                rd.judge_entry(ctx, e.rstrip(" "), mu, EB, -x, lo, hi, fmt, "rendered %s/%s" % (me, m))
                rd.judge_pval(ctx, got[me][2 * j + 1].strip(" "), p, fmt, "rendered p of %s/%s" % (me, m))

    return body


def text_headers(ctx, line, names):
    out, rest = [], line
    for i, m in enumerate(names):
        nm = m.replace("_", " ")
        a = rest.find(" " + nm)
        ctx.check(a >= 0 and rest[:a].strip() == "", "header of %s comes next" % m, rest, line)
        rest = rest[a + 1 :]
        b = re.search(r" p(?= |$)", rest)
        ctx.check(b is not None, "a p header for %s" % m, rest)
        out += [rest[: b.start()].rstrip(" "), "p"]
        rest = rest[b.end() :]
    ctx.check(rest.strip() == "", "no other headers", rest)
    return out


def dec_of(v, limit):
    """Rounded entry by the documented rules (default digits 2, 4, 5)."""
    mu, eb, p = v
    if eb != eb:
        E = D("NaN")
    elif eb == float("inf") or (limit is not None and rd.frac(eb) > rd.p10(limit)):
        E = D("Infinity")
    else:
        E = mk(*rd.sig_round(rd.frac(eb), 2, True))
    if mu != mu:
        M = D("NaN")
    elif mu in (float("inf"), -float("inf")):
        M = D(mu)
    elif E.is_finite() and E != 0:
        e = E.as_tuple().exponent
        M = rd.dec(("-" if mu < 0 else "") + str(abs(rd.half_up(rd.frac(mu), rd.p10(e)))), e)
    else:
        M = mk(*rd.sig_round(rd.frac(mu), 5, False))
    P = D("NaN") if p != p else rd.dec(str(rd.ceil_div(rd.frac(p), rd.p10(-4))), -4)
    return M, E, P


def mk(value, exps):
    if value == 0:
        return D(0)
    e = max(exps)  # short exact values are kept short
    q = value / rd.p10(e)
    assert q.denominator == 1
    return rd.dec(str(q.numerator), e)


OPTS = dict(
    limits=[None, (3, 2)],
    ebl=[None, 0],
    mod=[None, 1, 3],
    units=[{}, {"b_loss": "s", "a": "bits"}],
)


def long_table(ch, ctx):
    """Many methods and metrics, wide names: nothing truncated or wrapped."""
    n, k = ch.pick("shape", [(70, 1), (3, 12), (65, 8)])
    tex = ch.flag("tex")
    metrics = ["metric_%s_%d" % ("q" * (9 * (i % 3)), i) for i in range(k)]
    meths = ["method %s%03d" % ("w" * (20 * (i % 4)), i) for i in range(n)]
    rows = {me: {m: (float(i * k + j) + 0.5, 0.25, ((i + j) % 100) / 128.0) for j, m in enumerate(metrics)} for i, me in enumerate(meths)}
    t = table(rows, meths, metrics)
    with LatexStub():
        s = ctx.call(sp.just_format_it, t, shift_mod=ch.pick("mod", [None, 3]), use_tex=tex)
    names = sorted(metrics)
    if tex:
        head, got = parse_latex(ctx, s, meths)
    else:
        head = text_headers(ctx, s.split("\n")[0], names)
        got = parse_text(ctx, s, meths, head)
    for j, m in enumerate(names):
        x = read_header(head[2 * j], m, None, tex)
        ctx.check(x is not None, "header of %s is readable" % m, head)
        for me in meths:
            mu, EB, p = dec_of(rows[me][m], None)
            rd.judge_entry(ctx, got[me][2 * j].rstrip(" "), mu, EB, -x, None, None, {}, "rendered %s/%s" % (me, m))
            rd.judge_pval(ctx, got[me][2 * j + 1].strip(" "), p, {}, "rendered p")


def _wide():
    mets, meths = ["d_x", "b", "c", "a"], ["y", "x", "z"]
    V = [VALS[i] for i in (0, 1, 2, 3, 9, 11)]
    return table({me: {m: V[(4 * i + j) % 6] for j, m in enumerate(mets)} for i, me in enumerate(meths)}, meths, mets)


def _on_subset(ctx, df, keep):
    with LatexStub():
        return [ctx.call(sp.just_format_it, df, unit_dict={"a": "s", "b": "m"}, shift_mod=3, crap_limit_max={"c": 1}, use_tex=t) for t in (False, True)]


def direct(ch, ctx):
    """The exporters on a ready table of texts: columns in any order, any shift."""
    cols = [c for c in ch.perm("columns", [("b_x", "estimate"), ("b_x", "p"), ("a", "estimate"), ("a", "p")])]
    meths = ch.pick("methods", [["m2"], ["m 1", "m2"], [10, 9]])
    text = {("b_x", "estimate"): ["1.5(12)", "-22.5   "], ("b_x", "p"): ["0.0100", "<0.0001"], ("a", "estimate"): [">1,000", "1.5    "], ("a", "p"): ["nan", "1.0000"]}
    t = pd.DataFrame([[text[c][i] for c in cols] for i in range(len(meths))], index=pd.Index(meths, name="method"), columns=pd.MultiIndex.from_tuples(cols, names=["metric", "stat"]), dtype=object)
    s1, s2 = ch.pick("shifts", [(0, 0), (3, -3), (-2, 0), (5, 27), (0, 6)])
    shifts = {"a": s2, "b_x": s1, "unused": 1}
    units = ch.pick("units", [{}, {"b_x": "s"}, {"a": "m", "b_x": "m"}])
    pre = ch.pick("prefix", [None, True, False])
    kw = {} if pre is None else {"use_prefix": pre}
    heads = ctx.call(sp.adjust_headers, list(cols), shifts, units, use_prefix=pre is not False)
    s = ctx.call(sp.table_to_string, t, shifts, units, **kw)
    got = parse_text(ctx, s, meths, heads)
    with LatexStub():
        s = ctx.call(sp.table_to_latex, t, shifts, units, **kw)
    lhead, lgot = parse_latex(ctx, s, meths)
    theads = ctx.call(sp.adjust_headers, list(cols), shifts, units, use_prefix=pre is not False, use_tex=True)
    ctx.same(lhead, theads, "headers of the LaTeX table")
    for i, me in enumerate(meths):
        want = [text[c][i].strip() for c in cols]
        ctx.same([c.strip() for c in got[me]], want, "cells of %r" % (me,))
        ctx.same([c.strip() for c in lgot[me]], want, "LaTeX cells of %r" % (me,))
    for c, h, g in zip(cols, heads, theads):
        if c[1] == "estimate":
            ctx.check(read_header(h, c[0], units.get(c[0]), False) == -shifts[c[0]], "header of %s" % c[0], h)
            ctx.check(read_header(g, c[0], units.get(c[0]), True) == -shifts[c[0]], "TeX header of %s" % c[0], g)


subset = subsets.body({"four": (_wide, 0, ())}, _on_subset)


def scenarios(tier):
    th = tier == "thorough"
    small = dict(limits=[None, (3, 2)], ebl=[None], mod=[3] if not th else [1, 3], units=OPTS["units"])
    return [
        ("headers", headers, 3),
        ("padding", lambda ch, ctx: padding(ch.pick("n", [1, 2, 3, 4] if not th else [1, 2, 3, 4, 5]), TEXTS)(ch, ctx), 3),
        ("render 1x1", render(1, 1, VALS, OPTS), 2),
        ("render 2x1", render(2, 1, VALS if th else VALS[:9] + VALS[10:], small), 2),
        ("render 1x2", render(1, 2, VALS if th else VALS[:9], small), 2),
        ("render 2x2", render(2, 2, VALS[:6] if th else VALS[:3], small), 3),
        ("render 3x3", render_cycle, 3),
        ("names", render_names, 3),
        ("column subsets", subset, 3),
        ("long", long_table, 2),
        ("exporters", direct, 2),
    ]


def render_names(ch, ctx):
    """Names that are easily confused: cells, limits and units go by name."""
    metrics = ch.pick("metric names", [("b", "B", "b1"), ("loss", "los", "loss_2"), ("a_b", "A_B", "a_b_c"), ("x10", "x9", "x1"), ("inf", "nan", "mean")])
    meths = ch.pick("method names", [("m", "M", "m1"), (10, 9, 1), ("", "0", "00"), ("nan", "inf", "p"), ("b", "B", "estimate")])
    r = ch.pick("rotation", [0, 5])
    V = VALS[:10] + VALS[11:]
    cells = iter([V[(r + 3 * i) % len(V)] for i in range(9)])

    class Fixed(object):
        def pick(self, name, options):
            if "/" in name:
                return next(cells)
            return ch.pick(name, options)

        def flag(self, name):
            return ch.flag(name)

    render(3, 3, VALS, dict(limits=[(3, 2)], ebl=[0], mod=[1], units=OPTS["units"]), metrics, meths)(Fixed(), ctx)


def render_cycle(ch, ctx):
    """3x3 tables whose cells are all different: rotations of the alphabet."""
    r = ch.pick("rotation", list(range(len(VALS))))
    st = ch.pick("step", [1, 5, 7])
    cells = iter([VALS[(r + st * i) % len(VALS)] for i in range(9)])

    class Fixed(object):
        def pick(self, name, options):
            if "/" in name:
                return next(cells)
            return ch.pick(name, options)

        def flag(self, name):
            return ch.flag(name)

    render(3, 3, VALS, OPTS)(Fixed(), ctx)

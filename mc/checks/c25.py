"""C25 calls are pure: no input changes, no memory between calls."""
import copy
import decimal
import importlib
import inspect
import os
import pickle
import pkgutil
import random
import sys
import types
import warnings

import numpy as np
import pandas as pd

import mlpaper

from mc import core, ops
from mc.checks.c24 import LatexStub

BOUNDS = {
    "quick": "about 230 calls covering every public function and its branches, each in a fresh process under two numpy error settings; every ordered pair of the non-heavy calls "
    "(about 40000 histories), every failing call before every other, every call between two calls of the same function on other arguments, 150 repetitions of a call, all calls one after another in both directions, and every pair of random calls without re-seeding; every triple of 16 calls; every call repeated after its result was overwritten and after its argument "
    "objects were changed in place; each history runs in its own process and is compared bit for bit with the call in a fresh process",
    "thorough": "heavy calls in all pairs, triples of 40 calls, quadruples of 9",
}
ASSUMPTIONS = [
    "the sticky signal flags of the decimal context are not counted as its settings",
    "cummax_strict(copy=False) is documented to work in place and is not included; model objects are fitted, which their interface demands",
    "fresh process: a fork of an interpreter that has imported the package and called nothing",
]
MODS = [importlib.import_module("mlpaper." + m.name) for m in pkgutil.iter_modules(mlpaper.__path__) if m.name != "_version"] + [mlpaper]
SETTINGS = [dict(divide="warn", over="warn", under="ignore", invalid="warn"), dict(divide="ignore", over="ignore", under="warn", invalid="ignore")]


def canon(x):
    if hasattr(x, "__dict__") and type(x).__module__.startswith(("mc.", "mlpaper")) and not isinstance(x, (type, types.FunctionType, types.ModuleType)):
        return (type(x).__name__,)  # models: learned state is expected to change
    if isinstance(x, dict):
        return ("d", tuple((canon(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, pd.DataFrame):
        return ("df", core._canon(x), canon(list(x.columns.names)), canon(list(x.index.names)), tuple(map(str, x.dtypes)))
    if isinstance(x, pd.Series):
        return ("s", core._canon(x), str(x.dtype), canon(x.name), canon(list(x.index.names)))
    return core._canon(x)


def defaults():
    out = {}
    for m in MODS:
        for n, v in sorted(vars(m).items()):
            if n.startswith("__"):
                continue
            if isinstance(v, types.FunctionType) and v.__module__.startswith("mlpaper"):
                if v.__defaults__ or v.__kwdefaults__:
                    out["%s.%s defaults" % (m.__name__, n)] = repr(canon([v.__defaults__, v.__kwdefaults__]))
            elif isinstance(v, type) and v.__module__.startswith("mlpaper"):
                for k, g in sorted(vars(v).items()):
                    if isinstance(g, types.FunctionType):
                        out["%s.%s.%s defaults" % (m.__name__, n, k)] = repr(canon([g.__defaults__]))
            elif not n.startswith("_") and isinstance(v, (dict, list, set, tuple, np.ndarray, int, float, str)):
                out["%s.%s" % (m.__name__, n)] = repr(canon(v))
    return out


def options():
    """The pandas options, as far as this version lets one list them."""
    try:
        return repr(sorted(importlib.import_module("pandas._config.config")._global_config.items()))
    except (ImportError, AttributeError, TypeError):
        return repr([getattr(pd.options.display, k) for k in sorted(dir(pd.options.display))])


def own_filter():
    """Silences all warnings, and differs from the filters a call might install."""
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", module=".*")


def ambient():
    c = decimal.getcontext()
    return {
        "numpy error settings": repr(sorted(np.geterr().items())),
        "decimal context": repr((c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp, sorted(k.__name__ for k, v in c.traps.items() if v))),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "pandas options": options(),
        "warning filters": repr(warnings.filters),
        "working directory and environment": repr((os.getcwd(), sorted(os.environ.items()))),
        "recursion limit": repr(sys.getrecursionlimit()),
        "python random state": repr(hash(random.getstate())),
    }


def rstate():
    s = np.random.get_state()
    return repr((s[0], s[1].tobytes(), s[2:]))


def mangle(x):
    """Change an argument in place, keeping it a valid argument; True if changed."""
    if isinstance(x, np.ndarray) and x.ndim >= 1 and len(x) > 1:
        x[...] = x[::-1].copy()
        return True
    if isinstance(x, pd.DataFrame) and len(x) > 1:
        for j in range(x.shape[1]):
            col = x.iloc[:, j].values[::-1].copy()
            x.iloc[:, j] = col
        return True
    if isinstance(x, pd.Series) and len(x) > 1:
        x.iloc[:] = x.values[::-1].copy()
        return True
    return False


def spoil(x, depth=0):
    """Overwrite a returned object."""
    try:
        if isinstance(x, np.ndarray):
            x[...] = 0 if x.dtype.kind != "O" else None
        elif isinstance(x, pd.DataFrame):
            for j in range(x.shape[1]):
                x.iloc[:, j] = x.iloc[::-1, j].values.copy()
        elif isinstance(x, dict):
            for v in list(x.values()):
                spoil(v, depth + 1)
            x.clear()
        elif isinstance(x, list):
            del x[:]
        elif isinstance(x, tuple):
            for v in x:
                spoil(v, depth + 1)
    except (ValueError, TypeError):
        pass


SEED = 12345
INF = float("inf")


def perform(name, seed=True, prep=None, keep=None):
    """One call; returns (record, result)."""
    o = ops.OPS[name]
    f, a, k = keep or o["build"]()
    if prep:
        for v in list(a) + list(k.values()):
            prep(v)
    if seed:
        np.random.seed(SEED)
    before = canon([a, k])
    st = rstate()
    try:
        r = f(*a, **k)
        res = ("ok", canon(r))
    except Exception as e:
        r, res = None, ("exception", type(e).__name__, str(e)[:200])
    rec = dict(
        name=name,
        result=core.digest(repr(res)),
        brief=core.show(r, 300) if res[0] == "ok" else repr(res),
        args_changed=canon([a, k]) != before,
        drew=rstate() != st,
    )
    return rec, r, (f, a, k)


def in_child(fn, *a):
    """Run fn in a forked process; its return value, or an error text."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rd)
            with LatexStub():
                out = ("value", fn(*a))
        except BaseException as e:
            out = ("error", "%s: %s" % (type(e).__name__, e))
        try:
            data = pickle.dumps(out)
            while data:
                n = os.write(wr, data)
                data = data[n:]
        finally:
            os._exit(code)
    os.close(wr)
    buf = b""
    while True:
        b = os.read(rd, 1 << 16)
        if not b:
            break
        buf += b
    os.close(rd)
    os.waitpid(pid, 0)
    if not buf:
        raise core.HarnessError("child process died")
    kind, val = pickle.loads(buf)
    if kind == "error":
        raise core.HarnessError("child failed: %s" % val)
    return val


def seq_child(names, settings, seed, spoiling):
    np.seterr(**settings)
    own_filter()
    d0, a0 = defaults(), ambient()
    out = []
    for n in names:
        rec, r, _ = perform(n, seed)
        d1, a1 = defaults(), ambient()
        rec["changed"] = sorted(k for k in set(d0) | set(d1) if d0.get(k) != d1.get(k)) + sorted(k for k in a0 if a0[k] != a1[k])
        out.append(rec)
        if spoiling:
            spoil(r)
    return out


def fast_seq(names):
    out = []
    for n in names:
        out.append(perform(n)[0])
    return out


def state_child(name, state):
    np.random.set_state(state)
    return perform(name, seed=False)[0]


def chain_child(a, b):
    perform(a)
    st = np.random.get_state()
    return st, perform(b, seed=False)[0]


def same_object_child(name, first):
    """Call, change the argument objects in place, call with them again."""
    o = ops.OPS[name]
    keep = o["build"]()
    if first:
        perform(name, keep=keep)
    if not any([mangle(v) for v in list(keep[1]) + list(keep[2].values())]):
        return None
    return perform(name, keep=keep)[0]


FRESH = {}


def fresh(name):
    if name not in FRESH:
        FRESH[name] = in_child(fast_seq, [name])[0]
    return FRESH[name]


def judge(ctx, rec, want, hist):
    ctx.compared += 1
    ctx.check(rec["result"] == want["result"], "%s gives another result after %s" % (rec["name"], hist), rec["brief"], want["brief"])
    ctx._out((rec["name"], rec["result"]))


def alone(names):
    def body(ch, ctx):
        n = ch.pick("call", names)
        st = ch.pick("settings", SETTINGS)
        ctx.ch.decide()
        ctx.calls += 2
        ctx.state(n, sorted(st.items()))
        o = ops.OPS[n]
        recs = in_child(seq_child, [n, n], st, True, True)
        for i, r in enumerate(recs):
            ctx.check(not r["args_changed"], "%s changed its arguments" % n)
            ctx.check(not r["changed"], "%s changed %s" % (n, r["changed"]))
            ctx.check(o["random"] or not r["drew"], "%s has no randomness but advanced the random state" % n)
            judge(ctx, r, fresh(n), "overwriting its first result" if i else "nothing")

    return body


def sequences(names, length, tag):
    def body(ch, ctx):
        hist = [ch.pick("call%d" % i, names) for i in range(length)]
        ctx.ch.decide()
        ctx.calls += length
        ctx.state(tuple(hist))
        recs = in_child(fast_seq, hist)
        for i, r in enumerate(recs):
            judge(ctx, r, fresh(r["name"]), hist[:i])
            ctx.check(not r["args_changed"], "%s changed its arguments after %s" % (r["name"], hist[:i]))

    return body


def pairs(names, firsts=None):
    """Histories (a, b) for every b, each b in its own process after a."""

    def after(a):
        perform(a)
        out = []
        for b in names:
            out.append(in_child(fast_seq, [b])[0])
        return out

    def body(ch, ctx):
        a = ch.pick("first", firsts or names)
        ctx.ch.decide()
        for b, r in zip(names, in_child(after, a)):
            ctx.calls += 1
            ctx.state(a, b)
            judge(ctx, r, fresh(b), [a])
            ctx.check(not r["args_changed"], "%s changed its arguments after %s" % (b, a))

    return body


def chains(names):
    def body(ch, ctx):
        a, b = ch.pick("first", names), ch.pick("second", names)
        ctx.ch.decide()
        ctx.calls += 2
        ctx.state("chain", a, b)
        st, r = in_child(chain_child, a, b)
        judge(ctx, r, in_child(state_child, b, st), [a, "no re-seeding, same random state"])

    return body


def same_objects(names):
    def body(ch, ctx):
        n = ch.pick("call", names)
        ctx.ch.decide()
        ctx.calls += 2
        ctx.state("mangled", n)
        got, want = in_child(same_object_child, n, True), in_child(same_object_child, n, False)
        if want is not None:
            judge(ctx, got, want, "the same call before its argument objects were changed")

    return body


def lock(v, depth=0):
    """Make every array argument read-only: a function that only reads its
    arguments cannot tell."""
    if isinstance(v, np.ndarray):
        v.flags.writeable = False
    elif isinstance(v, dict):
        for w in v.values():
            lock(w, depth + 1)


def frozen(names):
    def body(ch, ctx):
        n = ch.pick("call", names)
        ctx.ch.decide()
        ctx.calls += 1
        ctx.state("frozen", n)
        judge(ctx, in_child(lambda: perform(n, prep=lock)[0]), fresh(n), "making its arguments read-only")

    return body


def variants(v, depth=0):
    """Other values for one argument, close to it: a result remembered under part
    of the arguments would be found again under these."""
    out = []
    if isinstance(v, (bool, np.bool_)):
        return [not v]
    if isinstance(v, float):
        return [-50.0] if v == -INF else [50.0] if v == INF else [v * 0.5, v + 0.25, 1.0 - v]
    if isinstance(v, int):
        return [v + 1, v - 1]
    if isinstance(v, decimal.Decimal):
        return [v * 2, -v, v.scaleb(1)] if v.is_finite() else [decimal.Decimal("1.5")]
    if isinstance(v, np.ndarray) and v.ndim >= 1 and len(v) > 1:
        for i, j in ((0, -1), (len(v) // 2, 0), (-1, 0)):
            w = v.copy()
            w[i] = v[j]
            out.append(w)
        out.append(v[::-1].copy())
        if v.dtype.kind == "f":
            out.append(v * 0.5)
        if v.ndim == 2:
            out.append(v[:, ::-1].copy())
            w = v.copy()
            w[len(v) // 2] = w[len(v) // 2][::-1].copy()
            out.append(w)
        return out
    if isinstance(v, pd.DataFrame) and len(v) > 1:
        out = [v.iloc[::-1].copy(), v.copy(), v.copy(), v.copy()]
        if v.shape[1] > 1:
            out[1].columns = v.columns[::-1]
            w = v.copy()
            col = v.iloc[:, 0].values.copy()
            w.iloc[:, 0] = v.iloc[:, -1].values.copy()
            w.iloc[:, -1] = col
            out.append(w)
        out[2].index = v.index[::-1]
        mid = out[3].iloc[:, 0].values.copy()
        mid[len(mid) // 2] = mid[0]
        out[3].iloc[:, 0] = mid
        if all(k.kind == "f" for k in v.dtypes):
            out.append(v * 0.5)
        return out
    if isinstance(v, pd.Series) and len(v) > 1:
        w, u = v.copy(), v.copy()
        w.iloc[:] = v.values[::-1].copy()
        u.iloc[len(u) // 2] = u.iloc[0]
        return [w, u, v.iloc[::-1].copy()]
    if isinstance(v, pd.Index) and len(v) > 1:
        return [v[::-1]]
    if isinstance(v, (list, tuple)) and depth < 2:
        if len(v) > 1:
            out.append(v[::-1])
        for i, e in enumerate(v):
            for w in variants(e, depth + 1)[:2]:
                out.append(v[:i] + type(v)([w]) + v[i + 1 :])
        return out
    if isinstance(v, dict) and v:
        keys = list(v)
        out.append(dict((k, v[k]) for k in keys[1:]))
        if len(keys) > 1:
            out.append(dict(zip(keys, [v[k] for k in keys[1:] + keys[:1]])))
            out.append(dict((k, v[k]) for k in keys[::-1]))
        for w in variants(v[keys[0]], depth + 1)[:2]:
            out.append(dict(v, **{keys[0]: w}) if isinstance(keys[0], str) else dict(list(v.items())[1:] + [(keys[0], w)]))
        return out
    return out


def omitted(f, a, k):
    """Optional parameters left at their default, with other values."""
    try:
        ps = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return []
    given = {"confidence": 0.5, "n_boot": 3, "limits": {"NLL": (0.0, 40.0), "MSE": (0.0, 1e7)}, "EB_limit": {"b_l": -1, "x": 3}, "crap_limit_max": {"b_l": 1, "x": 2},
             "crap_limit_min": {"b_l": 1}, "non_finite_fmt": {"nan": "!", "inf": "!!"}, "unit_dict": {"b_l": "m", "a": "g"}, "x_grid": np.array([0.0, 0.125, 1.0]),
             "method": "bernstein", "method_EB": "bernstein", "kind": "previous", "ival": 3.0, "max_epsilon": 0.25, "shift_mod": 2, "features": ["v"],
             "curve_f": ops.pc.recall_precision_curve, "splits": {"t": ("linear", 0.25)}, "below_fmt": "under {0:,f}", "above_fmt": "over {0:,f}"}
    out = []
    for p in ps[len(a):]:
        if p.default is inspect.Parameter.empty or p.name in k or p.name in ("checkpointdir", "verbose", "copy", "curve_dict", "loss_dict"):
            continue
        for v in [given[p.name]] if p.name in given else variants(p.default)[:1]:
            out.append((p.name, v))
    return out


def neighbours(name):
    """All argument sets that differ from the call's in one argument."""
    f, a, k = ops.OPS[name]["build"]()
    out = []
    for i, v in enumerate(a):
        out += [("argument %d, variant %d" % (i, j), a[:i] + [w] + a[i + 1 :], k) for j, w in enumerate(variants(v))]
    for n in sorted(k):
        out += [("%s, variant %d" % (n, j), a, dict(k, **{n: w})) for j, w in enumerate(variants(k[n]))]
    out += [("%s given" % n, a, dict(k, **{n: w})) for n, w in omitted(f, a, k)]
    return f, out


def near_child(name, with_omitted):
    """name after each of its neighbours, each in its own process."""
    f, near = neighbours(name)
    out = []
    for what, a, k in near:
        def run(what=what, a=a, k=k):
            np.random.seed(SEED)
            try:
                f(*a, **k)
                ok = True
            except Exception:
                ok = False
            rec = perform(name)[0]
            return what, ok, rec

        out.append(in_child(run))
    return out


def near(names):
    def body(ch, ctx):
        n = ch.pick("call", names)
        ctx.ch.decide()
        for what, ok, r in in_child(near_child, n, True):
            ctx.calls += 2
            ctx.state("near", n, what)
            judge(ctx, r, fresh(n), "the same call with one argument changed (%s)" % what)

    return body


def repeat_child(name, times):
    for _ in range(times):
        rec = perform(name)[0]
    return rec


def repeats(names, times):
    def body(ch, ctx):
        n = ch.pick("call", names)
        ctx.ch.decide()
        ctx.calls += times
        ctx.state("repeat", n)
        judge(ctx, in_child(repeat_child, n, times), fresh(n), "%d identical calls" % (times - 1))

    return body


def marathon(names):
    def body(ch, ctx):
        start = ch.pick("rotation", list(range(0, len(names), max(1, len(names) // 8))))
        back = ch.flag("reversed")
        ctx.ch.decide()
        hist = names[start:] + names[:start]
        hist = hist[::-1] if back else hist
        ctx.calls += 2 * len(hist)
        ctx.state("marathon", start, back)
        for i, r in enumerate(in_child(fast_seq, hist + hist)):
            judge(ctx, r, fresh(r["name"]), "all calls of the catalogue from %s on, %s" % (hist[0], "backwards" if back else "forwards"))

    return body


TRIPLE = [
    "summary_table", "loss_table shared", "curve_boot grid", "split_df", "split_df mixed", "just_format_it", "just_format_it options", "decimalize options",
    "boot_EB", "loss_summary_table limits", "loss_summary_table", "get_pred_log_prob", "get_gauss_pred", "adjust_headers tex", "epsilon_noise", "print_estimate nan",
]
QUAD = ["loss_summary_table limits", "loss_summary_table other", "decimalize limit", "decimalize", "split_df", "split_df ordered", "curve_boot ref", "boot_EB b", "adjust_headers"]


def scenarios(tier):
    th = tier == "thorough"
    every, large = list(ops.OPS), list(ops.LARGE)
    names = [n for n in every if n not in set(large)]
    light = [n for n in names if not ops.OPS[n]["heavy"] and n not in ops.FAILING]
    rnd = [n for n in names if n not in ops.FAILING and ops.OPS[n]["random"] and (th or not ops.OPS[n]["heavy"])]
    S = [
        ("alone", alone(names), 2),
        ("same objects", same_objects(names), 1),
        ("large data alone", alone(large), 2),
        ("large data, same objects", same_objects(large), 1),
        ("read-only arrays", frozen(every), 1),
        ("pairs", pairs(names if th else light), 1),
        ("after failures", pairs(light, ops.FAILING), 1),
        ("neighbours", near([n for n in names if n not in ops.FAILING and (th or not ops.OPS[n]["heavy"])]), 1),
        ("repeated", repeats([n for n in light if not ops.OPS[n]["group"].startswith(("curve_summary", "summary_table"))], 400 if th else 150), 1),
        ("marathon", marathon(light), 2),
        ("random chains", chains(rnd), 2),
        ("triples", sequences(TRIPLE + (light[::7] if th else []), 3, "t"), 2),
    ]
    if th:
        S.append(("quadruples", sequences(QUAD, 4, "q"), 3))
    return S

"""C16 checkpointing: histories, crash points, torn files, interruptions."""
import os
import pickle
import shutil
import signal
import sys
import tempfile

import numpy as np

from mlpaper import classification as cl
from mlpaper import regression as rg

from mc import stubs
from mc.core import Uncontrolled, Violation

BOUNDS = {
    "quick": "all histories of 2 calls over 16 call variants (data, labels, test points, model settings, model class, floor, label count, problem type) and of 3 "
    "calls over 9 of them, one shared directory; a crash at every file system event of a 3-model run (and every truncation of the file being written), then "
    "recovery; an exception or interrupt at every fit/predict step; 27 variants that differ in one detail (last bits, types, layout, order, nested settings, names) before and after each other; runs without a directory watched for any write; the same watch on 1200, 6/1300 and 12000 points",
    "thorough": "3 calls over all variants, 4 calls over 6; two successive crashes at every pair of events",
}
ASSUMPTIONS = [
    "a crash ends the process between two Python-visible file system operations, or leaves the file being written truncated (0 bytes, half, all but one byte)",
    "models are deterministic; one process uses the directory at a time",
]
SCRATCH = os.environ.get("MC_SCRATCH") or tempfile.gettempdir()
INF = float("inf")


# -- the calls -----------------------------------------------------------------
def _data(n=6, nt=3, mid=0.0, kind="f"):
    X = (np.arange(n * 3).reshape(n, 3) * 0.5 - 2.0)
    X[n // 2, 1] += mid
    Xt = np.arange(nt * 3).reshape(nt, 3) * 0.25
    y = np.array([(i * i) % 2 for i in range(n)])
    return X, y, Xt


def call(variant, ckpt, order=None):
    """One prediction call; fresh model objects every time."""
    prob, var = variant
    X, y, Xt = _data(200 if var.startswith("big") else 6)
    K, floor = 2, None
    R = ((0.0, 0.0),)
    L = [("one", stubs.Learner, R, 0.0), ("two", stubs.Sharp, R, 1.0), ("three", stubs.Learner, R, 2.0)]
    G = [("one", stubs.LearnMuStd, R, 0.0), ("two", stubs.LearnMu, R, 1.0), ("three", stubs.LearnMuStd, R, 2.0)]
    if var == "X_train":
        X = X.copy()
        X[3, 1] += 0.125
    elif var == "X_train reordered":
        X = X[::-1].copy()  # same values, same order of labels: other data
        y = y[::-1].copy()
        y[0] = 1 - y[0]
    elif var == "big2":
        X = X.copy()
        X[101, 1] += 1.0
    elif var == "y_train":
        y = y.copy()
        y[1] = 1 - y[1]
    elif var == "X_test":
        Xt = Xt.copy()
        Xt[1, 2] = -1.0
    elif var == "X_test reordered":
        Xt = Xt[::-1].copy()
    elif var == "X_test shorter":
        Xt = Xt[:2].copy()
    elif var == "swap":
        X, Xt = np.vstack([Xt, Xt]), X[:3].copy()
    elif var == "setting":
        L = [(n, c, r, s + 0.25) for n, c, r, s in L]
        G = [(n, c, r, s + 0.25) for n, c, r, s in G]
    elif var == "deep setting":
        L = [(n, c, ((0.0, 0.0), (1.0, (2.0, 3.0)[0])), s) for n, c, r, s in L]
        L[0] = ("one", stubs.Learner, R, 5.0)
        G[0] = ("one", stubs.LearnMuStd, R, 5.0)
    elif var == "class":
        L = [("one", stubs.Sharp, R, 0.0), ("two", stubs.Learner, R, 1.0), ("three", stubs.Sharp, R, 2.0)]
        G = [("one", stubs.LearnMu, R, 0.0), ("two", stubs.LearnMuStd, R, 1.0), ("three", stubs.LearnMu, R, 2.0)]
    elif var == "permuted settings":
        L = [(n, stubs.Learner, r, 2.0 - s) for n, c, r, s in L]
        G = [(n, stubs.LearnMuStd, r, 2.0 - s) for n, c, r, s in G]
    elif var == "floor":
        floor = -0.75 if prob == "class" else 0.6
    elif var == "floor2":
        floor = -2.0 if prob == "class" else 2.0
    elif var == "labels3":
        K = 3
        L = [(n, c, ((0.0, 0.0, 0.0),), s) for n, c, r, s in L]
    elif var == "fewer models":
        L, G = L[1:2], G[1:2]
    if prob == "class":
        kw = {} if floor is None else dict(min_log_prob=floor)
        if ckpt is not None:
            kw["checkpointdir"] = ckpt
        return cl.get_pred_log_prob(X, y, Xt, K, {n: c(n, r, s) for n, c, r, s in L}, **kw)
    kw = {} if floor is None else dict(min_std=floor)
    if ckpt is not None:
        kw["checkpointdir"] = ckpt
    yy = y * 2.5 - 1.0
    return rg.get_gauss_pred(X, yy, Xt, {n: c(n, r, s) for n, c, r, s in G}, **kw)


_plain = {}


def plain(variant):
    if variant not in _plain:
        stubs.reset()
        _plain[variant] = call(variant, None)
    return _plain[variant]


def same_table(ctx, got, want, what):
    ctx.check(list(got.columns) == list(want.columns), what + ": columns", list(got.columns), list(want.columns))
    ctx.eq(got.values, want.values, what, 1e-12, 1e-12)


class Dir(object):
    def __init__(self):
        os.makedirs(SCRATCH, exist_ok=True)

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="ck", dir=SCRATCH)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# -- histories -----------------------------------------------------------------
ALL = [("class", v) for v in ("base", "X_train", "y_train", "X_test", "setting", "class", "floor", "labels3", "X_test reordered", "swap", "permuted settings", "fewer models", "big", "big2")] + [
    ("regr", "base"),
    ("regr", "floor"),
    ("regr", "X_train"),
    ("regr", "X_test shorter"),
    ("regr", "setting"),
]
SOME = [("class", v) for v in ("base", "X_test", "y_train", "setting", "floor", "floor2")] + [("regr", "base"), ("regr", "floor"), ("regr", "class")]
FEW = [("class", "base"), ("class", "floor"), ("class", "X_train"), ("regr", "base"), ("regr", "y_train"), ("regr", "floor")]


def histories(n, ops):
    def body(ch, ctx):
        hist = [ch.pick("call %d" % i, ops) for i in range(n)]
        sub = ch.pick("directory", ["existing", "new nested"]) if n == 2 else "existing"
        ctx.ch.decide()
        with Dir() as d:
            if sub == "new nested":
                d = os.path.join(d, "a b", "c")
            done = set()
            for i, v in enumerate(hist):
                want = plain(v)
                stubs.reset()
                got = ctx.call(call, v, d)
                same_table(ctx, got, want, "call %d (%s) with checkpoints differs from without, history %s" % (i, v, hist))
                fits = [c for c in stubs.CALLS if c[0] == "fit"]
                if v in done:
                    ctx.check(not fits, "call %d repeats a stored one but trains again (%s)" % (i, hist), [c[1] for c in fits], [])
                else:
                    ctx.check(len(fits) <= 3, "a model is trained more than once", [c[1] for c in fits])
                done.add(v)
            ctx.state(hist, sub)

    return body


def same_objects(ch, ctx):
    """The same model objects used for several calls (they stay fitted)."""
    prob = ch.pick("problem", ["class", "regr"])
    n = ch.pick("calls", [2, 3])
    seq = [ch.pick("data %d" % i, [0, 1, 2]) for i in range(n)]
    X, y, Xt = _data()
    D = [(X, y, Xt), (X + 1, y, Xt), (X, 1 - y, Xt + 0.5)]
    R = ((0.0, 0.0),)
    mk = lambda: {"a": (stubs.Learner if prob == "class" else stubs.LearnMuStd)("a", R, 0.5), "b": (stubs.Sharp if prob == "class" else stubs.LearnMu)("b", R, 1.5)}
    f = (lambda X, y, Xt, m, **k: cl.get_pred_log_prob(X, y, Xt, 2, m, **k)) if prob == "class" else (lambda X, y, Xt, m, **k: rg.get_gauss_pred(X, y * 1.0, Xt, m, **k))
    objs = mk()
    ctx.ch.decide()
    with Dir() as d:
        for k in seq:
            want = ctx.call(f, D[k][0], D[k][1], D[k][2], mk())
            got = ctx.call(f, D[k][0], D[k][1], D[k][2], objs, checkpointdir=d)
            same_table(ctx, got, want, "reused model objects, data %s" % seq)


# -- calls that are almost the same ----------------------------------------------
def _fine(n=6, nt=3):
    X = np.array([[1.0 / (3 + i + 7 * j) for j in range(3)] for i in range(n)])
    Xt = np.array([[1.0 / (11 + 5 * i + j) for j in range(3)] for i in range(nt)])
    return X, np.array([(i * i + i // 3) % 2 for i in range(n)]), Xt


def _swap(y, i, j):
    y = y.copy()
    y[[i, j]] = y[[j, i]]
    return y


def _bump(a, i, j, e):
    a = a.copy()
    a[i, j] *= 1 + e
    return a


class Settings(object):
    """A nested setting, as pipelines and kernels have."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __float__(self):
        return float(self.v)

    def __array__(self, dtype=None, copy=None):
        return np.array([float(self.v)])


#: name -> change of (X, y, Xt, setting, floor, model names)
CLOSE = {
    "base": lambda X, y, T, s, f, N: (X, y, T, s, f, N),
    "training bit": lambda X, y, T, s, f, N: (_bump(X, 5, 2, 1e-8), y, T, s, f, N),
    "test bit": lambda X, y, T, s, f, N: (X, y, _bump(T, 2, 2, 1e-8), s, f, N),
    "single training": lambda X, y, T, s, f, N: (X.astype(np.float32), y, T, s, f, N),
    "single test": lambda X, y, T, s, f, N: (X, y, T.astype(np.float32), s, f, N),
    "rounded": lambda X, y, T, s, f, N: (np.round(X, 6), y, np.round(T, 6), s, f, N),
    "int": lambda X, y, T, s, f, N: (np.rint(60 * X).astype(int), y, np.rint(60 * T).astype(int), s, f, N),
    "int as float": lambda X, y, T, s, f, N: (np.rint(60 * X), y, np.rint(60 * T), s, f, N),
    "label type": lambda X, y, T, s, f, N: (X, y.astype(np.int8), T, s, f, N),
    "labels swapped": lambda X, y, T, s, f, N: (X, _swap(y, 1, 2), T, s, f, N),
    "columns swapped": lambda X, y, T, s, f, N: (X[:, [0, 2, 1]].copy(), y, T[:, [0, 2, 1]].copy(), s, f, N),
    "test columns swapped": lambda X, y, T, s, f, N: (X, y, T[:, [1, 0, 2]].copy(), s, f, N),
    "test repeated": lambda X, y, T, s, f, N: (X, y, np.vstack([T, T]), s, f, N),
    "train is test": lambda X, y, T, s, f, N: (X, y, X.copy(), s, f, N),
    "last training bit": lambda X, y, T, s, f, N: (_bump(X, -1, -1, 1e-8), y, T, s, f, N),
    "middle training bit": lambda X, y, T, s, f, N: (_bump(X, len(X) // 2, 1, 1e-8), y, T, s, f, N),
    "last test bit": lambda X, y, T, s, f, N: (X, y, _bump(T, -1, 0, 1e-8), s, f, N),
    "middle test bit": lambda X, y, T, s, f, N: (X, y, _bump(T, len(T) // 2, 1, 1e-8), s, f, N),
    "middle labels swapped": lambda X, y, T, s, f, N: (X, _swap(y, len(y) // 2, int(np.flatnonzero(y != y[len(y) // 2])[-1])), T, s, f, N),
    "setting bit": lambda X, y, T, s, f, N: (X, y, T, s * (1 + 1e-9), f, N),
    "setting array": lambda X, y, T, s, f, N: (X, y, T, np.array([0.0, s]), f, N),
    "setting array 2": lambda X, y, T, s, f, N: (X, y, T, np.array([1.0, s + 1]), f, N),
    "nested": lambda X, y, T, s, f, N: (X, y, T, Settings(v=s, deep=[{"k": Settings(v=1)}]), f, N),
    "nested 2": lambda X, y, T, s, f, N: (X, y, T, Settings(v=s + 0.5, deep=[{"k": Settings(v=1)}]), f, N),
    "floor": lambda X, y, T, s, f, N: (X, y, T, s, 0.9, N),
    "floor bit": lambda X, y, T, s, f, N: (X, y, T, s, 0.9 + 1e-7, N),
    "names": lambda X, y, T, s, f, N: (X, y, T, s, f, ("B", "b", " b")),
    "other names": lambda X, y, T, s, f, N: (X, y, T, s + 1, f, ("b", "B", "b ")),
    "path names": lambda X, y, T, s, f, N: (X, y, T, s, f, ("../x", "a/b", "x" * 300)),
    "fortran": lambda X, y, T, s, f, N: (np.asfortranarray(X), y, np.asfortranarray(T), s, f, N),
    "read only": lambda X, y, T, s, f, N: (_ro(X), _ro(y), _ro(T), s, f, N),
    "view": lambda X, y, T, s, f, N: (np.repeat(X, 2, axis=1)[:, ::2], np.repeat(y, 2)[::2], T[::-1].copy()[::-1], s, f, N),
}


def _ro(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def close_call(prob, var, ckpt, size=()):
    X, y, T, s, f, N = CLOSE[var](*(_fine(*size) + (0.75, None, ("one", "two", "three"))))
    kw = {} if ckpt is None else dict(checkpointdir=ckpt)
    add = lambda s, k: s if isinstance(s, (np.ndarray, Settings)) else s + k
    if prob == "class":
        if f is not None:
            kw["min_log_prob"] = -f
        return cl.get_pred_log_prob(X, y, T, 2, {n: stubs.Microscope(n, ((0.0, 0.0),), add(s, k)) for k, n in enumerate(N)}, **kw)
    if f is not None:
        kw["min_std"] = f
    return rg.get_gauss_pred(X, y if var == "label type" else y + 0.125, T, {n: stubs.MicroMuStd(n, ((0.0, 0.0),), add(s, k)) for k, n in enumerate(N)}, **kw)


_cplain = {}


def close(ch, ctx):
    """Two calls that differ in one detail, both orders, then the first again."""
    prob = ch.pick("problem", ["class", "regr"])
    a = ch.pick("first", list(CLOSE))
    b = ch.pick("second", list(CLOSE))
    if a != "base" and b != "base" and a.split()[0] != b.split()[0] and not (a, b) in (("floor", "names"), ("names", "other names"), ("int", "rounded")):
        return
    how = ch.pick("directory", ["absolute", "relative"]) if a == "base" else "absolute"
    ctx.ch.decide()
    with Dir() as d:
        here = os.getcwd()
        try:
            ck = os.path.join(d, "w", "ck")
            os.makedirs(os.path.join(d, "w"))
            if how == "relative":
                os.chdir(os.path.join(d, "w"))
                ck = "ck"
            seen = set()
            for v in (a, b, a):
                if (prob, v) not in _cplain:
                    _cplain[prob, v] = ctx.call(close_call, prob, v, None)
                stubs.reset()
                got = ctx.call(close_call, prob, v, ck)
                same_table(ctx, got, _cplain[prob, v], "%s with checkpoints differs from without, history %s" % (v, (a, b, a)))
                if v in seen:
                    ctx.check(not [c for c in stubs.CALLS if c[0] == "fit"], "a repeated call trains again, history %s" % ((a, b, a),), [c[1] for c in stubs.CALLS], [])
                seen.add(v)
            ctx.check(os.listdir(d) == ["w"] and os.listdir(os.path.join(d, "w")) == ["ck"], "files outside the checkpoint directory", os.listdir(d), os.listdir(os.path.join(d, "w")))
        finally:
            os.chdir(here)
        ctx.state(prob, a, b, how)


LARGE = [v for v in CLOSE if not v.startswith(("nested", "path", "setting array", "other"))]


def close_large(ch, ctx):
    """The same, on data beyond every small-size special case."""
    size = ch.pick("training and test points", [(1200, 3), (6, 1300), (1025, 1025), (12000, 5)])
    prob = ch.pick("problem", ["class", "regr"])
    a, b = ch.pick("calls", [("base", v) for v in LARGE[1:]] + [("floor", "floor bit"), ("training bit", "last training bit")])
    ctx.ch.decide()
    with Dir() as d:
        ck = os.path.join(d, "ck")
        seen = set()
        for v in (a, b, a):
            want = ctx.call(close_call, prob, v, None, size)
            stubs.reset()
            got = ctx.call(close_call, prob, v, ck, size)
            same_table(ctx, got, want, "%s with checkpoints differs from without, history %s, size %s" % (v, (a, b, a), size))
            if v in seen:
                ctx.check(not [c for c in stubs.CALLS if c[0] == "fit"], "a repeated call trains again, history %s" % ((a, b, a),), [c[1] for c in stubs.CALLS], [])
            seen.add(v)
        ctx.state(prob, a, b, size)


# -- children that may die -----------------------------------------------------
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
FS = ("open", "os.", "shutil.", "tempfile.", "pathlib.")


def child(job, watch, crash_at=None, log=None, everywhere=False):
    """Runs job() in a forked child that counts file system events below
    `watch` and dies just before event number crash_at.  Returns
    (status, result, events)."""
    res = tempfile.mktemp(prefix="res", dir=SCRATCH)
    evf = tempfile.mktemp(prefix="ev", dir=SCRATCH)
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            state = dict(n=0, on=True)
            fd = os.open(evf, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            mine = (res, evf, log)
            root = os.path.realpath(watch)

            def hook(event, args):
                if not state["on"] or not event.startswith(FS):
                    return
                path = None
                for a in args[:2]:
                    if isinstance(a, bytes):
                        a = os.fsdecode(a)
                    if isinstance(a, os.PathLike):
                        a = os.fspath(a)
                    if isinstance(a, str) and a not in mine:
                        p = os.path.realpath(a) if not everywhere else os.path.abspath(a)
                        if p == root or p.startswith(root.rstrip("/") + "/"):
                            path = p
                            break
                if path is None:
                    return
                wr = event == "open" and (
                    (isinstance(args[1], str) and any(c in args[1] for c in "wax+")) or (len(args) > 2 and isinstance(args[2], int) and args[2] & WRITE_FLAGS)
                )
                if everywhere and event == "open" and not wr:
                    return
                if everywhere and event in ("os.listdir", "os.scandir", "os.walk", "os.chdir", "os.fwalk", "os.getxattr"):
                    return
                state["on"] = False
                if crash_at is not None and state["n"] == crash_at:
                    os._exit(9)
                os.write(fd, ("%s\t%d\t%s\n" % (event, 1 if wr else 0, path)).encode())
                state["n"] += 1
                state["on"] = True

            if log is not None:
                stubs.LOGFILE = log
            import mc.env  # noqa: F401  (already loaded)

            sys.addaudithook(hook)
            try:
                out = ("ok", job())
            except BaseException as e:
                out = ("error", "%s: %s" % (type(e).__name__, e))
            state["on"] = False
            with open(res, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    ev = []
    try:
        if os.path.exists(evf):
            ev = [ln.split("\t") for ln in open(evf).read().splitlines()]
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            with open(res, "rb") as f:
                out = pickle.load(f)
            return out[0], out[1], ev
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 9:
            return "crashed", None, ev
        return "died", st, ev
    finally:
        for p in (res, evf):
            if os.path.exists(p):
                os.unlink(p)


def read_log(log):
    out = []
    if os.path.exists(log):
        out = [tuple(ln.split()) for ln in open(log).read().splitlines()]
    return out


def count_events(variant):
    with Dir() as d:
        st, r, ev = child(lambda: call(variant, os.path.join(d, "ck")), d)
        if st != "ok":
            return 40
        return len(ev)


TEAR = ["none", "empty", "half", "all but one byte"]


def tear(ev, how):
    """The file last opened for writing loses its tail; False if there is none."""
    last = [e for e in ev if e[1] == "1"]
    if not last or not os.path.isfile(last[-1][2]):
        return False
    # only the last event's file can be half written
    if ev[-1] != last[-1]:
        return False
    p = last[-1][2]
    n = os.path.getsize(p)
    os.truncate(p, {"empty": 0, "half": n // 2, "all but one byte": max(0, n - 1)}[how])
    return True


def crashes(variants, bound, twice=False):
    def body(ch, ctx):
        v = ch.pick("call", variants)
        first = ch.pick("directory", ["fresh", "holds another call", "holds the other problem's call"]) if not twice else "fresh"
        k = ch.pick("crash before event", list(range(bound)))
        how = ch.pick("torn file", TEAR) if not twice else "none"
        k2 = ch.pick("second crash", list(range(0, bound, 1))) if twice else None
        ctx.ch.decide()
        with Dir() as d:
            ck, log = os.path.join(d, "ck"), os.path.join(d, "fits.log")
            want = plain(v)
            if first != "fresh":
                o = (v[0], "y_train") if first == "holds another call" else ("regr" if v[0] == "class" else "class", "base")
                st, r, _ = child(lambda: call(o, ck), ck)
                ctx.check(st == "ok", "preparing call failed", (st, r))
            started = []
            for c in [k] + ([k2] if twice else []):
                st, r, ev = child(lambda: call(v, ck), ck, c, log)
                ctx.check(st in ("ok", "crashed"), "run with checkpoints failed (crash history %s)" % ((k, k2),), (st, r))
                if st == "ok":
                    same_table(ctx, r, want, "uninterrupted run")
                    if k2 is None and how != "none":
                        return
                elif how != "none" and not (ev and tear(ev, how)):
                    return
                started += [n for e, n in read_log(log) if e == "fit"]
            before = read_log(log)
            fits = [n for e, n in before if e == "fit"]
            # a model whose successor has begun was completed and stored
            done = set()
            order = ["one", "two", "three"]
            for n in fits:
                done |= set(order[: order.index(n)])
            if os.path.exists(log):
                os.unlink(log)
            st2, r2, _ = child(lambda: call(v, ck), ck, None, log)
            ctx.calls += 2
            ctx.state(v, first, k, how, k2)
            ctx.check(st2 == "ok", "the run after a crash before event %d fails" % k, (st2, r2))
            same_table(ctx, r2, want, "the run after a crash before event %d (%s, torn: %s)" % (k, ev[-1:] or "", how))
            again = [n for e, n in read_log(log) if e == "fit"]
            ctx.check(len(again) == len(set(again)), "a model is trained twice after the crash", again)
            if how == "none":
                ctx.check(not (set(again) & done), "models already stored are trained again after the crash", again, sorted(done))
            # and once more: everything is stored now
            if os.path.exists(log):
                os.unlink(log)
            st3, r3, _ = child(lambda: call(v, ck), ck, None, log)
            ctx.check(st3 == "ok", "second run after the crash fails", (st3, r3))
            same_table(ctx, r3, want, "second run after the crash")
            ctx.check(not [1 for e, n in read_log(log) if e == "fit"], "a completed run is trained again", read_log(log))

    return body


EXC = dict(ValueError=ValueError, KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, SystemExit=SystemExit)


def interrupted(ch, ctx):
    """An exception out of a model at every step, then the same call again, in
    this process or another one."""
    v = ch.pick("call", [("class", "base"), ("regr", "base"), ("class", "class"), ("regr", "class")])
    step = ch.pick("step", list(range(9)))
    exc = ch.pick("exception", list(EXC))
    where = ch.pick("retry", ["same process", "new process"])
    other = ch.pick("between", [None, (v[0], "floor"), (v[0], "X_test")])
    ctx.ch.decide()
    with Dir() as d:
        ck = os.path.join(d, "ck")
        want = plain(v)
        n = [0]
        hit = []

        def trap(event, name):
            if n[0] == step:
                hit.append((event, name))
                n[0] += 1
                raise EXC[exc]("injected")
            n[0] += 1

        stubs.reset()
        stubs.TRAP = trap
        out = None
        try:
            out = call(v, ck)
        except BaseException as e:
            if type(e) is not EXC[exc] and not isinstance(e, (AttributeError,)):
                if not isinstance(e, Exception):
                    raise
                raise Violation("unexpected %s: %s" % (type(e).__name__, e))
        finally:
            stubs.TRAP = None
        ctx.calls += 1
        if not hit:
            ctx.check(out is not None, "no result")
            same_table(ctx, out, want, "undisturbed run")
        elif out is not None and exc in ("KeyboardInterrupt", "SystemExit"):
            # swallowed: then at least the result must be the right one
            same_table(ctx, out, want, "interruption in %s swallowed" % (hit[0],))
        elif out is not None and hit[0][0] != "predict_log_proba":
            same_table(ctx, out, want, "error in %s swallowed" % (hit[0],))
        if out is not None and hit and exc in ("ValueError", "MemoryError"):
            return  # documented: a failing predict_log_proba means "not available"
        fits = [c[1] for c in stubs.CALLS if c[0] == "fit"]
        order = ["one", "two", "three"]
        done = set(order[: order.index(fits[-1])]) if fits else set()
        if other is not None:
            w2 = plain(other)
            same_table(ctx, ctx.call(call, other, ck), w2, "another call after the interruption")
        ctx.state(v, step, exc, where, other)
        log = os.path.join(d, "log")
        if where == "same process":
            stubs.reset()
            got = ctx.call(call, v, ck)
            again = [c[1] for c in stubs.CALLS if c[0] == "fit"]
        else:
            st, got, _ = child(lambda: call(v, ck), ck, None, log)
            ctx.check(st == "ok", "the run after the interruption fails", (st, got))
            again = [m for e, m in read_log(log) if e == "fit"]
        same_table(ctx, got, want, "the run after an interruption in %s" % (hit,))
        ctx.check(not (set(again) & done), "models already stored are trained again", again, sorted(done))


def no_dir(ch, ctx):
    """Without a directory no file is written anywhere, and results are the same
    wherever the process runs."""
    v = ch.pick("call", ALL + [("regr", "class")] + [("large", p, s) for p in ("class", "regr") for s in ((1200, 3), (6, 1300), (12000, 5))])
    n = ch.pick("calls", [1, 2])
    one = (lambda: close_call(v[1], "base", None, v[2])) if v[0] == "large" else (lambda: call(v, None))
    ctx.ch.decide()
    with Dir() as d:
        want = plain(v) if v[0] != "large" else one()

        def job():
            os.chdir(d)
            r = None
            for _ in range(n):
                r = one()
            return r

        st, r, ev = child(job, "/", None, None, True)
        ctx.calls += n
        ctx.check(st == "ok", "call without checkpoints fails", (st, r))
        same_table(ctx, r, want, "call without checkpoints")
        ev = [e for e in ev if not e[2].startswith(("/dev/", "/proc/")) and "__pycache__" not in e[2] and not e[2].endswith(".pyc")]
        ctx.check(not ev, "something is stored without a checkpoint directory", ev[:5], [])
        left = os.listdir(d)
        ctx.check(not left, "files left in the working directory", left, [])
        ctx.state(v, n)


def inside(ch, ctx):
    """With a directory, files are written below that directory only."""
    v = ch.pick("call", FEW)
    ctx.ch.decide()
    with Dir() as d:
        ck = os.path.join(d, "ck")

        def job():
            os.chdir(d)
            return call(v, ck)

        st, r, ev = child(job, "/", None, None, True)
        ctx.calls += 1
        ctx.check(st == "ok", "call with checkpoints fails", (st, r))
        same_table(ctx, r, plain(v), "call with checkpoints")
        ctx.check(sorted(os.listdir(d)) == ["ck"], "files outside the checkpoint directory", sorted(os.listdir(d)))


def scenarios(tier):
    th = tier == "thorough"
    V = [("class", "base"), ("regr", "base")]
    bound = max(count_events(v) for v in V) + 3
    L = [
        ("histories of 2", histories(2, ALL), 3),
        ("histories of 3", histories(3, ALL if th else SOME), 3),
        ("reused model objects", same_objects, 3),
        ("nearly equal calls", close, 3),
        ("nearly equal calls, large", close_large, 3),
        ("crash at every event", crashes(V, bound), 4),
        ("interruption at every step", interrupted, 4),
        ("no directory", no_dir, 2),
        ("only the directory", inside, 1),
    ]
    if th:
        L += [("histories of 4", histories(4, FEW), 3), ("two crashes", crashes(V, bound, True), 3)]
    return L

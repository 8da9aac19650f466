"""Stateless explicit-choice model checker for the real implementation.

A *scenario* is a Python function ``body(ch, ctx)``.  Every degree of freedom
(input value, shape, dtype, option, environment answer, crash point, next
operation) is taken with ``ch.pick(name, options)``; the explorer runs the body
again and again until every sequence of picks has been executed exactly once
(depth-first, last pick fastest).  The body drives the real code of /repo
through ``ctx.call`` and compares with a reference model through ``ctx.eq`` /
``ctx.check``.  There is no sampling: the set of executions is a function of
the scenario alone.

Work is divided between forked workers by hashing the first picks of an
execution, so the union over the workers is the complete tree and no execution
is run twice.
"""
import hashlib
import json
import math
import multiprocessing as mp
import os
import pickle
import queue
import signal
import sys
import time
import traceback
import zlib

import numpy as np
import pandas as pd

MAX_SAMPLES = 3


class Violation(Exception):
    def __init__(self, what, detail=None):
        Exception.__init__(self, what)
        self.what = what
        self.detail = detail


class HarnessError(Exception):
    """The checker itself is broken (never a verdict about /repo)."""


class Uncontrolled(Exception):
    """The code asks the environment something the script cannot answer: the
    execution gives no verdict (counted and reported, never an alarm)."""


class _Skip(Exception):
    pass


class _Hang(BaseException):
    pass


# --------------------------------------------------------------------------
# canonical digests and printable forms


def _canon(x, depth=0):
    """Hashable, order-stable canonical form of any value used here."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("ao", x.shape, tuple(_canon(v) for v in x.ravel().tolist()))
        return ("a", x.dtype.str, x.shape, x.tobytes() if x.nbytes <= 256 else hashlib.blake2b(x.tobytes(), digest_size=16).digest())
    if isinstance(x, pd.DataFrame):
        return ("df", _canon(x.columns), _canon(x.index), tuple(_canon(x.iloc[:, i].values) for i in range(x.shape[1])))
    if isinstance(x, pd.Series):
        return ("s", _canon(x.index), _canon(np.asarray(x.values)))
    if isinstance(x, pd.Index):
        return ("i", tuple(map(str, x.names)), tuple(map(repr, x.tolist())))
    if isinstance(x, dict):
        return ("d", tuple((_canon(k), _canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(_canon(v, depth + 1) for v in x))
    if isinstance(x, float):
        return ("f", repr(x))
    if isinstance(x, (int, bool, str, bytes, type(None))):
        return (type(x).__name__, x)
    if callable(x) and hasattr(x, "__name__"):
        return ("fn", x.__name__)
    if isinstance(x, np.generic):
        return ("g", x.dtype.str, repr(x))
    return (type(x).__name__, repr(x))


def digest(x):
    return hashlib.blake2b(repr(_canon(x)).encode(), digest_size=8).digest()


def show(x, limit=400):
    try:
        if isinstance(x, np.ndarray):
            s = "array(%s, dtype=%s)" % (np.array2string(x, separator=", ", threshold=60, precision=17), x.dtype)
        elif isinstance(x, pd.DataFrame):
            s = "DataFrame(columns=%s, index=%s, values=%s)" % (
                list(x.columns)[:12],
                list(x.index)[:12],
                show(x.values, limit),
            )
        elif isinstance(x, pd.Series):
            s = "Series(index=%s, values=%s)" % (list(x.index)[:12], show(x.values, limit))
        elif isinstance(x, (list, tuple)) and len(x) <= 12:
            s = type(x).__name__ + "(" + ", ".join(show(v, limit) for v in x) + ")"
        elif isinstance(x, dict) and len(x) <= 12:
            s = "{" + ", ".join("%s: %s" % (show(k), show(v)) for k, v in x.items()) + "}"
        elif callable(x) and hasattr(x, "__name__"):
            s = x.__name__
        else:
            s = repr(x)
    except Exception as e:  # never let printing decide anything
        s = "<unprintable %s: %s>" % (type(x).__name__, e)
    return s if len(s) <= limit else s[: limit - 3] + "..."


# --------------------------------------------------------------------------
# comparison


def _num_close(a, b, rtol, atol):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def arr_close(got, want, rtol=1e-9, atol=1e-11):
    """True when two numeric arrays agree: same shape, equal NaN/inf pattern."""
    got = np.asarray(got)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape or got.dtype == object:
        return False
    got = got.astype(float)
    if got.size == 0:
        return True
    if not np.array_equal(np.isnan(got), np.isnan(want)):
        return False
    inf = np.isinf(got) | np.isinf(want)
    if not np.array_equal(got[inf], want[inf]):
        return False
    ok = ~(inf | np.isnan(got))
    g, w = got[ok], want[ok]
    return bool(np.all(np.abs(g - w) <= atol + rtol * np.maximum(np.abs(g), np.abs(w))))


# --------------------------------------------------------------------------


def fresh(x):
    """An equal value that is a different object (strings and dict keys): what
    the caller passes never shares identity with a name stored in a table."""
    if type(x) is str and len(x) > 1:
        return (x + "\0")[:-1]
    if type(x) is dict:
        return {fresh(k): v for k, v in x.items()}
    if type(x) in (tuple, list):
        return type(x)(fresh(v) for v in x)
    return x


def _fresh_args(a, k):
    return tuple(fresh(v) if type(v) is str else v for v in a), {n: fresh(v) if type(v) is str else v for n, v in k.items()}


class Chooser(object):
    def __init__(self, split_depth, n_workers, me):
        self.forced = []
        self.split_depth = split_depth
        self.W = n_workers
        self.me = me
        self.reset([])

    def reset(self, forced):
        self.forced = forced
        self.idx = []
        self.nopt = []
        self.labels = []
        self.owned = self.W == 1

    def decide(self):
        if not self.owned:
            h = zlib.crc32(bytes(repr(self.idx), "ascii"))
            h = (h ^ (h >> 15)) * 0x2C1B3C6D & 0xFFFFFFFF
            h = h ^ (h >> 12)
            if h % self.W != self.me:
                raise _Skip()
            self.owned = True

    def pick(self, name, options):
        n = len(options)
        if n == 0:
            raise HarnessError("empty choice %s" % name)
        pos = len(self.idx)
        if pos >= self.split_depth:
            self.decide()
        if pos < len(self.forced):
            k, nn = self.forced[pos]
            if nn is not None and nn != n:
                raise HarnessError("replay divergence at %s: %d options, recorded %d" % (name, n, nn))
            if k >= n:
                raise HarnessError("replay divergence at %s: choice %d of %d" % (name, k, n))
        else:
            k = 0
        self.idx.append(k)
        self.nopt.append(n)
        opt = options[k]
        self.labels.append((name, opt))
        return opt

    def flag(self, name):
        return self.pick(name, (False, True))

    def vec(self, name, n, alphabet):
        return [self.pick("%s[%d]" % (name, i), alphabet) for i in range(n)]

    def subset(self, name, items):
        return [x for x in items if self.pick("%s:%s" % (name, x), (True, False))]

    def perm(self, name, items):
        items = list(items)
        out = []
        while items:
            k = self.pick("%s#%d" % (name, len(out)), list(range(len(items))))
            out.append(items.pop(k))
        return out


class Ctx(object):
    """Per-worker statistics and the verdict helpers."""

    def __init__(self, prop, tier, ch):
        self.prop, self.tier, self.ch = prop, tier, ch
        self.calls = 0
        self.states = set()
        self.outcomes = set()
        self.compared = 0
        self.rejected = 0
        self.uncontrolled = 0
        self.notes = set()
        self.last = None
        self.thorough = tier == "thorough"
        self.track_states = True

    # -- driving the implementation
    def call(self, f, *a, **k):
        self.ch.decide()
        self.calls += 1
        a, k = _fresh_args(a, k)
        self.last = (f, a, k)
        if self.track_states:
            self.states.add(digest((getattr(f, "__module__", ""), getattr(f, "__name__", str(f)), a, sorted(k.items(), key=str))))
        try:
            return f(*a, **k)
        except (Violation, HarnessError, _Skip, Uncontrolled):
            raise
        except Exception as e:
            raise Violation(
                "valid input raised %s: %s" % (type(e).__name__, str(e)[:300]),
                dict(call=self._callstr(), trace=traceback.format_exc()[-1500:]),
            )

    def attempt(self, f, *a, **k):
        """Call that may legitimately reject: returns (ok, result)."""
        self.ch.decide()
        self.calls += 1
        a, k = _fresh_args(a, k)
        self.last = (f, a, k)
        if self.track_states:
            self.states.add(digest((getattr(f, "__name__", str(f)), a, sorted(k.items(), key=str))))
        try:
            return True, f(*a, **k)
        except (Violation, HarnessError, _Skip, Uncontrolled):
            raise
        except Exception as e:
            return False, e

    def rejects(self, what, f, *a, **k):
        ok, r = self.attempt(f, *a, **k)
        self.compared += 1
        if ok:
            raise Violation("%s was accepted instead of rejected" % what, dict(call=self._callstr(), got=show(r)))
        self.rejected += 1

    def state(self, *x):
        self.states.add(digest(x))

    def _callstr(self):
        if self.last is None:
            return None
        f, a, k = self.last
        return "%s(%s)" % (
            getattr(f, "__name__", str(f)),
            ", ".join([show(x, 1500) for x in a] + ["%s=%s" % (n, show(v, 1500)) for n, v in k.items()]),
        )

    # -- verdicts
    def fail(self, what, got=None, want=None):
        raise Violation(what, dict(call=self._callstr(), got=show(got, 2000), want=show(want, 2000)))

    def check(self, cond, what, got=None, want=None):
        if not cond:
            self.fail(what, got, want)

    def same(self, got, want, what):
        self.compared += 1
        if not (got == want):
            self.fail(what, got, want)
        self._out(got)

    def eq(self, got, want, what, rtol=1e-9, atol=1e-11):
        """Numeric agreement (scalar or array) with the reference model."""
        self.compared += 1
        try:
            ok = arr_close(got, want, rtol, atol)
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(what, got, want)
        self._out(got)

    def _out(self, x):
        if len(self.outcomes) < 2000000:
            self.outcomes.add(digest(np.round(x, 9) if isinstance(x, (np.ndarray, float, np.floating)) and np.asarray(x).dtype.kind == "f" else x))


def jsonable(x):
    if isinstance(x, (bool, int, float, str, type(None))):
        return x if not (isinstance(x, float) and not math.isfinite(x)) else repr(x)
    return show(x, 600)


def _alarm(signum, frame):
    raise _Hang()


EXEC_LIMIT_S = 240


def run_one(body, ch, ctx, seed):
    """One execution; returns None or a violation record."""
    np.random.seed(seed)
    ctx.last = None
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S)
    try:
        body(ch, ctx)
        return None
    except _Skip:
        raise
    except HarnessError:
        raise
    except Uncontrolled as e:
        ctx.uncontrolled += 1
        ctx.notes.add("uncontrolled: %s" % e)
        return None
    except Violation as v:
        return dict(what=v.what, detail=v.detail)
    except _Hang:
        return dict(what="did not terminate within %d s" % EXEC_LIMIT_S, detail=dict(call=ctx._callstr()))
    except Exception as e:
        # The oracle could not even read the answer (wrong type, shape, label,
        # missing column...): the implementation broke its interface.
        return dict(
            what="answer unusable: %s: %s" % (type(e).__name__, str(e)[:300]),
            detail=dict(call=ctx._callstr(), trace=traceback.format_exc()[-2500:]),
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def worker(prop, tier, scen_names, scens, me, W, seed, deadline, stop, out):
    signal.signal(signal.SIGALRM, _alarm)
    res = dict(worker=me, scen={}, violation=None, error=None, capped=False, samples=[], notes=[])
    states, outcomes = set(), set()
    try:
        for name in scen_names:
            body, split = scens[name]
            ch = Chooser(split, W, me)
            ctx = Ctx(prop, tier, ch)
            execs = 0
            maxdepth = 0
            forced = []
            done = False
            t0 = time.time()
            while not done:
                if stop.is_set():
                    break
                if time.time() > deadline:
                    res["capped"] = True
                    break
                ch.reset(forced)
                try:
                    v = run_one(body, ch, ctx, seed)
                    if not ch.owned:  # body without any implementation call
                        v = None
                    else:
                        execs += 1
                        maxdepth = max(maxdepth, len(ch.idx))
                        if len(res["samples"]) < MAX_SAMPLES and execs in (1, 7, 41):
                            res["samples"].append(
                                dict(
                                    scenario=name,
                                    choices=[[n, jsonable(o)] for n, o in ch.labels][:40],
                                    last_call=show(ctx._callstr(), 500),
                                )
                            )
                    if v is not None:
                        v.update(
                            scenario=name,
                            forced=[[a, b] for a, b in zip(ch.idx, ch.nopt)],
                            choices=[[n, jsonable(o)] for n, o in ch.labels],
                        )
                        # same schedule again, from scratch
                        ch2 = Chooser(0, 1, 0)
                        ch2.reset(list(zip(ch.idx, ch.nopt)))
                        try:
                            v2 = run_one(body, ch2, Ctx(prop, tier, ch2), seed)
                            v["reproduced"] = v2 is not None
                        except HarnessError as e:
                            v["reproduced"] = "diverged: %s" % e
                        res["violation"] = v
                        stop.set()
                        break
                except _Skip:
                    pass
                # advance to the next unexplored choice sequence
                idx, nopt = ch.idx, ch.nopt
                while idx and idx[-1] + 1 >= nopt[-1]:
                    idx.pop()
                    nopt.pop()
                if not idx:
                    done = True
                else:
                    idx[-1] += 1
                    forced = list(zip(idx, nopt))
            res["scen"][name] = dict(
                executions=execs,
                calls=ctx.calls,
                compared=ctx.compared,
                rejected=ctx.rejected,
                uncontrolled=ctx.uncontrolled,
                max_depth=maxdepth,
                complete=done,
                wall_s=round(time.time() - t0, 2),
            )
            for n in ctx.notes:
                if n not in res["notes"]:
                    res["notes"].append(n)
            for s in ctx.states:
                states.add(name.encode() + s)
            for s in ctx.outcomes:
                outcomes.add(name.encode() + s)
            if res["violation"] or res["capped"]:
                break
    except HarnessError as e:
        res["error"] = "harness error in %s: %s\n%s" % (name, e, traceback.format_exc())
        stop.set()
    except BaseException as e:
        res["error"] = "worker died in %s: %r\n%s" % (name, e, traceback.format_exc())
        stop.set()
    # small 8-byte keys: union is taken by the master so nothing counts twice
    res["states"] = [zlib.crc32(s) | (zlib.adler32(s) << 32) for s in states]
    res["outcomes"] = [zlib.crc32(s) | (zlib.adler32(s) << 32) for s in outcomes]
    out.put(pickle.dumps(res))


def explore(prop, tier, scens, seed, time_cap, n_workers=None, only=None):
    """Run every scenario completely; returns the merged report."""
    W = n_workers or min(8, os.cpu_count() or 1)
    names = [n for n in scens if only is None or n in only]
    mpc = mp.get_context("fork")
    stop, out = mpc.Event(), mpc.Queue()
    deadline = time.time() + time_cap
    sys.stdout.flush()
    sys.stderr.flush()
    procs = [
        mpc.Process(target=worker, args=(prop, tier, names, scens, i, W, seed, deadline, stop, out)) for i in range(W)
    ]
    for p in procs:
        p.start()
    results = []
    hard = time.time() + time_cap + EXEC_LIMIT_S + 30
    while len(results) < W:
        try:
            results.append(pickle.loads(out.get(timeout=1.0)))
        except queue.Empty:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead and not any(p.is_alive() for p in procs):
                try:
                    while len(results) < W:
                        results.append(pickle.loads(out.get(timeout=2.0)))
                except queue.Empty:
                    break
            if time.time() > hard:
                break
    for p in procs:
        p.join(timeout=2)
        if p.is_alive():
            p.terminate()
    rep = dict(scenarios={}, errors=[], violations=[], capped=False, samples=[], notes=[])
    if len(results) < W:
        rep["errors"].append("%d worker(s) ended without a report" % (W - len(results)))
    states, outcomes = set(), set()
    for r in sorted(results, key=lambda r: r["worker"]):
        states.update(r["states"])
        outcomes.update(r["outcomes"])
        rep["capped"] |= r["capped"]
        for s in r["samples"]:
            if len(rep["samples"]) < 6:
                rep["samples"].append(s)
        for n in r["notes"]:
            if n not in rep["notes"]:
                rep["notes"].append(n)
        if r["error"]:
            rep["errors"].append(r["error"])
        if r["violation"]:
            rep["violations"].append(r["violation"])
        for n, s in r["scen"].items():
            t = rep["scenarios"].setdefault(
                n, dict(executions=0, calls=0, compared=0, rejected=0, uncontrolled=0, max_depth=0, complete=True, wall_s=0)
            )
            for k in ("executions", "calls", "compared", "rejected", "uncontrolled"):
                t[k] += s[k]
            t["max_depth"] = max(t["max_depth"], s["max_depth"])
            t["wall_s"] = max(t["wall_s"], s["wall_s"])
            t["complete"] = t["complete"] and s["complete"]
    order = {n: i for i, n in enumerate(names)}
    rep["violations"].sort(key=lambda v: (order[v["scenario"]], len(v["forced"]), v["forced"]))
    rep["complete"] = (
        not rep["capped"]
        and not rep["errors"]
        and all(n in rep["scenarios"] and rep["scenarios"][n]["complete"] for n in names)
    )
    rep["states"], rep["outcomes"] = len(states), len(outcomes)
    return rep

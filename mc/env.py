"""The controlled environment: numpy's global random source.

The dispatchers are installed before mlpaper is imported, so they are what the
code under test reaches however it imports them.  Outside a `script` they pass
straight through.  Inside one, the checker supplies the answers:

* weight rows: the next bootstrap replicate has exactly these counts, however
  the code asks for it (multinomial, randint, choice with replacement);
* a permutation: the next subset/permutation is read off from it;
* unit numbers: the next uniform draws.

Rows asked for beyond the scripted ones are *different* rows ("poison"), so
code that draws a second time where one draw is promised gets another answer.
"""
import numpy as np
import numpy.random as npr

from mc.core import Uncontrolled

REAL = {}
_cur = None
NAMES = ["multinomial", "choice", "randint", "permutation", "shuffle", "rand", "random_sample", "random", "uniform"]


class NoDraw(Uncontrolled):
    pass


class PermBook(object):
    """A scripted permutation for each population size."""

    def __init__(self, book):
        self.book = book

    def for_size(self, n):
        if n not in self.book:
            raise Uncontrolled("permutation of %d not scripted" % n)
        return list(self.book[n])


def _perm(s, n):
    if isinstance(s.perm, PermBook):
        return s.perm.for_size(n)
    if len(s.perm) != n:
        raise Uncontrolled("permutation/subset of %d asked, %d scripted" % (n, len(s.perm)))
    return s.perm


def _fingerprint():
    s = npr.get_state()
    return s[2], s[3], s[4], s[1][:3].tobytes(), s[1][-1]


class Script(object):
    def __init__(self, rows=None, perm=None, units=None, repeat=False, poison=None):
        self.rows = [list(map(int, r)) for r in rows] if rows is not None else None
        self.perm = (PermBook(perm) if isinstance(perm, dict) else list(perm)) if perm is not None else None
        self.units = list(units) if units is not None else None
        self.repeat = repeat  # True: the rows repeat cyclically (no poison)
        self.poison = poison
        self.pos = 0
        self.upos = 0
        self.calls = []  # (name, args) of every draw made by the code
        self.drawn = 0
        self.uncontrolled = []

    def __enter__(self):
        global _cur
        self._prev, _cur = _cur, self
        self._state = _fingerprint()
        return self

    def __exit__(self, *a):
        global _cur
        _cur = self._prev
        self.moved = _fingerprint() != self._state

    def settled(self, must_draw=True):
        """Raise Uncontrolled unless every draw was answered by the script."""
        if self.uncontrolled:
            raise Uncontrolled("real random numbers used: %s" % sorted(set(self.uncontrolled)))
        if must_draw and self.drawn == 0 and self.moved:
            raise NoDraw("random numbers drawn in a way that is not scripted")
        # Otherwise, no draw at all: the answer is the same for every random
        # outcome, the scripted one included, and is judged against it.

    # -- streams
    def next_rows(self, n, N):
        out = []
        for _ in range(n):
            k = self.pos
            self.pos += 1
            self.drawn += 1
            if k < len(self.rows) or self.repeat:
                r = self.rows[k % len(self.rows)]
            elif self.poison is not None:
                r = self.poison[(k - len(self.rows)) % len(self.poison)]
            else:
                r = [0] * N
                r[(k - len(self.rows)) % N] = N
            if len(r) != N:
                raise Uncontrolled("rows for %d points asked, %d scripted" % (N, len(r)))
            out.append(list(r))
        return np.array(out, dtype=int).reshape(n, N)

    def next_units(self, n):
        out = []
        for _ in range(n):
            out.append(self.units[self.upos % len(self.units)])
            self.upos += 1
            self.drawn += 1
        return np.array(out, dtype=float)


def _size(size):
    if size is None:
        return None
    if np.ndim(size) == 0:
        return (int(size),)
    return tuple(int(s) for s in size)


def _multinomial(n, pvals, size=None):
    s = _cur
    if s is None or s.rows is None:
        return _real("multinomial", n, pvals, size)
    s.calls.append(("multinomial", int(n), np.array(pvals, dtype=float), size))
    N = len(pvals)
    sz = _size(size)
    k = 1 if sz is None else int(np.prod(sz))
    w = s.next_rows(k, N)
    return w[0] if sz is None else w.reshape(sz + (N,))


def _index_rows(N, size, name):
    """Indices drawn uniformly with replacement: any shape whose last axis is
    one resample of N points (or a flat vector of whole resamples)."""
    s = _cur
    sz = _size(size)
    tot = int(np.prod(sz))
    if tot % N != 0:
        raise Uncontrolled("%s size %s for %d points" % (name, size, N))
    w = s.next_rows(tot // N, N)
    idx = np.array([np.repeat(np.arange(N), r) for r in w])
    if len(sz) == 2 and sz[-1] != N and sz[0] == N:
        return idx.T.copy()
    return idx.reshape(sz)


def _randint(low, high=None, size=None, dtype=int):
    s = _cur
    if s is None or s.rows is None or size is None:
        return _real("randint", low, high, size, dtype)
    N = low if high is None else high - low
    s.calls.append(("randint", int(N), None, size))
    return _index_rows(int(N), size, "randint") + (0 if high is None else low)


def _choice(a, size=None, replace=True, p=None):
    s = _cur
    arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    if s is not None and s.rows is not None and replace and size is not None:
        s.calls.append(("choice", len(arr), None if p is None else np.array(p), size))
        return arr[_index_rows(len(arr), size, "choice")]
    if s is not None and s.perm is not None and not replace and p is None:
        s.calls.append(("choice", len(arr), None, size))
        s.drawn += 1
        if len(arr) == 0:
            return REAL["choice"](a, size, replace, p)
        perm = _perm(s, len(arr))
        if size is None:
            return arr[perm[0]]
        k = int(np.prod(_size(size)))
        if k > len(arr):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        return arr[np.array(perm[:k], dtype=int)].reshape(_size(size))
    return _real("choice", a, size, replace, p)


def _permutation(x):
    s = _cur
    if s is None or s.perm is None:
        return _real("permutation", x)
    arr = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
    perm = _perm(s, len(arr))
    s.calls.append(("permutation", len(arr), None, None))
    s.drawn += 1
    return arr[np.array(perm, dtype=int)]


def _shuffle(x):
    s = _cur
    if s is None or s.perm is None:
        return _real("shuffle", x)
    perm = _perm(s, len(x))
    s.calls.append(("shuffle", len(x), None, None))
    s.drawn += 1
    old = [x[i] for i in range(len(x))]
    for i, k in enumerate(perm):
        x[i] = old[k]


def _unit(name, sz, lo=0.0, hi=1.0):
    s = _cur
    n = 1 if sz is None else int(np.prod(sz))
    s.calls.append((name, n, None, sz))
    u = lo + (hi - lo) * s.next_units(n)
    return float(u[0]) if sz is None else u.reshape(sz)


def _rand(*d):
    s = _cur
    if s is not None and s.units is None and s.perm is not None and len(d) == 1:
        # random keys to be argsorted: ranks in permutation order
        perm = _perm(s, d[0])
        s.calls.append(("rand", d[0], None, d))
        s.drawn += 1
        u = np.empty(d[0])
        u[np.array(perm, dtype=int)] = (np.arange(d[0]) + 0.5) / d[0]
        return u
    if s is None or s.units is None:
        return _real("rand", *d)
    return _unit("rand", tuple(int(x) for x in d) if d else None)


def _random_sample(size=None):
    s = _cur
    if s is None or s.units is None:
        return _rand(*_size(size)) if (s is not None and s.perm is not None and size is not None) else _real("random_sample", size)
    return _unit("random_sample", _size(size))


def _uniform(low=0.0, high=1.0, size=None):
    s = _cur
    if s is None or s.units is None:
        return _real("uniform", low, high, size)
    return _unit("uniform", _size(size), low, high)


def _real(name, *a):
    if _cur is not None:
        _cur.uncontrolled.append(name)
    return REAL[name](*a)


def install():
    table = dict(
        multinomial=_multinomial,
        choice=_choice,
        randint=_randint,
        permutation=_permutation,
        shuffle=_shuffle,
        rand=_rand,
        random_sample=_random_sample,
        random=_random_sample,
        uniform=_uniform,
    )
    for n in NAMES:
        if n in REAL:
            continue
        REAL[n] = getattr(npr, n)
        f = table[n]
        setattr(npr, n, f)
    for n in ("ranf", "sample"):
        if hasattr(npr, n):
            setattr(npr, n, _random_sample)


# --------------------------------------------------------------------------
# enumeration helpers


def weight_vectors(N):
    """All outcomes (count vectors) of drawing N of N points with replacement,
    the most balanced first."""
    out = []

    def rec(pre, left, k):
        if k == 1:
            out.append(pre + [left])
            return
        for c in range(left, -1, -1):
            rec(pre + [c], left - c, k - 1)

    rec([], N, N)
    out.sort(key=lambda w: (max(w), w))
    return out


def pattern_rows(N, n, salt=0):
    """n bootstrap rows for N points running through all outcomes for small N,
    else a deterministic variety."""
    if N <= 4:
        W = weight_vectors(N)
        return [W[(i * (2 * salt + 1) + salt) % len(W)] for i in range(n)]
    out = []
    for i in range(n):
        r = [0] * N
        for k in range(N):
            r[(k * (1 + (i + salt) % 5) + (k * k * (i % 7)) // 3 + i) % N] += 1
        out.append(r)
    return out

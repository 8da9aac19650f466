"""Models with the sklearn interface whose every call is recorded.

The records are kept outside the objects (so that they do not enter pickles or
hashes of the models) and, when LOGFILE is set, appended to a file that
survives the death of the process."""
import os

import numpy as np

CALLS = []
LOGFILE = None
TRAP = None  # callable(event) -> None, may raise


def note(event, name, *arrays):
    CALLS.append((event, name) + tuple(np.array(a, copy=True) for a in arrays))
    if LOGFILE is not None:
        fd = os.open(LOGFILE, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
        try:
            os.write(fd, ("%s %s\n" % (event, name)).encode())
        finally:
            os.close(fd)
    if TRAP is not None:
        TRAP(event, name)


def reset():
    del CALLS[:]


class Base(object):
    def __init__(self, name="m", rows=((0.0, 0.0),), shift=0.0):
        self.name, self.rows, self.shift = name, rows, shift

    def fit(self, X, y):
        note("fit", self.name, X, y)
        self.seen_ = float(np.sum(X)) + 3.0 * float(np.sum(y)) + 0.5 * len(y)
        return self

    def _table(self, X):
        """Row i of the answer is rows[key of test point i]."""
        key = np.asarray(X).reshape(len(X), -1)[:, 0]
        return np.array([self.rows[int(k) % len(self.rows)] for k in key], dtype=float)


class LogProba(Base):
    def predict_log_proba(self, X):
        note("predict_log_proba", self.name, X)
        return self._table(X)


class Proba(Base):
    def predict_proba(self, X):
        note("predict_proba", self.name, X)
        return np.exp(self._table(X))


class Both(LogProba):
    """Log probabilities that cannot be recovered from the probabilities."""

    def predict_proba(self, X):
        note("predict_proba", self.name, X)
        p = np.exp(self._table(X))
        p = np.where(p < 1e-3, 0.0, p)
        return p / p.sum(axis=1, keepdims=True)


class NotImpl(Proba):
    def predict_log_proba(self, X):
        raise NotImplementedError("no log probabilities")


class AttrErr(Proba):
    @property
    def predict_log_proba(self):
        raise AttributeError("predict_log_proba is not available")


class SharedBuffer(Base):
    """Returns its one internal buffer, and is itself the answer's owner."""

    def predict_log_proba(self, X):
        note("predict_log_proba", self.name, X)
        if not hasattr(self, "buf_"):
            self.buf_ = self._table(X)
        return self.buf_


class Learner(Base):
    """Predictions depend on everything it was given."""

    def predict_log_proba(self, X):
        note("predict_log_proba", self.name, X)
        K = len(self.rows[0])
        z = np.asarray(X, dtype=float).reshape(len(X), -1).sum(axis=1)
        a = np.stack([np.sin(self.seen_ * (k + 1) + z * 0.7 * (k + 1) + self.shift) for k in range(K)], axis=1)
        a = 3.0 * a
        return a - np.log(np.exp(a).sum(axis=1, keepdims=True))


class Microscope(Learner):
    """Sensitive to the last digits, the order and the types of its data."""

    def fit(self, X, y):
        note("fit", self.name, X, y)
        w = np.arange(1.0, X.size + 1).reshape(X.shape)
        v = np.arange(1.0, len(y) + 1)
        t = (X.dtype.itemsize + 0.1 * "fiub".index(X.dtype.kind)) + 0.3 * (y.dtype.itemsize + 0.1 * "fiub".index(y.dtype.kind))
        self.seen_ = 1e4 * float((X.astype(float) * w).sum()) + 1e4 * float((y.astype(float) * v).sum()) + t + len(str(X.shape))
        return self

    def _z(self, X):
        X = np.asarray(X)
        t = X.dtype.itemsize + 0.1 * "fiub".index(X.dtype.kind)
        w = np.arange(1.0, X.size / len(X) + 1)
        return 1e4 * (X.astype(float).reshape(len(X), -1) * w).sum(axis=1) + t + X[:, :1].astype(float).reshape(-1).cumsum() + float(np.ravel(self.shift)[-1])

    def predict_log_proba(self, X):
        note("predict_log_proba", self.name, X)
        a = np.stack([np.sin(self.seen_ + self._z(X) * (k + 1)) for k in range(len(self.rows[0]))], axis=1)
        return a - np.log(np.exp(a).sum(axis=1, keepdims=True))


class Sharp(Learner):
    """Learner whose log probabilities underflow as probabilities."""

    def predict_log_proba(self, X):
        a = Learner.predict_log_proba(self, X) * 400.0
        a = a - a.max(axis=1, keepdims=True)
        return a - np.log(np.exp(a).sum(axis=1, keepdims=True))

    def predict_proba(self, X):
        note("predict_proba", self.name, X)
        a = Learner.predict_log_proba(self, X) * 400.0
        a = a - a.max(axis=1, keepdims=True)
        return np.exp(a) / np.exp(a).sum(axis=1, keepdims=True)


# -- regression --------------------------------------------------------------


class MuStd(Base):
    def predict(self, X, return_std=False):
        note("predict", self.name, X)
        t = self._table(X)
        return (t[:, 0], t[:, 1]) if return_std else t[:, 0] + 100.0


class MuOnly(Base):
    def predict(self, X):
        note("predict", self.name, X)
        return self._table(X)[:, 0]


class MuInt(Base):
    def predict(self, X):
        note("predict", self.name, X)
        return self._table(X)[:, 0].astype(int)


class LearnMuStd(Base):
    def predict(self, X, return_std=True):
        note("predict", self.name, X)
        z = np.asarray(X, dtype=float).sum(axis=1)
        mu = np.sin(self.seen_ + 0.7 * z + self.shift) * 5
        return (mu, 0.1 + np.abs(np.cos(self.seen_ + z + self.shift))) if return_std else mu


class MicroMuStd(Microscope):
    def predict(self, X, return_std=True):
        note("predict", self.name, X)
        mu = np.sin(self.seen_ + self._z(X)) * 5
        return (mu, 0.1 + np.abs(np.cos(self.seen_ + self._z(X)))) if return_std else mu


class LearnMu(Base):
    def predict(self, X):
        return LearnMuStd.predict(self, X, False)

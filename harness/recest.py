"""Estimators that reveal what they were trained on and predict a reproducible function of it.

The first column of the data is the row's number.  Predictions depend on the rows trained on, so it
can be told from a prediction which fitted estimator made it."""
import time
import zlib

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin


class Control:
    calls = 0
    at = 0          # number of the call in which the fault occurs (0: never)
    kind = "value"
    fault_hit = False

    @classmethod
    def reset(cls, at=0, kind="value"):
        cls.calls, cls.at, cls.kind, cls.fault_hit = 0, at, kind, False

    @classmethod
    def tick(cls):
        cls.calls += 1
        if cls.at and cls.calls == cls.at:
            cls.fault_hit = True
            if cls.kind == "value":
                raise ValueError("scripted failure")
            if cls.kind == "memory":
                raise MemoryError("scripted")
            if cls.kind == "empty":
                raise RuntimeError()
            end = time.time() + 10
            while time.time() < end:   # interrupted by the evaluation's timeout
                time.sleep(0.005)
            raise AssertionError("not interrupted")


def _ids(x):
    x = getattr(x, "values", x)
    return [int(round(float(v))) for v in x[:, 0]]


def h(*a):
    return zlib.crc32(repr(a).encode())


class _Rec(BaseEstimator):
    def fit(self, x, y):
        Control.tick()
        self.train_ = _ids(x)
        self.y_ = [float(v) for v in y]
        self.tested_ = []
        self.classes_ = np.unique(np.asarray(y))
        self.key_ = h(sorted(self.train_), self.salt)
        return self

    def _tested(self, x):
        Control.tick()
        self.tested_ += _ids(x)


BASE = 2 ** 28     # targets this large need the full precision of a float


class RecRegressor(_Rec, RegressorMixin):
    def __init__(self, salt=0):
        self.salt = salt

    def raw(self, i):
        base = BASE if min(self.y_) >= BASE else 0
        return float(base + h(self.key_, i) % 6)

    def predict(self, x):
        self._tested(x)
        return np.array([self.raw(i) for i in _ids(x)])


class RecClassifier(_Rec, ClassifierMixin):
    def __init__(self, salt=0):
        self.salt = salt

    def raw(self, i):
        """Probabilities are 2^-e: a rotation of (1, 2, .., C-1, C-1)."""
        c = len(self.classes_)
        e = list(range(1, c)) + [c - 1]
        k = h(self.key_, i) % c
        return e[-k:] + e[:-k] if k else e

    def predict_proba(self, x):
        self._tested(x)
        return np.array([[2.0 ** -e for e in self.raw(i)] for i in _ids(x)])

    def predict(self, x):
        self._tested(x)
        return np.array([self.classes_[self.raw(i).index(1)] for i in _ids(x)])


class HardClassifier(RecClassifier):
    """Without probabilities."""
    predict_proba = property()


class Keep(BaseEstimator, TransformerMixin):
    """A preprocessing step that leaves data as it is."""

    def __init__(self, mark=0):
        self.mark = mark

    def fit(self, x, y=None):
        return self

    def transform(self, x):
        return x


class TableModel(BaseEstimator):
    """A fitted model given by a table: its answer for row code c is table[c]."""

    def __init__(self, table=None, classes=None):
        self.table, self.classes = table, classes

    def _codes(self, x):
        return _ids(x)

    def predict(self, x):
        out = [self.table[c] for c in self._codes(x)]
        if self.classes is None:
            return np.array(out, dtype=float)
        return np.array([o.index(max(o)) if isinstance(o, list) else o for o in out])

    def predict_proba(self, x):
        return np.array([[v / 8 for v in self.table[c]] for c in self._codes(x)])


class MemoClassifier(BaseEstimator, ClassifierMixin):
    """Remembers the label of every row it was trained on (rows by number)."""

    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, x, y):
        y = np.asarray(y)
        self.classes_ = np.unique(y)
        pos = {v: k for k, v in enumerate(self.classes_.tolist())}
        self.memo_ = {i: pos[v] for i, v in zip(_ids(x), y.tolist())}
        return self

    def _pos(self, x):
        return [self.memo_.get(i, h(i, 3) % len(self.classes_)) for i in _ids(x)]

    def predict(self, x):
        return self.classes_[np.array(self._pos(x), dtype=int)]

    def predict_proba(self, x):
        k = len(self.classes_)
        return np.array([[0.75 if c == p else 0.25 / (k - 1) for c in range(k)] for p in self._pos(x)])


class Scored(BaseEstimator, ClassifierMixin):
    """A fitted classifier given by a table of labels or of probabilities (as shares)."""

    def __init__(self, table=None, classes=None):
        self.table, self.classes = table, classes

    @property
    def classes_(self):
        return np.array(self.classes)

    def fit(self, x, y):
        return self

    def predict(self, x):
        return np.array([self.classes[o.index(max(o))] if isinstance(o, list) else o for o in (self.table[c] for c in _ids(x))])

    def predict_proba(self, x):
        return np.array([[v / sum(self.table[c]) for v in self.table[c]] for c in _ids(x)])


class _Look(BaseEstimator):
    """Refuses anything but finite numbers, remembers what it was given."""
    seen = []

    def __init__(self, salt=0):
        self.salt = salt

    def _check(self, x):
        a = np.asarray(x)
        finite = a.dtype != object and bool(np.isfinite(a.astype(float)).all())
        _Look.seen.append((len(a), finite))
        return a

    def predict(self, x):
        return np.array([self.first_] * len(self._check(x)))


class LookClassifier(_Look, ClassifierMixin):
    def fit(self, x, y):
        self._check(x)
        self.classes_ = np.unique(y)
        self.first_ = self.classes_[0]
        return self

    def predict_proba(self, x):
        return np.array([[1.0] + [0.0] * (len(self.classes_) - 1)] * len(self._check(x)))


class LookRegressor(_Look, RegressorMixin):
    def fit(self, x, y):
        self._check(x)
        self.first_ = float(np.mean(y))
        return self


def helper_one(x):
    return x


def helper_two(x):
    return -x


class _Salty(BaseEstimator):
    """Hyperparameters of every kind; predictions depend on all of them."""

    def __init__(self, word="none", number=0, pair=(), fn=None):
        self.word, self.number, self.pair, self.fn = word, number, pair, fn

    def fit(self, x, y):
        self.classes_ = np.unique(np.asarray(y))
        self.key_ = h(self.word, self.number, self.pair, self.fn(1))
        return self

    def _k(self, x, n):
        return np.array([h(self.key_, "%.6g" % float(v)) % n for v in np.asarray(x, dtype=float).sum(axis=1)])


class SaltyClassifier(_Salty, ClassifierMixin):
    def predict(self, x):
        return self.classes_[self._k(x, len(self.classes_))]

    def predict_proba(self, x):
        return np.eye(len(self.classes_))[self._k(x, len(self.classes_))]


class SaltyRegressor(_Salty, RegressorMixin):
    def predict(self, x):
        return self._k(x, 9).astype(float)


class _Tagged(BaseEstimator):
    """Rows are numbered 1000 * data set + k; remembers which rows and targets it was trained on."""
    trained = []

    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, x, y):
        _Tagged.trained.append((_ids(x), [float(v) for v in np.asarray(y)], self.salt))
        self.classes_ = np.unique(np.asarray(y))
        self.first_ = float(np.asarray(y, dtype=float)[0])
        return self


class TaggedClassifier(_Tagged, ClassifierMixin):
    """Always the first label, with probability 0.75."""

    def predict(self, x):
        return np.array([self.classes_[0]] * len(x))

    def predict_proba(self, x):
        return np.array([[0.75, 0.25]] * len(x))


class TaggedRegressor(_Tagged, RegressorMixin):
    """Twice the first target."""

    def predict(self, x):
        return np.array([2 * self.first_] * len(x))


class KeepTwo(Keep):
    pass

"""Bagging with recording members and a random source whose draws are unconstrained (a function of the seed)."""
import contextlib
import numpy as np
import pandas as pd
from joblib import parallel_backend, register_parallel_backend
from joblib.parallel import ParallelBackendBase
from sklearn.base import BaseEstimator, ClassifierMixin
from mizarlabs.static import CLOSE, EVENT_END_TIME
from mizarlabs.model.sequentially_bootstrapped_bagging_classifier import SequentiallyBootstrappedBaggingClassifier

ASSUMPTIONS = ["the random source returns any elements of the population asked for (a function of its seed and of the calls "
               "made so far); the distribution asked for is checked",
               "members are stand-ins that record what they are fitted on and asked",
               "scikit-learn's and scipy's own code runs concretely on the rows, labels and draws of each path"]
BIG = 10 ** 6


class Inline(ParallelBackendBase):
    """several jobs, run one after another in this process"""
    supports_sharedmem = uses_threads = supports_retrieve_callback = True

    def effective_n_jobs(self, n_jobs):
        return n_jobs if n_jobs and n_jobs > 0 else 1

    def configure(self, n_jobs=1, parallel=None, **k):
        self.parallel = parallel
        return n_jobs

    def submit(self, func, callback=None):
        out = func()
        callback(out)
        return out

    def retrieve_result_callback(self, out):
        return out
    apply_async = submit


register_parallel_backend("symx_inline", Inline)


@contextlib.contextmanager
def sources(ctx, log, features=True, free=None):
    """every RandomState made inside draws as the solver likes (free: only these numbers of draws of each source); large ranges (seeds) are concrete"""
    real = np.random.RandomState

    class Source(real):
        def __init__(self, seed=None):
            super().__init__(seed)
            self.seed_, self.k = seed, 0
            log.append(self)
            self.draws = []

        def _one(self, opts):
            self.k += 1
            key = f"{self.seed_}.{self.k}"
            if free is not None and self.k not in free:
                return list(opts)[(self.k * 7 + (self.seed_ or 0) % 97) % len(opts)]
            return ctx.choice(f"draw{key}", opts)

        def randint(self, low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            if high - low > BIG or not features:
                return super().randint(low, high, size, dtype)
            if size is None:
                return self._one(range(low, high))
            return np.array([self._one(range(low, high)) for _ in range(int(np.prod(size)))]).reshape(size)

        def permutation(self, x):
            if not features:
                return super().permutation(x)
            pool, out = list(range(x)) if np.ndim(x) == 0 else list(x), []
            while pool:
                out.append(pool.pop(self._one(range(len(pool)))))
            return np.array(out)

        def choice(self, a, size=None, replace=True, p=None):
            pop = list(range(a)) if np.ndim(a) == 0 else list(a)
            n = 1 if size is None else int(np.prod(size))
            probs = None if p is None else [float(v) for v in np.ravel(p)]
            got = [pop[self._one([i for i in range(len(pop)) if probs is None or probs[i] > 0])] for _ in range(n)]
            self.draws.append((got, pop, probs))
            return np.array(got, dtype=np.intp) if size is not None else got[0]

    np.random.RandomState = Source
    try:
        yield Source
    finally:
        np.random.RandomState = real


class Plain(BaseEstimator, ClassifierMixin):
    """records what it is fitted on; does not support sample weights"""
    def fit(self, X, y):
        self.X_, self.y_, self.w_ = np.array(X), np.array(y), None
        self.classes_ = np.unique(self.y_)
        return self


class Weighted(BaseEstimator, ClassifierMixin):
    """records what it is fitted on; supports sample weights"""
    def fit(self, X, y, sample_weight=None):
        self.X_, self.y_, self.w_ = np.array(X), np.array(y), np.array(sample_weight)
        self.classes_ = np.unique(self.y_)
        return self


def bars(n):
    t = pd.date_range("2021-03-01", periods=n, freq="1H")
    return pd.DataFrame({CLOSE: np.arange(1., n + 1)}, index=t)


def infos(ctx, b, m, ends=None):
    """m labels starting at the first m bars, ending at any bar at or after their start"""
    t = list(b.index)
    e = [t[ends[i]] if ends else t[ctx.choice(f"end{i}", range(i, len(t)))] for i in range(m)]
    return pd.Series(e, index=b.index[:m], name=EVENT_END_TIME)


def indicator(b, info):
    return np.array([[1. if s <= t <= e else 0. for s, e in info.items()] for t in b.index])


def bagging(info, b, member, **k):
    return SequentiallyBootstrappedBaggingClassifier(samples_info_sets=info, price_bars=b, base_estimator=member,
                                                     random_state=k.pop("random_state", 7), **k)


def expected_probs(m, prev):
    """average uniqueness of every sample if it were drawn after prev"""
    conc = m[:, prev].sum(axis=1) if len(prev) else np.zeros(m.shape[0])
    u = np.array([np.mean([1 / (conc[r] + 1) for r in range(m.shape[0]) if m[r, i]]) for i in range(m.shape[1])])
    return u / u.sum()


def ilist(x):
    return [int(v) for v in x]


def jobs(n):
    return parallel_backend("symx_inline", n_jobs=n) if n else contextlib.nullcontext()

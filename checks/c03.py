import itertools
import math
import random
import numpy as np
import pandas as pd
from symx.case import Case
from checks.common_cv import groups
from mizarlabs.model.model_selection import CombPurgedKFoldCV, combinatorial_cross_validation_paths, compute_back_test_paths

ASSUMPTIONS = ["the model's outputs are any values that tell apart the splits they were fitted on",
               "the random module's shuffles bring any element to either end", "sample times have distinct index labels",
               "the training sets of the splits themselves are decided by C01 and C02"]


class Pipe:
    """A model whose outputs are unconstrained, one per (fit, row)."""

    def __init__(self, ctx, n, fits, free, large=False):
        self.ctx, self.fits, self.n = ctx, [], n
        if large:
            self.out = [[ctx.real(f"pred{s}_{i}", lo=1000 * s + i, hi=1000 * s + i + 1) if (s, i) in free else 1000. * s + i for i in range(n)]
                        for s in range(fits)]
            self.prob = [[ctx.reals(f"prob{s}_{i}_", 2, lo=0, hi=1) if (s, i) in free else ((s * 7 + i) % 10 / 10, 1 - (s * 7 + i) % 10 / 10) for i in range(n)]
                         for s in range(fits)]
            return
        self.out = [[ctx.real(f"pred{s}_{i}") for i in range(n)] for s in range(fits)]
        self.prob = [[ctx.reals(f"prob{s}_{i}_", 2, lo=0, hi=1) for i in range(n)] for s in range(fits)]
        for i in range(n):
            for a, b in itertools.combinations(range(fits), 2):
                ctx.assume(self.out[a][i] != self.out[b][i])
        for s in range(fits):
            for i in range(n):
                if (s, i) not in free:
                    a, b = self.prob[s][i]
                    ctx.assume(a > b if (s + i) % 2 else b > a)

    def fit(self, X, y, **kw):
        self.fits.append(([int(v) for v in np.asarray(X)[:, 0]], [[v for v in r[1:]] for r in np.asarray(X)], list(y), kw))
        return self

    def rows(self, X):
        self.ctx.check(len(self.fits) > 0, "a model predicts after it was fitted")
        return [int(v) for v in np.asarray(X)[:, 0]]

    def predict(self, X):
        return self.ctx.array([self.out[len(self.fits) - 1][i] for i in self.rows(X)])

    def predict_proba(self, X):
        return self.ctx.matrix([self.prob[len(self.fits) - 1][i] for i in self.rows(X)])


class Shuffles:
    """random.shuffle with unconstrained outcome"""

    def __init__(self, ctx, hi):
        self.ctx, self.k, self.hi = ctx, 0, hi

    def pick(self, n):
        if n < 2:
            return 0
        self.k += 1
        return self.ctx.choice(f"shuffle{self.k}", range(n)) if self.k <= self.hi else self.k % n

    def shuffle(self, x, *a):
        r = self.pick(len(x))
        x[:] = x[r:] + x[:r]

    def __enter__(self):
        self.old = {n: getattr(random, n) for n in ("shuffle", "choice", "randrange", "randint", "sample")}
        random.shuffle = self.shuffle
        random.choice = lambda s: s[self.pick(len(s))]
        random.randrange = lambda a, b=None: self.pick(a) if b is None else a + self.pick(b - a)
        random.randint = lambda a, b: a + self.pick(b - a + 1)
        random.sample = self.sample
        return self

    def sample(self, pop, k):
        pop = list(pop)
        self.shuffle(pop)
        return pop[:k]

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(random, n, f)


def paths(ctx, n, N, k, horizon, free, shuffles, label="label", fit_params=None, large=False):
    idx = pd.date_range("2020-01-01", periods=n, freq="1D")
    pred = pd.Series(idx, index=idx)
    if horizon == "sym":
        ev = [t + ctx.delta(f"h{i}", lo=0, hi=3 * 86400000) for i, t in enumerate(idx)]
        ev = ctx.tseries(ev, idx)
        pred = pd.Series(list(idx), index=idx, dtype=object) if ctx.symbolic else pred
    else:
        ev = pd.Series(idx + pd.Timedelta(hours=horizon), index=idx)
    cv = CombPurgedKFoldCV(n_groups=N, n_test_splits=k, pred_times=pred, eval_times=ev)
    fv = ctx.reals("f", n)
    X = ctx.frame({"id": list(range(n)), "f": fv}, idx)
    lab, ret = ctx.reals("lab", n), ctx.reals("ret", n)
    y = ctx.frame({label: lab, "ret": ret}, idx)
    S = math.comb(N, k)
    trains = [([int(i) for i in a], [int(i) for i in b]) for a, b in cv.split(X, y[label])]
    if any(not a for a, b in trains):
        ctx.assume(False)
    pipe = Pipe(ctx, n, S, free, large)
    kw = {} if label == "label" else dict(label_column_name=label)
    with Shuffles(ctx, shuffles):
        out = combinatorial_cross_validation_paths(X, y, cv, pipe, fit_params or {}, **kw)
        out = out if isinstance(out, list) else list(out)
    if len(out) == 1 and isinstance(out[0], list):
        out = out[0]
    want = math.comb(N - 1, k - 1)
    ctx.check(len(out) == want, f"{len(out)} paths instead of {want}")
    ctx.check(len(pipe.fits) == S, f"{len(pipe.fits)} fits instead of {S}")
    split_of = []
    for rows, feats, labels, kws in pipe.fits:
        m = [s for s, (a, b) in enumerate(trains) if sorted(a) == sorted(rows)]
        ctx.check(m and len(rows) == len(set(rows)), "the training rows are a split's training set")
        ctx.check(len(labels) == len(rows), "one label per training row")
        for i, l, fr in zip(rows, labels, feats):
            ctx.check_same(l, lab[i], "training label of the row")
            ctx.check_same(fr[0], fv[i], "training features of the row")
        ctx.check(kws == (fit_params or {}), "fit parameters are passed on")
        split_of.append(m)
    gs = groups(n, N)
    group_of = {i: g for g, rows in enumerate(gs) for i in rows}
    used = {}
    for p, df in enumerate(out):
        ctx.check(sorted(df.index) == list(idx), "a path covers every sample exactly once")
        per_group = {}
        for t, r in zip(df.index, df.to_dict("records")):
            i = idx.get_loc(t)
            s = [s for s in range(S) if bool(r["predictions"] == pipe.out[s][i])]
            ctx.check(len(s) == 1, f"prediction of sample {i} is a model's prediction for that sample")
            s = s[0]
            ctx.check(any(i in trains[m][1] for m in split_of[s]), f"sample {i} is predicted out of sample")
            ctx.check(all(i not in trains[m][0] for m in split_of[s]), f"sample {i} was not trained on")
            a, b = pipe.prob[s][i]
            mp = r["max_proba"]
            ctx.check((mp >= a) & (mp >= b) & ((mp <= a) | (mp <= b)), f"probability of sample {i}")
            ctx.check_same(r[label], lab[i], "label data of the sample")
            ctx.check_same(r["ret"], ret[i], "label data of the sample")
            per_group.setdefault(group_of[i], set()).add(s)
        for g, ss in per_group.items():
            ctx.check(len(ss) == 1, "a test group comes from one model")
            key = (next(iter(ss)), g)
            ctx.check(key not in used, f"prediction of split {key[0]} for group {g} used twice")
            used[key] = p
    ctx.check(len(used) == S * k, f"{len(used)} of {S * k} group predictions used")


def count(ctx, hi):
    n = ctx.choice("n", range(2, hi + 1))
    k = ctx.choice("k", range(1, n))
    ctx.check(compute_back_test_paths(n, k) == math.comb(n - 1, k - 1), f"number of paths for N={n}, k={k}")


def cases(tier):
    T = tier == "thorough"
    q = [(3, 3, 1, 0, (), 9), (4, 3, 2, 5, ((0, 1), (1, 0)), 9), (6, 3, 1, 30, ((2, 2),), 9), (6, 3, 2, 5, (), 4), (4, 4, 3, 0, (), 4), (4, 4, 2, 3, (), 5), (4, 2, 1, "sym", (), 9)]
    if T:
        q += [(9, 3, 2, 30, ((0, 3),), 6), (6, 3, 2, "sym", (), 2), (5, 5, 2, 0, (), 5), (6, 5, 4, 0, (), 4), (4, 4, 2, 3, (), 12)]
    out = [Case(f"paths n={n} N={N} k={k} horizon={h}" + (f" {sh} shuffles" if j > 6 else ""), paths,
                f"{n} samples, any model outputs and labels, any outcome of the first {sh} shuffles; label horizon {h if h != 'sym' else 'any up to 3 days'}"
                + ("" if h == "sym" else " hours"), dict(n=n, N=N, k=k, horizon=h, free=fr, shuffles=sh, label="bin" if j % 2 else "label",
                                                        fit_params={"w": 3} if j % 2 else None), weight=1) for j, (n, N, k, h, fr, sh) in enumerate(q)]
    big = [(22, 11, 2, 30, ((0, 4), (3, 11)), 1), (23, 12, 1, 0, ((5, 2),), 2)]
    if T:
        big += [(26, 13, 2, 50, ((0, 4), (30, 20)), 2), (18, 9, 3, 20, ((1, 1),), 2), (60, 15, 2, 30, ((7, 40),), 1)]
    out += [Case(f"paths large n={n} N={N} k={k} horizon={h}", paths,
                 f"{n} samples, {len(fr)} of the model's outputs and all features and labels any, the others set; any outcome of the first {sh} shuffles; label horizon {h} hours",
                 dict(n=n, N=N, k=k, horizon=h, free=fr, shuffles=sh, large=True)) for n, N, k, h, fr, sh in big]
    out.append(Case("path count", count, f"all 1<=k<N<={14 if T else 10}", dict(hi=14 if T else 10)))
    return out

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, TransformerMixin
from symx.case import Case
from mizarlabs.model.pipeline import MizarFeatureUnion, MizarPipeline
from mizarlabs.transformers.utils import IdentityTransformer

ASSUMPTIONS = ["transformers and models are stand-ins: any per-row affine functions of the columns they are given; scikit-learn's own union and pipeline run as they are"]


class Affine(BaseEstimator, TransformerMixin):
    """a column, scaled and shifted; learns the last row it was fitted on; remembers what it was given"""

    def __init__(self, ctx, name, col, wide, frame):
        self.ctx, self.name, self.col, self.wide, self.frame = ctx, name, col, wide, frame
        self.log = []

    def __sklearn_clone__(self):
        return self

    def fit(self, X, y=None, **k):
        self.shift_ = self.pick(X)[-1]
        self.log.append(("fit", len(X), None if y is None else list(y), dict(k)))
        return self

    def pick(self, X):
        return list(X[self.col].values) if isinstance(X, pd.DataFrame) else [X[i, 0] for i in range(len(X))]

    def transform(self, X):
        v = self.pick(X)
        rows = [[x * 2 + self.shift_] + ([x - self.shift_] if self.wide else []) for x in v]
        self.log.append(("transform", len(X), None, {}))
        if self.frame:
            return self.ctx.frame({f"{self.name}{j}": [r[j] for r in rows] for j in range(len(rows[0]))}, X.index)
        return self.ctx.matrix(rows)

    def of(self, x, last):
        return [x * 2 + last] + ([x - last] if self.wide else [])


ODD = {"backwards": ([3, 2, 1, 0, -1], ["z", "y", "x"]), "repeated": ([4, 4, 1, 4, 0], ["a", "a", "b"]),
       "unnamed": ([float("nan"), 2.0, 1.0, 7.0, 5.0], [None, "b", "a"])}


def union(ctx, n, m, k, times, odd=None):
    """k transformers over n rows, then applied to m further rows"""
    idx, idx2 = (ctx.index(ctx.times("t", n)), ctx.index(ctx.times("u", m))) if times else (pd.RangeIndex(5, 5 + n), pd.Index([f"r{i}" for i in range(m)]))
    if odd:
        a, b = ODD[ctx.choice("labels", list(odd))]
        idx, idx2 = pd.Index(a[:n]), pd.Index(b[:m])
    cols = [f"c{j}" for j in range(k)]
    data = {c: ctx.reals(c, n, lo=-9, hi=9) for c in cols}
    more = {c: ctx.reals(c + "more", m, lo=-9, hi=9) for c in cols}
    X, Z = ctx.frame(data, idx), ctx.frame(more, idx2)
    y = ctx.series(ctx.reals("y", n), idx) if ctx.flag("with target") else None
    order = list(range(k)) if ctx.flag("order") else list(range(k))[::-1]
    trs = [Affine(ctx, f"t{j}_", cols[j], ctx.flag(f"wide{j}"), False) for j in order]
    u = MizarFeatureUnion([(f"n{j}", t) for j, t in zip(order, trs)])
    way = ctx.choice("way", ["fit_transform", "fit then transform"])
    if way == "fit_transform":
        out = u.fit_transform(X, y)
    else:
        u.fit(X, y)
        out = u.transform(X)
    checked(ctx, out, X, trs, data, data)
    checked(ctx, u.transform(Z), Z, trs, more, data)
    for t in trs:
        fits = [l for l in t.log if l[0] == "fit"]
        ctx.check(len(fits) == 1 and fits[0][1] == n, "every transformer is fitted once, on all rows")
        if y is None:
            ctx.check(fits[0][2] is None, "no target, none handed on")
        else:
            ctx.check(fits[0][2] is not None, "the target is handed on")
            ctx.check_all_same(fits[0][2], list(y.values), "the target is handed on")
    for c in cols:
        ctx.check_all_same(list(X[c].values), data[c], "the input is left alone")


def checked(ctx, out, X, trs, data, fitted):
    ctx.check(isinstance(out, pd.DataFrame), "a frame comes back")
    ctx.check(len(out) == len(X), f"{len(out)} rows instead of {len(X)}")
    for i, (a, b) in enumerate(zip(out.index, X.index)):
        ctx.check(a is b or a == b or (a != a and b != b), f"row {i} keeps its own label")
    width = sum(2 if t.wide else 1 for t in trs)
    ctx.check(out.shape[1] == width, f"{out.shape[1]} columns instead of {width}")
    for i in range(len(X)):
        want = [v for t in trs for v in t.of(data[t.col][i], fitted[t.col][-1])]
        for j, v in enumerate(want):
            ctx.check_close(out.iloc[i, j], v, f"row {i} column {j}")


class Model(BaseEstimator):
    def __init__(self, ctx, plain=False):
        self.ctx, self.log = ctx, []

    def fit(self, X, y, sample_weight=None, **k):
        self.log.append((np.asarray(X, dtype=object), list(y), None if sample_weight is None else list(sample_weight), dict(k)))
        return self

    def predict(self, X):
        X = np.asarray(X, dtype=object)
        return self.ctx.array([X[i, 0] for i in range(len(X))])


def pipeline(ctx, n, steps):
    cols = {"c0": ctx.reals("c0", n, lo=-9, hi=9)}
    X = ctx.frame(cols, ctx.date_range(n))
    y = ctx.series(ctx.reals("y", n), X.index)
    trs = [Affine(ctx, f"s{j}", "c0", False, False) for j in range(steps)]
    mod = Model(ctx)
    p = MizarPipeline([(f"step{j}", t) for j, t in enumerate(trs)] + [("the_model", mod)])
    w = ctx.choice("weights", ["none", "positional", "keyword", "for the step"])
    sw = ctx.array(ctx.reals("w", n, lo=0, hi=5))
    extra = {"the_model__tag": 7} if ctx.flag("extra") else {}
    if w == "none":
        p.fit(X, y, **extra)
    elif w == "positional":
        p.fit(X, y, sw, **extra)
    elif w == "keyword":
        p.fit(X, y, sample_weight=sw, **extra)
    else:
        p.fit(X, y, the_model__sample_weight=sw, **extra)
    v, shifts = cols["c0"], []
    for t in trs:
        shifts.append(v[-1])
        v = [x * 2 + v[-1] for x in v]
    ctx.check(len(mod.log) == 1, "the model is fitted once")
    Xm, ym, wm, km = mod.log[0]
    ctx.check(len(Xm) == n and len(ym) == n, "all rows")
    for i in range(n):
        ctx.check_close(Xm[i, 0], v[i], f"row {i}: features through all the steps")
    ctx.check_all_same(ym, list(y.values), "targets")
    if w == "none":
        ctx.check(wm is None, "no weights given, none used")
    else:
        ctx.check(wm is not None, "the weights reach the model")
        ctx.check_all_same(wm, list(sw), "the weights reach the model")
    ctx.check(km == ({"tag": 7} if extra else {}), f"the model's further settings {km}")
    for t in trs:
        fits = [l for l in t.log if l[0] == "fit"]
        ctx.check(len(fits) == 1 and fits[0][3] == {}, "the steps before are fitted once, without weights")
    Z = ctx.frame({"c0": ctx.reals("z", 2, lo=-9, hi=9)}, ctx.date_range(2))
    out = list(p.predict(Z))
    for i, z in enumerate(Z["c0"].values):
        for s in shifts:
            z = z * 2 + s
        ctx.check_close(out[i], z, f"prediction {i} of the fitted steps")


def identity(ctx, n):
    data = {"a": [float("nan") if ctx.flag(f"missing{i}") else ctx.real(f"a{i}") for i in range(n)], "b": ctx.reals("b", n)}
    X = ctx.frame(data, ctx.index(ctx.times("t", n)))
    for out in (IdentityTransformer().transform(X), IdentityTransformer().fit(X).transform(X), IdentityTransformer().fit_transform(X)):
        ctx.check(list(out.columns) == ["a", "b"] and len(out) == n, "the same columns and rows")
        for c in data:
            ctx.check_all_same(list(out[c].values), data[c], "the same values")
        for i, (a, b) in enumerate(zip(out.index, X.index)):
            ctx.check(a is b or a == b or (a != a and b != b), f"row {i} keeps its own label")


def cases(tier):
    T = tier == "thorough"
    out = [Case(f"union rows={n}+{m} transformers={k}{' any times' if t else ''}", union, f"{k} transformers, {n} rows fitted, {m} more transformed, any values",
                dict(n=n, m=m, k=k, times=t)) for n, m, k, t in [(3, 2, 2, True), (2, 1, 3, False), (2, 3, 1, True), (40, 25, 2, False)] + ([(5, 3, 3, True), (4, 4, 4, False)] if T else [])]
    out += [Case(f"pipeline rows={n} steps={s}", pipeline, f"{s} transforming steps and a model, {n} rows, any values, weights given in any way", dict(n=n, steps=s))
            for n, s in [(3, 1), (2, 2), (2, 0), (30, 1), (3, 6)] + ([(5, 3), (6, 2)] if T else [])]
    out += [Case(f"union rows={n}+{m} transformers={k} labels in any order", union, f"{k} transformers, {n} rows, {m} more; labels going backwards, repeated or missing",
                 dict(n=n, m=m, k=k, times=False, odd=tuple(ODD))) for n, m, k in [(3, 2, 2)] + ([(5, 3, 2)] if T else [])]
    return out + [Case(f"identity n={n}", identity, f"{n} rows, any values, any missing", dict(n=n)) for n in ([3] if not T else [3, 5])]

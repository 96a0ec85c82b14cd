import numpy as np
import pandas as pd
from symx.case import Case
from mizarlabs.model.pipeline import StrategySignalPipeline

ASSUMPTIONS = ["feature values are complete; time grids are strictly increasing, on a millisecond grid",
               "alignment is observed through the public data set builder without dropping rows"]


class Doubler:
    """a feature transformer (tells whose data it was given)"""

    def transform(self, X):
        return X * 2


def align(ctx, nl, feats, cols, transform):
    """feats: [(rows, how)]; nl leading times"""
    lead_t = ctx.times("l", nl)
    lead_v = ctx.reals("lv", nl)
    names = ["lead"] + [f"f{k}" for k in range(len(feats))]
    X = {"lead": ctx.frame({"x": lead_v}, ctx.index(lead_t))}
    rows = []
    for k, (m, how) in enumerate(feats):
        ts = ctx.times(f"t{k}_", m)
        vs = [ctx.reals(f"v{k}_{c}", m) for c in range(cols)]
        rows.append((ts, vs, how))
        X[f"f{k}"] = ctx.frame({f"f{k}_{c}": vs[c] for c in range(cols)}, ctx.index(ts))
    X0 = {k: v.copy(deep=True) for k, v in X.items()}
    order = names[1:] + names[:1] if transform else names
    p = StrategySignalPipeline({n: (Doubler() if transform and n != "lead" else None) for n in order}, align_on="lead",
                               align_how={f"f{k}": how for k, (m, how) in enumerate(feats)})
    y = ctx.series([0] * nl, ctx.index(lead_t))
    out, y_out = p.create_dataset_primary(X, y, drop_na=False)
    ctx.check(y_out is y or len(y_out) == nl, "the target is passed through")
    ctx.check_equal_times(out.index, lead_t, "the leading frame's times")
    ctx.check_all_same(list(out["x"].values), lead_v, "the leading frame is unchanged")
    for k, (ts, vs, how) in enumerate(rows):
        start, last = 0, None
        for i, t in enumerate(lead_t):
            end = start
            while end < len(ts) and bool(ts[end] <= t):
                end += 1
            if end > start:
                last = [agg(ctx, how, v[start:end]) for v in vs]
                start = end
            for c in range(cols):
                got = out[f"f{k}_{c}"].iloc[i]
                if last is None:
                    ctx.check(ctx.isnan(got), f"feature {k}.{c} at leading time {i}: nothing known yet")
                else:
                    ctx.check_close(got, last[c] * 2 if transform else last[c], f"feature {k}.{c} at leading time {i}")
    for k in X:
        ctx.check(list(X[k].columns) == list(X0[k].columns) and len(X[k]) == len(X0[k]), "the caller's data is untouched")
        for c in X[k].columns:
            ctx.check_all_same(list(X[k][c].values), list(X0[k][c].values), "the caller's data is untouched")


def long(ctx, nl, m, free, how, cols):
    """many leading and feature rows at set times, but for some of the feature's, which come any time between their neighbours"""
    t0 = pd.Timestamp("2021-02-03")
    lead_t = [ctx.hold(t0 + pd.Timedelta(minutes=60 * i + 7 * (i % 4))) for i in range(nl)]
    step, ts = nl * 60 // m, []
    for i in range(m):
        t = ctx.hold(t0 + pd.Timedelta(minutes=step * i - 20 + 5 * (i % 3)))
        ts.append(t + ctx.delta(f"late{i}", hi=(step - 11) * 60000) if i in free else t)
    lv = ctx.reals("lv", nl)
    vs = [[ctx.real(f"v{c}_{i}") if i in free or i % (4 if how == "mean" else 25) == 0 else float((i * 7 + c) % 13) for i in range(m)] for c in range(cols)]
    X = {"lead": ctx.frame({"x": lv}, ctx.index(lead_t)), "f": ctx.frame({f"f_{c}": vs[c] for c in range(cols)}, ctx.index(ts))}
    p = StrategySignalPipeline({"lead": None, "f": None}, align_on="lead", align_how={"f": how})
    out, _ = p.create_dataset_primary(X, ctx.series([0] * nl, ctx.index(lead_t)), drop_na=False)
    ctx.check_equal_times(out.index, lead_t, "the leading frame's times")
    ctx.check_all_same(list(out["x"].values), lv, "the leading frame is unchanged")
    start, last = 0, None
    for i, t in enumerate(lead_t):
        end = start
        while end < m and bool(ts[end] <= t):
            end += 1
        if end > start:
            last = [agg(ctx, how, v[start:end]) for v in vs]
            start = end
        for c in range(cols):
            got = out[f"f_{c}"].iloc[i]
            if last is None:
                ctx.check(ctx.isnan(got), f"feature {c} at leading time {i}: nothing known yet")
            else:
                ctx.check_close(got, last[c], f"feature {c} at leading time {i}")


class Times:
    """a feature transformer that tells what it was given, multiplied"""

    def __init__(self, by):
        self.by = by

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        return X * self.by


class Model:
    classes_, n_classes_ = [0, 1], 2

    def predict(self, X):
        return np.array([0] * len(X))

    def predict_proba(self, X):
        return np.full((len(X), 2), .5)


def shared(ctx, nl, m, how, by):
    """the same data feeds the primary model and the meta-labelling model through different transformers"""
    lead_t, ts = ctx.times("l", nl), ctx.times("t", m)
    vs = ctx.reals("v", m)
    ctx.assume(ts[0] <= lead_t[0])
    X = {"lead": ctx.frame({"x": ctx.reals("lv", nl)}, ctx.index(lead_t)), "f": ctx.frame({"f": vs}, ctx.index(ts))}
    a, b = (Times(k) if k != 1 else None for k in by)
    p = StrategySignalPipeline({"lead": None, "f": a}, "lead", {"f": how}, {"f": b}, False, False)
    p.set_primary_model(Model())
    y = ctx.series([0] * nl, ctx.index(lead_t))
    out, _ = p.create_dataset_primary(X, y)
    meta, _ = p.create_dataset_metalabeling(X, y)
    for d, k, what in ((out, by[0], "primary"), (meta, by[1], "meta-labelling")):
        start, last = 0, None
        ctx.check_equal_times(d.index, lead_t, f"the leading frame's times ({what})")
        for i, t in enumerate(lead_t):
            end = start
            while end < m and bool(ts[end] <= t):
                end += 1
            if end > start:
                last, start = agg(ctx, how, vs[start:end]), end
            ctx.check_close(d["f"].iloc[i], last * k, f"{what} feature at leading time {i}")


def agg(ctx, how, xs):
    return {"mean": ctx.mean, "min": ctx.min, "max": ctx.max}[how](xs)


def cases(tier):
    q = [(2, [(3, "mean")], 1, False), (3, [(2, "max")], 2, True), (2, [(2, "min"), (1, "mean")], 1, False), (2, [(3, "min")], 1, True),
         (13, [(1, "mean")], 1, False), (6, [(2, "max")], 1, False)]
    if tier == "thorough":
        q += [(3, [(4, "mean")], 1, False), (3, [(3, "max")], 1, True), (2, [(2, "max"), (2, "mean")], 1, False), (4, [(3, "mean")], 1, False), (40, [(1, "mean")], 1, True), (12, [(2, "mean")], 1, False)]
    big = [(30, 20, (7,), "mean", 2), (20, 60, (11,), "max", 1), (24, 6, (2, 4), "min", 1)]
    if tier == "thorough":
        big += [(120, 80, (40, 41), "mean", 2), (60, 200, (100,), "min", 1)]
    return [Case(f"shared lead={nl} feature={m}{h} by={by}", shared, f"{nl} leading times, a feature with {m} rows ({h}) used by both models, transformed by {by[0]} and {by[1]}",
                 dict(nl=nl, m=m, how=h, by=by)) for nl, m, h, by in [(2, 3, "mean", (1, 10)), (3, 2, "max", (2, 1)), (2, 2, "min", (2, 3))]] + [Case(f"align long lead={n} feature={m}{h} free={list(f)}", long, f"{n} leading times and a feature with {m} rows ({h}), of which {f} come at any time between their neighbours",
                 dict(nl=n, m=m, free=f, how=h, cols=c)) for n, m, f, h, c in big] + [Case(f"align lead={n} features={'+'.join(f'{m}{h}' for m, h in f)} columns={c}" + (" transformed" if t else ""), align,
                 f"{n} leading times, features with {', '.join(f'{m} rows ({h})' for m, h in f)}, any interleaving of the grids, any values",
                 dict(nl=n, feats=f, cols=c, transform=t)) for n, f, c, t in q]

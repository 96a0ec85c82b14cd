import numpy as np
import pandas as pd
from symx.case import Case
from checks.catalog import ENTRIES, data, grid, library
from checks.common_labels import spans, label_frame
from checks.common_pipeline import setup
from checks.common_ta import ASSUMPTIONS  # noqa
from mizarlabs.model.model_selection import CombPurgedKFoldCV
from mizarlabs.static import EVENT_END_TIME
from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
from mizarlabs.transformers.utils import check_missing_columns
from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities

REFUSALS = (AssertionError, KeyError, ValueError, AttributeError, TypeError, IndexError)


def refused(ctx, use, what):
    ctx.check(ctx.raises(REFUSALS, use) is not None, f"{what} is rejected")


def iff(ctx, cond, err, what):
    """rejected exactly when cond (a truth value over the inputs) holds"""
    ctx.check(cond if err is not None else (~cond if ctx.symbolic and not isinstance(cond, bool) else not cond), f"{what} {'is' if err is not None else 'is not'} rejected")


def column(ctx, cols, make, n):
    gone = ctx.choice("gone", list(cols))
    keep = {c: s for c, s in cols.items() if c != gone}
    X = ctx.frame({**data(ctx, keep, n), "noise": ctx.reals("noise", n)}, grid(n))
    with library(ctx, n):
        refused(ctx, lambda: make(ctx)(X), f"a frame without {gone}")


def wanted(ctx, k, extra):
    """any set of wanted columns, any of them there"""
    names = ["open", "high", "low", "close", "volume", "side"][:k]
    there = [c for c in names if ctx.flag(f"has {c}")]
    X = ctx.frame({c: ctx.reals(c, 1) for c in there + (["more"] if extra else [])}, ctx.date_range(1))
    how = ctx.choice("how", [list, tuple, set])
    e = ctx.raises(AssertionError, lambda: check_missing_columns(X, how(names)))
    iff(ctx, len(there) < k, e, f"a frame with {there} where {names} are wanted")


def barrier_labels(ctx, n, what):
    d = {"close": ctx.prices("p", n, lo=1, hi=100), "other": ctx.reals("o", n)}
    y = ctx.frame(d, ctx.date_range(n, "20H"))
    kw = dict(volatility_window=3, volatility_adjusted_horizontal_barriers=False)
    if what == "factors":
        a, b = ctx.real("take", lo=-3, hi=3), ctx.real("stop", lo=-3, hi=3)
        lab = TripleBarrierMethodLabeling(2, a, b, **kw)
        e = ctx.raises(REFUSALS, lambda: lab.fit(y).transform(y))
        iff(ctx, (a < 0) & (b < 0), e, "a pair of negative barrier factors")
        return
    if what == "no side named":
        side = ctx.choice("side", [None, ""])
        refused(ctx, lambda: TripleBarrierMethodLabeling(2, 1, 1, metalabeling=True, side_column_name=side), "meta-labelling without a side column")
        return
    if what == "no side":
        lab = TripleBarrierMethodLabeling(2, 1, 1, metalabeling=True, side_column_name="side", **kw)
    else:
        lab = TripleBarrierMethodLabeling(2, 1, 1, **kw)
        y = y[["other"]] if what == "no close" else y["close"]
    refused(ctx, lambda: lab.fit(y).transform(y), what)


def trend_settings(ctx):
    m, w = ctx.int("shortest", lo=1, hi=40), ctx.int("window", lo=1, hi=40)
    e = ctx.raises(REFUSALS, lambda: TrendScannerLabeling(look_forward_window=w, min_sample_length=m))
    iff(ctx, m >= w, e, "a shortest sample as long as the window")


def trend_input(ctx, what):
    y = ctx.series(ctx.prices("y", 6), ctx.date_range(6))
    ev = list(y.index[:2]) + [ctx.choice("event", [pd.Timestamp("2019-05-05"), pd.Timestamp("2020-01-01 12:00"), pd.Timestamp("2030-01-01")])]
    lab = TrendScannerLabeling(t_events=ev if what == "unknown events" else None, look_forward_window=4, min_sample_length=3)
    x = y if what == "unknown events" else y.to_frame() if what == "frame" else list(y.values)
    refused(ctx, lambda: lab.fit(x).transform(x), what)


def splits(ctx, what):
    n = 4
    idx = pd.RangeIndex(n)
    pred = ctx.times("pred", n)
    a, b = ctx.tseries(pred, idx), ctx.tseries([t + ctx.delta(f"h{i}", lo=0) for i, t in enumerate(pred)], idx)
    kw = dict(n_groups=3, n_test_splits=1, pred_times=a, eval_times=b, embargo_td=pd.Timedelta(0))
    if what == "sizes":
        g, k = ctx.choice("groups", [2, 3, 5, 10]), ctx.choice("tests", [-2, -1, 0, 1, 2, 3, 4, 9, 10, 12])
        kw.update(n_groups=g, n_test_splits=k)
        e = ctx.raises(REFUSALS, lambda: CombPurgedKFoldCV(**kw))
        iff(ctx, not 1 <= k <= g - 1, e, f"{k} test groups of {g}")
        return
    if what == "embargo":
        h = ctx.choice("embargo", [-10 ** 15, -36 * 10 ** 11, -10 ** 9, -5 * 10 ** 8, -10 ** 6, -1, 0, 1, 10 ** 6, 10 ** 9, 10 ** 14])
        kw.update(embargo_td=pd.Timedelta(h))
        iff(ctx, h < 0, ctx.raises(REFUSALS, lambda: CombPurgedKFoldCV(**kw)), f"an embargo of {h} ns")
        return
    if what == "any embargo":
        h = ctx.delta("embargo", lo=None)
        kw.update(embargo_td=h)
        iff(ctx, h < pd.Timedelta(0), ctx.raises(REFUSALS, lambda: CombPurgedKFoldCV(**kw)), "a negative embargo")
        return
    if what == "embargo type":
        kw.update(embargo_td=ctx.choice("embargo", [3, "1D", None, 0.5, np.timedelta64(1, "D")]))
    elif what == "no prediction times":
        kw.update(pred_times=ctx.choice("times", [None, list(pred)]))
    else:
        kw.update(eval_times=ctx.choice("times", [None, list(pred)]))
    refused(ctx, lambda: CombPurgedKFoldCV(**kw), what)


def uniqueness(ctx, n, what):
    starts, ends = spans(ctx, n)
    if what == "missing end":
        ends[ctx.choice("which", range(n))] = pd.NaT
        df = label_frame(ctx, starts, ends)
    elif what == "same start":
        starts = starts[:-1] + [starts[ctx.choice("which", range(n - 1))]]
        df = label_frame(ctx, starts, [s + ctx.delta(f"l{i}") for i, s in enumerate(starts)])
    else:
        df = label_frame(ctx, starts, ends).rename(columns={EVENT_END_TIME: "end"})
    refused(ctx, lambda: AverageUniqueness().transform(df), what)


def weights(ctx, n, which, what):
    starts, ends = spans(ctx, n, at_bars=True)
    df = label_frame(ctx, starts, ends, close=ctx.prices("p", n))
    df = df.drop(columns=["close" if what == "no close" else EVENT_END_TIME])
    refused(ctx, lambda: (SampleWeightsByReturns() if which == "returns" else SampleWeightsByTimeDecay(1)).transform(df), what)


def sizes(ctx, n, gone):
    d = {"prob": [ctx.real(f"p{i}", lo=.05, hi=.95) for i in range(n)], "pred": ctx.reals("y", n, lo=-1, hi=1), "side": [1] * n, "more": ctx.reals("m", n)}
    d.pop(gone)
    X = ctx.frame(d, ctx.date_range(n))
    refused(ctx, lambda: BetSizingFromProbabilities(num_classes=2, meta_labeling=True).transform(X), f"no {gone}")


def frames(ctx, n, what):
    s = setup(ctx, n, False, split=True, miss=(False, False))
    p, X = s["p"], dict(s["X"])
    if what == "a frame too many":
        X["third"] = X["second"]
    elif what == "a frame too few":
        X.pop("second")
    elif what == "another name":
        X["Second"] = X.pop("second")
    else:
        gap = ctx.choice("gap", [1, 30, 4000])
        X["second"] = X["second"].set_axis(X["second"].index - pd.Timedelta(days=n - 1 + gap))
    f = ctx.choice("use", [p.get_side_and_size, p.predict, p.predict_proba])
    if what == "no overlap":
        refused(ctx, lambda: p.predict(X), what)
    else:
        refused(ctx, lambda: f(X), what)
        refused(ctx, lambda: p.create_dataset_primary(X, ctx.series([1.0] * n, s["t"])), what)


def cases(tier):
    T = tier == "thorough"
    out = [Case(f"missing column: {name}", column, "any of its columns missing, any values in the others", dict(cols=cols, make=make, n=7 if "SADF" in name else 4))
           for name, cols, make in ENTRIES if cols]
    for k in range(1, 7 if T else 6):
        for x in (False, True):
            out.append(Case(f"wanted columns {k}{' and more' if x else ''}", wanted, f"any subset of {k} columns present", dict(k=k, extra=x)))
    for w in ("factors", "no side named", "no side", "no close", "not a frame"):
        out.append(Case(f"barrier labels: {w}", barrier_labels, "any prices" + (", any factors in [-3,3]" if w == "factors" else ""), dict(n=3, what=w)))
    out.append(Case("trend settings", trend_settings, "any lengths up to 40", {}))
    for w in ("unknown events", "frame", "list"):
        out.append(Case(f"trend input: {w}", trend_input, "any prices", dict(what=w)))
    for w in ("sizes", "embargo", "any embargo", "embargo type", "no prediction times", "no evaluation times"):
        out.append(Case(f"splits: {w}", splits, "any times; settings as listed", dict(what=w)))
    for w in ("missing end", "same start", "no column"):
        out.append(Case(f"uniqueness: {w}", uniqueness, "any label spans", dict(n=3, what=w)))
    for k in ("returns", "decay"):
        for w in ("no close", "no end") if k == "returns" else ("no end",):
            out.append(Case(f"weights by {k}: {w}", weights, "any label spans and prices", dict(n=2, which=k, what=w)))
    for g in ("prob", "pred", "side"):
        out.append(Case(f"bet sizes: no {g}", sizes, "any values", dict(n=2, gone=g)))
    for w in ("a frame too many", "a frame too few", "another name", "no overlap"):
        out.append(Case(f"pipeline: {w}", frames, "any features", dict(n=2, what=w)))
    return out

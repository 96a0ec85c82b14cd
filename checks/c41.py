import numpy as np
import pandas as pd
from symx.case import Case
from checks.common_feat import some
from checks.common_bag import sources, Weighted, bagging, ilist
from mizarlabs.model.bootstrapping import get_ind_matrix
from mizarlabs.model.model_selection import CombPurgedKFoldCV
from mizarlabs.model.pipeline import StrategySignalPipeline, StrategyTrader
from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest
from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest
from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest
from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling, get_daily_vol
from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy
from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities, avg_active_signals

ASSUMPTIONS = ["bars are at fixed times around a change of the clocks of the timezones tried; prices, sizes, ends of labels and draws are any as listed",
               "whether the answer without a timezone is right is decided by the other checks; here the same instants in a timezone must give the same answer"]
END = "event_end_time"
# when (UTC) the clocks change in Europe and in the United States: the bars lie on both sides
CHANGES = ("2020-03-29 01:00", "2020-10-25 01:00", "2020-03-08 07:00", "2020-11-01 06:00")


class Fit:
    """any model: answers by the row number in its first column"""
    def __init__(self, preds, probs):
        self.preds, self.probs = preds, probs
        self.classes_, self.n_classes_ = np.array([-1., 1.]), 2

    def predict(self, X):
        return np.array([self.preds[int(v)] for v in X.iloc[:, 0].values], dtype=object)

    def predict_proba(self, X):
        return np.array([self.probs[int(v)] for v in X.iloc[:, 0].values], dtype=object)


class Setting:
    """everything the operations are given but the times"""

    def __init__(self, ctx, n, free, draws):
        self.ctx, self.n = ctx, n
        self.p = some(ctx, "p", n, free, 4, 40)
        self.len = [ctx.choice(f"life{i}", [0, 1, 3]) if i in draws else (i * 5) % 4 for i in range(n)]

    def ends(self, t):
        return pd.DatetimeIndex([t[min(i + k, self.n - 1)] for i, k in enumerate(self.len)])

    def labels(self, t, **cols):
        X = self.ctx.frame(cols or {"close": self.p}, t)
        X[END] = self.ends(t)
        return X


def barriers(ctx, s, t):
    kw = dict(volatility_adjusted_horizontal_barriers=False)
    a = TripleBarrierMethodLabeling(3, .25, .25, **kw).transform(ctx.frame({"close": s.p}, t))
    b = TripleBarrierMethodLabeling(3, .5, 0, metalabeling=True, expiration_label=True, **kw).transform(
        ctx.frame({"close": s.p}, t).assign(side=[1 - 2 * (i % 2) for i in range(s.n)]))
    return [x[c] for x in (a, b) for c in (END, "return", "label")]


def barriers_vol(ctx, s, t):
    a = TripleBarrierMethodLabeling(4, 1, 1, volatility_window=3).transform(ctx.frame({"close": s.p}, t))
    return [a[c] for c in (END, "daily_vol", "return", "label")]


def volatility(ctx, s, t):
    return [get_daily_vol(ctx.series(s.p, t), 4)]


def cusum(ctx, s, t):
    return [CUSUMFilter(ctx.num(5)).transform(ctx.series(s.p, t))]


def scanning(ctx, s, t):
    out = []
    for ev in (None, t[[3, 1]]):
        a = TrendScannerLabeling(ev, look_forward_window=5, min_sample_length=3).transform(ctx.series(s.p, t))
        out += [a[c] for c in (END, "return", "label", "t_value")]
    return out


def uniqueness(ctx, s, t):
    e = pd.Series(s.ends(t), index=t, name=END)
    m, at = get_ind_matrix(e, pd.DataFrame(index=t), END, return_indices=True)
    return [pd.Series([int(v) for v in r], index=pd.DatetimeIndex(at)) for r in m.toarray().T] + [
        AverageUniqueness().transform(e.to_frame()), SampleWeightsByTimeDecay(.25).transform(e.to_frame()),
        SampleWeightsByTimeDecay(-.5).transform(e.to_frame())]


def by_returns(ctx, s, t):
    return [SampleWeightsByReturns().transform(s.labels(t))]


def averaging(ctx, s, t):
    size = [v / 40 for v in s.p]
    X = s.labels(t, bet_size=size)
    Y = s.labels(t, prob=[.5 + v / 100 for v in s.p], pred=[1 - 2 * (i % 2) for i in range(s.n)])
    return [avg_active_signals(X), BetSizingFromProbabilities(2, average_active=True).transform(Y)]


def splits(ctx, s, t):
    out = []
    for N, k, e in ((3, 1, "0h"), (4, 2, "2h"), (3, 1, "25h")):
        cv = CombPurgedKFoldCV(N, k, pd.Series(t, index=t), pd.Series(s.ends(t), index=t), pd.Timedelta(e))
        for tr, te in cv.split(pd.DataFrame({"f": np.zeros(s.n)}, index=t)):
            out.append((ilist(tr), ilist(te)))
    return out


def trading(ctx, s, t):
    ids = [float(i) for i in range(s.n)]
    a = ctx.frame({"id": ids, "close": s.p}, t)
    u = t[1::2] + pd.Timedelta(minutes=25)
    late = t[:s.n - 2] - pd.Timedelta(hours=9)
    b, c = ctx.frame({"b": s.p[:len(u)]}, u), ctx.frame({"c": s.p[:len(late)]}, late)
    p = StrategySignalPipeline({"a": None, "b": None, "c": None}, "a", {"b": "mean", "c": "max"})
    y = pd.Series([1 - 2 * (i % 2) for i in range(s.n)], index=t, dtype=float)
    D = lambda: {"a": a.copy(), "b": b.copy(), "c": c.copy()}  # noqa
    X, yy = p.create_dataset_primary(D(), y)
    p.set_primary_model(Fit([1 - 2 * (i % 2) for i in range(s.n)], [[v / 40, 1 - v / 40] for v in s.p]))
    pos = StrategyTrader(p, 2, 5, 2, 3, volatility_window=4).create_position(D())
    return [X[c] for c in X.columns] + [yy] + [pos[c] for c in ("side", "size", "stop_loss", "profit_taking")]


def arrivals(ctx, s, t):
    X = pd.DataFrame({"close": [float(10 + i * 7 % 5) for i in range(s.n)]}, index=t)
    return [BarArrivalRSIStrategy(90, 10, ctx.num(1), ctx.num(-1), 2, 1, 3, 36 * 10 ** 11).predict(X)]


def breaks(ctx, s, t):
    x = ctx.series(s.p, t)
    b = ChuStinchcombeWhiteStatTest("two_sided").run(x)
    return [SupremumAugmentedDickeyFullerStatTest("no_trend", 1, s.n - 3, True, 0).run(x), SupremumDickeyFullerChowStatTest(s.n // 2 - 1).run(x),
            b["statistic"], b["critical_value"]]


def bagged(ctx, s, t):
    e = pd.Series(s.ends(t), index=t, name=END)
    X = pd.DataFrame({"f": np.arange(1., s.n)}, index=t[1:])
    y = pd.Series([i % 2 for i in range(s.n - 1)], index=t[1:])
    log = []
    c = bagging(e, pd.DataFrame(index=t), Weighted(), n_estimators=1, max_samples=3)
    with sources(ctx, log, free=()), ctx.float_arrays():
        c.fit(X, y)
    return [[[float(v) for v in d[2] or ()] for q in log for d in q.draws], ilist(c.estimators_samples_[0])]


OPS = dict(barriers=barriers, barriers_vol=barriers_vol, volatility=volatility, cusum=cusum, scanning=scanning, uniqueness=uniqueness,
           by_returns=by_returns, averaging=averaging, splits=splits, trading=trading, arrivals=arrivals, breaks=breaks, bagged=bagged)
NAMES = dict(barriers="triple-barrier labels", barriers_vol="triple-barrier labels with volatility", volatility="daily volatility", cusum="CUSUM filter",
             scanning="trend scanning", uniqueness="indicator matrix, uniqueness and time decay", by_returns="weights by returns",
             averaging="averaged bet sizes", splits="cross-validation splits", trading="aligned features, training data and positions",
             arrivals="bar arrival strategy", breaks="structural-break tests", bagged="sequential bootstrap of the ensemble")


def utc(v):
    return v.tz_convert(None) if isinstance(v, pd.Timestamp) and v.tz is not None else v


def zone_of(x):
    return str(getattr(x, "tz", None))


def compare(ctx, got, want, tz, what):
    ctx.check(type(got) is type(want), f"{what}: {type(got).__name__}")
    if isinstance(want, (list, tuple)):
        ctx.check(repr(got) == repr(want), f"{what}: {str(got)[:80]} instead of {str(want)[:80]}")
        return
    times = got if isinstance(got, pd.Index) else got.index
    wtimes = want if isinstance(want, pd.Index) else want.index
    ctx.check([utc(v) for v in times] == list(wtimes), f"{what}: at {[str(v) for v in times][:9]}")
    ctx.check(len(times) == 0 or zone_of(times) == tz, f"{what}: the times are in {zone_of(times)} instead of {tz}")
    if isinstance(want, pd.Index):
        return
    for i, (g, w) in enumerate(zip(list(got.values) if got.dtype == object else list(got), list(want.values) if want.dtype == object else list(want))):
        if isinstance(w, pd.Timestamp):
            ctx.check(isinstance(g, pd.Timestamp) and str(g.tz) == tz and utc(g) == w, f"{what}: time of row {i} is {g} instead of {w} in UTC")
        elif ctx.isnan(w):
            ctx.check(ctx.isnan(g), f"{what}: row {i} is not missing")
        else:
            ctx.check(not ctx.isnan(g), f"{what}: row {i} is missing")
            ctx.check_close(g, w, f"{what}: row {i}")


def zoned(ctx, op, n, free, draws, freq, tz, change):
    t = pd.date_range(pd.Timestamp(change) - (n // 2) * pd.Timedelta(freq), periods=n, freq=freq)
    s = Setting(ctx, n, free, draws)
    want = OPS[op](ctx, s, t)
    got = OPS[op](ctx, s, t.tz_localize("UTC").tz_convert(tz))
    ctx.check(len(got) == len(want), f"{NAMES[op]}: {len(got)} results instead of {len(want)}")
    for k, (g, w) in enumerate(zip(got, want)):
        compare(ctx, g, w, tz, f"{NAMES[op]}, result {k}")


def cases(tier):
    big = tier == "thorough"
    plan = [("barriers", 6, (1, 3), (), "2h"), ("barriers_vol", 15, (10,), (), "5h"), ("volatility", 14, (5, 9), (), "5h"), ("volatility", 30, (27,), (), "1h"),
            ("cusum", 5, None, (), "2h"), ("scanning", 6, (2,), (), "3h"), ("uniqueness", 6, (), (1, 3), "1h"), ("by_returns", 5, None, (1, 2), "1h"),
            ("averaging", 5, None, (0, 2), "1h"), ("splits", 9, (), (2, 4, 6), "1h"), ("trading", 8, (3, 5), (), "7h"), ("arrivals", 8, (), (), "1h"),
            ("breaks", 9, (4,), (), "2h"), ("bagged", 5, (), (1, 2), "1h")]
    out = []
    for k, (op, n, free, draws, freq) in enumerate(plan):
        spring, autumn, utc_, york, york2 = (("Europe/Amsterdam", CHANGES[0]), ("Europe/Amsterdam", CHANGES[1]), ("UTC", CHANGES[0]),
                                             ("America/New_York", CHANGES[2]), ("America/New_York", CHANGES[3]))
        if big:
            zones = [utc_, spring, autumn, york, york2, ("Asia/Kolkata", CHANGES[0])]
        elif op in ("breaks", "cusum", "arrivals"):
            zones = [(utc_, autumn, york)[k % 3]]
        else:
            zones = [(spring, york)[k % 2], autumn]
        for tz, change in zones:
            what = "all" if free is None else f"those of bars {list(free)} any" if free else "fixed"
            out.append(Case(f"{op} n={n} {tz} {change[:10]}", zoned, f"{NAMES[op]}: {n} bars every {freq} around {change} UTC, when clocks change, prices {what}, label ends of rows {list(draws)} any of three, in {tz}",
                            dict(op=op, n=n, free=free, draws=draws, freq=freq, tz=tz, change=change)))
    return out

"""Every bar-by-bar transformer, test and rule of the library: what it reads, and its answer as rows by bar.

An entry is (name, columns it reads, make). make(ctx) gives a fresh object's use: a function from a frame of bars to
{bar time: row of values}; the object is kept between calls, as users keep it."""
import contextlib
import numpy as np
import pandas as pd
from checks.common_ta import indicator
from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest
from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest
from mizarlabs.transformers.features.custom import LocalMaxToCloseRatio
from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformer, RollingZScoreTransformerFactory
from mizarlabs.transformers.microstructural_features.first_generation import (
    RollMeasure, RollImpact, ParkinsonVolatility, CorwinSchultzSpread, BeckersParkinsonVolatility)
from mizarlabs.transformers.microstructural_features.second_generation import KyleLambda, AmihudLambda, HasbrouckLambda
from mizarlabs.transformers.microstructural_features.vpin import VPIN
from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
from mizarlabs.transformers.targets.labeling import get_daily_vol
from mizarlabs.transformers.technical.factory import TAFactory
from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
from mizarlabs.transformers.technical.moving_average import (
    MovingAverageCrossOver, MovingAverageCrossOverPredictor, ExponentialWeightedMovingAverageDifference)
from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy, RSIConfirmation
from mizarlabs.transformers.technical.volume import BuySellImbalance
from mizarlabs.transformers.utils import IdentityTransformer

PRICE, LOGPRICE, VOLUME, FREE = dict(lo=1, hi=100), dict(logs=True), dict(lo=0, hi=50), dict(lo=-50, hi=50)
POSVOL = dict(lo=1, hi=50)
KNOWN = dict(base=(3.0, 4.5, 4.0, 6.25, 5.0, 7.5, 9.0, 8.0, 11.0), unknown=1)          # only the last values are unknown
HIGH = dict(base=(3.5, 4.5, 4.25, 6.25, 5.5, 7.5, 9.0), unknown=2)
LOW = dict(base=(3.0, 4.0, 3.5, 4.75, 5.0, 6.0, 8.0), unknown=2)


def rows(X, out):
    """an answer given as an array or series with one row per bar"""
    a = np.asarray(out, dtype=object)
    a = a.reshape(len(a), -1)
    return {t: list(a[i]) for i, t in enumerate(X.index)} if len(a) == len(X) else {"rows": [len(a)]}


def transform(make):
    def use(ctx):
        tr = make()
        return lambda X: rows(X, (tr.fit(X) if hasattr(tr, "fit") else tr).transform(X))
    return use


def predict(make):
    def use(ctx):
        s = make()
        return lambda X: {t: a + list(b) for (t, a), b in zip(rows(X, s.predict(X)).items(), np.asarray(s.predict_proba(X)))}
    return use


def by_time(frame):
    return {t: list(frame.iloc[i].values) for i, t in enumerate(frame.index)}


def csw(side):
    def use(ctx):
        t = ChuStinchcombeWhiteStatTest(side)
        return lambda X: by_time(t.run(X["close"])) if len(X) > 1 else {}
    return use


def sadf(model, **k):
    def use(ctx):
        t = SupremumAugmentedDickeyFullerStatTest(model, k["lags"], k["min"], True, .5)
        return lambda X: by_time(t.run(X["close"]).to_frame()) if len(X) >= k["need"] else {}
    return use


def cusum(ctx):
    f = CUSUMFilter(ctx.num(2))
    return lambda X: {t: [] for t in f.transform(X["close"])}


def daily_vol(ctx):
    return lambda X: by_time(get_daily_vol(X["close"], 3).to_frame())


def zscore(key, w=3):
    return transform(lambda: RollingZScoreTransformerFactory.get_transformer(key, w))


def macd(ctx):
    return MACDHistogramCrossOver(column_name="close")


CLOSE = {"close": PRICE}
ENTRIES = [
    ("Roll measure", {"close": FREE}, transform(lambda: RollMeasure(3))),
    ("Roll impact", {"close": FREE, "quote_asset_volume": POSVOL}, transform(lambda: RollImpact(2))),
    ("Parkinson volatility", {"high": LOGPRICE, "low": LOGPRICE}, transform(lambda: ParkinsonVolatility(2))),
    ("Corwin-Schultz spread", {"high": HIGH, "low": LOW}, transform(lambda: CorwinSchultzSpread(2))),
    ("Beckers-Parkinson volatility", {"high": HIGH, "low": LOW}, transform(lambda: BeckersParkinsonVolatility(2))),
    ("Kyle lambda", {"close": PRICE, "base_asset_volume": POSVOL}, transform(lambda: KyleLambda(2))),
    ("Amihud lambda", {"close": LOGPRICE, "quote_asset_volume": POSVOL}, transform(lambda: AmihudLambda(2))),
    ("Hasbrouck lambda", {"close": LOGPRICE, "quote_asset_volume": POSVOL}, transform(lambda: HasbrouckLambda(2))),
    ("VPIN", {"base_asset_volume": VOLUME, "base_asset_buy_volume": VOLUME, "base_asset_sell_volume": VOLUME}, transform(lambda: VPIN(2))),
    ("z-score of buy-sell difference", {"quote_asset_buy_volume": VOLUME, "quote_asset_sell_volume": VOLUME}, zscore("buy_sell_diff")),
    ("z-score of average buy size", {"quote_asset_buy_volume": VOLUME, "num_buy_ticks": POSVOL}, zscore("average_buy_size", 2)),
    ("z-score of high to low", {"high": PRICE, "low": PRICE}, zscore("high_to_low_ratio", 2)),
    ("z-score of bar arrival", {}, zscore("bar_arrival_time")),
    ("z-score of own series", {"close": FREE}, transform(lambda: RollingZScoreTransformer(3, lambda X: X["close"]))),
    ("local maximum to close", {"high": PRICE, "close": PRICE}, transform(lambda: LocalMaxToCloseRatio(3))),
    ("EWMA difference", CLOSE, transform(lambda: ExponentialWeightedMovingAverageDifference(2, 4, "close"))),
    ("EWMA difference, not normalised", CLOSE, transform(lambda: ExponentialWeightedMovingAverageDifference(2, 4, "close", normalised=False))),
    ("buy-sell imbalance (quote)", {f"quote_asset_{k}volume": VOLUME for k in ("", "buy_", "sell_")}, transform(lambda: BuySellImbalance(2, 5, "quote"))),
    ("buy-sell imbalance (base)", {f"base_asset_{k}volume": VOLUME for k in ("", "buy_", "sell_")}, transform(lambda: BuySellImbalance(1, 3, "base"))),
    ("moving-average crossover", CLOSE, transform(lambda: MovingAverageCrossOver(1, 3, "close"))),
    ("moving-average crossover, filled", CLOSE, transform(lambda: MovingAverageCrossOver(1, 2, "close", fill_between_crossovers=True))),
    ("crossover predictor", CLOSE, predict(lambda: MovingAverageCrossOverPredictor(1, 2, "close", fill_between_crossovers=True))),
    ("MACD crossover", CLOSE, transform(lambda: MACDHistogramCrossOver(column_name="close"))),
    ("indicator of two columns", {"high": FREE, "low": FREE},
     transform(lambda: TAFactory().create_transformer("AROON", kw_args={"timeperiod": 2}))),
    ("mean reversion", CLOSE, predict(lambda: MeanReversionStrategy(.25, 3))),
    ("RSI confirmation", CLOSE, predict(lambda: RSIConfirmation(3, 40, 2, 2))),
    ("bar arrival RSI", CLOSE, predict(lambda: BarArrivalRSIStrategy(70, 30, .5, -.5, 3, 1, 2, 10 ** 12))),
    ("identity", {"close": FREE}, lambda ctx: (lambda X: rows(X, IdentityTransformer().fit(X).transform(X[["close"]])))),
    ("Chu-Stinchcombe-White", {"close": FREE}, csw("one_sided_positive")),
    ("Chu-Stinchcombe-White, two sides", {"close": FREE}, csw("two_sided")),
    ("SADF", {"close": KNOWN}, sadf("no_trend", min=4, lags=1, need=6)),
    ("SADF, martingale", {"close": KNOWN}, sadf("sm_exp", min=4, lags=1, need=4)),
    ("CUSUM filter", {"close": FREE}, cusum),
    ("daily volatility", CLOSE, daily_vol),
]
SIZES = {"SADF, martingale": 6, "moving-average crossover": 5, "SADF": 7, "Chu-Stinchcombe-White": 4, "Chu-Stinchcombe-White, two sides": 4, "CUSUM filter": 5}
GAPS = (0, 7, 31, 38, 40, 70, 71, 100, 131, 135, 180, 200)


def grid(n):
    return pd.DatetimeIndex([pd.Timestamp("2021-03-01") + pd.Timedelta(hours=h) for h in GAPS[:n]])


def column(ctx, name, n, spec):
    if "base" in spec:
        return [ctx.real(f"{name}{i}", lo=1, hi=12) if i >= n - spec["unknown"] else ctx.num(spec["base"][i]) for i in range(n)]
    return ctx.prices(name, n, **spec) if spec.get("logs") else ctx.reals(name, n, **spec)


def data(ctx, cols, n, tag=""):
    return {c: column(ctx, c + tag, n, s) for c, s in cols.items()}


FIXED = (7.0, 5.0, 8.5, 8.0, 12.0, 9.0, 10.0, 6.5, 11.0, 9.5)


def mixed(ctx, cols, n, hole=None, tag=""):
    """fixed irregular values but for the last one, which is any; hole: bar whose values are missing"""
    d = {}
    for j, (c, s) in enumerate(cols.items()):
        base = s.get("base", FIXED[j:] + FIXED[:j])
        v = [ctx.num(x) if ctx.symbolic else float(x) for x in base[:n - 1]]
        v += [ctx.price(f"{c}_last{tag}", logs=True) if s.get("logs") else ctx.real(f"{c}_last{tag}", **({"lo": 1, "hi": 12} if "base" in s else s))]
        if hole is not None:
            v[hole] = float("nan")
        d[c] = v
    return d


LONG = [(n, c, m) for n, c, m in [
    ("Roll measure", {"close": FREE}, transform(lambda: RollMeasure(20))),
    ("Roll impact", {"close": FREE, "quote_asset_volume": POSVOL}, transform(lambda: RollImpact(20))),
    ("Parkinson volatility", {"high": LOGPRICE, "low": LOGPRICE}, transform(lambda: ParkinsonVolatility(20))),
    ("Corwin-Schultz spread", {"high": HIGH, "low": LOW}, transform(lambda: CorwinSchultzSpread(14))),
    ("Beckers-Parkinson volatility", {"high": HIGH, "low": LOW}, transform(lambda: BeckersParkinsonVolatility(14))),
    ("Kyle lambda", {"close": PRICE, "base_asset_volume": POSVOL}, transform(lambda: KyleLambda(20))),
    ("Amihud lambda", {"close": LOGPRICE, "quote_asset_volume": POSVOL}, transform(lambda: AmihudLambda(20))),
    ("Hasbrouck lambda", {"close": LOGPRICE, "quote_asset_volume": POSVOL}, transform(lambda: HasbrouckLambda(20))),
    ("VPIN", {"base_asset_volume": VOLUME, "base_asset_buy_volume": VOLUME, "base_asset_sell_volume": VOLUME}, transform(lambda: VPIN(20))),
    ("z-score of buy-sell difference", {"quote_asset_buy_volume": VOLUME, "quote_asset_sell_volume": VOLUME}, zscore("buy_sell_diff", 20)),
    ("z-score of bar arrival", {}, zscore("bar_arrival_time", 20)),
    ("local maximum to close", {"high": PRICE, "close": PRICE}, transform(lambda: LocalMaxToCloseRatio(20))),
    ("EWMA difference", CLOSE, transform(lambda: ExponentialWeightedMovingAverageDifference(10, 30, "close"))),
    ("buy-sell imbalance (quote)", {f"quote_asset_{k}volume": VOLUME for k in ("", "buy_", "sell_")}, transform(lambda: BuySellImbalance(10, 30, "quote"))),
    ("moving-average crossover", CLOSE, transform(lambda: MovingAverageCrossOver(5, 20, "close"))),
    ("crossover predictor", CLOSE, predict(lambda: MovingAverageCrossOverPredictor(5, 20, "close", fill_between_crossovers=True))),
    ("MACD crossover", CLOSE, transform(lambda: MACDHistogramCrossOver(column_name="close"))),
    ("mean reversion", CLOSE, predict(lambda: MeanReversionStrategy(.25, 14))),
    ("RSI confirmation", CLOSE, predict(lambda: RSIConfirmation(14, 60, 2, 5))),
    ("bar arrival RSI", CLOSE, predict(lambda: BarArrivalRSIStrategy(70, 30, .5, -.5, 14, 5, 20, 10 ** 12))),
    ("Chu-Stinchcombe-White, two sides", {"close": FREE}, csw("two_sided")),
    ("CUSUM filter", {"close": FREE}, cusum),
    ("daily volatility", CLOSE, daily_vol)]]


def long_grid(n):
    t, out = pd.Timestamp("2021-03-01"), []
    for i in range(n):
        out.append(t)
        t += pd.Timedelta(minutes=30 + i * i * 37 % 211) + pd.Timedelta(days=2 if i % 23 == 11 else 0)
    return pd.DatetimeIndex(out)


def long_data(ctx, cols, n, tag="", other=0, fixed=False):
    """fixed irregular values but for the last one, which is any; other: which fixed values"""
    d = {}
    for j, (c, s) in enumerate(cols.items()):
        base = [6. + ((i + other) * 29 + (i + other) ** 2 % 41) % 31 / 8 for i in range(n - 1)]
        if c == "high":
            base = [v + 2.5 for v in base]
        elif c == "low":
            base = [v - 1.5 for v in base]
        elif "volume" in c:
            base = [v + j for v in base]
        lo = dict(lo=1, hi=12) if "base" in s else s
        d[c] = base + [base[2] + .125 if fixed else ctx.price(f"{c}_last{tag}", logs=True) if s.get("logs") else ctx.real(f"{c}_last{tag}", **lo)]
    return d


TESTS = ("SADF", "SADF, martingale", "Chu-Stinchcombe-White", "Chu-Stinchcombe-White, two sides")


@contextlib.contextmanager
def library(ctx, n, free=None):
    """stand-ins for the indicators used: any causal functions (a value per bar, the first one missing); free: any only at these bars, set at others"""
    nan = float("nan")
    known = {}

    def line(name, lo, hi, args):
        # the same argument so far, the same value
        def at(i):
            key = (name, i) + tuple(tuple(str(getattr(v, "r", v)) for v in list(np.asarray(a, dtype=object))[:i + 1]) for a in args)
            if key not in known:
                known[key] = nan if i == 0 else lo + (hi - lo) * (3 + len(known) * 37 % 61) / 64 if free is not None and i not in free else ctx.real(f"{name}_{len(known)}", lo=lo, hi=hi)
            return known[key]
        return ctx.array([at(i) for i in range(len(args[0]))])

    with contextlib.ExitStack() as st:
        for nm, lo, hi in (("EMA", 1, 100), ("RSI", 0, 100)):
            st.enter_context(indicator(nm, lambda a, k, nm=nm, lo=lo, hi=hi: line(nm, lo, hi, a)))
        st.enter_context(indicator("MACD", lambda a, k: tuple(line(f"MACD{j}", -9, 9, a) for j in range(3))))
        st.enter_context(indicator("AROON", lambda a, k: tuple(line(f"AROON{j}", 0, 100, a) for j in range(2))))
        yield


def agree(ctx, got, want, what):
    """the same bars, and at each the same values or none"""
    ctx.check(list(got) == list(want), f"{what}: bars {list(got)} instead of {list(want)}")
    for t in want:
        ctx.check(len(got[t]) == len(want[t]), f"{what}: width at {t}")
        for j, (a, b) in enumerate(zip(got[t], want[t])):
            ctx.check_close(a, b, f"{what}: value {j} at {t}", 1e-6)

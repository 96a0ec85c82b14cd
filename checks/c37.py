import numpy as np
import pandas as pd
from symx.case import Case
from checks.catalog import ENTRIES, SIZES, TESTS, data, mixed, grid, library
from checks.common_bag import bars, infos, bagging, sources, Plain, Weighted
from checks.common_labels import spans, label_frame
from checks.common_pipeline import setup
from checks.common_ta import ASSUMPTIONS  # noqa
from mizarlabs.model.bootstrapping import get_ind_matrix, seq_bootstrap, calc_average_uniqueness
from mizarlabs.model.model_selection import CombPurgedKFoldCV
from mizarlabs.model.pipeline import MizarFeatureUnion, StrategyTrader
from mizarlabs.static import EVENT_END_TIME
from mizarlabs.structural_breaks.sdfc import SupremumDickeyFullerChowStatTest
from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling
from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling
from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities, avg_active_signals, discretise_signal

ASSUMPTIONS = ASSUMPTIONS + ["models are stand-ins", "the conditions under which each function answers are those of its own property"]


def shot(x):
    """what the caller holds, by value"""
    if isinstance(x, dict):
        return {k: shot(v) for k, v in x.items()}
    if isinstance(x, pd.DataFrame):
        return [list(x.columns), list(x.index), [list(x[c].values) for c in x.columns], list(x.columns.names), list(x.index.names)]
    if isinstance(x, pd.Series):
        return [x.name, list(x.index), list(x.values), list(x.index.names)]
    if isinstance(x, np.ndarray):
        return [list(v) if isinstance(v, np.ndarray) else v for v in x]
    return list(x)


def compare(ctx, a, b, what):
    if isinstance(a, dict):
        ctx.check(list(a) == list(b), f"{what}: keys")
        for k in a:
            compare(ctx, a[k], b[k], f"{what}[{k}]")
    elif isinstance(a, list):
        ctx.check(isinstance(b, list) and len(a) == len(b), f"{what}: size")
        for i, (x, y) in enumerate(zip(a, b)):
            compare(ctx, x, y, f"{what}[{i}]")
    elif isinstance(a, (str, type(None), pd.Timestamp)):
        ctx.check(type(a) is type(b) and a == b, f"{what}: {a!r} became {b!r}")
    elif hasattr(a, "n") and not hasattr(a, "r"):
        ctx.check(a is b or a == b, f"{what}: a time changed")
    elif isinstance(a, np.datetime64):
        ctx.check(a == b or (np.isnat(a) and np.isnat(b)), f"{what}: a time changed")
    else:
        ctx.check_same(b, a, f"{what} changed")


def kept(ctx, held, use):
    before = shot(held)
    use()
    compare(ctx, before, shot(held), "the caller's data")


def entry(ctx, cols, make, n):
    X = ctx.frame({**data(ctx, cols, n), "noise": ctx.reals("noise", n)}, grid(n))
    if "close" in cols and cols["close"].get("lo") == -50:
        d = X["close"].iloc[1] - X["close"].iloc[0]
        ctx.assume(d * d > .01 if ctx.symbolic else abs(d) > .1)
    with library(ctx, n):
        use = make(ctx)
        kept(ctx, {"X": X}, lambda: use(X))


def odd(ctx, cols, make, n):
    """bars in any order, missing values, repeated or named times"""
    kind = ctx.choice("kind", ["missing", "unordered", "repeated", "named"])
    if kind == "missing" and not cols:
        kind = "unordered"
    t = grid(n)
    hole = None
    if kind == "missing":
        hole = ctx.choice("hole", [0, 1, 2])
    elif kind == "unordered":
        t = t[[2, 0, 1] + list(range(3, n))]
    elif kind == "repeated":
        t = t[[0, 1, 1] + list(range(3, n))]
    elif kind == "named":
        t = t.set_names(["when"])
    X = ctx.frame({**mixed(ctx, cols, n, hole), "noise": [float("nan")] + [1.0] * (n - 1)}, t)
    X.attrs["source"] = "exchange"
    with library(ctx, n):
        use = make(ctx)

        def go():
            try:
                use(X)
            except REFUSED:
                pass
        kept(ctx, {"X": X}, go)
    ctx.check(X.attrs == {"source": "exchange"}, "attributes")


REFUSED = (AssertionError, KeyError, ValueError, TypeError, IndexError, pd.errors.InvalidIndexError)


def triple(ctx, n, side):
    p = ctx.prices("p", n, lo=1, hi=100)
    y = ctx.frame({"close": p, "other": ctx.reals("o", n)}, ctx.date_range(n, "20H"))
    if side:
        y["side"] = np.array([1, -1, 1, 1, -1, 0][:n])
    lab = TripleBarrierMethodLabeling(2, ctx.num(1), ctx.num(2), metalabeling=side, **(dict(side_column_name="side") if side else {}),
                                      volatility_window=3, volatility_adjusted_horizontal_barriers=False)
    kept(ctx, {"y": y}, lambda: lab.fit(y).transform(y))


def trend(ctx, n):
    bg = [10, 12, 11, 15, 13, 17, 12]
    y = ctx.series([ctx.real(f"y{i}", lo=20, hi=64) if i == 1 else ctx.num(bg[i]) for i in range(n)], ctx.date_range(n, "3H"), "close")
    lab = TrendScannerLabeling(t_events=None, look_forward_window=5, min_sample_length=3, step=1)
    kept(ctx, {"y": y}, lambda: lab.fit(y).transform(y))


def weights(ctx, n, which, unordered=False):
    starts, ends = spans(ctx, n, at_bars=which == "returns")
    df = label_frame(ctx, starts, ends, close=ctx.prices("p", n), other=ctx.reals("o", n))
    if unordered:
        df = df.iloc[list(range(n))[::-1]]
    tf = {"returns": SampleWeightsByReturns, "decay": lambda: SampleWeightsByTimeDecay(ctx.num(.5) if ctx.symbolic else .5), "uniqueness": AverageUniqueness}[which]()
    kept(ctx, {"X": df}, lambda: tf.transform(df))


def indicators(ctx, n):
    starts, ends = spans(ctx, n)
    df = label_frame(ctx, starts, ends)
    bars_ = pd.DataFrame(index=ctx.index(ctx.times("b", 2)))
    kept(ctx, {"info": df[EVENT_END_TIME], "bars": bars_}, lambda: get_ind_matrix(df[EVENT_END_TIME], bars_, EVENT_END_TIME))


def draws(ctx, n):
    b = bars(n)
    info = infos(ctx, b, n)
    m = get_ind_matrix(info, b, EVENT_END_TIME).tocsc()
    with sources(ctx, []) as S, ctx.float_arrays():
        held = {"indicators": m.toarray()}

        def use():
            seq_bootstrap(m, 2, random_state=S(3))
            calc_average_uniqueness(m)
            held["indicators"] = m.toarray()
        kept(ctx, held, use)


def sizing(ctx, n, active, step):
    side = [ctx.choice(f"side{i}", [1, -1]) for i in range(n)]
    idx = ctx.index(ctx.times("t", n))
    X = ctx.frame({"prob": [ctx.real(f"p{i}", lo=.05, hi=.95) for i in range(n)], "pred": ctx.reals("y", n, lo=-1, hi=1), "side": side}, idx)
    kw = {}
    if active:
        X["event_end_time"] = ctx.tseries([t + ctx.delta(f"life{i}") for i, t in enumerate(idx)], idx)
        kw = dict(average_active=True, event_end_time_column_name="event_end_time")
    if step:
        kw["discretise"], kw["step_size"] = True, .1
    bs = BetSizingFromProbabilities(num_classes=2, meta_labeling=True, **kw)
    kept(ctx, {"X": X}, lambda: bs.transform(X))


def averaging(ctx, n):
    idx = ctx.index(ctx.times("t", n))
    X = ctx.frame({"bet_size": ctx.reals("b", n, lo=-1, hi=1)}, idx)
    X["event_end_time"] = ctx.tseries([t + ctx.delta(f"life{i}") for i, t in enumerate(idx)], idx)
    kept(ctx, {"X": X}, lambda: avg_active_signals(X, "event_end_time", "bet_size"))
    s = X["bet_size"]
    kept(ctx, {"s": s}, lambda: discretise_signal(s, .25))


def splits(ctx, n):
    idx = pd.RangeIndex(n)
    pred = ctx.times("pred", n)
    ev = [t + ctx.delta(f"h{i}", lo=0) for i, t in enumerate(pred)]
    held = {"pred": ctx.tseries(pred, idx), "eval": ctx.tseries(ev, idx), "X": pd.DataFrame({"f": np.zeros(n)}, index=idx), "y": pd.Series(range(n), index=idx)}

    def use():
        cv = CombPurgedKFoldCV(n_groups=3, n_test_splits=1, pred_times=held["pred"], eval_times=held["eval"], embargo_td=pd.Timedelta("6H"))
        for train, test in cv.split(held["X"], held["y"]):
            pass
    kept(ctx, held, use)


def signals(ctx, n, meta, what):
    s = setup(ctx, n, meta, split=True)
    p, X = s["p"], s["X"]
    t = s["t"]
    y = ctx.series([1.0 if i % 2 else -1.0 for i in range(n)], t, "target")
    held = {"X": X, "y": y}
    f = {"transform": lambda: p.transform(X), "side and size": lambda: p.get_side_and_size(X), "predict": lambda: (p.predict(X), p.predict_proba(X)),
         "primary data": lambda: p.create_dataset_primary(X, y), "meta data": lambda: p.create_dataset_metalabeling(X, y)}[what]

    def use():
        try:
            f()
        except ValueError:                 # nothing left to predict
            pass
    kept(ctx, held, use)


class Pipe:
    align_on_ = "bars"

    def __init__(self, signal):
        self.signal = signal

    def get_side_and_size(self, X):
        return self.signal


def trader(ctx, n, what):
    t = ctx.date_range(n, "20H")
    X = {"bars": ctx.frame({"close": ctx.prices("p", n, lo=1, hi=100), "open": ctx.reals("o", n)}, t), "other": ctx.frame({"close": ctx.prices("q", n)}, t)}
    sig = ctx.frame({"side": ctx.reals("side", n - 1, lo=-1, hi=1), "size": ctx.reals("size", n - 1, lo=0, hi=1)}, t[1:])
    tr = StrategyTrader(Pipe(sig), 3, 4, 1.0, 2.0, volatility_window=3)
    kept(ctx, {"X": X, "signal": sig}, lambda: {"position": tr.create_position, "bars": tr.create_strategy_bars, "signal": tr.create_signal}[what](X))


def ensemble(ctx, n, kind):
    b = bars(n + 1)
    info = infos(ctx, b, n)
    X = ctx.frame({"f0": ctx.reals("x", n, lo=-5, hi=5), "f1": ctx.reals("z", n, lo=-5, hi=5)}, b.index[:n])
    y = pd.Series([0, 1, 1, 0][:n], index=X.index)
    held = {"info": info, "bars": b, "X": X, "y": y}
    if kind == "weighted":
        held["w"] = ctx.series(ctx.reals("w", n, lo=0, hi=3), X.index)
    clf = bagging(info, b, {"plain": Plain, "weighted": Weighted}[kind](), n_estimators=1, max_samples=2, max_features=1)

    def use():
        with sources(ctx, []), ctx.float_arrays():
            clf.fit(X, y, **({"sample_weight": held["w"]} if "w" in held else {}))
    kept(ctx, held, use)


def chow(ctx, n):
    base = [3.0, 4.5, 4.0, 6.25, 5.0, 7.5]
    y = ctx.series([ctx.real("y", lo=7, hi=9) if i == 3 else ctx.num(base[i]) for i in range(n)], ctx.date_range(n), "close")
    kept(ctx, {"y": y}, lambda: SupremumDickeyFullerChowStatTest(2).run(y))


def union(ctx, n):
    X = ctx.frame({"close": ctx.reals("x", n), "noise": ctx.reals("z", n)}, grid(n))

    class Own:
        """a transformer that works on its input in place, as its own copy of it would allow"""
        def fit(self, X, y=None):
            return self

        def transform(self, X):
            return X[["close"]].values * 2
    u = MizarFeatureUnion([("a", Own()), ("b", Own())])
    kept(ctx, {"X": X}, lambda: u.fit(X).transform(X))


def cases(tier):
    T = tier == "thorough"
    out = [Case(f"bars: {name}", entry, "any values", dict(cols=cols, make=make, n=SIZES.get(name, 4) + T)) for name, cols, make in ENTRIES]
    for s in (False, True):
        out.append(Case(f"triple barrier{' with side' if s else ''}", triple, "any prices", dict(n=4 + T, side=s)))
    out.append(Case("trend scanning", trend, "one unknown price", dict(n=6)))
    for w in ("returns", "decay", "uniqueness"):
        out.append(Case(f"weights by {w}", weights, "any label spans", dict(n=2 + T, which=w)))
        out.append(Case(f"weights by {w}, unordered", weights, "any label spans, the last label first", dict(n=2 + T, which=w, unordered=True)))
    out += [Case(f"odd bars: {name}", odd, "fixed values but the last; missing, unordered, repeated or named times", dict(cols=cols, make=make, n=max(5, SIZES.get(name, 5))))
            for name, cols, make in ENTRIES]
    out += [Case("indicator matrix", indicators, "any label spans, two further bars", dict(n=2)), Case("draws", draws, "any label ends and draws", dict(n=3))]
    for a, s in ((False, False), (False, True), (True, False), (True, True)):
        out.append(Case(f"bet sizes{' averaged' if a else ''}{' in steps' if s else ''}", sizing, "any probabilities, predictions, times", dict(n=2, active=a, step=s)))
    out += [Case("averaging and steps", averaging, "any bets", dict(n=2 + T)), Case("splits", splits, "any times", dict(n=4))]
    for m in (False, True):
        for w in ("transform", "side and size", "predict", "primary data") + (("meta data",) if m else ()):
            out.append(Case(f"pipeline{' with meta-labelling' if m else ''}: {w}", signals, "any missing features and model outputs", dict(n=2, meta=m, what=w)))
    for w in ("position", "bars", "signal"):
        out.append(Case(f"trader: {w}", trader, "any prices and signals", dict(n=3, what=w)))
    for k in ("plain", "weighted"):
        out.append(Case(f"ensemble of {k} members", ensemble, "any features, weights, label ends and draws", dict(n=2 + T, kind=k)))
    return out + [Case("Chow-type test", chow, "one unknown value", dict(n=6)), Case("feature union", union, "any values", dict(n=3))]

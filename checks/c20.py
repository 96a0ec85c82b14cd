import numpy as np
import pandas as pd
from symx.case import Case
from checks.common_feat import some
from mizarlabs.model.pipeline import StrategyTrader, StrategySignalPipeline
from mizarlabs.transformers.targets.labeling import get_daily_vol

ASSUMPTIONS = ["the signal pipeline is any function (its own output is decided by C18)", "bar times are a fixed irregular grid, prices positive",
               "the volatility estimate itself is decided by C06", "stop loss and profit taking factors are given"]
NAN = float("nan")
TIMES = [pd.Timestamp("2020-01-01") + pd.Timedelta(hours=h) for h in (0, 13, 25, 38, 51, 77)]
TIMES += [TIMES[-1] + pd.Timedelta(hours=7 * i + i * i % 5) for i in range(1, 300)]


class Pipe:
    """a signal pipeline whose signals are given"""
    align_on_ = "bars"

    def __init__(self, signals):
        self.signals, self.calls = list(signals), []

    def get_side_and_size(self, X_dict):
        self.calls.append(X_dict)
        return self.signals[min(len(self.calls), len(self.signals)) - 1]


def snapshot(X):
    return {k: v.copy(deep=True) for k, v in X.items()}


def same(ctx, X, X0):
    ctx.check(list(X) == list(X0), "the caller's data is not modified (frames)")
    for k in X:
        ctx.check(list(X[k].columns) == list(X0[k].columns) and list(X[k].index) == list(X0[k].index), f"the caller's data is not modified ({k})")
        for c in X[k].columns:
            ctx.check_all_same(list(X[k][c].values), list(X0[k][c].values), f"the caller's data is not modified ({k}.{c})")


def signal(ctx, n, tag, lo=0, hi=1, slo=-1, shi=1, missing=True, free=None):
    rows = [i for i in range(n) if not (missing and (ctx.flag(f"{tag}_nosignal{i}") if free is None or i in free else i % 5 == 3))]
    side = some(ctx, f"{tag}_side", n, free, slo, shi)
    size = some(ctx, f"{tag}_size", n, free, lo, hi)
    df = ctx.frame({"side": [side[i] for i in rows], "size": [size[i] for i in rows]}, pd.DatetimeIndex([TIMES[i] for i in rows]))
    return rows, side, size, df


def positions(ctx, n, adjusted, window, calls, free=None):
    p, o, q = ([ctx.prices(c, n) if free is None else some(ctx, c, n, free, 1, 100) for c in "poq"])
    X = {"bars": ctx.frame({"close": p, "open": o}, pd.DatetimeIndex(TIMES[:n])),
         "other": ctx.frame({"close": q}, pd.DatetimeIndex(TIMES[:n]))}
    X0 = snapshot(X)
    sl, pt = ctx.real("sl", lo=0, hi=10), ctx.real("pt", lo=0, hi=10)
    exp = 3 + n
    sig = [signal(ctx, n, f"s{c}", free=free) for c in range(calls)]
    pipe = Pipe([s[3] for s in sig])
    kw = {} if adjusted else dict(volatility_adjusted_stop_loss=False)
    tr = StrategyTrader(pipe, 5, exp, stop_loss_factor=sl, profit_taking_factor=pt, volatility_window=window, **kw)
    vol = get_daily_vol(X0["bars"]["close"].copy(), window)
    for c in range(calls):
        rows, side, size, _ = sig[c]
        out = tr.create_position(X)
        ctx.check(list(out.index) == TIMES[:n], f"rows {list(out.index)}")
        for i in range(n):
            r = out.iloc[i]
            if i in rows:
                ctx.check_same(r["side"], side[i], "side of the row's time")
                ctx.check_close(r["size"], size[i], "size of the row's time")
            else:
                ctx.check(ctx.isnan(r["side"]) and ctx.isnan(r["size"]), "no signal at this time")
            v = 1 if not adjusted else (vol.loc[TIMES[i]] if TIMES[i] in vol.index else NAN)
            if ctx.isnan(v):
                ctx.check(ctx.isnan(r["stop_loss"]) and ctx.isnan(r["profit_taking"]), "no volatility, no barriers")
            else:
                ctx.check_close(r["stop_loss"], sl * v, "stop loss")
                ctx.check_close(r["profit_taking"], pt * v, "profit taking")
            ctx.check_same(r["num_expiration_bars"], exp, "expiration")
        ctx.check(tr.strategy_valid is True, "valid signals")
        same(ctx, X, X0)
    for seen in pipe.calls:
        same(ctx, seen, X0)


def given(ctx, n, tag, free):
    """valid signals, but for those in free, which are any in [-2,2]"""
    side = [ctx.real(f"{tag}_side{i}", lo=-2, hi=2) if i in free else float(i % 3 - 1) for i in range(n)]
    size = [ctx.real(f"{tag}_size{i}", lo=-2, hi=2) if i in free else i % 5 / 4 for i in range(n)]
    return list(range(n)), side, size, ctx.frame({"side": side, "size": size}, pd.DatetimeIndex(TIMES[:n]))


def validity(ctx, n, calls, expiration=4, least=5, free=None):
    """any signals; the verdict is that of the last signal"""
    X = {"bars": ctx.frame({"close": ctx.prices("p", n) if free is None else [float(5 + i % 7) for i in range(n)]}, pd.DatetimeIndex(TIMES[:n]))}
    sig = [signal(ctx, n, f"s{c}", -2, 2, -2, 2, missing=False) if free is None else given(ctx, n, f"s{c}", free) for c in range(calls)]
    tr = StrategyTrader(Pipe([s[3] for s in sig]), least, expiration, 1.5, 2.0)
    ctx.check(tr.strategy_valid is None, "no verdict before a signal")
    for rows, side, size, df in sig:
        out = tr.create_signal(X)
        ctx.check_all_same(list(out["side"].values), side, "side")
        ctx.check_all_same(list(out["size"].values), size, "size")
        ok = True
        for i in range(n):
            ok = ok & (size[i] >= 0) & (size[i] <= 1) & (side[i] >= -1) & (side[i] <= 1)
        ctx.check((ok & bool(tr.strategy_valid)) | (~ok if not isinstance(ok, (bool, np.bool_)) else not ok) & (not tr.strategy_valid), f"verdict {tr.strategy_valid}")


def duplicates(ctx, n, where, what):
    idx = list(TIMES[:n])
    a, b = ctx.choice("first", range(n - 1)), None
    idx[a + 1] = idx[a]
    good = pd.DatetimeIndex(TIMES[:n])
    X = {"bars": ctx.frame({"close": ctx.prices("p", n)}, pd.DatetimeIndex(idx) if where == "bars" else good),
         "other": ctx.frame({"v": ctx.reals("v", n)}, pd.DatetimeIndex(idx) if where == "other" else good)}
    rows, side, size, df = signal(ctx, n, "s", missing=False)
    tr = StrategyTrader(Pipe([df]), 5, 4, 1.5, 2.0)
    f = {"signal": tr.create_signal, "bars": tr.create_strategy_bars, "position": tr.create_position}[what]
    ctx.check(ctx.raises(ValueError, lambda: f(X)) is not None, "duplicated times are rejected")


class Row:
    """a primary model that answers with the first feature"""
    classes_ = np.array([-1.0, 1.0])
    n_classes_ = 2

    def __init__(self, ctx):
        self.ctx = ctx

    def predict(self, X):
        return self.ctx.array(list(X.iloc[:, 0].values))

    def predict_proba(self, X):
        return self.ctx.matrix([[v * v, 1 - v * v] for v in X.iloc[:, 0].values])


def whole(ctx, n, calls):
    """the trader over a real pipeline, called repeatedly on the same data"""
    f = ctx.reals("f", n, lo=-1, hi=1)
    p = ctx.prices("p", n)
    X = {"bars": ctx.frame({"f": f, "close": p}, pd.DatetimeIndex(TIMES[:n]))}
    X0 = snapshot(X)
    pipe = StrategySignalPipeline({"bars": None}, "bars", {}).set_primary_model(Row(ctx))
    tr = StrategyTrader(pipe, 5, 7, 1.5, 2.0, volatility_window=3)
    vol = get_daily_vol(X0["bars"]["close"].copy(), 3)
    for c in range(calls):
        out = tr.create_position(X)
        ctx.check(list(out.index) == TIMES[:n], f"rows {list(out.index)}")
        for i in range(n):
            r = out.iloc[i]
            ctx.check_same(r["side"], f[i], f"call {c}: side at {i}")
            q = f[i] * f[i]
            ctx.check((r["size"] >= q) & (r["size"] >= 1 - q) & ((r["size"] <= q) | (r["size"] <= 1 - q)), f"call {c}: size at {i}")
            v = vol.loc[TIMES[i]] if TIMES[i] in vol.index else NAN
            ctx.check_close(r["stop_loss"], v * 1.5 if not ctx.isnan(v) else NAN, f"call {c}: stop loss at {i}")
        same(ctx, X, X0)


def cases(tier):
    T = tier == "thorough"
    q = [(3, True, 10, 1), (2, False, 100, 2), (4, True, 3, 1)] + ([(5, True, 5, 1), (3, True, 4, 2), (3, False, 4, 2)] if T else [])
    out = [Case(f"positions n={n} " + ("volatility" if a else "constant") + f" window={w} calls={c}", positions,
                f"{n} bars, any prices, any valid signals, any times without signal, any factors in [0,10], {c} calls", dict(n=n, adjusted=a, window=w, calls=c)) for n, a, w, c in q]
    out += [Case(f"many positions n={n} " + ("volatility" if a else "constant") + f" window={w} calls={c}", positions,
                 f"{n} bars, prices and signals at {f} any, the others set, any factors in [0,10], {c} calls", dict(n=n, adjusted=a, window=w, calls=c, free=f))
            for n, a, w, c, f in [(115, True, 100, 1, (60, 113)), (40, False, 10, 3, (20,)), (60, True, 2, 1, (4,))] + ([(300, True, 100, 2, (5, 200))] if T else [])]
    out += [Case(f"validity n={n} calls={c}", validity, f"{n} bars, any sides and sizes in [-2,2], {c} successive signals", dict(n=n, calls=c)) for n, c in [(2, 1), (1, 2)] + ([(2, 2), (3, 1)] if T else [])]
    out += [Case(f"validity n={n} calls={c} expiration={e} least={m}" + (f" free={list(f)}" if f else ""), validity,
                 f"{n} bars, {'any' if f is None else 'those at ' + str(f) + ' any'} sides and sizes in [-2,2], {c} successive signals, {e} expiration bars, {m} bars needed",
                 dict(n=n, calls=c, expiration=e, least=m, free=f)) for n, c, e, m, f in [(2, 1, 1, 1, None), (50, 1, 2, 9, (0, 31)), (40, 2, 30, 1, (3,))]]
    out += [Case(f"duplicates in {w} ({x})", duplicates, "3 bars, any two neighbouring times equal", dict(n=3, where=w, what=x))
            for w, x in [("bars", "signal"), ("other", "signal"), ("bars", "position"), ("other", "bars")]]
    out += [Case(f"whole n={n} calls={c}", whole, f"{n} bars, any features and prices, {c} calls on the same data", dict(n=n, calls=c)) for n, c in [(3, 2)] + ([(4, 2)] if T else [])]
    return out

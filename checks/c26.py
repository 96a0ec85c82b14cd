import numpy as np
from symx.case import Case
from checks.common_feat import frame, column, unchanged, same, win, ewma, some, TIMES, GRID, NAN
from mizarlabs.transformers.features import LocalMaxToCloseRatio, RollingZScoreTransformer, RollingZScoreTransformerFactory
from mizarlabs.transformers.technical.moving_average import ExponentialWeightedMovingAverageDifference
from mizarlabs.transformers.technical.volume import BuySellImbalance

ASSUMPTIONS = [GRID, "a window without any spread has no z-score", "ewm difference: fast average + 1 is not within 0.001 of zero"]
KEYS = {"buy_sell_diff": ("quote_asset_buy_volume", "quote_asset_sell_volume"), "average_buy_size": ("quote_asset_buy_volume", "num_buy_ticks"),
        "high_to_low_ratio": ("high", "low")}


def zscore(ctx, n, w, key, free=None):
    if key is None:
        x = some(ctx, "x", n, free, -100, 100)
        data = {"val": x}
        tr = RollingZScoreTransformer(w, lambda f: f["val"])
    else:
        a, b = (ctx.prices("a", n, hi=100), ctx.prices("b", n, lo=0.01, hi=100)) if not free else (some(ctx, "a", n, free, 1, 100), some(ctx, "b", n, free, 1, 100))
        data = dict(zip(KEYS[key], (a, b)))
        x = [p - q if key == "buy_sell_diff" else p / q for p, q in zip(a, b)]
        tr = RollingZScoreTransformerFactory.get_transformer(key, w)
    X = frame(ctx, n, data)
    want = []
    for i in range(n):
        xs = win(x, i, w)
        if xs is None:
            want.append(None)
            continue
        m = ctx.mean(xs)
        var = ctx.div(ctx.sum([(v - m) * (v - m) for v in xs]), w - 1)
        ctx.assume(var > 0 if ctx.symbolic else var > 1e-8)
        want.append((x[i] - m, var))
    got = column(ctx, tr.transform(X), n)
    for i in range(n):
        if want[i] is None:
            ctx.check(ctx.isnan(got[i]), f"bar {i} has no full window")
            continue
        ctx.check(not ctx.isnan(got[i]), f"bar {i} is missing")
        d, var = want[i]
        ctx.check_close(got[i] * got[i], ctx.div(d * d, var), f"squared z-score at bar {i}", 1e-3)
        ctx.check(got[i] * d >= 0 if ctx.symbolic else got[i] * d >= -1e-6, f"sign of z-score at bar {i}")
    unchanged(ctx, X, data)


def arrival(ctx, n, w, free=None):
    """bar arrival times: the index is data here"""
    if free is None:
        ts = ctx.times("t", n, gap_hi=10 ** 6)
    else:                                    # set times, but for the bars from those in free on, which are late together
        ts, late = [], ctx.delta("none", hi=0)
        for i in range(n):
            if i in free:
                late = late + ctx.delta(f"late{i}", hi=10 ** 7)
            ts.append(ctx.hold(TIMES[i]) + late)
    X = ctx.frame({"close": ctx.prices("p", n)}, ctx.index(ts))
    gap = [None] + [(ts[i] - ts[i - 1]) / ms(ctx) for i in range(1, n)]
    want = []
    for i in range(n):
        xs = gap[i - w + 1:i + 1] if i - w + 1 >= 1 else None
        if xs is None:
            want.append(None)
            continue
        m = ctx.mean(xs)
        var = ctx.div(ctx.sum([(v - m) * (v - m) for v in xs]), w - 1)
        ctx.assume(var > 0)
        want.append((gap[i] - m, var))
    got = column(ctx, RollingZScoreTransformerFactory.get_transformer("bar_arrival_time", w).transform(X), n)
    for i in range(n):
        if want[i] is None:
            ctx.check(ctx.isnan(got[i]), f"bar {i} has no full window")
            continue
        ctx.check(not ctx.isnan(got[i]), f"bar {i} is missing")
        d, var = want[i]
        ctx.check_close(got[i] * got[i], ctx.div(d * d, var), f"squared z-score at bar {i}", 1e-3)
        ctx.check(got[i] * d >= 0, f"sign of z-score at bar {i}")


def ms(ctx):
    import pandas as pd
    return pd.Timedelta(milliseconds=1)


def unknown(ctx):
    for k in ("bar_arrival", "", None, "high_low"):
        ctx.check(ctx.raises(KeyError, lambda: RollingZScoreTransformerFactory.get_transformer(k, 3)) is not None, f"unknown transformer {k!r} is rejected")


def localmax(ctx, n, w, free=None):
    h, c = (ctx.prices("h", n), ctx.prices("c", n)) if not free else (some(ctx, "h", n, free, 1, 100), some(ctx, "c", n, free, 1, 100))
    data = {"high": h, "close": c}
    X = frame(ctx, n, data)
    got = column(ctx, LocalMaxToCloseRatio(w).transform(X), n)
    same(ctx, got, [NAN if i < w - 1 else ctx.max(h[i - w + 1:i + 1]) / c[i] for i in range(n)], "ratio")
    unchanged(ctx, X, data)


def ewmdiff(ctx, n, fast, slow, norm, free=None):
    x = some(ctx, "x", n, free, -100, 100)
    X = frame(ctx, n, {"px": x})
    f, s = ewma(ctx, x, fast), ewma(ctx, x, slow)
    k = {} if norm else {"normalised": False}
    if norm:
        for v in f:
            ctx.assume(ctx.abs(v + 1) > 1e-3 if ctx.symbolic else abs(v + 1) > 1e-4)
    got = column(ctx, ExponentialWeightedMovingAverageDifference(fast, slow, "px", **k).fit(X).transform(X), n)
    for i in range(n):
        if norm:
            ctx.check_close(got[i] * (f[i] + 1), f[i] - s[i], f"normalised difference at bar {i}")
        else:
            ctx.check_close(got[i], f[i] - s[i], f"difference at bar {i}")
    unchanged(ctx, X, {"px": x})


def imbalance(ctx, n, fast, slow, kind, free=None):
    b, s, v = (some(ctx, k, n, free, 0, 100) for k in ("buy", "sell", "vol"))
    other = "base" if kind == "quote" else "quote"
    data = {f"{kind}_asset_buy_volume": b, f"{kind}_asset_sell_volume": s, f"{kind}_asset_volume": v}
    X = frame(ctx, n, data, [f"{other}_asset_buy_volume", f"{other}_asset_sell_volume", f"{other}_asset_volume"])
    d = [p - q for p, q in zip(b, s)]
    f, g = ewma(ctx, d, fast), ewma(ctx, d, slow)
    got = column(ctx, BuySellImbalance(fast, slow, kind).fit(X).transform(X), n)
    same(ctx, got, [(f[i] - g[i]) / (v[i] + 1) for i in range(n)], "imbalance")
    unchanged(ctx, X, data)


def kinds(ctx):
    ctx.check(ctx.raises(ValueError, lambda: BuySellImbalance(2, 4, "volume")) is not None, "unknown volume type is rejected")
    f, s = ctx.int("fast", lo=1, hi=8), ctx.int("slow", lo=1, hi=8)
    e = ctx.raises(ValueError, lambda: ExponentialWeightedMovingAverageDifference(f, s, "px"))
    ctx.check((f > s) if e is not None else (f <= s), "a fast span longer than the slow one is rejected, others are not")


def cases(tier):
    T = tier == "thorough"
    out = []
    for n, w, k in [(4, 3, None), (4, 2, "buy_sell_diff"), (3, 2, "average_buy_size"), (3, 2, "high_to_low_ratio"), (5, 4, None)] + ([(6, 3, None), (5, 3, "buy_sell_diff"), (4, 3, "average_buy_size"), (4, 3, "high_to_low_ratio")] if T else []):
        out.append(Case(f"zscore {k or 'any series'} n={n} window={w}", zscore, f"{n} bars, window {w}, all values", dict(n=n, w=w, key=k)))
    for n, w in [(4, 2), (5, 3)] + ([(6, 4)] if T else []):
        out.append(Case(f"zscore arrival n={n} window={w}", arrival, f"{n} bars at any increasing times (gaps up to 1000 s, ms grid), window {w}", dict(n=n, w=w)))
    out.append(Case("unknown key", unknown, "four unknown names", {}))
    for n, w in [(4, 2), (4, 3)] + ([(6, 3)] if T else []):
        out.append(Case(f"local max n={n} window={w}", localmax, f"{n} bars, window {w}, all positive prices", dict(n=n, w=w)))
    for n, f, s, no in [(4, 2, 5, True), (5, 1, 3, False), (3, 10, 20, True)] + ([(8, 3, 7, True), (8, 3, 7, False)] if T else []):
        out.append(Case(f"ewm difference n={n} spans {f}/{s}{' normalised' if no else ''}", ewmdiff, f"{n} bars, all values in [-100,100]", dict(n=n, fast=f, slow=s, norm=no)))
    for n, f, s, k in [(4, 2, 5, "quote"), (4, 3, 4, "base")] + ([(8, 3, 9, "quote")] if T else []):
        out.append(Case(f"imbalance {k} n={n} spans {f}/{s}", imbalance, f"{n} bars, all volumes in [0,100]", dict(n=n, fast=f, slow=s, kind=k)))
    for f, n, fr, k in [(zscore, 33, (32,), dict(w=30, key=None)), (zscore, 33, (2,), dict(w=30, key=None)), (zscore, 23, (22,), dict(w=20, key="buy_sell_diff")), (zscore, 23, (2,), dict(w=20, key="high_to_low_ratio")), (localmax, 45, (1, 30, 44), dict(w=40)), (localmax, 300, (150,), dict(w=100)), (zscore, 150, (149,), dict(w=100, key="average_buy_size")), (arrival, 60, (58,), dict(w=30)), (arrival, 60, (4,), dict(w=30)), (imbalance, 300, (299,), dict(fast=30, slow=150, kind="quote")),
                        (ewmdiff, 120, (0, 119), dict(fast=12, slow=50, norm=True)), (ewmdiff, 120, (60,), dict(fast=20, slow=100, norm=False)), (imbalance, 60, (0, 59), dict(fast=10, slow=30, kind="base"))]:
        out.append(Case(f"{f.__name__} n={n} {' '.join(f'{a}={b}' for a, b in k.items())} free={list(fr)}", f, f"{n} bars, values at bars {list(fr)} any, the others fixed; {k}", dict(n=n, free=fr, **k)))
    out.append(Case("settings", kinds, "all span pairs up to 8", {}))
    return out

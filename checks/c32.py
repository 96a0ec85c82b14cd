import numpy as np
import pandas as pd
from symx.case import Case
from checks.common_feat import some, TIMES
from checks.common_ta import indicator, vals, ASSUMPTIONS  # noqa
from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
from mizarlabs.transformers.technical.rsi import BarArrivalRSIStrategy, RSIConfirmation

ASSUMPTIONS = ASSUMPTIONS + ["bar times are distinct and in order", "averages of exponential type are positive"]
NAN = float("nan")


def negate(ctx, b):
    return (not b) if isinstance(b, (bool, np.bool_)) else ~b


def column(ctx, name, n, **k):
    """any values, any of them missing"""
    return [NAN if ctx.flag(f"{name}_missing{i}") else ctx.real(f"{name}{i}", **k) for i in range(n)]


def proba(ctx, s, X, pred, classes):
    p = s.predict_proba(X)
    ctx.check(np.shape(p) == (len(X), len(classes)), f"shape of the probabilities {np.shape(p)}")
    ctx.check([float(c) for c in s.classes_] == classes and s.n_classes_ == len(classes), "classes")
    for i, v in enumerate(pred):
        for j, c in enumerate(classes):
            ctx.check(bool(p[i][j] == (1 if v == c else 0)), f"probability of class {c} at bar {i}")


def asked(ctx, log, close, period):
    for a, k in log:
        ctx.check(len(a) == 1, "one argument")
        ctx.check_all_same(a[0], close, "the indicator is given the closes")
        ctx.check(k.get("timeperiod") == period and len(k) == 1, f"settings {k}")
    ctx.check(len(log) > 0, "the indicator is used")


def mean_reversion(ctx, n, missing, free=None):
    close = some(ctx, "close", n, free, 1, 100)
    ema = column(ctx, "ema", n, lo=1, hi=100) if missing else some(ctx, "ema", n, free, 1, 100)
    th = ctx.real("threshold", lo=0, hi=2) if free is None else .25
    X = ctx.frame({"x": ctx.reals("x", n), "close": close}, ctx.date_range(n))
    log = []
    period = ctx.choice("period", [3, 14])

    def fn(a, k):
        log.append(([vals(v) for v in a], dict(k)))
        return ctx.array(ema)

    with indicator("EMA", fn):
        s = MeanReversionStrategy(th, period)
        out = [int(v) for v in s.predict(X)]
        proba(ctx, s, X, out, [-1., 0., 1.])
    asked(ctx, log, close, period)
    ctx.check(len(out) == n, "one prediction per bar")
    for i in range(n):
        if ctx.isnan(ema[i]):
            ctx.check(out[i] == 0, f"bar {i}: no average, no signal")
            continue
        d = close[i] - ema[i]
        hi, lo = d > th * ema[i], d < -th * ema[i]
        ctx.check(hi if out[i] == -1 else (lo if out[i] == 1 else negate(ctx, hi | lo)),
                  f"bar {i}: signal {out[i]}")


def confirmation(ctx, n, window, ma, missing, lead, free=None):
    close = some(ctx, "close", n, free, 1, 100)
    if missing:
        rsi = column(ctx, "rsi", n, lo=0, hi=100)
    else:
        rsi = [NAN] * lead + some(ctx, "rsi", n, free, 0, 100)[lead:]
    th = ctx.real("threshold", lo=0, hi=100) if free is None else 82
    X = ctx.frame({"close": close}, ctx.date_range(n))
    log = []

    def fn(a, k):
        log.append(([vals(v) for v in a], dict(k)))
        return ctx.array(rsi)

    with indicator("RSI", fn):
        s = RSIConfirmation(rsi_timeperiod=9, rsi_threshold=th, rsi_confirmation_period=window, rsi_moving_average_window=ma)
        out = [int(v) for v in s.predict(X)]
        proba(ctx, s, X, out, [0., 1.])
    asked(ctx, log, close, 9)
    ctx.check(len(out) == n, "one prediction per bar")
    for i in range(n):
        def avg(j):
            w = rsi[j - ma + 1:j + 1] if j - ma + 1 >= 0 else []
            return ctx.sum(w) if w and not any(ctx.isnan(v) for v in w) else NAN
        last = rsi[i - window + 1:i + 1] if i - window + 1 >= 0 else []
        a, b = avg(i), avg(i - 1) if i else NAN
        if not last or any(ctx.isnan(v) for v in last) or ctx.isnan(a) or ctx.isnan(b):
            ctx.check(out[i] == 0, f"bar {i}: not enough history, no signal")
            continue
        buy = a > b
        for v in last:
            buy = buy & (v < th)
        ctx.check(buy if out[i] == 1 else negate(ctx, buy), f"bar {i}: signal {out[i]}")
        ctx.check(out[i] in (0, 1), "long or neutral")


def bar_arrival(ctx, n, fast, slow, missing, free=None):
    close = some(ctx, "close", n, free, 1, 100)
    rsi = column(ctx, "rsi", n, lo=0, hi=100) if missing else some(ctx, "rsi", n, free, 0, 100)
    if free is None:
        t = ctx.times("t", n)
        lo, hi = ctx.real("rsi_low", lo=0, hi=100), ctx.real("rsi_high", lo=0, hi=100)
        blo, bhi = ctx.real("bar_low", lo=-3, hi=3), ctx.real("bar_high", lo=-3, hi=3)
    else:                                    # set times, but for the bars after those in free, which are late together
        t, late = [], ctx.delta("none", hi=0)
        for i in range(n):
            if i - 1 in free:
                late = late + ctx.delta(f"late{i}", hi=10 ** 8)
            t.append(ctx.hold(TIMES[i]) + late)
        lo, hi, blo, bhi = 20, 85, -1.5, .5
    X = ctx.frame({"close": close}, ctx.index(t))
    norm = ctx.choice("norm", [10 ** 9, 3600 * 10 ** 9] if free is None else [3600 * 10 ** 9])
    log = []

    def fn(a, k):
        log.append(([vals(v) for v in a], dict(k)))
        return ctx.array(rsi)

    with indicator("RSI", fn):
        s = BarArrivalRSIStrategy(rsi_upper_threshold=hi, rsi_lower_threshold=lo, bar_arrival_upper_threshold=bhi,
                                  bar_arrival_lower_threshold=blo, rsi_timeperiod=9, bar_arrival_fast_period=fast,
                                  bar_arrival_slow_period=slow, max_bar_arrival_mean_diff=norm)
        p = s.predict(X)
        out = [int(v) for v in p]
        if not missing:
            proba(ctx, s, X, out, [0., 1.])
    asked(ctx, log, close, 9)
    ctx.check(len(out) == n, "one prediction per bar")
    for i in range(n):
        # bar i arrived t[i]-t[i-1] after the one before; averages of the last arrivals
        if ctx.isnan(rsi[i]) or i < slow or i < fast:
            ctx.check(out[i] == 0, f"bar {i}: not enough history, no signal")
            continue
        ns = lambda d: d / pd.Timedelta(1, "ns")  # noqa
        # mean of the last k gaps = (t[i] - t[i-k]) / k
        d = (ns(t[i] - t[i - fast]) * slow - ns(t[i] - t[i - slow]) * fast) / (fast * slow * norm)
        buy = (rsi[i] > lo) & (rsi[i] < hi) & (d < bhi) & (d > blo)
        tie = (d - bhi <= 1e-9) & (bhi - d <= 1e-9) | (d - blo <= 1e-9) & (blo - d <= 1e-9)
        ctx.check(tie | (buy if out[i] == 1 else negate(ctx, buy)), f"bar {i}: signal {out[i]}")


def cases(tier):
    q = [(2, True), (3, False)] + ([(3, True), (4, False)] if tier == "thorough" else [])
    r = [(4, 2, 2, True, 0), (5, 2, 2, False, 1), (5, 3, 2, False, 0), (4, 1, 1, False, 0), (5, 2, 3, False, 0)] + (
        [(5, 2, 2, True, 0), (6, 3, 2, False, 1), (6, 2, 3, False, 0)] if tier == "thorough" else [])
    b = [(4, 1, 2, False), (4, 2, 3, False), (3, 1, 2, True)] + ([(4, 1, 2, True), (5, 2, 3, False), (5, 1, 4, False)] if tier == "thorough" else [])
    L = tier == "thorough"
    return [Case(f"long mean reversion n={n}", mean_reversion, f"{n} bars, closes and averages at {f} any, the others set", dict(n=n, missing=False, free=f))
            for n, f in [(80, (3, 78))] + ([(300, (150, 299))] if L else [])] + \
        [Case(f"long rsi confirmation n={n} window={w} average={a}", confirmation, f"{n} bars, RSI values at {f} any, the others set, first 14 missing",
              dict(n=n, window=w, ma=a, missing=False, lead=14, free=f)) for n, w, a, f in [(60, 5, 20, (40,)), (45, 12, 14, (33,)), (50, 1, 10, (16, 48))] + ([(200, 3, 50, (100,))] if L else [])] + \
        [Case(f"long bar arrival n={n} fast={a} slow={b}", bar_arrival, f"{n} bars at set times but for a pause of any length after {f}, RSI values there any",
              dict(n=n, fast=a, slow=b, missing=False, free=f)) for n, a, b, f in [(50, 10, 30, (34,)), (40, 3, 20, (5, 37))] + ([(150, 20, 100, (110, 140))] if L else [])] + \
        [Case(f"mean reversion n={n}{' missing' if m else ''}", mean_reversion,
                 f"{n} bars, any closes, averages{' (any missing)' if m else ''} and threshold", dict(n=n, missing=m)) for n, m in q] + \
        [Case(f"rsi confirmation n={n} window={w} average={a}{' missing' if m else ''} lead={l}", confirmation,
              f"{n} bars, any RSI values ({'any missing' if m else f'first {l} missing'}) and threshold, {w} confirmations, average of {a}",
              dict(n=n, window=w, ma=a, missing=m, lead=l)) for n, w, a, m, l in r] + \
        [Case(f"bar arrival n={n} fast={f} slow={s}{' missing' if m else ''}", bar_arrival,
              f"{n} bars at any times, any RSI values{' (any missing)' if m else ''} and thresholds", dict(n=n, fast=f, slow=s, missing=m))
         for n, f, s, m in b]

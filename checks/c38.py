from symx.case import Case
import contextlib
import numpy as np
import pandas as pd
from checks.catalog import ENTRIES, LONG, SIZES, data, mixed, grid, library, agree, long_data, long_grid
from checks.common_ta import indicator
from mizarlabs.transformers.technical.factory import TAFactory
from checks.common_ta import ASSUMPTIONS  # noqa

ASSUMPTIONS = ASSUMPTIONS + ["the library's indicators are functions of their arguments", "bar times are a fixed irregular grid",
                             "tests of structural breaks: the series moves, designs have full rank"]


BASE = (7.0, 5.0, 8.5, 8.0, 12.0, 9.0, 10.0)


def again(ctx, cols, make, n, fixed=False):
    """an object used before, on other data, answers as a fresh one does"""
    def bars(k, tag):
        if tag and fixed:
            d = {c: [ctx.num(v) for v in s.get("base", BASE)[1:k + 1]] for c, s in cols.items()}
            return ctx.frame({**d, "noise": ctx.reals("noise" + tag, k)}, grid(k + 1)[1:])
        X = ctx.frame({**data(ctx, cols, k, tag), "noise": ctx.reals("noise" + tag, k)}, grid(k + len(tag))[len(tag):])
        if "close" in cols and cols["close"].get("lo") == -50:
            d = X["close"].iloc[1] - X["close"].iloc[0]
            ctx.assume(d * d > .01 if ctx.symbolic else abs(d) > .1)
        return X
    X, Z = bars(n, ""), bars(max(n - 1, 2), "_")
    with library(ctx, n):
        used = make(ctx)
        first = used(X)
        used(Z)
        agree(ctx, used(X), first, "after use on other bars")
        agree(ctx, make(ctx)(X), first, "by a second object")
        other = make(ctx)
        other(Z)
        agree(ctx, other(X), first, "by an object first used elsewhere")


def same_bars(ctx, cols, make, n):
    """... nor when the data used before has the same times, length and first and last values"""
    X = ctx.frame({**mixed(ctx, cols, n), "noise": [1.0] * n}, grid(n))
    Z = X.copy()
    for c in cols:
        Z[c] = list(X[c].values[:1]) + [v + (ctx.num(1) / 4 if ctx.symbolic else .25) for v in X[c].values[1:-1]] + list(X[c].values[-1:])
    with library(ctx, n):
        want = make(ctx)(X)
        used = make(ctx)
        before = used(Z)
        agree(ctx, used(X), want, "after use on other values at the same bars")
        agree(ctx, used(Z), before, "back on the first values")
        agree(ctx, make(ctx)(Z), before, "by a second object")


def long(ctx, cols, make, n):
    """many bars: fixed values but the last, after as many other bars"""
    X = ctx.frame(long_data(ctx, cols, n), long_grid(n))
    Z = ctx.frame(long_data(ctx, cols, n, "_", 3, True), long_grid(n + 1)[1:])
    with library(ctx, n, (n - 1,)):
        want = make(ctx)(X)
        used = make(ctx)
        used(Z)
        agree(ctx, used(X), want, "after use on other bars")
        agree(ctx, used(X), want, "and again")


SETTINGS = [("MACD", ("close",), dict(fastperiod=3, slowperiod=9, signalperiod=2)), ("EMA", ("close",), dict(timeperiod=3)), ("RSI", ("close",), None),
            ("MACD", ("close",), None), ("AROON", (), dict(timeperiod=2)), ("STOCH", (), dict(fastk_period=3, slowk_period=2)), ("AROON", (), None)]


def settings(ctx, n):
    """the library is asked with each indicator's own settings, whatever others were made before or after"""
    first, second = ctx.choice("first", range(len(SETTINGS))), ctx.choice("second", range(len(SETTINGS)))
    names = [c for c in ("close", "high", "low")]
    X = ctx.frame({c: ctx.reals(c, n) for c in names}, grid(n))
    made, asked = [], []
    with indicators(ctx, asked):
        shared = TAFactory()
        for k in (first, second):
            nm, cols, kw = SETTINGS[k]
            f = shared if ctx.flag(f"shared{k}") else TAFactory()
            made.append((k, f.create_transformer(nm, *cols, kw_args=None if kw is None else dict(kw))))
        for k, t in made + made[::-1]:
            asked.clear()
            t.transform(X)
            nm, _, kw = SETTINGS[k]
            ctx.check([(a, b) for a, _, b in asked] == [(nm, kw or {})], f"{nm} asked as {[(a, b) for a, _, b in asked]} instead of {kw}")


@contextlib.contextmanager
def indicators(ctx, asked):
    with contextlib.ExitStack() as st:
        for nm in {s[0] for s in SETTINGS}:
            def answer(a, k, nm=nm):
                asked.append((nm, a, dict(k)))
                return np.zeros(len(a[0])) if nm in ("EMA", "RSI") else tuple(pd.Series(np.zeros(len(a[0]))) for _ in range(2))
            st.enter_context(indicator(nm, answer))
        yield


def cases(tier):
    T = tier == "thorough"
    small = {"CUSUM filter": 4, "VPIN": 3, "moving-average crossover": 4, "Corwin-Schultz spread": 4, "Beckers-Parkinson volatility": 4}
    fixed = ("Corwin-Schultz spread", "Beckers-Parkinson volatility", "SADF", "SADF, martingale", "Chu-Stinchcombe-White, two sides")
    return [Case("settings of indicators", settings, "any two of seven indicators and settings, by one factory or two", dict(n=2))] + \
           [Case(f"same bars: {name}", same_bars, "fixed values but the last, then others at the same bars", dict(cols=cols, make=make, n=4 if name in ("mean reversion", "MACD crossover", "RSI confirmation") else max(5, SIZES.get(name, 5)))) for name, cols, make in ENTRIES if cols] + \
           [Case(f"long: {name}", long, f"{60 if T else 42} bars, fixed values but the last, after as many others", dict(cols=cols, make=make, n=60 if T else 42)) for name, cols, make in LONG] + \
           [Case(f"again: {name}", again, "any values in the first use, " + ("fixed ones" if name in fixed else "any") + " in the other", dict(cols=cols, make=make, fixed=name in fixed, n=small.get(name, min(4, SIZES.get(name, 4)) if "SADF" not in name else SIZES[name]) + T))
            for name, cols, make in ENTRIES]

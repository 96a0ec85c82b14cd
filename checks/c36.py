from symx.case import Case
import pandas as pd
from checks.catalog import ENTRIES, LONG, SIZES, TESTS, data, mixed, grid, library, agree, long_data, long_grid
from checks.common_ta import ASSUMPTIONS  # noqa

ASSUMPTIONS = ASSUMPTIONS + ["the library's indicators are causal", "bar times are a fixed irregular grid",
                             "tests of structural breaks: the series moves, designs have full rank"]


def prefix(ctx, cols, make, n):
    """bars up to any moment: what is said about them is what is said when the later bars are known"""
    X = ctx.frame({**data(ctx, cols, n), "noise": ctx.reals("noise", n)}, grid(n))
    if make.__name__ == "use" and "close" in cols and cols["close"].get("lo") == -50:
        d = X["close"].iloc[1] - X["close"].iloc[0]
        ctx.assume(d * d > .01 if ctx.symbolic else abs(d) > .1)
    with library(ctx, n):
        full = make(ctx)(X)
        for m in range(1, n):
            part = make(ctx)(X.iloc[:m])
            keep = {t: v for t, v in full.items() if t in set(X.index[:m])}
            agree(ctx, part, keep, f"with the first {m} bars only")


def long(ctx, cols, make, n, upto):
    """many bars: fixed values but the last"""
    t = long_grid(n)
    X = ctx.frame({**long_data(ctx, cols, n), "noise": [float(i % 7) for i in range(n)]}, t)
    with library(ctx, n, (n - 1,)):
        full = make(ctx)(X)
        for m in upto:
            part = make(ctx)(X.iloc[:m])
            agree(ctx, part, {k: v for k, v in full.items() if k in set(t[:m])}, f"with the first {m} bars only")


def other_columns(ctx, cols, make, n):
    """further columns, their values and the order of columns do not matter"""
    d = data(ctx, cols, n)
    X = ctx.frame({**d, "noise": ctx.reals("noise", n)}, grid(n))
    Z = ctx.frame({"another": ctx.reals("other", n), **dict(reversed(d.items())), "noise": ctx.reals("changed", n)}, grid(n))
    with library(ctx, n):
        agree(ctx, make(ctx)(Z), make(ctx)(X), "with other further columns")


NAN = float("nan")


def holes(ctx, cols, make, n):
    """missing values, its own or of columns it does not use, and pauses to come are no exception"""
    hole = ctx.choice("hole", [None] + [i for i in range(n - 1) if i != 2 or n < 5]) if cols else None
    gap = ctx.choice("pause", [1, 24 * 400])
    d = mixed(ctx, cols, n, hole)
    t = grid(n)
    noise = [NAN if i in (0, n - 2) else float(i) for i in range(n)]
    X = ctx.frame({**d, "noise": noise}, t)
    Z = ctx.frame({**d, "noise": [NAN] * n, "words": ["a", None, "b", "", "c", "d", "e", "f"][:n]}, t)
    later = t[:-1].append(pd.DatetimeIndex([t[-2] + pd.Timedelta(hours=gap)]))
    with library(ctx, n):
        full = make(ctx)(X)
        agree(ctx, make(ctx)(Z), full, "with other further columns")
        agree(ctx, make(ctx)(X.drop(columns="noise") if cols else X), full, "without further columns")
        first = make(ctx)(X.iloc[:1])
        agree(ctx, first, {k: v for k, v in full.items() if k in first or k == t[0]}, "with the first bar only")
        known = make(ctx)(X.iloc[:-1])
        moved = make(ctx)(X.set_axis(later))
        agree(ctx, known, {k: v for k, v in full.items() if k in set(t[:-1])}, "without the last bar")
        agree(ctx, {k: v for k, v in moved.items() if k in set(t[:-1])}, known, "with the last bar at another time")


def cases(tier):
    out = []
    for name, cols, make in ENTRIES:
        n = SIZES.get(name, 5) + (1 if tier == "thorough" else 0)
        b = f"{n} bars, any values"
        out.append(Case(f"prefix: {name}", prefix, b + ", every prefix", dict(cols=cols, make=make, n=n)))
        out.append(Case(f"other columns: {name}", other_columns, b, dict(cols=cols, make=make, n=n)))
    n, upto = (45, (1, 3, 22, 44)) if tier == "quick" else (90, (1, 3, 21, 22, 44, 60, 89))
    for name, cols, make in LONG:
        out.append(Case(f"long prefix: {name}", long, f"{n} bars, any last values, the first {upto}", dict(cols=cols, make=make, n=n, upto=upto)))
    for name, cols, make in ENTRIES:
        if name not in TESTS:
            out.append(Case(f"missing values: {name}", holes, "fixed values but the last, one bar missing or none, the last bar after 1 hour or 400 days", dict(cols=cols, make=make, n=5)))
    return out

import pandas as pd
from fractions import Fraction
from symx.case import Case
from checks.common_feat import some
from mizarlabs.transformers.targets.labeling import get_daily_vol

ASSUMPTIONS = ["bar times are strictly increasing, prices positive"]
DAY = pd.Timedelta(days=1)


def ewm_var(ctx, xs, span):
    """unbiased exponentially weighted variance of xs at its last element"""
    f = 1 - Fraction(2, span + 1)
    n = len(xs)
    w = [f ** (n - 1 - i) for i in range(n)]
    W, W2 = sum(w), sum(x * x for x in w)
    if W * W == W2:
        return float("nan")
    if not ctx.symbolic:
        w = [float(x) for x in w]
    m = ctx.sum([a * x for a, x in zip(w, xs)]) / (W if ctx.symbolic else float(W))
    v = ctx.sum([a * (x - m) * (x - m) for a, x in zip(w, xs)]) / (W if ctx.symbolic else float(W))
    c = W * W / (W * W - W2)
    return v * (c if ctx.symbolic else float(c))


def vol(ctx, n, span, name=None, gap_hi=3 * 86400000, free=None, tz=None, start="2021-03-01"):
    if free:                                 # irregular hours, pauses of days
        t, ts = pd.Timestamp(start, tz="UTC" if tz else None), []
        for i in range(n):
            t += pd.Timedelta(minutes=55) if tz else pd.Timedelta(minutes=(24 * 60 if i % 11 == 5 else 61 * 60 if i % 17 == 9 else 40 + i * i * 37 % 800))
            ts.append(t.tz_convert(tz) if tz else t)
        p = some(ctx, "p", n, free, 1, 100)
    else:
        ts = ctx.times("t", n, gap_hi=gap_hi)
        p = ctx.prices("p", n)
    out = get_daily_vol(ctx.series(p, ctx.index(ts), "close"), span)
    rets, at = [], []
    for i in range(n):
        last = None
        for j in range(i - 1, -1, -1):
            if bool(ts[i] - ts[j] > DAY):
                last = j
                break
        if last is not None:
            rets.append(p[i] / p[last] - 1)
            at.append(i)
    ctx.check_equal_times(out.index, [ts[i] for i in at], "bars with an estimate")
    for k in range(len(at)):
        v = out.iloc[k]
        want = ewm_var(ctx, rets[:k + 1], span)
        if ctx.isnan(want):
            ctx.check(ctx.isnan(v), "one return gives no deviation")
        else:
            ctx.check(not ctx.isnan(v), f"missing estimate at bar {at[k]}")
            ctx.check(v >= 0, "negative deviation")
            ctx.check_close(v * v, want, f"variance at bar {at[k]}")


def cases(tier):
    q = [(3, 2), (4, 3), (5, 100)]
    if tier == "thorough":
        q += [(6, 5), (7, 20)]
    long = [Case(f"daily vol n={n} span={s} free={list(f)}", vol, f"{n} bars at fixed irregular times, prices at bars {list(f)} any, span {s}", dict(n=n, span=s, free=f))
            for n, s, f in [(40, 20, (3,)), (110, 100, (109,)), (110, 100, (60, 105))] + ([(250, 100, (100, 249))] if tier == "thorough" else [])]
    for tz, start in [("Europe/Amsterdam", "2020-03-28 03:10"), ("America/New_York", "2020-10-31 07:20")]:      # the clocks change within days
        long.append(Case(f"daily vol n=60 span=10 {tz}", vol, f"60 bars, 55 minutes apart, in {tz} from {start} UTC, prices of bars 30 and 41 any, span 10",
                         dict(n=60, span=10, free=(30, 41), tz=tz, start=start)))
    return long + [Case(f"daily vol n={n} span={s}", vol, f"{n} bars at any increasing times (gaps up to 3 days, ms grid), all positive prices, span {s}",
                 dict(n=n, span=s)) for n, s in q]

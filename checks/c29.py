import math
from symx.case import Case
from mizarlabs.structural_breaks.cusum_chu_stinchcome_white import ChuStinchcombeWhiteStatTest

ASSUMPTIONS = ["the first two bars differ (until the series has moved, its volatility is zero and the statistic undefined)"]
SIDES = ["one_sided_positive", "one_sided_negative", "two_sided"]


def stat(ctx, n, side, ints=False):
    y = [ctx.int(f"y{i}", lo=-6, hi=20) for i in range(n)] if ints else ctx.reals("y", n, lo=-20, hi=20)
    d0 = y[1] - y[0]
    ctx.assume(d0 * d0 > 0 if ctx.symbolic else abs(d0) > 1e-3)
    vs = [None, None] + [ctx.div(ctx.sum([(y[i] - y[i - 1]) * (y[i] - y[i - 1]) for i in range(1, t)]), t - 1) for t in range(2, n + 1)]
    for v in vs[2:]:
        ctx.assume(v > 0)          # follows
    ts = ctx.date_range(n, "1h")
    out = ChuStinchcombeWhiteStatTest(side).run(ctx.series(y, ts))
    ctx.check(list(out.index) == list(ts[1:]), "one row per bar from the second, in order")
    ctx.check(list(out.columns) == ["statistic", "critical_value"], f"columns {list(out.columns)}")
    for t in range(2, n + 1):
        s, c = out["statistic"].iloc[t - 2], out["critical_value"].iloc[t - 2]
        ctx.check(not ctx.isnan(s) and not ctx.isnan(c), f"bar {t - 1} is missing")
        sd = ctx.sqrt(vs[t])
        hit = False
        for k in range(1, t):
            d = y[t - 1] - y[k - 1]
            d = d if side == SIDES[0] else -d if side == SIDES[1] else ctx.abs(d)
            v = ctx.div(d, sd * ctx.sqrt(ctx.num(t - k)))
            ctx.check((v - s) * sd <= 1e-8, f"bar {t - 1}: the statistic is below that for bar {k - 1}")
            crit = ctx.sqrt(ctx.num(4.6) + ctx.log(ctx.num(t - k)))
            near = abs(c - crit) < 1e-9
            if near if isinstance(near, bool) else bool(near):
                hit = True
                ctx.check_close(s, v, f"bar {t - 1}: critical value of bar {k - 1}, which does not attain the statistic")
        ctx.check(hit, f"bar {t - 1}: the critical value belongs to no earlier bar")


def long(ctx, n, side):
    """many bars: the first is far off, so that it decides the last bars' statistics"""
    s = -1 if side == SIDES[1] else 1
    y = [float(s * v) for v in [0] + [40 + (i * 7) % 5 / 8 for i in range(1, n - 1)]] + [ctx.real("last", lo=40, hi=41)]
    y[-1] = y[-1] * s
    ts = ctx.date_range(n, "1h")
    out = ChuStinchcombeWhiteStatTest(side).run(ctx.series(y, ts))
    ctx.check(list(out.index) == list(ts[1:]), "one row per bar from the second, in order")
    v = ctx.div(ctx.sum([(y[i] - y[i - 1]) * (y[i] - y[i - 1]) for i in range(1, n)]), n - 1)
    got, crit = out["statistic"].iloc[-1], out["critical_value"].iloc[-1]
    sd = ctx.sqrt(v)
    best, at = None, None
    for k in range(1, n):
        d = y[-1] - y[k - 1]
        d = d * s if side != SIDES[2] else ctx.abs(d)
        c = d / math.sqrt(n - k)
        if k in (1, 2) or k > n - 30 or k % 40 == 0:
            ctx.check(c - got * sd <= 1e-6, f"last bar: the statistic is below that for bar {k - 1}")
    ctx.check_close(got * sd, ctx.abs(y[-1]) / math.sqrt(n - 1), "last bar: the statistic is that of the first bar")
    ctx.check_close(crit, math.sqrt(4.6 + math.log(n - 1)), "last bar: critical value of the first bar")


def sides(ctx):
    for s in ("both", "", None):
        ctx.check(ctx.raises(AssertionError, lambda: ChuStinchcombeWhiteStatTest(s)) is not None, f"unknown side {s!r} is rejected")


def cases(tier):
    q = [(2, s) for s in SIDES] + [(4, s) for s in SIDES] + [(5, SIDES[0])] + ([(5, s) for s in SIDES[1:]] + [(6, s) for s in SIDES[1:]] if tier == "thorough" else [])
    out = [Case(f"{s} n={n}", stat, f"all series of {n} bars in [-20,20]", dict(n=n, side=s)) for n, s in q]
    for s in SIDES:
        out.append(Case(f"{s} n=270", long, "270 bars, any last one", dict(n=270, side=s)))
    out.append(Case("whole numbers n=3", stat, "all series of 3 whole numbers", dict(n=3, side="two_sided", ints=True)))
    return out + [Case("sides", sides, "three unknown sides", {})]

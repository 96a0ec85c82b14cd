import pandas as pd
from fractions import Fraction
from symx.case import Case
from checks.common_labels import distinct
from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities, avg_active_signals

ASSUMPTIONS = ["times lie on a millisecond grid", "sizes are any real numbers in [-1,1]"]


def bets(ctx, n, ordered, missing, shift):
    """opening and closing times (None: still open)"""
    if ordered:
        starts = ctx.times("s", n, strict=False)
    else:
        starts = [ctx.time(f"s{i}") for i in range(n)]
    ends = []
    for i in range(n):
        if missing and ctx.flag(f"open{i}"):
            ends.append(None)
        else:
            ends.append(starts[i] + ctx.delta(f"life{i}"))
    if shift:
        d = pd.Timedelta(days=365 * shift)
        starts = [s - d for s in starts]
        ends = [None if e is None else e - d for e in ends]
    return starts, ends


def check_average(ctx, out, starts, ends, sizes):
    ts = distinct(list(starts) + [e for e in ends if e is not None])
    ctx.check_equal_times(out.index, ts, "times at which a bet opens or closes")
    for k, t in enumerate(ts):
        act = [v for v, s, e in zip(sizes, starts, ends) if bool(s <= t) and (e is None or not bool(e <= t))]
        ctx.check_close(out.iloc[k], ctx.mean(act) if act else 0, f"average at change {k}")


def average(ctx, n, ordered, missing, cols, shift=0):
    starts, ends = bets(ctx, n, ordered, missing, shift)
    sizes = ctx.reals("b", n, lo=-1, hi=1)
    idx = ctx.index(starts)
    ce, cb = cols
    df = ctx.frame({cb: sizes}, idx)
    df[ce] = ctx.tseries([pd.NaT if e is None else e for e in ends], idx).values
    kw = {} if cols == ("event_end_time", "bet_size") else dict(event_end_time_column_name=ce, bet_size_column_name=cb)
    out = avg_active_signals(df, **kw)
    check_average(ctx, out, starts, ends, sizes)


def zoned(ctx, n, tz):
    """bets at timezone-aware times"""
    ts = ctx.date_range(n + 2, "7h", "2020-03-28", tz)
    sizes = ctx.reals("b", n, lo=-1, hi=1)
    starts = [ts[ctx.choice(f"s{i}", range(2))] if i == 0 else ts[i] for i in range(n)]
    ends = [(None, ts[i + 1], ts[i + 2])[ctx.choice(f"e{i}", range(3))] for i in range(n)]
    df = ctx.frame({"bet_size": sizes}, pd.DatetimeIndex(starts))
    df["event_end_time"] = pd.DatetimeIndex([pd.NaT if e is None else e for e in ends], tz=tz)
    check_average(ctx, avg_active_signals(df), starts, ends, sizes)


def long(ctx, n, free, open_):
    """many overlapping bets: those in `free` close at any time, or never, the others at set times"""
    t0 = pd.Timestamp("2021-06-01")
    starts = [ctx.hold(t0 + pd.Timedelta(hours=3 * i + i % 3)) for i in range(n)]
    ends = []
    for i in range(n):
        if i in free:
            lo = (i % 3) * 3600000
            ends.append(starts[i] + ctx.delta(f"life{i}", lo=lo, hi=lo + 40 * 3600000))
        else:
            ends.append(None if i in open_ else ctx.hold(t0 + pd.Timedelta(hours=3 * i + i % 3 + 2 + (7 * i) % 31)))
    sizes = [ctx.real(f"b{i}", lo=-1, hi=1) if i in free or i % 5 == 0 else Fraction((i * 37) % 19 - 9, 10) for i in range(n)]
    idx = ctx.index(starts)
    df = ctx.frame({"bet_size": [v if i in free or i % 5 == 0 else float(v) for i, v in enumerate(sizes)]}, idx)
    df["event_end_time"] = ctx.tseries([pd.NaT if e is None else e for e in ends], idx).values
    check_average(ctx, avg_active_signals(df), starts, ends, sizes)


def transformer(ctx, n, cols, meta, same=False):
    starts, ends = bets(ctx, n, True, True, 0)
    if not same:
        for i in range(1, n):
            ctx.assume(starts[i] > starts[i - 1])
    ce, cb = cols
    p = [ctx.real(f"p{i}", lo=Fraction(1, 100), hi=Fraction(99, 100)) for i in range(n)]
    y = [[1, -1, 1, 0][i % 4] for i in range(n)]
    side = [[-1, 1, 1, -1][i % 4] for i in range(n)]
    idx = ctx.index(starts)
    df = ctx.frame({"prob": p, "pred": y, "side": side}, idx)
    df[ce] = ctx.tseries([pd.NaT if e is None else e for e in ends], idx).values
    kw = {} if cols == ("event_end_time", "bet_size") else dict(event_end_time_column_name=ce, bet_size_column_name=cb)
    out = BetSizingFromProbabilities(num_classes=2, average_active=True, meta_labeling=meta, **kw).transform(df)
    h = ctx.num(1) / 2
    sizes = [(y[i] * side[i] if meta else y[i]) * (2 * ctx.Phi(ctx.div(p[i] - h, ctx.sqrt(p[i] * (1 - p[i])))) - 1) for i in range(n)]
    ts = distinct(list(starts) + [e for e in ends if e is not None])
    ctx.check_equal_times(out.index, ts, "times at which a bet opens or closes")
    for k, t in enumerate(ts):
        act = [v for v, s, e in zip(sizes, starts, ends) if bool(s <= t) and (e is None or not bool(e <= t))]
        ctx.check_close(out.iloc[k], ctx.abs(ctx.mean(act)) if act else 0, f"size at change {k}")


def cases(tier):
    D, C = ("event_end_time", "bet_size"), ("expiry", "amount")
    q = [(2, False, True, C, 0), (3, True, True, D, 0), (2, True, True, D, 80)] + ([(3, False, True, C, 0), (4, True, True, D, 0)] if tier == "thorough" else [])
    out = [Case(f"average n={n}" + ("" if o else " unordered") + (f" {1970 + 50 - s}s" if s else ""), average,
                f"{n} bets opening at any times{' in order, possibly equal' if o else ' in any order'}, closing at or after their opening or missing",
                dict(n=n, ordered=o, missing=m, cols=c, shift=s)) for n, o, m, c, s in q]
    out += [Case(f"average long n={n}", long, f"{n} bets of which {fr} close at any time up to 40 h after opening; a fifth of the sizes are any",
                 dict(n=n, free=fr, open_=op)) for n, fr, op in [(14, (6,), (2,)), (26, (11,), ())] + ([(40, (9, 10), (3, 30)), (70, (33,), (1,))] if tier == "thorough" else [])]
    t = [(2, C, True, False), (2, D, False, True)] + ([(2, D, False, False), (3, C, False, False)] if tier == "thorough" else [])
    out += [Case(f"transformer n={n}" + (" meta" if m else "") + (" custom columns" if c is C else "") + (" opening together" if s else ""), transformer,
                 f"{n} bets, any probability in [0.01,0.99], opening and closing at any times", dict(n=n, cols=c, meta=m, same=s)) for n, c, m, s in t]
    out += [Case(f"average n={n} {tz}", zoned, f"{n} bets of any size at fixed times in the timezone {tz}, closing after one or two bars or never", dict(n=n, tz=tz))
            for n, tz in [(2, "Europe/Rome")] + ([(3, "US/Eastern"), (2, "UTC")] if tier == "thorough" else [])]
    return out

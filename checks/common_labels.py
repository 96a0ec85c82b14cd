"""Label life spans with symbolic start and end times."""
import pandas as pd
from mizarlabs.static import EVENT_END_TIME

ASSUMPTIONS = ["times lie on a millisecond grid; every label ends at or after its start"]


def fixed(ctx, n, ordered):
    """irregular distinct opening times"""
    ts = [ctx.hold(pd.Timestamp("2020-01-01") + pd.Timedelta(minutes=60 * i + i * i * 7 % 50)) for i in range(n)]
    return ts if ordered else [ts[(i * 7 + 3) % n] if n % 7 else ts[(i * 11 + 3) % n] for i in range(n)]


def spans(ctx, n, ordered=True, at_bars=False, strict=True, free=None):
    """n labels; ends are free, or (at_bars) one of the starts at or after the label's own
    (free: only the ends of these labels are symbolic)"""
    if free is not None:
        starts = fixed(ctx, n, ordered)
        order = sorted(starts)
        ends = []
        for i, t in enumerate(starts):
            if i in free:
                ends.append(t + ctx.delta(f"life{i}", lo=0, hi=9 * 3600 * 1000))
            elif at_bars:
                ends.append(order[min(n - 1, order.index(t) + i * i * 5 % 7)])
            else:
                ends.append(t + pd.Timedelta(minutes=i * i * 37 % 400))
        return starts, ends
    if ordered:
        starts = ctx.times("s", n, strict=strict)
    else:
        starts = [ctx.time(f"s{i}") for i in range(n)]
    if at_bars:
        ends = [starts[ctx.choice(f"end{i}", range(i, n))] for i in range(n)]
    else:
        ends = [starts[i] + ctx.delta(f"life{i}") for i in range(n)]
    return starts, ends


def distinct(ts):
    """distinct times in order (forks on every comparison the code also makes)"""
    out = []
    for t in sorted(ts):
        if not out or not bool(t == out[-1]):
            out.append(t)
    return out


def rows(starts, ends, bars):
    lo, hi = min(starts), max(ends)
    return distinct(list(starts) + list(ends) + [b for b in bars if bool(b >= lo) and bool(b <= hi)])


def alive(t, s, e):
    return bool(s <= t) and bool(t <= e)


def uniqueness(ctx, starts, ends, bars):
    """reference average uniqueness of every label"""
    rs = rows(starts, ends, bars)
    A = [[alive(t, s, e) for s, e in zip(starts, ends)] for t in rs]
    out = []
    for i in range(len(starts)):
        xs = [1 / sum(a) for a in A if a[i]]
        out.append(sum(xs) / len(xs))
    return out


def label_frame(ctx, starts, ends, col=EVENT_END_TIME, **cols):
    idx = ctx.index(starts)
    df = ctx.frame(dict(cols), idx) if cols else pd.DataFrame(index=idx)
    df[col] = ctx.tseries(ends, idx)
    return df

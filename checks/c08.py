import numpy as np
import pandas as pd
from symx.case import Case
from mizarlabs.static import EVENT_END_TIME, T_VALUE, RETURN, LABEL
from mizarlabs.transformers.targets.trend_scanning import TrendScannerLabeling

ASSUMPTIONS = ["every scanned window of prices deviates from a straight line (otherwise its t-value does not exist)",
               "times are distinct", "prices positive"]


def tval(ctx, ys):
    """slope and squared standard error of the regression of ys on 0..L-1 with a constant"""
    L = len(ys)
    xm = (L - 1) / 2 if not ctx.symbolic else ctx.num(L - 1) / 2
    ym = ctx.sum(ys) / L
    sxx = L * (L * L - 1) / 12 if not ctx.symbolic else ctx.num(L * (L * L - 1)) / 12
    sxy = ctx.sum([(i - xm) * (v - ym) for i, v in enumerate(ys)])
    syy = ctx.sum([(v - ym) * (v - ym) for v in ys])
    rss = syy - sxy * sxy / sxx
    return sxy / sxx, rss / (L - 2) / sxx, rss


def scan(ctx, n, W, mn, step, events=None, again=False, sym_at=None, tz=None):
    ts = ctx.date_range(n, "3h", tz=tz)
    if sym_at is None:
        y = ctx.prices("y", n, lo=1, hi=64)
    else:
        bg = [10, 12, 11, 15, 13, 17, 12, 14, 19, 16]
        bg += [12 + (i * i * 7 + 5 * i) % 23 for i in range(len(bg), n)]
        y = [ctx.real(f"y{i}", lo=1, hi=64) if i in sym_at else ctx.num(bg[i]) for i in range(n)]
    ev = list(range(n)) if events is None else list(events)
    stats = {}
    for i in ev:
        if i + W <= n:
            for L in range(mn, W, step):
                b, v, rss = tval(ctx, y[i:i + L])
                ctx.assume(rss > 0)
                ctx.assume(rss >= (1 if ctx.symbolic else .99))
                stats[i, L] = (b, v)
    lab = TrendScannerLabeling(t_events=None if events is None else [ts[i] for i in ev], look_forward_window=W,
                               min_sample_length=mn, step=step)
    if again:
        other = pd.Series(np.arange(W + 3) ** 1.5 + 1, index=pd.date_range("2019-05-01", periods=W + 3, freq="5min"))
        lab.transform(other)
    out = lab.transform(ctx.series(y, ts))
    ctx.check(list(out.index) == [ts[i] for i in ev], "one row per event, in order")
    for r, i in enumerate(ev):
        e, t, ret, l = (out[c].iloc[r] for c in (EVENT_END_TIME, T_VALUE, RETURN, LABEL))
        if i + W > n:
            ctx.check(all(ctx.isnan(v) for v in (e, t, ret, l)), f"bar {i} has no full window")
            continue
        best = None
        for L in range(mn, W, step):
            b, v = stats[i, L]
            tl = b / ctx.sqrt(v)
            if best is None or bool(abs(tl) > abs(best[1])):
                best = (L, tl, b)
        ctx.check(not ctx.isnan(e) and not ctx.isnan(t), f"bar {i} is missing")
        L = [k for k in range(mn, W, step) if e == ts[i + k - 1]]
        ctx.check(bool(L), f"end of bar {i} is {e}, not an admissible horizon")
        ctx.check(L[0] == best[0], f"trend end of bar {i} is after {L[0]} bars, the best is {best[0]}")
        ctx.check_close(t, best[1], f"t-value of bar {i}")
        ctx.check_close(ret, y[i + best[0] - 1] / y[i] - 1, f"return of bar {i}")
        ctx.check_close(l, ctx.sign(best[2]), f"label of bar {i}")


def cases(tier):
    q = [dict(n=5, W=5, mn=3, step=1), dict(n=5, W=4, mn=3, step=1), dict(n=7, W=6, mn=3, step=2, events=(1, 4), sym_at=(2, 3, 5)),
         dict(n=7, W=7, mn=3, step=3, events=(0,)), dict(n=6, W=5, mn=3, step=2, again=True, sym_at=(1, 3, 4)),
         dict(n=6, W=5, mn=3, step=1, sym_at=(0, 2, 4)),
         dict(n=6, W=5, mn=3, step=1, sym_at=(2,), tz="Europe/Rome"), dict(n=6, W=5, mn=4, step=1, events=(1, 0), sym_at=(2,), tz="UTC")]
    q += [dict(n=32, W=30, mn=5, step=4, events=(1, 0), sym_at=(20,)), dict(n=24, W=20, mn=16, step=1, events=(3,), sym_at=(22,))]
    if tier == "thorough":
        q += [dict(n=6, W=6, mn=3, step=1), dict(n=8, W=7, mn=4, step=2, sym_at=(0, 3, 5)), dict(n=8, W=6, mn=3, step=1, sym_at=(2, 4, 6))]
    return [Case("trend " + " ".join(f"{k}={v}" for k, v in g.items()), scan,
                 f"{g['n']} bars, " + ("all prices in [1,64]" if "sym_at" not in g else f"prices at bars {g['sym_at']} any in [1,64], the others fixed")
                 + f", window {g['W']}, minimum {g['mn']}, step {g['step']}", g, feas_ms=300) for g in q]

"""Triple-barrier harness shared by C04 (end times) and C05 (returns and labels)."""
import numpy as np
import pandas as pd
from checks.common_feat import some
from mizarlabs.static import CLOSE, SIDE, DAILY_VOL, EVENT_END_TIME, RETURN, LABEL
from mizarlabs.transformers.targets import labeling as lab
from mizarlabs.transformers.targets.labeling import TripleBarrierMethodLabeling

GAPS_H = [7, 31, 1, 26, 3, 50, 2, 2, 25, 9]
SIDES = {"none": None, "long": [1] * 9, "mixed": [1, -1, -1, 1, 0, -1, 1, -1, 1], "short": [-1] * 9,
         "flat": [0, -1, 0, 1, -1, 1, 0, 1, 1]}
ASSUMPTIONS = ["bar times are a fixed irregular millisecond grid (end times depend on bar positions only)",
               "the volatility estimate is an arbitrary positive series, missing for the first bars as chosen "
               "(get_daily_vol itself is decided by C06)"]


def times(n, ms=False):
    t = pd.Timestamp("2020-01-01")
    out = [t]
    for i in range(n - 1):
        g = GAPS_H[i % 10]
        t = t + pd.Timedelta(hours=g, milliseconds=137 if ms else 0)
        out.append(t)
    return out


def run(ctx, n, exp, pt, sl, side, meta, adj, miss, explab, cols=("close", "side"), free=None):
    """transform n bars; returns everything the oracles need (free: only these bars' prices are symbolic)"""
    ts = times(n, ms=True)
    p = ctx.prices("p", n) if free is None else some(ctx, "p", n, free, 1, 30)
    sides = SIDES[side] and SIDES[side] * (n // 9 + 1)
    c_close, c_side = cols
    d = {c_close: p}
    if sides is not None:
        d[c_side] = [float(s) for s in sides[:n]]
    y = ctx.frame(d, ctx.index(ts))
    if sides is not None:
        y[c_side] = np.array(sides[:n], dtype=int)
    before = y.copy(deep=True)
    vol = [float("nan")] * miss + (ctx.reals("vol", n - miss, pos=True) if free is None else [.5 + i % 7 / 4 for i in range(n - miss)])
    used = []

    def daily_vol(close, ewm_span=100):
        used.append((list(close.values), list(close.index), ewm_span))
        return ctx.series(vol, ctx.index(ts))
    old = lab.get_daily_vol
    lab.get_daily_vol = daily_vol
    try:
        out = TripleBarrierMethodLabeling(
            exp, pt, sl, metalabeling=meta, close_column_name=c_close, side_column_name=c_side, volatility_window=17,
            volatility_adjusted_horizontal_barriers=adj, expiration_label=explab).fit(y).transform(y)
    finally:
        lab.get_daily_vol = old
    if not adj:
        vol = [1] * n
    ctx.check(list(out.index) == ts, "one row per bar, in order")
    for i in range(n):
        ctx.check_close(out[DAILY_VOL].iloc[i], vol[i], f"volatility of bar {i}")
    if used:
        ctx.check(used[0][2] == 17 and used[0][1] == ts, "volatility computed on the close with the configured window")
        ctx.check_all_same(used[0][0], p, "volatility computed on the close")
    s = [1] * n if sides is None else sides
    return ts, p, s, vol, out


def touches(ctx, p, s, vol, pt, sl, i, j):
    """which horizontal barriers bar j touches for the event opened at bar i: (profit taking, stop loss)"""
    if vol[i] is None or ctx.isnan(vol[i]):
        return False, False
    ret = (p[j] / p[i] - 1) * s[i]
    up = bool(ret > pt * vol[i]) if pt > 0 else False
    dn = bool(ret < -(sl * vol[i])) if sl > 0 else False
    return up, dn


def expected_end(ctx, n, exp, p, s, vol, pt, sl, i):
    """list of acceptable (end bar or None, horizontal barrier touched)"""
    v = i + exp
    last = v if v < n else n - 1           # exclusive bound of the bars that decide
    for j in range(i, last):
        if any(touches(ctx, p, s, vol, pt, sl, i, j)):
            return [(j, True)]
    if v < n:
        return [(v, False)]
    ok = [(None, False)]
    if any(touches(ctx, p, s, vol, pt, sl, i, n - 1)):
        ok.append((n - 1, True))           # touched at the very last bar: labelling it is right, leaving it open too
    return ok

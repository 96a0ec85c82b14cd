import math
from fractions import Fraction
from symx.case import Case
from checks.common_feat import frame, column, unchanged, same, win, meanw, some, GRID, NAN
from mizarlabs.transformers.microstructural_features import (BeckersParkinsonVolatility, CorwinSchultzSpread,
                                                             ParkinsonVolatility, RollImpact, RollMeasure)

ASSUMPTIONS = [GRID, "prices and volumes are positive (but for the bar without trade), low <= high; log prices in [-4,4]", "the constants of the formulas are their float values"]
LN2, R2, DEN, K2 = math.log(2), 2 ** 0.5, 3 - 2 * 2 ** 0.5, (8 / math.pi) ** 0.5


def absz(ctx, x):
    return ctx.abs(x)


def roll(ctx, n, w, impact, cols, idle=False, free=None):
    p, q = some(ctx, "p", n, free, 1, 100) if free else ctx.prices("p", n), some(ctx, "q", n, free, 1, 100) if free else ctx.prices("q", n)
    if idle:                                 # no trade at a bar: no price impact there
        k0 = ctx.choice("idle", range(n))
        q = [ctx.num(0) if i == k0 else v for i, v in enumerate(q)]
    c, v = cols or ("close", "quote_asset_volume")
    data = {c: p, v: q}
    X = frame(ctx, n, data)
    k = dict(close_column_name=c) if cols else {}
    if impact:
        tr = RollImpact(w, **dict(k, **(dict(quote_asset_volume_column_name=v) if cols else {})))
    else:
        tr = RollMeasure(w, **k)
    got = column(ctx, tr.fit(X).transform(X), n)
    for i in range(n):
        # differences at i-w+1..i, each with its predecessor: needs w+1 differences
        if i - w < 1:
            ctx.check(ctx.isnan(got[i]), f"bar {i} has no full window")
            continue
        a = [p[j] - p[j - 1] for j in range(i - w + 1, i + 1)]
        b = [p[j - 1] - p[j - 2] for j in range(i - w + 1, i + 1)]
        ma, mb = ctx.mean(a), ctx.mean(b)
        cov = ctx.div(ctx.sum([(x - ma) * (y - mb) for x, y in zip(a, b)]), w - 1)
        if idle and i == k0:
            none = ctx.isnan(got[i]) or abs(got[i]) == float("inf")
            ctx.check(none, f"an impact where nothing was traded (bar {i})")
            continue
        ctx.check(not ctx.isnan(got[i]), f"bar {i} is missing")
        r = got[i] * q[i] if impact else got[i]
        ctx.check(r >= 0, f"bar {i} is negative")
        sq = ctx.div(r * r, 4)
        if ctx.symbolic:
            ctx.check_close(sq * sq, cov * cov, f"{'impact' if impact else 'measure'} at bar {i}")
        else:
            ctx.check_close(sq, abs(cov), f"{'impact' if impact else 'measure'} at bar {i}", 1e-6)
    unchanged(ctx, X, data)


def hl(ctx, n, cols, free=None):
    """highs and lows as exponentials of u + d and u, d >= 0"""
    H, L, h, l = [], [], [], []
    level = ctx.price("level", logs=True) if free == "level" else None
    for i in range(n):
        if free == "level" or free and i not in free:
            v = Fraction(i * 37 % 23, 16)
            u = v + Fraction(i * 29 % 31, 64)
            u, v = (ctx.num(u), ctx.num(v)) if ctx.symbolic else (float(u), float(v))
            if level is not None:
                u, v = u + ctx.log(level), v + ctx.log(level)
            H.append(ctx.exp(u)), L.append(ctx.exp(v)), h.append(u), l.append(v)
            continue
        a, b = ctx.price(f"h{i}", logs=True), ctx.price(f"l{i}", logs=True)
        ctx.assume(ctx.log(b) <= ctx.log(a))
        H.append(a), L.append(b), h.append(ctx.log(a)), l.append(ctx.log(b))
    hc, lc = cols or ("high", "low")
    return {hc: H, lc: L}, h, l, (dict(high_column_name=hc, low_column_name=lc) if cols else {})


def parkinson(ctx, n, w, cols, free=None):
    data, h, l, k = hl(ctx, n, cols, free)
    X = frame(ctx, n, data)
    got = column(ctx, ParkinsonVolatility(w, **k).fit(X).transform(X), n)
    s = [(a - b) * (a - b) * (1 / (4 * LN2)) for a, b in zip(h, l)]
    same(ctx, got, [meanw(ctx, s, i, w) for i in range(n)], "volatility")
    unchanged(ctx, X, data)


def beta_gamma(ctx, H, L, h, l, w):
    n = len(h)
    s = [(a - b) * (a - b) for a, b in zip(h, l)]
    two = [NAN if i < 1 else s[i] + s[i - 1] for i in range(n)]
    beta = [meanw(ctx, two, i, w) for i in range(n)]
    gamma = [NAN]
    for i in range(1, n):
        # (compared as prices, like the code does)
        r = (h[i] if ctx.over(H[i], H[i - 1]) else h[i - 1]) - (l[i - 1] if ctx.over(L[i], L[i - 1]) else l[i])
        gamma.append(r)                      # its root: the range is not negative
    return beta, gamma


def clipped(ctx, got, want, what):
    """got is max(want, 0)"""
    if bool(want < 0):
        ctx.check_close(got, 0, what + " (negative, set to zero)")
    else:
        ctx.check_close(got, want, what)


def spread(ctx, n, w, cols, free=None):
    data, h, l, k = hl(ctx, n, cols, free)
    X = frame(ctx, n, data)
    got = column(ctx, CorwinSchultzSpread(w, **k).fit(X).transform(X), n)
    beta, rg = beta_gamma(ctx, *data.values(), h, l, w)
    for i in range(n):
        if ctx.isnan(beta[i]):
            ctx.check(ctx.isnan(got[i]), f"bar {i} has no full window")
            continue
        ctx.check(not ctx.isnan(got[i]), f"bar {i} is missing")
        alpha = ctx.sqrt(beta[i]) * (R2 - 1) / DEN - rg[i] / DEN ** 0.5
        # S = 2 (e^a - 1)/(1 + e^a)  <=>  a = log((2 + S)/(2 - S)), increasing, so S = 0 where a < 0
        ctx.check((got[i] >= 0) & (got[i] < 2), f"spread at bar {i} out of range")
        clipped(ctx, ctx.log((2 + got[i]) / (2 - got[i])), alpha, f"spread at bar {i}")
    unchanged(ctx, X, data)


def sigma(ctx, n, w, cols, free=None):
    data, h, l, k = hl(ctx, n, cols, free)
    X = frame(ctx, n, data)
    got = column(ctx, BeckersParkinsonVolatility(w, **k).fit(X).transform(X), n)
    beta, rg = beta_gamma(ctx, *data.values(), h, l, w)
    for i in range(n):
        if ctx.isnan(beta[i]):
            ctx.check(ctx.isnan(got[i]), f"bar {i} has no full window")
            continue
        ctx.check(not ctx.isnan(got[i]), f"bar {i} is missing")
        s = ctx.sqrt(beta[i]) * (2 ** -0.5 - 1) / (K2 * DEN) + rg[i] / (K2 ** 2 * DEN) ** 0.5
        clipped(ctx, got[i], s, f"volatility at bar {i}")
    unchanged(ctx, X, data)


def cases(tier):
    T = tier == "thorough"
    hlc = ("top", "bottom")
    out = []
    for n, w, im, c in [(5, 2, False, None), (6, 3, False, ("px", "v")), (5, 2, True, None), (6, 2, True, ("px", "v"))] + ([(7, 4, False, None), (8, 3, True, None)] if T else []):
        out.append(Case(f"roll {'impact' if im else 'measure'} n={n} window={w}{' renamed' if c else ''}", roll, f"{n} bars, window {w}, all positive prices and volumes", dict(n=n, w=w, impact=im, cols=c)))
    out.append(Case("roll impact of a bar without trade", roll, "4 bars, window 2, all positive prices; any one bar with no volume", dict(n=4, w=2, impact=True, cols=None, idle=True)))
    for n, w, c in [(4, 2, None), (4, 3, hlc)] + ([(6, 3, None)] if T else []):
        out.append(Case(f"parkinson n={n} window={w}{' renamed' if c else ''}", parkinson, f"{n} bars, window {w}, all highs and lows", dict(n=n, w=w, cols=c)))
    for n, w, c in [(3, 1, None), (3, 2, hlc)] + ([(4, 2, None), (4, 3, hlc)] if T else []):
        out.append(Case(f"spread n={n} window={w}{' renamed' if c else ''}", spread, f"{n} bars, window {w}, all highs and lows", dict(n=n, w=w, cols=c)))
        out.append(Case(f"sigma n={n} window={w}{' renamed' if c else ''}", sigma, f"{n} bars, window {w}, all highs and lows", dict(n=n, w=w, cols=c)))
    for f, n, w, fr, k in [(roll, 24, 20, (23,), dict(impact=False)), (roll, 24, 20, (2, 3), dict(impact=True)), (parkinson, 34, 30, (2, 33), {}), (parkinson, 300, 100, (200,), {}), (roll, 150, 50, (100,), dict(impact=True)), (spread, 33, 30, "level", {}), (sigma, 33, 30, "level", {})]:
        out.append(Case(f"{f.__name__} {'impact ' if k.get('impact') else ''}n={n} window={w} free={fr if fr == 'level' else list(fr)}", f, f"{n} bars, window {w}, " + ("fixed ranges at any price level" if fr == "level" else f"bars {list(fr)} any, the others fixed"), dict(n=n, w=w, cols=None, free=fr, **k)))
    return out

from symx.case import Case
from checks.common_feat import frame, column, some, unchanged, GRID, NAN
from mizarlabs.transformers.microstructural_features import VPIN

ASSUMPTIONS = [GRID, "volumes are non-negative"]


def vpin(ctx, n, w, cols, exact, free=None):
    """exact: the total volume is buy plus sell volume"""
    b, s = some(ctx, "buy", n, free, 0, 100), some(ctx, "sell", n, free, 0, 100)
    if free:                                 # and bars without trade
        for i in range(n // 3, n // 3 + 3):
            b[i] = s[i] = b[i] * 0
    v = [x + y for x, y in zip(b, s)] if exact else ctx.reals("vol", n, lo=0, hi=200)
    names = cols or ("base_asset_volume", "base_asset_buy_volume", "base_asset_sell_volume")
    data = dict(zip(names, (v, b, s)))
    X = frame(ctx, n, data)
    k = {} if not cols else dict(base_asset_volume_column_name=names[0], base_asset_buy_volume_column_name=names[1], base_asset_sell_volume_column_name=names[2])
    want = []
    for i in range(n):
        if i < w - 1:
            want.append((NAN, NAN))
        else:
            want.append((ctx.sum([ctx.abs(b[j] - s[j]) for j in range(i - w + 1, i + 1)]), ctx.sum(v[i - w + 1:i + 1])))
    if not exact:
        # volume that is bought or sold but not in the total is no volume bar at all
        for num, den in want[w - 1:]:
            ctx.assume(den > 0)
    got = column(ctx, VPIN(w, **k).fit(X).transform(X), n)
    for i, (num, den) in enumerate(want):
        if ctx.isnan(num):
            ctx.check(ctx.isnan(got[i]), f"bar {i} has no full window")
            continue
        ctx.check(not ctx.isnan(got[i]), f"bar {i} is missing")
        if bool(den > 0):
            ctx.check_close(got[i], num / den, f"vpin at bar {i}")
        else:
            ctx.check_close(got[i], 0, f"bar {i} without volume")
        if exact:
            ctx.check((got[i] >= 0) & (got[i] <= 1), f"bar {i} outside [0,1]")
    unchanged(ctx, X, data)


def cases(tier):
    q = [(2, 5, None, True), (4, 2, None, True), (3, 1, None, True), (3, 2, ("tv", "bv", "sv"), False), (5, 3, None, True)]
    if tier == "thorough":
        q += [(6, 3, None, True), (6, 2, None, True), (5, 4, ("tv", "bv", "sv"), False)]
    long = [Case(f"vpin n={n} window={w} free={list(f)}", vpin, f"{n} bars, window {w}, volumes at bars {list(f)} any >= 0 (zero included), the others fixed", dict(n=n, w=w, cols=None, exact=True, free=f))
            for n, w, f in [(53, 50, (1, 30, 52)), (24, 20, (0, 2, 23)), (300, 200, (150,))] + ([(130, 100, (20, 60, 110, 129))] if tier == "thorough" else [])]
    return long + [Case(f"vpin n={n} window={w}{' renamed' if c else ''}{'' if e else ' any total'}", vpin,
                 f"{n} bars, window {w}, all volumes >= 0 " + ("with total = buy + sell (zero included)" if e else "with a positive total per window"),
                 dict(n=n, w=w, cols=c, exact=e)) for n, w, c, e in q]

from symx.case import Case
from checks.common_feat import frame, column, unchanged, same, meanw, some, GRID, NAN
from mizarlabs.transformers.microstructural_features import AmihudLambda, HasbrouckLambda, KyleLambda

ASSUMPTIONS = [GRID, "prices and volumes are positive; log prices in [-4,4]"]
COLS = {"kyle": ("close", "base_asset_volume"), "amihud": ("close", "quote_asset_volume"), "hasbrouck": ("close", "quote_asset_volume")}


def impact(ctx, kind, n, w, cols, free=None):
    p, v = (ctx.prices("p", n, logs=kind != "kyle"), ctx.prices("v", n)) if free is None else (some(ctx, "p", n, free, 1, 100, kind != "kyle"), some(ctx, "v", n, free, 1, 100))
    c, vc = cols or COLS[kind]
    data = {c: p, vc: v}
    other = [x for x in ("base_asset_volume", "quote_asset_volume") if x not in data]
    X = frame(ctx, n, data, ["noise"] + other)
    k = {} if not cols else {"close_column_name": c, ("base" if kind == "kyle" else "quote") + "_asset_volume_column_name": vc}
    tr = {"kyle": KyleLambda, "amihud": AmihudLambda, "hasbrouck": HasbrouckLambda}[kind](w, **k)
    one = [NAN]
    for i in range(1, n):
        if kind == "kyle":
            one.append(ctx.abs(p[i] - p[i - 1]) / v[i])
        else:
            d = ctx.abs(ctx.log(p[i]) - ctx.log(p[i - 1]))
            one.append(d / (v[i] if kind == "amihud" else ctx.sqrt(v[i])))
    got = column(ctx, tr.fit(X).transform(X), n)
    same(ctx, got, [meanw(ctx, one, i, w) for i in range(n)], kind)
    unchanged(ctx, X, data)


def cases(tier):
    q = [(4, 2, None), (4, 1, ("px", "vv")), (5, 3, None)] + ([(6, 4, None), (7, 2, ("px", "vv"))] if tier == "thorough" else [])
    long = [Case(f"{k} n={n} window={w} free={list(f)}", impact, f"{n} bars, window {w}, prices and volumes at bars {list(f)} any, the others fixed", dict(kind=k, n=n, w=w, cols=None, free=f))
            for k in COLS for n, w, f in [(45, 40, (2, 44)), (25, 20, (23,)), (300, 250, (120,))] + ([(105, 100, (3, 50, 104))] if tier == "thorough" else [])]
    return long + [Case(f"{k} n={n} window={w}{' renamed' if c else ''}", impact, f"{n} bars, window {w}, all positive prices and volumes",
                 dict(kind=k, n=n, w=w, cols=c)) for k in COLS for n, w, c in q]

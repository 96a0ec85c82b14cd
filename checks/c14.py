from fractions import Fraction
from symx.case import Case
from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities

ASSUMPTIONS = ["the normal distribution function is any strictly increasing, symmetric function into (0,1) (replayed with scipy's)",
               "predictions and sides are any real numbers in [-1,1] / the values listed"]


def size(ctx, K, n, meta, cols, pred, edge=False, free=None):
    """pred: list of concrete predictions or 'sym'; free: only these rows are any, the others are set"""
    cp, cy, cs, cb = cols
    free = range(n) if free is None else free
    p = [ctx.real(f"p{i}", lo=0, hi=1) if i in free else (1 + i * 29 % 62) / 64 for i in range(n)]
    if not edge:
        for i in free:
            ctx.assume(p[i] > 0)
            ctx.assume(p[i] < 1)
    y = [ctx.real(f"y{i}", lo=-1, hi=1) if i in free else (i * 5 % 9 - 4) / 4 for i in range(n)] if pred == "sym" else pred[:n]
    d = {cp: p, cy: y}
    side = [ctx.choice(f"side{i}", [1, -1, 0]) if i in free else (i * 4) % 3 - 1 for i in range(n)]
    if meta:
        d[cs] = side
    X = ctx.frame(d, ctx.date_range(n))
    kw = {} if cols == ("prob", "pred", "side", "bet_size") else dict(
        probability_column_name=cp, prediction_column_name=cy, side_column_name=cs, bet_size_column_name=cb)
    out = BetSizingFromProbabilities(num_classes=K, meta_labeling=meta, **kw).transform(X)
    ctx.check(list(out.index) == list(X.index), "one size per row, in order")
    k = Fraction(1, K) if ctx.symbolic else 1 / K
    for i in range(n):
        b = ctx.num(1) * (y[i] * side[i] if meta else y[i])
        if edge and bool(p[i] >= 1):
            phi = 1
        elif edge and bool(p[i] <= 0):
            phi = -1
        else:
            phi = 2 * ctx.Phi(ctx.div(p[i] - k, ctx.sqrt(p[i] * (1 - p[i])))) - 1
        v = out.iloc[i]
        ctx.check_close(v, ctx.abs(b * phi), f"size of row {i}")
        ctx.check(v >= 0, "size is at least zero")
        ctx.check(v <= 1, "size is at most one")
        ctx.check((abs(v) <= 1e-9) | (p[i] != k), "size is zero at p = 1/K")


def grows(ctx, K):
    """two rows with the same prediction: the larger probability above 1/K has the larger size"""
    k = Fraction(1, K) if ctx.symbolic else 1 / K
    p = [ctx.real(f"p{i}", lo=0, hi=1) for i in range(2)]
    ctx.assume(p[0] >= k)
    ctx.assume(p[1] >= p[0])
    ctx.assume(p[1] < 1)
    out = BetSizingFromProbabilities(num_classes=K).transform(ctx.frame({"prob": p, "pred": [1, 1]}, ctx.date_range(2)))
    ctx.check(out.iloc[1] >= out.iloc[0] - 1e-12, "the size grows with the probability")


def rejected(ctx, n, what):
    p = [ctx.real(f"p{i}", lo=0.01, hi=0.99) for i in range(n)]
    side = [1.0] * n
    s = ctx.int("s", lo=-3, hi=3) if what == "integer" else ctx.real("s", lo=-2, hi=2)
    ctx.assume((s != 0) & (s != 1) & (s != -1))
    side[ctx.choice("which", range(n))] = s
    X = ctx.frame({"prob": p, "pred": [1] * n, "side": side}, ctx.date_range(n))
    b = BetSizingFromProbabilities(num_classes=2, meta_labeling=True)
    ctx.check(ctx.raises(AssertionError, lambda: b.transform(X)) is not None, "a side outside {-1,0,1} is rejected")


def cases(tier):
    D = ("prob", "pred", "side", "bet_size")
    C = ("likelihood", "label", "direction", "amount")
    out = []
    for K, n, meta, cols, pred in [(2, 2, False, D, "sym"), (3, 2, True, C, [1, -1, 0]), (2, 2, True, D, [1, 0, 1]), (3, 1, False, C, "sym"),
                                   (5, 1, True, D, "sym")] + ([(2, 3, True, C, "sym"), (10, 2, False, D, "sym")] if tier == "thorough" else []):
        out.append(Case(f"size K={K} n={n}" + (" meta" if meta else "") + (" custom columns" if cols is C else "") + (" sym" if pred == "sym" else ""),
                        size, f"{n} rows, any probability in (0,1), {K} classes, predictions {pred if pred != 'sym' else 'any in [-1,1]'}"
                        + (", any side in {-1,0,1}" if meta else ""), dict(K=K, n=n, meta=meta, cols=cols, pred=pred)))
    out.append(Case("certain probabilities", size, "1 row, any probability in [0,1] (0 and 1 included), 2 classes", dict(K=2, n=1, meta=False, cols=D, pred=[1], edge=True)))
    for K, n, meta, fr in [(2, 40, True, (17,)), (3, 60, False, (5, 58))] + ([(4, 300, True, (100, 299))] if tier == "thorough" else []):
        out.append(Case(f"many K={K} n={n}" + (" meta" if meta else ""), size, f"{n} rows, set but for {fr}: any probability in (0,1), prediction and side; {K} classes",
                        dict(K=K, n=n, meta=meta, cols=D, pred="sym", free=fr)))
    for K in (2, 3):
        out.append(Case(f"grows K={K}", grows, f"any two probabilities above 1/{K}", dict(K=K)))
    for w in ("integer", "real"):
        out.append(Case(f"rejected side {w}", rejected, f"2 rows, any {w} side outside {{-1,0,1}} in any one", dict(n=2, what=w)))
    return out

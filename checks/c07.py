from symx.case import Case
from checks.common_feat import some
from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter

ASSUMPTIONS = ["bar times are distinct"]


def cusum(ctx, n, thr, free=None):
    ts = ctx.date_range(n, "37min")
    x = some(ctx, "x", n, free, -8, 8) if free else ctx.reals("x", n)
    h = ctx.real("threshold", lo=0) if thr is None else thr
    f = CUSUMFilter(h)
    got = list(f.transform(ctx.series(x, ts)))
    pos = neg = 0
    want = []
    for i in range(1, n):
        d = x[i] - x[i - 1]
        pos = pos + d
        if bool(pos < 0):
            pos = 0
        neg = neg + d
        if bool(neg > 0):
            neg = 0
        if bool(neg < -h):
            neg = 0
            want.append(ts[i])
        elif bool(pos > h):
            pos = 0
            want.append(ts[i])
    ctx.check(got == want, f"selected {got}, expected {want}")
    # a second use, on a prefix, selects the prefix of the selection: no memory, no look-ahead
    for k in range(2, n) if not free else (n // 3, n - 1):
        again = list(f.transform(ctx.series(x[:k], ts[:k])))
        ctx.check(again == [t for t in want if t in set(ts[:k])], f"selection on the first {k} bars differs: {again}")


def cases(tier):
    q = [(5, None), (6, .5)]
    if tier == "thorough":
        q += [(7, None), (8, 1)]
    long = [Case(f"cusum n={n} threshold={t if t is not None else 'any'} free={list(f)}", cusum, f"{n} bars, values at bars {list(f)} any, the others fixed, threshold {t if t is not None else '>= 0, any'}", dict(n=n, thr=t, free=f))
            for n, t, f in [(60, 6, (5, 58)), (40, 12, (20,)), (14, None, (13,))] + ([(150, 9, (3, 70, 149)), (24, None, (4,))] if tier == "thorough" else [])]
    return long + [Case(f"cusum n={n} threshold={t if t is not None else 'any'}", cusum, f"{n} bars, all values, threshold {t if t is not None else '>= 0, any'}",
                 dict(n=n, thr=t), weight=1) for n, t in q]

from symx.case import Case
from mizarlabs.model.model_selection import log_uniform

ASSUMPTIONS = ["scipy's inversion of the distribution function (the draws themselves) is outside the claim; the symbolic run enters where scipy asks "
               "the distribution for its function (values in the range), the replays through scipy's public cdf"]


def cdf(ctx, default):
    if default == "both":
        a, b = ctx.num(1), ctx.exp(ctx.num(1))
        x = ctx.price("x", logs=True)
        d = log_uniform()
    elif default == "upper":
        a, b = ctx.num(2), ctx.exp(ctx.num(1))
        x = ctx.price("x", logs=True)
        d = log_uniform(2)
    else:
        a, r, x = ctx.price("a", logs=True), ctx.price("ratio", logs=True), ctx.price("x", logs=True)
        ctx.assume(r > 1 + 1e-6)
        b = a * r
        d = log_uniform(a, b)
    if not ctx.symbolic:
        x = x if abs(x - min(max(x, a), b)) > 1e-12 * x else min(max(x, a), b)      # rounding of the solver's own x
    ctx.assume(x >= a)
    ctx.assume(x <= b)
    for v in (r,) if default == "none" else ():
        ctx.assume(ctx.log(v) <= v - 1)                      # true of every v > 0
        ctx.assume(ctx.log(v) * v >= v - 1)
    if ctx.symbolic:                                         # logarithms keep the order
        ctx.assume(ctx.log(x) >= ctx.log(a))
        ctx.assume(ctx.log(x) <= ctx.log(b))
    F = d._cdf(x) if ctx.symbolic else d.cdf(x)
    ctx.check_close(F * (ctx.log(b) - ctx.log(a)), ctx.log(x) - ctx.log(a), "the logarithm is uniformly distributed over the range")
    lo, hi = d.support()
    ctx.check_same(lo, a, "the range starts at a")
    ctx.check_close(hi, b, "the range ends at b", 1e-9)


def cases(tier):
    return [Case(f"distribution function{'' if d == 'none' else ', default ' + d}", cdf, "any range and any value in it", dict(default=d)) for d in ("none", "both", "upper")]

"""Column features: a frame of symbolic columns on a fixed irregular grid, and the shape every transformer owes."""
import pandas as pd

NAN = float("nan")
TIMES = [pd.Timestamp("2021-03-01") + pd.Timedelta(minutes=m) for m in (0, 7, 8, 30, 31, 59, 90, 91, 150, 151, 200, 260)]
TIMES += [TIMES[-1] + pd.Timedelta(minutes=11 * i + i * i % 9) for i in range(1, 300)]
GRID = "bar times are a fixed irregular grid (the features do not read them)"


def frame(ctx, n, cols, extra=("noise",)):
    cols = dict(cols)
    for e in extra:
        cols[e] = ctx.reals(e, n)
    return ctx.frame(cols, pd.DatetimeIndex(TIMES[:n]))


def column(ctx, out, n):
    """the single output column"""
    ctx.check(tuple(out.shape) == (n, 1), f"shape {out.shape} instead of {(n, 1)}")
    return [out[i, 0] for i in range(n)]


def same(ctx, got, want, what, tol=1e-6):
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check_close(g, w, f"{what} at bar {i}", tol)


def unchanged(ctx, X, cols, what="the input is unchanged"):
    for k, v in cols.items():
        for i, (g, w) in enumerate(zip(list(X[k].values), v)):
            ctx.check_same(g, w, f"{what} ({k}[{i}])")


def win(xs, i, w):
    return None if i < w - 1 else xs[i - w + 1:i + 1]


def meanw(ctx, xs, i, w):
    x = win(xs, i, w)
    if x is None or any(ctx.isnan(v) for v in x):
        return NAN
    return ctx.mean(x)


def ewma(ctx, xs, span):
    from fractions import Fraction
    f = 1 - Fraction(2, span + 1)
    out = []
    for i in range(len(xs)):
        w = [f ** (i - j) for j in range(i + 1)]
        W = sum(w)
        if not ctx.symbolic:
            w, W = [float(a) for a in w], float(W)
        out.append(ctx.sum([a * x for a, x in zip(w, xs[:i + 1])]) / W)
    return out


def some(ctx, name, n, free, lo, hi, logs=False):
    """n values, those at the free bars any in [lo, hi] (any prices given by their logarithm), the others fixed and irregular"""
    if free is None:
        return ctx.prices(name, n, logs=True) if logs else ctx.reals(name, n, lo=lo, hi=hi)
    k = sum(map(ord, name))
    out = []
    for i in range(n):
        if i in free:
            out.append(ctx.price(f"{name}{i}", logs=True) if logs else ctx.real(f"{name}{i}", lo=lo, hi=hi))
        else:
            k = (k * 421 + 1663 + i) % 7873
            a, b = (0.25, 8) if logs else (lo, hi)
            out.append(a + (b - a) * (16 + k % 97) / 128)
    return out

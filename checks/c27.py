import numpy as np
import pandas as pd
from symx.case import Case
from mizarlabs.structural_breaks.sdfc import get_beta_and_beta_var, SupremumDickeyFullerChowStatTest

ASSUMPTIONS = ["designs have full rank and the residuals are not all zero (otherwise the estimates do not exist)",
               "np.linalg.inv is the exact matrix inverse"]


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    return sum(((-1) ** c) * M[0][c] * det([r[:c] + r[c + 1:] for r in M[1:]]) for c in range(n))


def kernel(ctx, n, k, const, free=None, scale=1):
    """the kernel's answer satisfies the normal equations, which have one solution; free: the symbolic entries (all unless given); scale: the unit
    of the regressors"""
    X = [[1.0 if (const and c == k - 1) else ctx.real(f"x{i}_{c}", lo=-8, hi=8) if free is None or (i, c) in free else
          float((i + 1) ** c % 7 - c) for c in range(k)] for i in range(n)]
    if ctx.symbolic:
        X = [[ctx.num(v) for v in r] for r in X]
    y = ctx.reals("y", n, lo=-8, hi=8)
    G = [[ctx.sum([X[i][a] * X[i][b] for i in range(n)]) for b in range(k)] for a in range(k)]
    d = det(G)
    ctx.assume(d >= 0.5 if not ctx.symbolic else d >= 1)
    u = 1 / ctx.num(scale) if scale != 1 else 1
    Xa, ya = ctx.matrix([[v * u for v in r] for r in X]), ctx.matrix([[v] for v in y])
    beta, var = get_beta_and_beta_var(Xa, ya)
    ctx.check(beta.shape == (k, 1) and var.shape == (k, k), "shapes")
    beta, var = beta * u, var * (u * u)
    for a in range(k):
        ctx.check_close(ctx.sum([G[a][b] * beta[b, 0] for b in range(k)]), ctx.sum([X[i][a] * y[i] for i in range(n)]),
                        f"normal equation {a}", 1e-5)
    err = [y[i] - ctx.sum([X[i][a] * beta[a, 0] for a in range(k)]) for i in range(n)]
    s2 = ctx.sum([e * e for e in err]) / (n - k)
    for a in range(k):
        for b in range(k):
            ctx.check_close(ctx.sum([var[a, c] * G[c][b] for c in range(k)]), s2 if a == b else 0,
                            f"covariance [{a},{b}]", 1e-5)


def chow(ctx, n, m, scale=1):
    y = ctx.reals("y", n, lo=-8, hi=8)
    ts = ctx.date_range(n, "1h")
    want = []
    for b in range(m, n - m):
        x = [y[t - 1] if t - 1 >= b else 0 for t in range(1, n)]
        d = [y[t] - y[t - 1] for t in range(1, n)]
        xx = ctx.sum([v * v for v in x])
        xd = ctx.sum([v * w for v, w in zip(x, d)])
        dd = ctx.sum([w * w for w in d])
        ctx.assume(xx > 0)
        ctx.assume(xx >= 1)
        beta = xd / xx
        rss_xx = dd * xx - xd * xd            # rss * xx
        ctx.assume(rss_xx > 0)
        ctx.assume(rss_xx >= 1)
        want.append((beta, rss_xx / (xx * xx) / (n - 2)))
    out = SupremumDickeyFullerChowStatTest(m).run(ctx.series(y if scale == 1 else [v / ctx.num(scale) for v in y], ts))
    ctx.check(len(out) == len(want), f"{len(out)} values instead of {len(want)}")
    ctx.check(list(out.index) == list(ts[m:n - m]), "one value per admissible bar, in order")
    for i, (beta, var) in enumerate(want):
        t = out.iloc[i]
        ctx.check(not ctx.isnan(t), f"statistic {i} is missing")
        ctx.check_close(t * t * var, beta * beta, f"squared statistic {i}")
        ctx.check(((t > 0) & (beta > 0)) | ((t < 0) & (beta < 0)) | ((t == 0) & (beta == 0)) if ctx.symbolic
                  else t * beta >= 0, f"sign of statistic {i}")


def cases(tier):
    out = []
    ks = [(3, 1, False), (3, 2, True), (4, 2, False)]
    cs = [(5, 1), (6, 2)]
    if tier == "thorough":
        ks += [(5, 2, True), (5, 3, True)]
        cs += [(6, 1), (7, 2), (8, 3)]
    for n, k, c in ks:
        out.append(Case(f"ols n={n} k={k}{' const' if c else ''}", kernel, f"all {n}x{k} full-rank designs{' with a constant column' if c else ''} and all targets, entries in [-8,8]", dict(n=n, k=k, const=c)))
    for n, k, c in [(3, 1, False), (3, 2, False)]:
        out.append(Case(f"ols n={n} k={k} small unit", kernel, f"all {n}x{k} full-rank designs in units of 1/20000, all targets, entries in [-8,8]", dict(n=n, k=k, const=c, scale=20000)))
    out.append(Case("chow n=5 min=1 small unit", chow, "all series of 5 bars in [-8,8] units of 1/20000", dict(n=5, m=1, scale=20000)))
    for n, k, free in [(40, 2, []), (24, 2, [(13, 1)]), (5, 3, []), (7, 4, []), (5, 3, [(2, 1)])] + ([(9, 5, []), (6, 4, [(1, 2)]), (5, 3, [(0, 1), (3, 2)])] if tier == "thorough" else []):
        out.append(Case(f"ols n={n} k={k} free={free}", kernel, f"a {n}x{k} design, fixed but for the entries {free}, all targets, entries in [-8,8]", dict(n=n, k=k, const=False, free=free)))
    for n, m in cs:
        out.append(Case(f"chow n={n} min={m}", chow, f"all series of {n} bars in [-8,8], minimum {m} samples", dict(n=n, m=m)))
    return out

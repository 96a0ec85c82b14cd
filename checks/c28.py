import warnings
from fractions import Fraction
import pandas as pd
from symx.case import Case
from mizarlabs.structural_breaks.sadf import SupremumAugmentedDickeyFullerStatTest

ASSUMPTIONS = ["every regression estimated has a design of full rank and residuals that are not all zero",
               "np.linalg.inv is the exact matrix inverse (the regression kernel itself is decided by C27)",
               "a few bars of the series are unknown, over fixed irregular values of the others"]
BASE = [3.0, 4.5, 4.0, 6.25, 5.0, 7.5, 9.0, 8.0, 11.0, 10.5, 9.25, 12.0, 11.5, 14.0, 12.25, 15.5, 13.0, 13.5, 16.0, 14.75, 12.5, 17.0, 18.5, 16.25, 19.0]
SM = ("sm_poly_1", "sm_poly_2", "sm_exp", "sm_power")


def solve(A, b):
    """Cramer over the field of the context's numbers: (solution, det A, first diagonal minor of A)"""
    n = len(A)
    d = det(A)
    xs = [det([[b[r] if c == k else A[r][c] for c in range(n)] for r in range(n)]) for k in range(n)]
    m = det([r[1:] for r in A[1:]]) if n > 1 else 1
    return xs, d, m


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum(((-1) ** c) * M[0][c] * det([r[:c] + r[c + 1:] for r in M[1:]]) for c in range(n) if not isz(M[0][c]))


def isz(x):
    return isinstance(x, (int, float, Fraction)) and x == 0


def design(ctx, y, model, lags, const):
    """rows (tested regressor first) and targets from the definition of the specification"""
    n = len(y)
    rows, out, at = [], [], []
    lags = list(range(1, lags + 1)) if isinstance(lags, int) else list(lags)
    if model in SM:
        for i in range(n):
            t = i + 1
            v = y[i] if model == "sm_poly_1" else ctx.log(y[i])
            lt = ctx.log(ctx.num(t)) if t > 1 else 0
            rows.append({"sm_poly_1": [t * t, t, 1], "sm_poly_2": [t * t, t, 1], "sm_exp": [t, 1], "sm_power": [lt, 1]}[model])
            out.append(v)
            at.append(i)
        return rows, out, at
    first = 1 + max(lags, default=0)
    for i in range(first, n):
        t = i - first + 1
        r = [y[i - 1]] + [y[i - l] - y[i - l - 1] for l in lags]
        if model in ("linear", "quadratic"):
            r.append(t)
        if model == "quadratic":
            r.append(t * t)
        if const:
            r.append(1)
        rows.append(r)
        out.append(y[i] - y[i - 1])
        at.append(i)
    return rows, out, at


def sadf(ctx, n, model, lags, minlen, const, phi, free):
    logs = model in SM and model != "sm_poly_1"
    y = []
    for i in range(n):
        if i in free:
            y.append(ctx.price(f"y{i}", logs=True) if logs else ctx.real(f"y{i}", lo=-20, hi=20))
        else:
            y.append(ctx.num(BASE[i]) if ctx.symbolic else BASE[i])
    rows, target, at = design(ctx, y, model, lags, const)
    m, k = len(rows), len(rows[0])
    want = []
    for end in range(minlen, m):
        stats = []
        for s in range(end - minlen + 2):
            X, d = rows[s:end + 1], target[s:end + 1]
            G = [[ctx.sum([r[a] * r[b] for r in X]) for b in range(k)] for a in range(k)]
            g = [ctx.sum([r[a] * v for r, v in zip(X, d)]) for a in range(k)]
            xs, D, M = solve(G, g)
            # rss * D = sum d^2 * D - xs.g
            R = ctx.sum([v * v for v in d]) * D - ctx.sum([a * b for a, b in zip(xs, g)])
            for c in (D, M, R):
                if not isz(c) and not isinstance(c, (int, float)):
                    ctx.assume(c > 0)
            if not ctx.symbolic:
                ctx.assume(D > 1e-7 and R > 1e-4 * float(ctx.sum([v * v for v in d])) * D and M > 1e-7)
            # t = b/sqrt(v), b = xs0/D, v = R/D/(rows-k) * M/D
            t = ctx.div(xs[0], 1) / ctx.sqrt(ctx.div(R * M, len(X) - k))
            if model in SM:
                t = ctx.abs(t) / (len(X) - 1) ** phi
            stats.append((t, ctx.sqrt(ctx.div(R * M, len(X) - k))))
        want.append(stats)
    ts = ctx.date_range(n, "1h")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = SupremumAugmentedDickeyFullerStatTest(model, lags, minlen, const, phi).run(ctx.series(y, ts))
    ctx.check(list(out.index) == [ts[i] for i in at[minlen:]], f"rows {list(out.index)}")
    for e, stats in enumerate(want):
        r = out.iloc[e]
        ctx.check(not ctx.isnan(r), f"end {e} is missing")
        ts_ = [t for t, _ in stats]
        above = below(ctx, ts_ + [r])
        anyeq = False
        for s, (t, q) in enumerate(stats):
            if ctx.symbolic:
                same = ctx.nearly(t, r) or (model in SM and ctx.nearly(t * t, r * r))    # those are absolute values
                if not above[s] and not same:
                    ctx.check((t - r) * q <= 1e-6, f"end {e}: the statistic is below that of start {s}")
                d = (t - r) * q
                anyeq = anyeq | (True if same else (d <= 1e-6) & (d >= -1e-6))
            else:
                ctx.check(t - r <= 1e-5 * (1 + abs(t)), f"end {e}: the statistic is below that of start {s}")
                anyeq = anyeq or abs(t - r) <= 1e-5 * (1 + abs(t))
        ctx.check(anyeq, f"end {e}: the statistic is that of no start")


def below(ctx, xs):
    """for each but the last: is it at most the last one by what the path knows (and transitivity)?"""
    n = len(xs)
    le = [[a == b or (ctx.symbolic and ctx.known(xs[a] <= xs[b]) is True) for b in range(n)] for a in range(n)]
    for k in range(n):
        for a in range(n):
            for b in range(n):
                le[a][b] = le[a][b] or (le[a][k] and le[k][b])
    return [le[a][n - 1] for a in range(n - 1)]


def settings(ctx):
    lag, ml = ctx.int("lag", lo=0, hi=6), ctx.int("minlen", lo=1, hi=8)
    how = ctx.choice("how", ["number", "list"])
    e = ctx.raises(AssertionError, lambda: SupremumAugmentedDickeyFullerStatTest("no_trend", lag if how == "number" else [1, lag], ml, True, 0.5))
    top = lag
    if how == "list" and bool(lag < 1):
        top = 1
    ctx.check((ml <= top) if e is not None else (ml > top), "a minimum length not above the lags is rejected, others are not")
    phi = ctx.real("phi", lo=-2, hi=2)
    e = ctx.raises(AssertionError, lambda: SupremumAugmentedDickeyFullerStatTest("no_trend", 1, 5, True, phi))
    ctx.check(((phi < 0) | (phi > 1)) if e is not None else (phi >= 0) & (phi <= 1), "phi outside [0,1] is rejected, inside it is not")
    m = SupremumAugmentedDickeyFullerStatTest("no_such_model", 1, 5, True, 0.5)
    ctx.check(ctx.raises(ValueError, lambda: m.run(ctx.series([ctx.num(v) for v in BASE], ctx.date_range(10, "1h")))) is not None, "unknown models are rejected")


def cases(tier):
    T = tier == "thorough"
    q = [("no_trend", 1, 4, False, 0.0, 7, (5,)), ("no_trend", 1, 5, True, 0.5, 8, (6,)), ("no_trend", [2], 4, False, 0.0, 8, (4,)), ("no_trend", [3, 1], 4, False, 0.0, 9, (6,)),
         ("no_trend", 0, 3, False, 0.0, 6, (4,)), ("linear", 1, 5, False, 0.0, 8, (5,)), ("quadratic", 0, 5, False, 0.0, 7, (6,)),
         ("sm_poly_1", 1, 5, True, 0.5, 7, (3,)), ("sm_poly_2", 1, 5, True, 1.0, 7, (5,)), ("sm_exp", 1, 4, False, 0.5, 7, (2,)), ("sm_power", 1, 4, True, 0.0, 6, (4,))]
    q += [("no_trend", 1, 6, True, 0.0, 16, (15,)), ("sm_poly_1", 1, 7, False, 0.5, 14, (13,)), ("quadratic", 2, 8, True, 0.0, 14, (13,))]
    if T:
        q += [("no_trend", 1, 3, False, 0.0, 6, (1, 4)), ("no_trend", [1, 3], 4, True, 0.0, 9, (6,)), ("linear", 2, 6, True, 0.0, 10, (7,)),
              ("quadratic", 1, 6, True, 0.0, 9, (8,)), ("sm_poly_1", 1, 4, True, 1.0, 7, (1, 4)), ("sm_exp", 1, 3, True, 1.0, 7, (2, 5)),
              ("sm_power", 1, 3, True, 0.5, 7, (0, 6)), ("sm_poly_2", 1, 5, True, 0.5, 8, (4,))]
    out = [Case(f"{m} lags={l} min={ml}{' const' if c else ''} phi={p} n={n} free={list(f)}", sadf,
                f"{n} bars, bars {list(f)} any values, the others fixed", dict(n=n, model=m, lags=l, minlen=ml, const=c, phi=p, free=f)) for m, l, ml, c, p, n, f in q]
    return out + [Case("settings", settings, "lags 0..6 (number or list), minimum length 1..8, phi in [-2,2]", {})]

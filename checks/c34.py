from symx.case import Case
from checks.common_feat import frame, column, unchanged
from checks.common_ta import indicator, vals, ASSUMPTIONS  # noqa
from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver

NAN = float("nan")


def outputs(ctx, n, missing, lead, free=None):
    """the library's three lines: any values, any missing (or only the first ones)"""
    out = []
    for k, nm in enumerate(("macd", "signal", "hist")):
        miss = [ctx.flag(f"{nm}_missing{i}") for i in range(n)] if missing and k == 2 else [i < lead for i in range(n)]
        out.append([NAN if m else ctx.real(f"{nm}{i}", lo=-50, hi=50) if free is None or i in free else float(i // 3 * 5 % 7 - 3) for i, m in enumerate(miss)])
    return out


def cross(ctx, n, missing, lead, calls, free=None):
    col, given = ctx.choice("column", ["close", "px"]), ctx.flag("periods given")
    x = ctx.reals("x", n, lo=1, hi=100)
    data = {col: x}
    X = frame(ctx, n, data, ["noise", "close" if col != "close" else "px"])
    k = {} if col == "close" else {"column_name": col}
    per = (12, 26, 9)
    if given:
        per = tuple(ctx.int(p, lo=2, hi=40) for p in ("fast", "slow", "signal"))
        ctx.assume(per[0] <= per[1])
        k.update(fast_period=per[0], slow_period=per[1], signal_period=per[2])
    lines = outputs(ctx, n, missing, lead, free)
    log = []

    def fn(a, s):
        log.append(([vals(v) for v in a], dict(s)))
        return tuple(ctx.array(v) for v in lines)

    with indicator("MACD", fn):
        tr = MACDHistogramCrossOver(**k)
        for c in range(calls):
            h = lines[2]
            got = column(ctx, tr.fit(X).transform(X), n)
            for i in range(n):
                if i == 0 or ctx.isnan(h[i]) or ctx.isnan(h[i - 1]):
                    ctx.check(ctx.isnan(got[i]), f"bar {i}: the change is not known")
                    continue
                ctx.check(not ctx.isnan(got[i]), f"bar {i} is missing")
                # by cases of the two signs
                ctx.check_close(got[i], (ctx.sign(h[i]) - ctx.sign(h[i - 1])) / 2, f"half the change of sign at bar {i}")
    ctx.check(len(log) >= calls, "the indicator is used")
    for a, s in log:
        ctx.check(len(a) == 1, "one argument")
        ctx.check_all_same(a[0], x, "the indicator is given the column")
        ctx.check(set(s) == {"fastperiod", "slowperiod", "signalperiod"}, f"settings {sorted(s)}")
        for q, v in zip(("fastperiod", "slowperiod", "signalperiod"), per):
            ctx.check(s[q] == v, f"setting {q}")
    unchanged(ctx, X, data)


def settings(ctx):
    f, s = ctx.int("fast", lo=1, hi=60), ctx.int("slow", lo=1, hi=60)
    e = ctx.raises(ValueError, lambda: MACDHistogramCrossOver(fast_period=f, slow_period=s))
    ctx.check((f > s) if e is not None else (f <= s), "a fast period longer than the slow one is rejected, others are not")


def cases(tier):
    q = [(3, True, 0, 1), (4, False, 1, 2), (5, False, 0, 1)] + ([(4, True, 0, 1), (6, False, 2, 1), (7, False, 0, 1)] if tier == "thorough" else [])
    return [Case(f"cross n={n}{' missing' if m else ''} lead={l} calls={c}", cross,
                 f"{n} bars, any histogram values ({'any missing' if m else f'first {l} missing'}), any periods up to 40, either column",
                 dict(n=n, missing=m, lead=l, calls=c)) for n, m, l, c in q] + [Case(f"cross n={n} lead={l} free={list(f)}", cross, f"{n} bars, histogram values at {list(f)} any, the others set, first {l} missing",
                                     dict(n=n, missing=False, lead=l, calls=1, free=f)) for n, l, f in [(60, 33, (40, 58)), (45, 10, (20,))]
            + ([(300, 33, (100, 101, 250))] if tier == "thorough" else [])] + [Case("settings", settings, "all period pairs up to 60", {})]

import math
import pandas as pd
from fractions import Fraction
from symx.case import Case
from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities, discretise_signal

ASSUMPTIONS = ["signals are any reals in [-1,1], or in [-2,2] where the case says so", "ties may be rounded either way"]
HALF = Fraction(1, 2000)


def frac(ctx, x):
    return Fraction(repr(x)) if ctx.symbolic else x


def nearest(ctx, s, d, st, msg):
    """d is a multiple of st (to three decimals, capped), and no multiple is nearer to s"""
    h = HALF if ctx.symbolic else 1 / 2000 + 1e-9
    eps = 0 if ctx.symbolic else 1e-9
    ctx.check((d <= 1 + eps) & (d >= -1 - eps), msg + ": capped")
    # within half a step (the cap only brings it nearer): no multiple is nearer
    e, half = s - d, st / 2
    ctx.check(((e <= half + h) | (d >= 1 - eps)) & ((-e <= half + h) | (d <= -1 + eps)), msg + ": a multiple of the step is nearer")
    known = isinstance(st, (int, float, Fraction))
    # the multiple is next to the one nearest to the signal (known steps: to the size itself)
    k = ctx.rint(ctx.div(d if known else s, st))
    onto = None
    for m in [(k + j) * st for j in ([0] if known else [0, 1, -1])]:
        here = (d - m <= h) & (m - d <= h)
        onto = here if onto is None else onto | here
    if known:
        # capped only on the way to the first multiple beyond one
        cap = (math.ceil(1 / st) - Fraction(1, 2)) * st - h if ctx.symbolic else (math.ceil(1 / st) - .5) * st - h
        ctx.check(onto | ((d >= 1 - eps) & (s >= cap)) | ((d <= -1 + eps) & (s <= -cap)), msg + ": a multiple of the step")
    else:
        ctx.check(onto | (d >= 1 - eps) | (d <= -1 + eps), msg + ": a multiple of the step")


def many(ctx, n, step, free):
    """many signals, those in free any, the others set"""
    s = [ctx.real(f"s{i}", lo=-1, hi=1) if i in free else (i * 45 % 201 - 100) / 100 + (.003 if i % 4 == 0 and i * 45 % 201 < 190 else 0) for i in range(n)]
    sig = ctx.series(s, ctx.date_range(n))
    out = discretise_signal(sig, step)
    ctx.check(list(out.index) == list(sig.index), "index of the input")
    for i in range(n):
        d = out.iloc[i]
        if i in free:
            nearest(ctx, s[i], d, frac(ctx, step), f"signal {i}")
            ctx.check(((s[i] >= 0) & (d >= 0)) | ((s[i] <= 0) & (d <= 0)), "sign is kept")
        else:
            e = abs(round(min(1, max(-1, round(s[i] / step) * step)), 3) - float(d))
            ctx.check(e < 1e-9 or abs(abs(s[i] / step % 1) - .5) < 1e-6 and abs(e - step) < 2e-3, f"signal {i}: {s[i]} becomes {d}")


def discretise(ctx, n, step, top=1):
    st = ctx.real("step", lo=Fraction(1, 50), hi=Fraction(99, 100)) if step == "sym" else step
    s = ctx.reals("s", n, lo=-top, hi=top)
    sig = ctx.series(s, ctx.date_range(n))
    keep = list(s)
    out = discretise_signal(sig, st)
    ctx.check(list(out.index) == list(sig.index), "index of the input")
    ctx.check_all_same(list(sig.values), keep, "the input is left alone")
    stq = st if step == "sym" else frac(ctx, st)
    for i in range(n):
        nearest(ctx, s[i], out.iloc[i], stq, f"signal {i}")
        d = out.iloc[i]
        ctx.check(((s[i] >= 0) & (d >= 0)) | ((s[i] <= 0) & (d <= 0)), "sign is kept")
    for i in range(n):
        for k in range(i):
            a, b = (s[i], s[k]), (out.iloc[i], out.iloc[k])
            ctx.check((a[0] > a[1]) | (b[0] <= b[1]), "order is kept")
            ctx.check((a[0] < a[1]) | (b[0] >= b[1]), "order is kept")


def bad_step(ctx):
    st = ctx.real("step", lo=-3, hi=3)
    ctx.assume((st <= 0) | (st >= 1))
    ctx.check(ctx.raises(AssertionError, lambda: discretise_signal(ctx.series(ctx.reals("s", 2, lo=-1, hi=1)), st)) is not None,
              "step sizes outside (0,1) are rejected")
    ctx.check(ctx.raises(AssertionError, lambda: BetSizingFromProbabilities(2, discretise=True, step_size=st)) is not None,
              "step sizes outside (0,1) are rejected by the transformer")


def good_step(ctx):
    st = ctx.real("step", lo=0, hi=1)
    ctx.assume((st > 0) & (st < 1))
    BetSizingFromProbabilities(2, discretise=True, step_size=st)
    discretise_signal(ctx.series([]), st)
    ctx.check(True, "accepted")


def transformer(ctx, n, step, active):
    """the transformer discretises (after averaging) and then takes the absolute value"""
    p = [ctx.real(f"p{i}", lo=Fraction(1, 100), hi=Fraction(99, 100)) for i in range(n)]
    y = [[-1, 1, 1][i % 3] for i in range(n)]
    idx = ctx.date_range(n)
    df = ctx.frame({"prob": p, "pred": y}, idx)
    df["event_end_time"] = pd.DatetimeIndex([pd.NaT] + [idx[-1] + pd.Timedelta(days=9)] * (n - 1))
    out = BetSizingFromProbabilities(num_classes=2, average_active=active, discretise=True, step_size=step).transform(df)
    h = ctx.num(1) / 2
    b = [y[i] * (2 * ctx.Phi(ctx.div(p[i] - h, ctx.sqrt(p[i] * (1 - p[i])))) - 1) for i in range(n)]
    if active:
        b = [ctx.mean(b[:i + 1]) for i in range(n)] + ([0 * b[0] + b[0]] if n > 1 else [])
    ctx.check(len(out) == len(b), "one size per time")
    st = frac(ctx, step)
    for i, s in enumerate(b):
        v = out.iloc[i]
        ctx.check(v >= 0, "absolute value")
        nearest(ctx, ctx.abs(s), v, st, f"size {i}")


def cases(tier):
    q = [(2, 0.1), (2, 0.25), (2, 0.3), (1, 0.07), (1, "sym"), (2, "sym"), (1, 0.6)] + ([(3, 0.05), (2, 0.45), (1, 0.125), (3, "sym")] if tier == "thorough" else [])
    out = [Case(f"discretise n={n} step={s}", discretise, f"{n} signals, step size {'any in [0.02,0.99]' if s == 'sym' else s}",
                dict(n=n, step=s)) for n, s in q]
    out += [Case(f"discretise beyond one n={n} step={s}", discretise, f"{n} signals in [-2,2], step size {s}", dict(n=n, step=s, top=2))
            for n, s in [(2, 0.3), (1, 0.7), (1, "sym")]]
    out += [Case(f"many n={n} step={s}", many, f"{n} signals, those at {f} any in [-1,1], step {s}", dict(n=n, step=s, free=f))
            for n, s, f in [(40, 0.1, (3, 31)), (101, 0.25, (100,))] + ([(400, 0.07, (200, 201))] if tier == "thorough" else [])]
    out += [Case("bad step", bad_step, "any step in [-3,3] outside (0,1)", {}), Case("good step", good_step, "any step in (0,1)", {})]
    out += [Case(f"transformer n={n} step={s}" + (" averaged" if a else ""), transformer, f"{n} bets, any probabilities in [0.01,0.99]", dict(n=n, step=s, active=a))
            for n, s, a in [(2, 0.1, False), (2, 0.3, True)]]
    return out

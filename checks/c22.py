from symx.case import Case
from checks.common_feat import frame, column, some, unchanged, GRID, NAN
from mizarlabs.transformers.technical.moving_average import MovingAverageCrossOver, MovingAverageCrossOverPredictor

ASSUMPTIONS = [GRID]


def crossings(ctx, x, fast, slow):
    """+1/-1/0 at each bar from the definition"""
    n = len(x)
    d = [NAN if i < slow - 1 else ctx.mean(x[i - fast + 1:i + 1]) - ctx.mean(x[i - slow + 1:i + 1]) for i in range(n)]
    out = [0] * n
    for i in range(slow, n):
        if bool(d[i - 1] <= 0) and bool(d[i] > 0):
            out[i] = 1
        elif bool(d[i - 1] >= 0) and bool(d[i] < 0):
            out[i] = -1
    return out


def hold(xs):
    out, last = [], 0
    for x in xs:
        last = x if x else last
        out.append(last)
    return out


def cross(ctx, n, fast, slow, fill, pred, rep=False, free=None):
    x = some(ctx, "x", n, free, -100, 100)
    X = frame(ctx, n, {"px": x})
    k = {"fill_between_crossovers": True} if fill else {}
    tr = (MovingAverageCrossOverPredictor if pred else MovingAverageCrossOver)(fast, slow, "px", **k)
    want = crossings(ctx, x, fast, slow)
    want = hold(want) if fill else want
    for call in range(2 if rep else 1):
        got = column(ctx, tr.fit(X).transform(X), n)
        ctx.check(all(int(g) == w for g, w in zip(got, want)), f"signal {[int(g) for g in got]} instead of {want}")
        if pred:
            p = tr.predict(X)
            ctx.check(p.shape == (n,) and all(int(g) == w for g, w in zip(p, want)), f"prediction {list(p)} instead of {want}")
            q = tr.predict_proba(X)
            ctx.check(q.shape == (n, 3) and tr.n_classes_ == 3 and [float(c) for c in tr.classes_] == sorted({-1.0, 0.0, 1.0}), "classes")
            for i in range(n):
                row = [float(v) for v in q[i]]
                ctx.check(row == [1.0 if float(c) == want[i] else 0.0 for c in tr.classes_], f"probabilities {row} for {want[i]}")
    unchanged(ctx, X, {"px": x})


def windows(ctx):
    f, s = ctx.int("fast", lo=1, hi=8), ctx.int("slow", lo=1, hi=8)
    for cls in (MovingAverageCrossOver, MovingAverageCrossOverPredictor):
        e = ctx.raises(ValueError, lambda: cls(f, s, "px"))
        ctx.check((f > s) if e is not None else (f <= s), "a fast window longer than the slow one is rejected, others are not")


def cases(tier):
    q = [(5, 1, 2, False, True), (5, 1, 2, True, True), (5, 2, 3, False, False), (6, 1, 3, True, False), (6, 2, 4, True, True), (41, 1, 40, False, True), (62, 20, 60, True, False)]
    if tier == "thorough":
        q += [(7, 1, 2, True, True), (8, 2, 4, False, True), (8, 3, 5, True, False), (7, 1, 3, False, False), (4, 2, 2, True, True), (103, 50, 100, True, True)]
    else:
        q += [(4, 2, 2, True, True)]
    out = [Case(f"cross n={n} fast={f} slow={s}{' filled' if fi else ''}{' predictor' if p else ''}", cross,
                f"{n} bars, all values in [-100,100] (ties included), windows {f}/{s}", dict(n=n, fast=f, slow=s, fill=fi, pred=p)) for n, f, s, fi, p in q]
    for n, f, s, fi, p, fr in [(300, 20, 100, True, True, (150,)), (130, 5, 30, False, False, (2, 90))]:
        out.append(Case(f"cross n={n} fast={f} slow={s} free={list(fr)}", cross, f"{n} bars, values at {fr} any in [-100,100], the others set, windows {f}/{s}", dict(n=n, fast=f, slow=s, fill=fi, pred=p, free=fr)))
    out.append(Case("cross repeated", cross, "4 bars, windows 1/2, the same object called twice", dict(n=4, fast=1, slow=2, fill=True, pred=True, rep=True)))
    out.append(Case("windows", windows, "all window pairs up to 8", {}))
    return out

import pandas as pd
from symx.case import Case
from checks.common_labels import spans, fixed, rows, alive, ASSUMPTIONS  # noqa
from mizarlabs.model.bootstrapping import get_ind_matrix


def check_matrix(ctx, m, idx, starts, ends, bars):
    want = rows(starts, ends, bars)
    if idx is not None:
        ctx.check_equal_times(idx, want, "row times")
    ctx.check(m.shape == (len(want), len(starts)), f"shape {m.shape}")
    d = m.toarray()
    for r, t in enumerate(want):
        for i in range(len(starts)):
            v = d[r, i]
            ctx.check(v == (1 if alive(t, starts[i], ends[i]) else 0), f"entry of row {r}, label {i}: {v}")


def matrix(ctx, n, nb, ordered, with_idx, col="end", free=None):
    starts, ends = spans(ctx, n, ordered, free=free)
    bars = ctx.times("b", nb) if nb and free is None else fixed(ctx, nb, True) if nb else []
    info = ctx.tseries(ends, ctx.index(starts), name=col)
    bars = bars or starts[:1]
    frame = ctx.frame({"close": [1.0] * len(bars)}, ctx.index(bars))
    out = get_ind_matrix(info, frame, col, return_indices=with_idx) if with_idx else get_ind_matrix(info, frame, col)
    m, idx = out if with_idx else (out, None)
    check_matrix(ctx, m, idx, starts, ends, bars)


def own_bars(ctx, n):
    """labels opened at the bars themselves"""
    starts, ends = spans(ctx, n, True)
    info = ctx.tseries(ends, ctx.index(starts), name="end")
    frame = ctx.frame({"close": [1.0] * n}, ctx.index(starts))
    m, idx = get_ind_matrix(info, frame, "end", return_indices=True)
    check_matrix(ctx, m, idx, starts, ends, starts)


def missing(ctx, n, what):
    starts, ends = spans(ctx, n, True)
    k = ctx.choice("which", range(n))
    if what == "end":
        ends[k] = pd.NaT
    else:
        starts[k] = pd.NaT
    info = ctx.tseries(ends, ctx.tseries(starts), name="end")
    ok = [t for t in starts if t is not pd.NaT]
    frame = ctx.frame({"close": [1.0] * len(ok)}, ctx.index(ok))
    ctx.check(ctx.raises(ValueError, lambda: get_ind_matrix(info, frame, "end")) is not None, f"missing {what} is rejected")


def cases(tier):
    out = []
    q = [(1, 0, True, True), (1, 2, True, False), (2, 0, False, True), (2, 1, False, True), (2, 2, True, True), (3, 0, True, True)]
    if tier == "thorough":
        q += [(2, 2, False, True), (3, 0, False, True), (3, 1, True, False), (2, 3, True, True)]
    for n, nb, o, w in q:
        out.append(Case(f"matrix labels={n} bars={nb}" + ("" if o else " unordered"), matrix,
                        f"{n} labels at any times{' in order' if o else ' in any order, starts may coincide'}, {nb} further bars at any times",
                        dict(n=n, nb=nb, ordered=o, with_idx=w)))
    for n, nb, o, free in [(12, 15, False, (4,)), (20, 30, True, (9,)), (10, 0, False, (3,))] + ([(60, 90, False, (30,)), (15, 20, True, (3, 8))] if tier == "thorough" else []):
        out.append(Case(f"matrix labels={n} bars={nb}{'' if o else ' unordered'} free={list(free)}", matrix,
                        f"{n} labels and {nb} bars at fixed irregular times, any end of labels {list(free)}",
                        dict(n=n, nb=nb, ordered=o, with_idx=True, free=free)))
    for n in ([3, 4] if tier == "thorough" else [3]):
        out.append(Case(f"labels at the bars n={n}", own_bars, f"{n} labels opened at {n} bars, ends at any times", dict(n=n)))
    for w in ("end", "start"):
        out.append(Case(f"missing {w}", missing, f"2 labels, any one {w} missing", dict(n=2, what=w)))
    return out

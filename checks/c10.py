import numpy as np
import pandas as pd
from scipy import sparse
from symx.case import Case
from checks.common_labels import spans, uniqueness, label_frame, distinct, ASSUMPTIONS  # noqa
from mizarlabs.model.bootstrapping import calc_average_uniqueness
from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness


def transform(ctx, n, ordered, col, free=None):
    starts, ends = spans(ctx, n, ordered, free=free)
    if not ordered and free is None:
        for i in range(n):
            for j in range(i):
                ctx.assume(starts[i] != starts[j])
    df = label_frame(ctx, starts, ends, col)
    df["other"] = np.arange(n) + .5
    out = (AverageUniqueness() if col == "event_end_time" else AverageUniqueness(col)).transform(df)
    ctx.check_equal_times(out.index, starts, "index of the input")
    want = uniqueness(ctx, starts, ends, starts)
    ctx.check_all_close(out.values, want, "average uniqueness")
    for i in range(n):
        v = out.values[i]
        ctx.check(v > 0 and v <= 1 + 1e-12, "in (0,1]")
        lone = all(bool(ends[i] < starts[j]) or bool(ends[j] < starts[i]) for j in range(n) if j != i)
        ctx.check((v >= 1 - 1e-9) == lone, "one exactly without overlap")


def from_matrix(ctx, rows, n):
    """any set of spans over a fixed number of rows"""
    m = np.zeros((rows, n))
    for i in range(n):
        a = ctx.choice(f"from{i}", range(rows))
        b = ctx.choice(f"to{i}", range(a, rows))
        m[a:b + 1, i] = 1
    if not m.any(axis=1).all():
        ctx.assume(False)
    conc = m.sum(axis=1)
    got = calc_average_uniqueness(sparse.csc_matrix(m))
    want = [np.mean([1 / conc[r] for r in range(rows) if m[r, i]]) for i in range(n)]
    ctx.check_all_close(got, want, "average uniqueness")


def cases(tier):
    q = [(1, True), (2, False), (3, True)] + ([(4, True), (3, False)] if tier == "thorough" else [])
    out = [Case(f"transform n={n}" + ("" if o else " unordered"), transform,
                f"{n} labels at any distinct times{'' if o else ' in any order'}, ends at any times", dict(n=n, ordered=o, col=c))
           for (n, o), c in zip(q, ["event_end_time", "expiry", "event_end_time", "expiry", "event_end_time"])]
    for n, o, free in [(14, False, (5,)), (25, True, (11,))] + ([(60, False, (20,)), (15, True, (3, 8))] if tier == "thorough" else []):
        out.append(Case(f"transform n={n}{'' if o else ' unordered'} free={list(free)}", transform,
                        f"{n} labels at fixed irregular times, any end of labels {list(free)}", dict(n=n, ordered=o, col="expiry", free=free)))
    for r, n in [(3, 3)] + ([(4, 3)] if tier == "thorough" else []):
        out.append(Case(f"matrix rows={r} labels={n}", from_matrix, f"every choice of spans of {n} labels over {r} rows", dict(rows=r, n=n)))
    return out

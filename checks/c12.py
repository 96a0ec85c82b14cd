import numpy as np
from symx.case import Case
from checks.common_labels import spans, label_frame, alive, ASSUMPTIONS as A
from checks.common_feat import some
from mizarlabs.transformers.sample_weights import SampleWeightsByReturns

ASSUMPTIONS = A + ["prices are exp(u) for any real u in [-4,4]", "the first bar of the data has no return and contributes nothing"]


def weights(ctx, n, at_bars, cols, free=None, price=None):
    starts, ends = spans(ctx, n, True, at_bars, free=free)
    p = ctx.prices("p", n, logs=True) if free is None else some(ctx, "p", n, price, 1, 9, logs=True)
    end_col, close_col = cols
    df = label_frame(ctx, starts, ends, end_col, **{close_col: p, "noise": ctx.prices("q", n) if free is None else [2.0] * n})
    kw = {} if cols == ("event_end_time", "close") else dict(event_end_time_column_name=end_col, close_column_name=close_col)
    out = SampleWeightsByReturns(**kw).transform(df)
    ctx.check_equal_times(out.index, starts, "index of the input")
    for i in range(n):
        acc = 0
        for b in range(n):
            if b > 0 and alive(starts[b], starts[i], ends[i]):
                conc = sum(alive(starts[b], starts[k], ends[k]) for k in range(n))
                acc = acc + (ctx.log(p[b]) - ctx.log(p[b - 1])) / conc
        ctx.check_close(out.values[i], ctx.abs(acc), f"weight of label {i}")


def cases(tier):
    q = [(2, False), (3, False), (3, True), (4, True)] + ([(4, False), (5, True)] if tier == "thorough" else [])
    c = [("event_end_time", "close"), ("expiry", "last")]
    long = [(20, (8,), (5,)), (30, (), (3, 11, 29))] + ([(60, (8,), (30,)), (25, (3, 12), (9,))] if tier == "thorough" else [])
    out = [Case(f"weights n={n} free={list(f)}/{list(p)}", weights,
                f"{n} bars at fixed irregular times, any end of labels {list(f)} and any price at bars {list(p)}",
                dict(n=n, at_bars=False, cols=c[0], free=f, price=p)) for n, f, p in long]
    return out + [Case(f"weights n={n}" + (" ends at bars" if b else ""), weights,
                 f"{n} bars at any times, one label each, ends " + ("at any later bar" if b else "at any times") + ", all prices",
                 dict(n=n, at_bars=b, cols=c[k % 2])) for k, (n, b) in enumerate(q)]

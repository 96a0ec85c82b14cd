from fractions import Fraction
from symx.case import Case
from checks.common_labels import spans, label_frame, uniqueness, ASSUMPTIONS  # noqa
from mizarlabs.transformers.sample_weights import SampleWeightsByTimeDecay


def decay(ctx, n, ordered, c, col, free=None):
    """c: a number, or 'sym' (any in [0,1]), 'neg' (any in (-1,0)), 'big' (any > 1)"""
    if c == "sym":
        c = ctx.real("c", lo=0, hi=1)
    elif c == "neg":
        c = ctx.real("c", lo=-1, hi=0, lo_open=True)
        ctx.assume(c < 0)
    elif c == "big":
        c = ctx.real("c", lo=1, lo_open=True)
    starts, ends = spans(ctx, n, ordered, free=free)
    if not ordered and free is None:
        for i in range(n):
            for j in range(i):
                ctx.assume(starts[i] != starts[j])
    df = label_frame(ctx, starts, ends, col)
    tf = SampleWeightsByTimeDecay(c) if col == "event_end_time" else SampleWeightsByTimeDecay(c, col)
    if ctx.isnan(c) or bool(c > 1):
        ctx.check(ctx.raises(AssertionError, lambda: tf.transform(df)) is not None, "a parameter above one is rejected")
        return
    out = tf.transform(df)
    order = sorted(range(n), key=_key(starts))
    u = uniqueness(ctx, starts, ends, starts)
    got = dict_by(ctx, out, starts, n)
    tot = sum(u)
    cum, acc = {}, 0
    for i in order:
        acc += u[i]
        cum[i] = acc
    prev = None
    for i in order:
        x = cum[i] / tot
        x = Fraction(x).limit_denominator(10 ** 6) if ctx.symbolic else x
        if bool(c >= 0):
            want = c + (1 - c) * x
        else:
            want = ctx.max([0, ctx.div(x + c, 1 + c)])
        ctx.check_close(got[i], want, f"weight of label {i}")
        ctx.check(got[i] >= 0, "never negative")
        if prev is not None:
            ctx.check(got[i] >= prev - 1e-9, "never decreasing")
        prev = got[i]
    ctx.check_close(prev, 1, "the newest label has weight one")


def _key(starts):
    import functools
    return functools.cmp_to_key(lambda a, b: 0 if a == b else (-1 if bool(starts[a] < starts[b]) else 1))


def dict_by(ctx, out, starts, n):
    ctx.check(len(out) == n, "one weight per label")
    got = {}
    for t, v in zip(out.index, out.values):
        for i in range(n):
            if i not in got and bool(t == starts[i]):
                got[i] = v
                break
    ctx.check(len(got) == n, "one weight per label")
    return got


def cases(tier):
    q = [(1, True, "sym"), (2, False, 0), (3, True, "sym"), (2, True, "neg"), (3, True, -0.5), (2, True, "big"), (3, True, 1)]
    if tier == "thorough":
        q += [(3, False, "sym"), (4, True, 0.3), (3, True, "neg"), (4, True, -0.25)]
    long = [(14, False, 0.25, (5,)), (20, True, -0.4, (9,)), (12, True, "sym", ()), (12, False, "neg", ())] + (
        [(50, False, 0.1, (20,)), (14, True, "sym", (4,))] if tier == "thorough" else [])
    out = [Case(f"decay n={n} parameter={c}{'' if o else ' unordered'} free={list(f)}", decay,
                f"{n} labels at fixed irregular times, any end of labels {list(f)}; parameter {c}",
                dict(n=n, ordered=o, c=c, col="event_end_time", free=f)) for n, o, c, f in long]
    return out + [Case(f"decay n={n} parameter={c}" + ("" if o else " unordered"), decay,
                 f"{n} labels at any distinct times{'' if o else ' in any order'}, ends at any times; parameter "
                 + {"sym": "any in [0,1]", "neg": "any in (-1,0)", "big": "any above 1"}.get(c, str(c)),
                 dict(n=n, ordered=o, c=c, col="event_end_time" if k % 2 else "expiry")) for k, (n, o, c) in enumerate(q)]

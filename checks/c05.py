from symx.case import Case
from .common_tbm import run, expected_end, EVENT_END_TIME, RETURN, LABEL, ASSUMPTIONS
from .c04 import grid, name, bounds


def label(ctx, n, exp, pt, sl, side, meta, adj, miss, explab=False, cols=("close", "side"), free=None):
    ts, p, s, vol, out = run(ctx, n, exp, pt, sl, side, meta, adj, miss, explab, cols, free)
    for i in range(n):
        e, r, l = out[EVENT_END_TIME].iloc[i], out[RETURN].iloc[i], out[LABEL].iloc[i]
        if ctx.isnan(vol[i]) or ctx.isnan(e):
            ctx.check(ctx.isnan(r) and ctx.isnan(l) and ctx.isnan(e), f"bar {i} is not an event: no return or label")
            continue
        k = ts.index(e)
        want = p[k] / p[i] - 1
        if meta:
            want = want * s[i]
        ctx.check_close(r, want, f"return of bar {i}")
        sg = ctx.sign(want)
        if meta:
            lw = 1 if sg > 0 else 0 if sg < 0 else float("nan")
        else:
            lw = sg
        if explab:
            touched = [t for b, t in expected_end(ctx, n, exp, p, s, vol, pt, sl, i) if b == k]
            if touched and not touched[0]:
                lw = 0
        ctx.check_close(l, lw, f"label of bar {i}")


def cases(tier):
    out = []
    for g in grid(tier):
        for explab in (False, True):
            h = dict(g, explab=explab)
            if explab and h["n"] > 4 and not h.get("free") and h["pt"] != .5:
                continue
            if "cols" in g and not explab:
                continue
            out.append(Case("labels " + name(h), label,
bounds(h), h))
    return out

from symx.case import Case
from .common_tbm import run, expected_end, EVENT_END_TIME, ASSUMPTIONS


def end_time(ctx, n, exp, pt, sl, side, meta, adj, miss, explab=False, cols=("close", "side"), free=None):
    ts, p, s, vol, out = run(ctx, n, exp, pt, sl, side, meta, adj, miss, explab, cols, free)
    for i in range(n):
        e = out[EVENT_END_TIME].iloc[i]
        if ctx.isnan(vol[i]):
            ctx.check(ctx.isnan(e), f"bar {i} has no volatility, so no end time")
            continue
        want = expected_end(ctx, n, exp, p, s, vol, pt, sl, i)
        got = [k for k, _ in want if (k is None and ctx.isnan(e)) or (k is not None and not ctx.isnan(e) and e == ts[k])]
        ctx.check(bool(got), f"end time of bar {i} is {e}, expected bar {[k for k, _ in want]}")


def grid(tier):
    q = [dict(n=5, exp=2, pt=1, sl=1, side="none", meta=False, adj=False, miss=0),
         dict(n=5, exp=3, pt=.05, sl=.5, side="none", meta=False, adj=False, miss=0),
         dict(n=5, exp=2, pt=.5, sl=.25, side="mixed", meta=True, adj=False, miss=0),
         dict(n=5, exp=2, pt=0, sl=.25, side="flat", meta=True, adj=False, miss=0),
         dict(n=5, exp=3, pt=.25, sl=0, side="short", meta=True, adj=False, miss=0),
         dict(n=5, exp=2, pt=2, sl=1, side="mixed", meta=True, adj=True, miss=1),
         dict(n=4, exp=2, pt=1, sl=2, side="none", meta=False, adj=True, miss=2),
         dict(n=4, exp=3, pt=1, sl=1, side="mixed", meta=False, adj=False, miss=0),
         dict(n=4, exp=1, pt=.5, sl=.5, side="mixed", meta=True, adj=False, miss=0),
         dict(n=4, exp=2, pt=.5, sl=.5, side="mixed", meta=True, adj=False, miss=0, cols=("px", "pos"), explab=True),
         dict(n=4, exp=6, pt=.5, sl=.5, side="none", meta=False, adj=False, miss=0),
         dict(n=3, exp=3, pt=.5, sl=.5, side="mixed", meta=True, adj=False, miss=0),
         dict(n=1, exp=2, pt=.5, sl=.5, side="short", meta=True, adj=False, miss=0),
         dict(n=1, exp=1, pt=.5, sl=0, side="none", meta=False, adj=False, miss=0),
         dict(n=3, exp=1, pt=.5, sl=.5, side="mixed", meta=True, adj=True, miss=3),
         dict(n=60, exp=30, pt=5, sl=.9, side="none", meta=False, adj=False, miss=0, free=[33]),
         dict(n=45, exp=12, pt=2, sl=1.5, side="mixed", meta=True, adj=True, miss=4, free=[20])]
    if tier == "thorough":
        q += [dict(n=7, exp=2, pt=1, sl=1, side="none", meta=False, adj=False, miss=0),
              dict(n=6, exp=3, pt=.05, sl=.5, side="mixed", meta=True, adj=False, miss=0),
              dict(n=6, exp=4, pt=.1, sl=0, side="mixed", meta=True, adj=False, miss=0),
              dict(n=6, exp=2, pt=2, sl=1, side="flat", meta=True, adj=True, miss=1),
              dict(n=6, exp=3, pt=0, sl=0.5, side="short", meta=True, adj=False, miss=0),
              dict(n=6, exp=2, pt=1, sl=1, side="none", meta=False, adj=True, miss=3),
              dict(n=150, exp=100, pt=20, sl=.95, side="none", meta=False, adj=False, miss=0, free=[120])]
    return q


def name(g):
    return " ".join(f"{k}={v if not isinstance(v, tuple) else '/'.join(v)}" for k, v in g.items())


def bounds(g):
    if g.get("free"):
        return f"{g['n']} bars, any price in [1, 30] at bars {g['free']}, fixed irregular ones at the others; {name(g)}"
    return f"{g['n']} bars, every positive price (and volatility) path; {name(g)}"


def cases(tier):
    return [Case("tbm " + name(g), end_time, bounds(g), g)
            for g in grid(tier)]

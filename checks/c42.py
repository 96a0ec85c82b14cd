import itertools
from checks.common_sched import LATE, batches, plan
import numpy as np
import pandas as pd
from symx.case import Case
from checks.c41 import NAMES, OPS, Setting, compare
from checks.common_bag import Plain, Weighted, bagging, bars, ilist, infos, sources

INTERPRETED = True
ASSUMPTIONS = ["iterations of a parallel loop run in any order, each with scalars of its own; where two iterations write the same cell, the one also runs as a whole "
               "between any two lines of the other", "inner parallel loops run in order, as numba runs them", "batches of joblib run in any order",
               "kernels run as their Python source, in the replays too; whether the answer of the loop run in order is right is decided by the other checks"]
ORDERS = {"reversed": lambda n: range(n)[::-1], "rotated": lambda n: [(i + 1) % n for i in range(n)], "second half first": lambda n: [(i + n // 2) % n for i in range(n)],
          "odd first": lambda n: [*range(1, n, 2), *range(0, n, 2)], "stride": lambda n: sorted(range(n), key=lambda i: (i * 5 % 7, i))}


def order(ctx, sizes):
    """any order of up to three iterations, one of several for more"""
    most = max(sizes, default=0)
    if most > 3:
        return ORDERS[ctx.choice("order", sorted(ORDERS))]
    ways = list(itertools.permutations(range(most)))
    perm = ctx.choice(f"order of {most}", ways[1:] or ways)
    return lambda n: [i for i in perm if i < n] if n <= most else range(n)


def agree(ctx, got, want, what):
    ctx.check(len(got) == len(want), f"{what}: {len(got)} results instead of {len(want)}")
    for k, (g, w) in enumerate(zip(got, want)):
        compare(ctx, g, w, "None", f"{what}, result {k}")


def kernels(ctx, op, n, free, draws, freq):
    assert not LATE, "the package was imported before the stand-ins"
    t = pd.date_range("2021-02-01", periods=n, freq=freq)
    s = Setting(ctx, n, free, draws)
    with plan() as p:
        want = OPS[op](ctx, s, t)
    races = p.races()
    if races and ctx.flag("interleaved"):
        x, k, j, at = ctx.choice("race", races)
        with plan(inside=(x, k, j, at)):
            got = OPS[op](ctx, s, t)
        what = f"{NAMES[op]}: iteration {j} runs while iteration {k} is at its line {at}"
    else:
        how = order(ctx, [len(v.items) for v in p.loops])
        with plan(order=how):
            got = OPS[op](ctx, s, t)
        what = f"{NAMES[op]}: iterations in another order"
    agree(ctx, got, want, what)


def fit(ctx, info, b, X, y, kind, est, oob, jobs, pick, draws, **kw):
    c = bagging(info, b, kind(), n_estimators=est, n_jobs=jobs, **kw)
    with sources(ctx, [], free=draws), ctx.float_arrays(), batches(jobs or 1, pick):
        for k in est if isinstance(est, tuple) else (est,):
            c.set_params(n_estimators=k)
            c.fit(X, y)
    return c


def ensemble(ctx, n, nf, est, kind, draws, **kw):
    b = bars(n + 2)
    info = infos(ctx, b, n, [min(i + 1 + i * 3 % 4, n + 1) for i in range(n)])
    X = pd.DataFrame({f"f{k}": [float(i * 10 + k) for i in range(n)] for k in range(nf)}, index=b.index[:n])
    y = pd.Series([i % 2 for i in range(n)], index=X.index)
    kind = Weighted if kind == "weighted" else Plain
    a = fit(ctx, info, b, X, y, kind, est, False, None, lambda k: range(k), draws, **kw)
    jobs = ctx.choice("jobs", [1, 2, 3])
    how = order(ctx, [jobs])
    c = fit(ctx, info, b, X, y, kind, est, False, jobs, how, draws, **kw)
    ctx.check(len(a.estimators_) == len(c.estimators_) == max(np.ravel(est)), f"{len(c.estimators_)} members")
    for k, (p, q) in enumerate(zip(a.estimators_, c.estimators_)):
        what = f"{jobs} jobs, batches in another order: member {k}"
        ctx.check(np.array_equal(p.X_, q.X_) and np.array_equal(p.y_, q.y_), what + ": rows it is fitted on")
        ctx.check((p.w_ is None) == (q.w_ is None) and (p.w_ is None or np.allclose(p.w_, q.w_)), what + ": weights")
        ctx.check(ilist(a.estimators_features_[k]) == ilist(c.estimators_features_[k]), what + ": features")
        ctx.check(ilist(a.estimators_samples_[k]) == ilist(c.estimators_samples_[k]), what + ": rows drawn")
        ctx.check(ilist(a.sequentially_bootstrapped_samples_[k]) == ilist(c.sequentially_bootstrapped_samples_[k]), what + ": rows drawn")


def cases(tier):
    big = tier == "thorough"
    P = [("barriers", 3, None, (), "2h"), ("barriers", 4, (1, 2), (), "2h"), ("barriers", 14, (9,), (), "2h"), ("barriers_vol", 15, (10,), (), "5h"), ("scanning", 7, (2,), (), "3h"),
         ("scanning", 16, (6,), (), "3h"), ("averaging", 4, None, (0, 2), "1h"), ("averaging", 14, (4, 8), (2,), "1h"), ("breaks", 8, (6,), (), "2h"),
         ("breaks", 14, (), (), "2h"), ("trading", 8, (3,), (), "7h")]
    if big:
        P += [("barriers", 5, None, (), "2h"), ("barriers", 40, (3, 9, 20), (), "2h"), ("scanning", 40, (6, 20), (), "3h"), ("averaging", 40, (4, 8), (2, 3, 20), "1h"), ("breaks", 20, (11,), (), "2h")]
    out = [Case(f"{op} n={n} free={'all' if f is None else list(f)}", kernels,
                f"{NAMES[op]}: {n} bars, prices {'all' if f is None else 'of bars ' + str(list(f))} any, label ends of rows {list(d)} any of three; "
                "all orders of up to three iterations, five orders of more; any line of any two of the first four iterations that write the same cell",
                dict(op=op, n=n, free=f, draws=d, freq=q)) for op, n, f, d, q in P]
    E = [dict(n=4, nf=2, est=3, kind="weighted", draws=(2,), max_features=.5), dict(n=3, nf=2, est=3, kind="plain", draws=(1, 3), bootstrap_features=True),
         dict(n=5, nf=3, est=7, kind="weighted", draws=(), max_samples=3), dict(n=4, nf=2, est=(2, 5), kind="plain", draws=(), warm_start=True)]
    if big:
        E += [dict(n=6, nf=3, est=9, kind="plain", draws=(2, 5), max_features=2, max_samples=4), dict(n=12, nf=2, est=20, kind="weighted", draws=(), update_probs_every=3)]
    out += [Case("ensemble " + " ".join(f"{k}={v}" for k, v in e.items()), ensemble,
                 f"{e['est']} members, {e['n']} rows, draws {e['draws']} of every member any, 1 to 3 jobs, all orders of the batches", e) for e in E]
    return out

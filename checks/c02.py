import itertools
from symx.case import Case
from .common_cv import setup, groups, grid

ASSUMPTIONS = ["prediction times are non-decreasing and evaluation times are not before them (the documented contract)"]


def complete(ctx, n, N, k, emb, strict, free=None):
    pred, ev, X, cv, embargo = setup(ctx, n, N, k, emb, strict, free=free)
    gs = groups(n, N)
    want = {tuple(sorted(itertools.chain(*[gs[g] for g in c]))) for c in itertools.combinations(range(N), k)}
    seen = []
    for train, test in cv.split(X):
        train, test = [int(i) for i in train], [int(i) for i in test]
        t = tuple(test)
        ctx.check(t in want, f"test set {t} is not a union of {k} of the groups in order")
        ctx.check(t not in seen, f"test set {t} appears twice")
        seen.append(t)
        ctx.check(len(set(train)) == len(train), "duplicates in the training set")
        ctx.check(not set(train) & set(test), "train and test intersect")
        ctx.check(all(0 <= i < n for i in train), "training index out of range")
        for i in range(n):
            if i in test or i in train:
                continue
            ok = False
            for j in test:
                ok = ok | (((ev[i] >= pred[j]) & (pred[i] <= ev[j] + embargo)))
            ctx.check(ok, f"sample {i} dropped without need, test {t} (N={N}, k={k})")
    ctx.check(len(seen) == len(want), f"{len(seen)} splits instead of {len(want)}")


def cases(tier):
    return [Case(name, complete, bounds, par) for name, bounds, par in grid(tier)]

from symx.case import Case
from .common_cv import setup, grid

ASSUMPTIONS = ["prediction times are non-decreasing and evaluation times are not before them (the documented contract)"]


def leak(ctx, n, N, k, emb, strict, free=None):
    pred, ev, X, cv, embargo = setup(ctx, n, N, k, emb, strict, free=free)
    for train, test in cv.split(X):
        for i in train:
            for j in test:
                if i == j:
                    ctx.check(False, f"sample {i} is in both train and test")
                # the closed intervals [pred, ev] are disjoint
                # the closed intervals [pred, ev] are disjoint, and the embargo is respected
                ok = (ev[i] < pred[j]) | (pred[i] > ev[j] + embargo)
                ctx.check(ok, f"train {i} overlaps test {j}, or is within the embargo after it (N={N}, k={k})")


def cases(tier):
    return [Case(name, leak, bounds, par) for name, bounds, par in grid(tier)]

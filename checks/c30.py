import contextlib
import math
import numpy as np
import pandas as pd
from symx.case import Case
from checks.common_bag import (bars, infos, indicator, bagging, expected_probs, ilist, jobs, sources, Plain, Weighted,
                               ASSUMPTIONS)  # noqa


def data(ctx, n, nf, rows, labels, ends=None):
    b = bars(n + 1)
    info = infos(ctx, b, n, ends)
    X = ctx.frame({f"f{j}": ctx.reals(f"x{j}_", n, lo=-5, hi=5) for j in range(nf)}, b.index[:n]).iloc[rows]
    y = pd.Series([labels[i % len(labels)] for i in rows], index=b.index[:n][rows])
    return b, info, X, y


def expected_sizes(n, nf, ms, mf):
    return (ms if isinstance(ms, int) else int(ms * n)), (mf if isinstance(mf, int) else max(1, int(mf * nf)))


def check_members(ctx, clf, log, X, y, ind, w, kind, ms, mf, boot, every, first=0):
    n, nf = X.shape
    L, F = expected_sizes(n, nf, ms, mf)
    enc = {c: i for i, c in enumerate(sorted(set(y)))}
    yv = [enc[c] for c in y]
    xv = [[X.iloc[i, j] for j in range(nf)] for i in range(n)]
    ctx.check(len(clf.estimators_) == clf.n_estimators == len(clf.estimators_features_) == len(clf.estimators_samples_), "one member each")
    for k, m in list(enumerate(clf.estimators_))[first:]:
        f, s = ilist(clf.estimators_features_[k]), ilist(clf.estimators_samples_[k])
        ctx.check(len(f) == F and all(0 <= j < nf for j in f), f"member {k}: features {f}")
        ctx.check(boot or len(set(f)) == F, f"member {k}: features drawn without replacement")
        ctx.check(len(s) == L, f"member {k}: {len(s)} rows drawn instead of {L}")
        src = [q for q in log if [int(g) for d in q.draws for g in d[0]] == s and q.draws]
        ctx.check(len(src) >= 1, f"member {k}: rows {s} were not drawn by the sequential bootstrap")
        if kind == "weighted":
            ctx.check(m.X_.shape == (n, F), f"member {k}: shape {m.X_.shape}")
            ctx.check(ilist(m.y_) == yv, f"member {k}: labels")
            for i in range(n):
                for c, j in enumerate(f):
                    ctx.check_same(m.X_[i, c], xv[i][j], f"member {k} row {i} feature {j}")
                want = s.count(i) * (1 if w is None else w[i])
                ctx.check_close(m.w_[i], want, f"member {k}: weight of row {i} drawn {s.count(i)} times", 1e-9)
        else:
            ctx.check(m.X_.shape == (L, F), f"member {k}: shape {m.X_.shape}")
            ctx.check(ilist(m.y_) == [yv[i] for i in s], f"member {k}: labels of the rows drawn")
            for r, i in enumerate(s):
                for c, j in enumerate(f):
                    ctx.check_same(m.X_[r, c], xv[i][j], f"member {k} row {r} feature {j}")
    for q in log:
        k = 0
        for got, pop, p in q.draws:
            ctx.check(sorted(pop) == list(range(n)), f"drawn among {pop}, not the {n} rows of the training set")
            prev = [int(g) for d in q.draws for g in d[0]][:k - k % every]
            e = expected_probs(ind, prev)
            p = p or [1 / len(pop)] * len(pop)
            for i, v in zip(pop, p):
                ctx.check(abs(v - e[i]) < 1e-6, f"probability of row {i} at draw {k}: {v} instead of {e[i]}")
            k += len(got)


def fitted(ctx, n, nf, rows, kind, weights, ms, mf, boot, every=1, est=1, n_jobs=None, oob=False, labels=(-1, 1), free=None):
    rows = list(rows) if rows else list(range(n))
    ends = None
    if free is not None:                     # set spans but for one label
        ends = [min(n, i + i * 5 % 7) for i in range(n)]
        ends[n // 2] = ctx.choice("end", [n // 2, n // 2 + 1, n])
    b, info, X, y = data(ctx, n, nf, rows, labels, ends)
    w = ctx.reals("w", len(rows), lo=0, hi=3) if weights else None
    log = []
    clf = bagging(info, b, {"plain": Plain, "weighted": Weighted}[kind](), n_estimators=est, max_samples=ms, max_features=mf,
                  bootstrap_features=boot, update_probs_every=every)
    if n_jobs:
        clf.set_params(n_jobs=n_jobs)
    with sources(ctx, log, free=free), ctx.float_arrays(), jobs(n_jobs):
        arg = {} if w is None else dict(sample_weight=ctx.series(w, X.index))
        r = clf.fit(X, y, **arg)
    ctx.check(r is clf, "fit returns the ensemble")
    if w is not None:
        ctx.check_all_same(list(arg["sample_weight"].values), w, "the weights given are left alone")
    check_members(ctx, clf, log, X, y, indicator(b, info)[:, rows], w, kind, ms, mf, boot, every)
    ctx.check(list(clf.classes_) == sorted(set(y)), "classes")


def warm(ctx, n, kind, seed, steps, ms=2):
    """adding members later gives the members of one fit with all of them"""
    rows = list(range(n))
    b, info, X, y = data(ctx, n, 2, rows, (0, 1))
    out = []
    for steps in ([steps[-1]], steps):
        log = []
        clf = bagging(info, b, {"plain": Plain, "weighted": Weighted}[kind](), n_estimators=steps[0], max_samples=ms, max_features=1,
                      warm_start=True, random_state=seed)
        with sources(ctx, log), ctx.float_arrays():
            for m in steps:
                clf.n_estimators = m
                clf.fit(X, y)
        check_members(ctx, clf, log, X, y, indicator(b, info), None, kind, ms, 1, False, 1)
        out.append(clf)
    a, c = out
    for k in range(steps[-1]):
        ctx.check(ilist(a.estimators_samples_[k]) == ilist(c.estimators_samples_[k]), f"rows of member {k} after a warm start")
        ctx.check(ilist(a.estimators_features_[k]) == ilist(c.estimators_features_[k]), f"features of member {k} after a warm start")


def refit(ctx, n):
    """a second fit starts afresh, on the rows it is given"""
    rows = list(range(n))
    b, info, X, y = data(ctx, n, 1, rows, (0, 1), [n - 1] * n)
    clf = bagging(info, b, Plain(), n_estimators=1, max_samples=2, max_features=1)
    log = []
    with sources(ctx, log), ctx.float_arrays():
        clf.fit(X, y)
    log = []
    clf.set_params(random_state=8)
    keep = list(rows[1:])[::-1] if ctx.flag("reversed") else rows[1:]
    with sources(ctx, log), ctx.float_arrays():
        clf.fit(X.iloc[keep], y.iloc[keep])
    check_members(ctx, clf, log, X.iloc[keep], y.iloc[keep], indicator(b, info)[:, keep], None, "plain", 2, 1, False, 1)


def rejected(ctx, n):
    rows = list(range(n))
    b, info, X, y = data(ctx, n, 2, rows, (0, 1))
    what = ctx.choice("what", ["many rows", "no rows", "many features", "no features", "text", "oob warm", "array X", "array y", "unknown time",
                               "weights", "fewer members", "no times X", "no times y"])
    kw, ms, mf = {}, 2, 1
    member = Plain()
    if what == "many rows":
        ms = ctx.choice("ms", [n + 1, 1.5, 100])
    elif what == "no rows":
        ms = ctx.choice("ms", [0, -1, 0.1, 0.0])
    elif what == "many features":
        mf = ctx.choice("mf", [3, 2.0, 1.5])
    elif what == "no features":
        mf = ctx.choice("mf", [0, -1, 0.0, -0.5])
    elif what == "text":
        mf = "1"
    elif what == "oob warm":
        kw = dict(oob_score=True, warm_start=True)
    elif what == "array X":
        X = X.values
    elif what == "array y":
        y = y.values
    elif what == "no times X":
        X = X.reset_index(drop=True)
    elif what == "no times y":
        y = y.reset_index(drop=True)
    elif what == "unknown time":
        X = X.set_axis(list(X.index[:-1]) + [b.index[-1]])
    clf = bagging(info, b, member, n_estimators=1, max_samples=ms, max_features=mf, **kw)
    log = []

    def fit():
        with sources(ctx, log), ctx.float_arrays():
            if what == "weights":
                clf.fit(X, y, sample_weight=ctx.series(ctx.reals("w", n, lo=0, hi=1), X.index))
            elif what == "fewer members":
                clf.set_params(warm_start=True, n_estimators=2).fit(X, y)
                clf.set_params(n_estimators=1).fit(X, y)
            else:
                clf.fit(X, y)
    err = AssertionError if what in ("array X", "array y", "unknown time", "no times X", "no times y") else ValueError
    ctx.check(ctx.raises(err, fit) is not None, f"{what} is rejected")


class Voter(Plain):
    """answers with any class it has seen"""
    def predict_proba(self, X):
        self.asked_ = np.array(X)
        return self.answer_


def predicts(ctx, n, nf, est, proba):
    """the ensemble averages its members, each asked about its own features"""
    rows = list(range(n))
    b = bars(n + 1)
    info = infos(ctx, b, n, [min(i + 1, n) for i in range(n)])
    X = pd.DataFrame([[10. * i + j for j in range(nf)] for i in range(n)], index=b.index[:n])
    y = pd.Series([(-1, 1)[i % 2] for i in rows], index=X.index)
    log = []
    clf = bagging(info, b, Voter(), n_estimators=est, max_samples=2, max_features=1)
    with sources(ctx, log), ctx.float_arrays():
        clf.fit(X, y)
    want = np.zeros((n, 2))
    for k, m in enumerate(clf.estimators_):
        c = ilist(m.classes_)
        m.answer_ = np.zeros((n, len(c)))
        for i in range(n):
            v = ctx.choice(f"vote{k}.{i}", range(len(c)))
            m.answer_[i, v] = .75 if len(c) > 1 else 1
            if len(c) > 1:
                m.answer_[i, 1 - v] = .25
            for q in range(len(c)):
                want[i, c[q]] += m.answer_[i, q] / est
    with ctx.float_arrays():
        got = clf.predict_proba(X)
        pred = clf.predict(X)
    ctx.check(got.shape == (n, 2) and bool(np.allclose(got, want)), f"average of the members: {got.tolist()}")
    ctx.check(all(bool(p == (-1, 1)[k]) or want[i, 0] == want[i, 1] for i, (p, k) in enumerate(zip(pred, want.argmax(axis=1)))), "most likely class")
    for k, m in enumerate(clf.estimators_):
        f = ilist(clf.estimators_features_[k])
        ctx.check(m.asked_.tolist() == X.values[:, f].tolist(), f"member {k} is asked about its own features")


def cases(tier):
    q = [  # n nf rows kind weights max_samples max_features bootstrap_features
        dict(n=3, nf=1, rows=None, kind="weighted", weights=True, ms=1.0, mf=1.0, boot=False),
        dict(n=3, nf=2, rows=None, kind="weighted", weights=True, ms=2, mf=1, boot=False, labels=(0, 1, 2)),
        dict(n=3, nf=2, rows=(0, 2), kind="weighted", weights=True, ms=2, mf=0.5, boot=True),
        dict(n=2, nf=2, rows=None, kind="weighted", weights=False, ms=0.9, mf=2, boot=True),
        dict(n=3, nf=2, rows=None, kind="plain", weights=False, ms=2, mf=1.0, boot=False, labels=(1, 0)),
        dict(n=3, nf=3, rows=(2, 0), kind="plain", weights=False, ms=2, mf=0.7, boot=False),
        dict(n=3, nf=1, rows=(1, 2), kind="plain", weights=False, ms=2, mf=0.2, boot=True, every=2),
        dict(n=2, nf=1, rows=None, kind="weighted", weights=True, ms=2, mf=1, boot=False, est=2),
        dict(n=2, nf=1, rows=None, kind="weighted", weights=True, ms=1, mf=1, boot=False, est=3, n_jobs=2),
    ]
    if tier == "thorough":
        q += [dict(n=4, nf=1, rows=None, kind="weighted", weights=True, ms=1.0, mf=1.0, boot=False),
              dict(n=4, nf=3, rows=(3, 0, 1), kind="plain", weights=False, ms=3, mf=2, boot=False),
              dict(n=3, nf=3, rows=None, kind="weighted", weights=True, ms=3, mf=3, boot=True, every=2),
              dict(n=3, nf=2, rows=None, kind="plain", weights=False, ms=1.0, mf=1, boot=False, est=2),
              dict(n=2, nf=2, rows=None, kind="weighted", weights=True, ms=2, mf=1, boot=True, est=3, n_jobs=2)]
    many = [dict(n=14, nf=2, rows=None, kind="weighted", weights=True, ms=1.0, mf=1, boot=False, free=(5,), labels=(0, 1, 2)),
            dict(n=12, nf=12, rows=(11, 3, 4, 5, 0, 1, 2, 10, 9, 8, 7), kind="plain", weights=False, ms=11, mf=0.9, boot=True, every=5, free=(17,)),
            dict(n=5, nf=3, rows=None, kind="weighted", weights=True, ms=4, mf=2, boot=False, est=12, n_jobs=3, free=())]
    if tier == "thorough":
        many += [dict(n=40, nf=3, rows=None, kind="weighted", weights=True, ms=1.0, mf=2, boot=True, free=(30,), est=2),
                 dict(n=6, nf=2, rows=None, kind="plain", weights=False, ms=5, mf=1, boot=False, est=40, n_jobs=4, free=())]
    out = []
    for k in many:
        out.append(Case("many " + " ".join(f"{a}={v}" for a, v in k.items() if v not in (None, False)), fitted,
                        f"{k['n']} labels with set spans but one, rows {k['rows'] or 'all'}, any features in [-5,5], {'any weights in [0,3]' if k['weights'] else 'no weights'}, "
                        f"draws {k['free']} of each source any, {k.get('est', 1)} members", k))
    for k in q:
        out.append(Case("fit " + " ".join(f"{a}={v}" for a, v in k.items() if v not in (None, False)), fitted,
                        f"{k['n']} labels with any spans over {k['n'] + 1} bars, rows {k['rows'] or 'all'} in that order, any features in [-5,5], "
                        f"{'any weights in [0,3]' if k['weights'] else 'no weights'}, any draws, {k.get('est', 1)} members", k))
    for n, kind, seed, steps, ms in [(2, "weighted", 7, [1, 2], 2), (2, "plain", 5, [2, 3], 1), (2, "plain", 6, [1, 3], 1)] + \
            ([(2, "plain", 11, [1, 2], 2), (3, "weighted", 3, [1, 2], 2), (2, "plain", 5, [2, 3], 2), (2, "plain", 5, [1, 2, 4], 1)] if tier == "thorough" else []):
        out.append(Case(f"warm start n={n} {kind} {steps}", warm, f"{n} labels, {steps[-1]} members at once and in the steps {steps}, any draws per seed",
                        dict(n=n, kind=kind, seed=seed, steps=steps, ms=ms)))
    out.append(Case("refit", refit, "2 fits of 3 and 2 rows in either order, any draws", dict(n=3)))
    out.append(Case("rejected", rejected, "settings and inputs that cannot be used", dict(n=2)))
    for n, nf, e in [(2, 2, 2)] + ([(3, 2, 2)] if tier == "thorough" else []):
        out.append(Case(f"predict n={n} members={e}", predicts, f"{n} rows, {e} members on one of {nf} features, any draws and votes",
                        dict(n=n, nf=nf, est=e, proba=True)))
    return out

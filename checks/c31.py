import contextlib
import numpy as np
import pandas as pd
from symx.case import Case
from checks.common_bag import bars, infos, bagging, ilist, sources, Plain, Weighted, ASSUMPTIONS  # noqa

ASSUMPTIONS = ASSUMPTIONS + ["the score is claimed when every row has an out-of-bag vote (else the code warns)",
                             "ties between classes may be counted either way"]


def output(ctx, free, no, r, c):
    """the member's probability of class c at row r"""
    return ctx.real(f"p{no}.{r}.{c}", lo=0, hi=1) if free is None or (no, r) in free else (1 + (no * 5 + r * 3 + c * 7) % 13) / 16


def member(ctx, kind, asked, n_all, free=None):
    """members whose outputs are unconstrained, keyed by what they were fitted on and the row asked about"""
    base = Weighted if kind == "weighted" else Plain
    made = []

    class M(base):
        def fit(self, *a, **k):
            super().fit(*a, **k)
            self.no_ = len(made)
            made.append(self)
            return self

        def _rows(self, X):
            r = [int(round(float(x[0]))) % 1000 // 10 for x in np.asarray(X)]
            asked.append((self.no_, r, [[float(v) for v in x] for x in np.asarray(X)]))
            return r

    class Proba(M):
        def predict_proba(self, X):
            out = [[output(ctx, free, self.no_, r, int(c)) for c in self.classes_] for r in self._rows(X)]
            return ctx.matrix(out) if out else np.zeros((0, len(self.classes_)))

    class Vote(M):
        def predict(self, X):
            return np.array([self.classes_[ctx.choice(f"v{self.no_}.{r}", range(len(self.classes_)))] for r in self._rows(X)], dtype=int)

    return {"proba": Proba, "vote": Vote}[kind if kind in ("proba", "vote") else "proba"]


def oob(ctx, n, nf, labels, ms, mf, est, kind, free_ends=False, free=None, draws=None):
    b = bars(n + 1)
    info = infos(ctx, b, n, None if free_ends else [min(i + 1, n) for i in range(n)])
    X = pd.DataFrame([[10. * i + 10 ** 3 * j for j in range(nf)] for i in range(n)], index=b.index[:n])
    y = pd.Series([labels[i % len(labels)] for i in range(n)], index=X.index)
    asked, log = [], []
    cls = member(ctx, kind, asked, n, free)
    clf = bagging(info, b, cls(), n_estimators=est, max_samples=ms, max_features=mf, oob_score=True)
    with sources(ctx, log, features=mf != nf, free=draws):
        clf.fit(X, y)
    enc = {c: i for i, c in enumerate(sorted(set(y)))}
    K = len(enc)
    votes = [[0] * K for _ in range(n)]
    seen = [0] * n
    for k, m in enumerate(clf.estimators_):
        s, f = ilist(clf.estimators_samples_[k]), ilist(clf.estimators_features_[k])
        out = [i for i in range(n) if i not in s]
        calls = [a for a in asked if a[0] == m.no_]
        for a in calls:
            for r, x in zip(a[1], a[2]):
                ctx.check(x == [10. * r + 10 ** 3 * j for j in f], f"member {k} is asked about its own features of row {r}")
        for i in out:
            seen[i] += 1
            for q, c in enumerate(m.classes_):
                if kind == "vote":
                    votes[i][int(c)] += int(ctx.choice(f"v{m.no_}.{i}", range(len(m.classes_))) == q)
                else:
                    votes[i][int(c)] = votes[i][int(c)] + output(ctx, free, m.no_, i, int(c))
    got = clf.oob_decision_function_
    ctx.check(np.shape(got) == (n, K), f"shape {np.shape(got)}")
    lo = hi = 0
    full = True
    for i in range(n):
        tot = ctx.sum(votes[i])
        if seen[i] == 0 or not bool(tot > 0):
            ctx.check(all(ctx.isnan(v) for v in got[i]) or (seen[i] > 0), f"row {i} was seen by every member: no decision")
            full = False
            continue
        for c in range(K):
            ctx.check_close(got[i][c] * tot, votes[i][c], f"row {i}: decision of class {c}", 1e-9)
        right = votes[i][enc[y.iloc[i]]]
        others = [votes[i][c] for c in range(K) if c != enc[y.iloc[i]]]
        lo += all(bool(right > o) for o in others)
        hi += all(bool(right >= o) for o in others)
    if full:
        ctx.check(lo - 1e-9 <= clf.oob_score_ * n <= hi + 1e-9, f"score {clf.oob_score_} with {lo} to {hi} of {n} right")


def cases(tier):
    q = [(3, 1, (0, 1), 2, 1, 1, "proba"), (3, 1, (-1, 0, 1), 2, 1, 1, "proba"), (3, 1, (1, -1), 2, 1, 1, "vote"),
         (2, 1, (0, 1), 1, 1, 2, "proba"), (3, 1, (-1, 0, 1), 1, 1, 2, "vote"), (3, 2, (0, 1), 2, 1, 1, "proba"),
         (2, 1, (0, 1), 2, 1, 2, "weighted"), (3, 1, (-1, 0, 1), 1, 1, 2, "proba"), (3, 1, (0, 1), 2, 1, 2, "weighted"),
         (3, 1, (-1, 0, 1), 2, 1, 2, "vote"), (4, 1, (-1, 0, 1), 2, 1, 1, "proba"), (2, 1, (0, 1), 1, 1, 3, "proba")]
    if tier == "thorough":
        q += [(4, 2, (0, 1), 3, 1, 1, "proba"), (3, 1, (-1, 0, 1), 2, 1, 2, "proba"), (3, 1, (0, 1), 1, 1, 3, "vote"),
              (4, 1, (0, 1, 2, 3), 2, 1, 2, "proba"), (3, 2, (0, 1), 2, 1, 2, "vote")]
    many = [(14, 2, (0, 1, 2), 9, 1, 6, "proba", ((2, 5), (4, 5)), ()), (30, 1, (-1, 1), 20, 1, 3, "weighted", ((0, 7), (1, 7), (2, 7)), ())]
    if tier == "thorough":
        many += [(60, 2, (0, 1, 2), 40, 1, 12, "proba", ((2, 5), (4, 5), (7, 40)), ())]
    return [Case(f"many n={n} classes={len(l)} members={e} {k}", oob, f"{n} rows of classes {l}, {e} members on {ms} rows and {mf} of {nf} features, draws {d} of each source any, outputs {f} any, the others set",
                 dict(n=n, nf=nf, labels=l, ms=ms, mf=mf, est=e, kind=k, free=f, draws=d)) for n, nf, l, ms, mf, e, k, f, d in many] + [Case(f"oob n={n} classes={len(l)} features={mf}/{nf} rows={ms} members={e} {k}", oob,
                 f"{n} rows of classes {l}, {e} members on any {ms} rows and {mf} of {nf} features, any outputs ({k})",
                 dict(n=n, nf=nf, labels=l, ms=ms, mf=mf, est=e, kind=k)) for n, nf, l, ms, mf, e, k in q]

import numpy as np
from scipy import sparse
from symx.case import Case
from checks.common_labels import spans, label_frame
from mizarlabs.model.bootstrapping import get_ind_matrix, seq_bootstrap
from mizarlabs.static import EVENT_END_TIME

ASSUMPTIONS = ["the random source returns any elements of the population (its distribution is the recorded p)",
               "scipy's sparse matrices run concretely once the solver has fixed which bars each label spans",
               "probabilities are compared to 1e-6 (the code computes them in single precision)"]


class Source:
    """a random source whose draws are unconstrained"""

    def __init__(self, ctx, free=None, stride=None):
        self.ctx, self.log, self.free, self.stride = ctx, [], free, stride

    def draw(self, k, n):
        """any of n at draw k; a set one where the case leaves only some draws free"""
        if self.free is None or k in self.free:
            return self.ctx.choice(f"draw{k}", range(n))
        return k * self.stride % n if self.stride else (k * 7 + k * k // 3) % n

    def choice(self, a, size=None, replace=True, p=None):
        pop = list(range(a)) if np.ndim(a) == 0 else list(a)
        k = 1 if size is None else int(size)
        got = []
        for j in range(k):
            i = self.draw(sum(len(g) for g, *_ in self.log) + j, len(pop))
            got.append(pop[i])
        self.log.append((got, pop, None if p is None else list(np.ravel(p)), replace))
        return np.array(got, dtype=np.intp) if size is not None else got[0]


def drawn(ctx, m, length, every, kind, free=None, stride=None):
    n = m.shape[1]
    src = Source(ctx, free, stride)
    with ctx.float_arrays():
        kw = {}
        if length is not None:
            kw["sample_length"] = length
        if every is not None:
            kw["update_probs_every"] = every
        out = seq_bootstrap(kind(m), random_state=src, **kw)
    L, ev = length or n, every or 1
    out = list(out)
    ctx.check(len(out) == L, f"{len(out)} draws instead of {L}")
    flat = [g for gs, *_ in src.log for g in gs]
    ctx.check([int(x) for x in out] == [int(x) for x in flat], "the draws in order")
    k = 0
    for gs, pop, p, rep in src.log:
        ctx.check(rep is True or len(gs) == 1, "draws are with replacement")
        p = p if p is not None else [1 / len(pop)] * len(pop)
        prob = {int(s): w for s, w in zip(pop, p)}
        for g in gs:
            prev = [int(x) for x in flat[:k - k % ev]]     # known when the probabilities were last refreshed
            conc = m[:, prev].sum(axis=1) if prev else np.zeros(m.shape[0])
            u = [np.mean([1 / (conc[r] + 1) for r in range(m.shape[0]) if m[r, i]]) for i in range(n)]
            for i in range(n):
                ctx.check(abs(prob.get(i, 0) - u[i] / sum(u)) < 1e-6, f"probability of sample {i} at draw {k}: {prob.get(i)} instead of {u[i] / sum(u)}")
            k += 1


def by_times(ctx, n, length, every):
    """spans at any symbolic times, through the indicator matrix"""
    starts, ends = spans(ctx, n, True)
    df = label_frame(ctx, starts, ends)
    im = get_ind_matrix(df[EVENT_END_TIME], df, EVENT_END_TIME)
    drawn(ctx, im.toarray(), length, every, sparse.csc_matrix)


def by_rows(ctx, rows, n, length, every):
    m = np.zeros((rows, n))
    for i in range(n):
        a = ctx.choice(f"from{i}", range(rows))
        m[a:ctx.choice(f"to{i}", range(a, rows)) + 1, i] = 1
    drawn(ctx, m, length, every, sparse.csc_matrix)


def long(ctx, rows, n, length, every, free, stride=None):
    """many labels and draws: one label's span and some draws are free; with a stride, every sample is drawn before one is drawn again"""
    m = np.zeros((rows, n))
    for i in range(n):
        a = i * rows // n
        m[a:a + 1 + (0 if stride else (i * 5) % 9), i] = 1
    a = ctx.choice("from", [0, rows // 2, rows - 1])
    m[:, n // 2] = 0
    m[a:ctx.choice("to", [a, rows - 1]) + 1, n // 2] = 1
    drawn(ctx, m, length, every, sparse.csc_matrix, free, stride)


def default_source(ctx):
    m = np.array([[1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1.]])
    with ctx.float_arrays():
        out = seq_bootstrap(sparse.csc_matrix(m))
        ctx.check(len(out) == 3 and all(0 <= int(x) < 3 for x in out), "default source draws as many samples as there are")
        a = list(seq_bootstrap(sparse.csc_matrix(m), 6, np.random.RandomState(3)))
        b = list(seq_bootstrap(sparse.csc_matrix(m), 6, np.random.RandomState(3)))
        ctx.check(a == b, "same seed, same draws")


def cases(tier):
    q = [(2, None, None), (2, 4, 1), (2, 3, 2), (3, 3, 2)]
    r = [(3, 3, 3, 1), (2, 3, 4, 3)]
    if tier == "thorough":
        q += [(3, None, 1), (3, 4, 3)]
        r += [(3, 3, 4, 1), (4, 3, 3, 2), (3, 2, 6, 2)]
    out = [Case(f"by times n={n} length={l} every={e}", by_times,
                f"{n} labels at any times, any draws; sample length {l or 'default'}, refreshed every {e or 'draw (default)'}",
                dict(n=n, length=l, every=e)) for n, l, e in q]
    out += [Case(f"by rows rows={r_} n={n} length={l} every={e}", by_rows,
                 f"{n} labels with any spans over {r_} bars, any {l} draws, refreshed every {e}", dict(rows=r_, n=n, length=l, every=e))
            for r_, n, l, e in r]
    big = [(40, 13, None, None, (1, 9)), (40, 12, 45, 10, (5, 31)), (25, 11, 30, 4, (2,)), (26, 13, 39, 13, (4,), 5), (33, 11, 60, 24, (7, 30), 4)]
    if tier == "thorough":
        big += [(150, 60, 140, 25, (3, 88)), (60, 30, 64, None, (0, 40)), (120, 40, 130, 40, (11, 90), 7)]
    out += [Case(f"long rows={r_} n={n} length={l} every={e}" + (" each drawn once" if st else ""), long,
                 f"{n} labels over {r_} bars, one with a free span, {l or n} draws of which number {fr} are any, refreshed every {e or 'draw'}",
                 dict(rows=r_, n=n, length=l, every=e, free=fr, stride=st[0] if st else None)) for r_, n, l, e, fr, *st in big]
    out.append(Case("default source", default_source, "one matrix, the default random source", {}))
    return out

"""Shared pieces of the cross-validation harnesses (C01, C02, C03)."""
import itertools
import numpy as np
import pandas as pd
from mizarlabs.model.model_selection import CombPurgedKFoldCV


def setup(ctx, n, N, k, emb, strict, horizon_hi=2 * 10 ** 9, free=None):
    """n samples with any non-decreasing prediction times and any evaluation times not before them
    (free: only these samples' horizons, over irregular times and horizons of the others)"""
    if free is None:
        pred = ctx.times("pred", n, strict=strict)
        ev = [t + ctx.delta(f"h{i}", lo=0, hi=horizon_hi) for i, t in enumerate(pred)]
    else:
        pred = [ctx.hold(pd.Timestamp("2020-01-01") + pd.Timedelta(minutes=60 * i + (i * i * 7) % 50 - (i * i * 7) % 50 % 10)) for i in range(n)]
        ev = [t + (ctx.delta(f"h{i}", lo=0, hi=12 * 3600 * 1000) if i in free else pd.Timedelta(minutes=(i * i * 37) % 300))
              for i, t in enumerate(pred)]
    idx = pd.RangeIndex(n)
    X = pd.DataFrame({"f": np.zeros(n)}, index=idx)
    embargo = ctx.delta("embargo", lo=0, hi=3 * 10 ** 8) if emb == "any" else pd.Timedelta(emb)
    cv = CombPurgedKFoldCV(n_groups=N, n_test_splits=k, pred_times=ctx.tseries(pred, idx),
                           eval_times=ctx.tseries(ev, idx), embargo_td=embargo)
    return pred, ev, X, cv, embargo


def groups(n, N):
    """contiguous groups, in order, sizes differing by at most one (the larger ones first)"""
    out, i = [], 0
    for g in range(N):
        s = n // N + (1 if g < n % N else 0)
        out.append(list(range(i, i + s)))
        i += s
    return out


def configs(tier):
    q = [(4, 2, 1, True), (4, 3, 2, True), (5, 3, 1, True), (5, 3, 2, False), (6, 3, 1, True), (5, 4, 2, True), (5, 4, 3, True)]
    if tier == "thorough":
        q += [(5, 5, 2, True), (6, 3, 2, True), (6, 4, 2, True), (6, 5, 2, True), (6, 5, 3, True), (7, 3, 2, True), (7, 4, 2, False), (6, 6, 3, True), (6, 6, 4, True), (8, 4, 2, True)]
    return q


def grid(tier):
    """(case name, bounds, parameters)"""
    q = [(n, N, k, strict, emb, None) for n, N, k, strict in configs(tier) for emb in ("0s", "6h")]
    q += [(4, 2, 1, True, "any", None), (4, 3, 2, False, "any", None), (5, 3, 1, True, "26h", None),
          (26, 13, 2, True, "5h", (5,)), (31, 12, 1, True, "30min", (3, 12)), (24, 6, 3, True, "any", ())]
    if tier == "thorough":
        q += [(5, 3, 2, True, "any", None), (6, 3, 1, True, "any", None), (110, 11, 2, True, "3h", (40, 77)), (60, 15, 2, True, "any", (20,))]
    for n, N, k, strict, emb, free in q:
        yield (f"split n={n} N={N} k={k} embargo={emb}{'' if strict else ' ties'}{'' if free is None else f' free={list(free)}'}",
               f"{n} samples, any {'increasing' if strict else 'non-decreasing'} prediction times and label horizons (ms grid, gaps up to 46 days), embargo {emb}"
               if free is None else f"{n} samples at fixed irregular times, any horizon up to 12 h of samples {list(free)}, embargo {emb}",
               dict(n=n, N=N, k=k, emb=emb, strict=strict, free=free))

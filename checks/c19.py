from symx.case import Case
from checks.common_pipeline import setup, check_asked, check_meta_features, ASSUMPTIONS  # noqa

NAN = float("nan")


def target(ctx, n, sub, free=None):
    """any target in the classes or missing; sub: it may start after the first bar"""
    y = []
    for i in range(n):
        if free is not None and i not in free:
            y.append(NAN if i % 9 == 4 else (i * 5) % 7 % 3 - 1.)
        elif ctx.flag(f"target_missing{i}"):
            y.append(NAN)
        else:
            y.append(ctx.int(f"y{i}", lo=-1, hi=1))
    first = ctx.choice("first", range(n) if free is None else [0, n // 3]) if sub else 0
    return y, first


def primary(ctx, n, split, sub, drop, free=None):
    s = setup(ctx, n, False, split, keep_one=False, free=free)
    y, first = target(ctx, n, sub, free)
    t = s["t"]
    ok = [i for i in range(first, n) if not ctx.isnan(y[i]) and not s["pm"][i]]
    if drop:
        ctx.assume(len(ok) > 0)
    ys = ctx.series(y[first:], t[first:], "target")
    X, yy = s["p"].create_dataset_primary(s["X"], ys) if drop else s["p"].create_dataset_primary(s["X"], ys, drop_na=False)
    if not drop:
        ctx.check(list(X.index) == list(t) and list(yy.index) == list(t[first:]), "nothing dropped")
        ctx.check_all_same(list(yy.values), y[first:], "targets")
        return
    ctx.check(list(X.index) == [t[i] for i in ok], f"times of the data set: {list(X.index)}")
    ctx.check(list(yy.index) == list(X.index), "times of the target")
    for k, i in enumerate(ok):
        ctx.check(int(X["id"].iloc[k]) == 100 + i, "features of the row's own time")
        ctx.check_same(X["fa"].iloc[k], s["fa"][i], "feature")
        if split:
            ctx.check_same(X["fb"].iloc[k], s["fb"][i], "second feature")
        ctx.check_same(yy.iloc[k], y[i], "target of the row's own time")


def meta(ctx, n, split, use_proba, use_pred, sub, sym_pred, free=None):
    preds = None
    s = setup(ctx, n, True, split, use_proba, use_pred, free=free)
    if not sym_pred:
        s["prim"].preds = preds = [float(ctx.choice(f"pred{i}", [-1, 1])) for i in range(n)]
    y, first = target(ctx, n, sub, free)
    t = s["t"]
    ok = [i for i in range(first, n) if not ctx.isnan(y[i]) and not s["pm"][i] and not s["mm"][i]]
    ctx.assume(len(ok) > 0)
    X, yy = s["p"].create_dataset_metalabeling(s["X"], ctx.series(y[first:], t[first:], "target"))
    ctx.check(list(X.index) == [t[i] for i in ok], f"times of the data set: {list(X.index)}")
    ctx.check(list(yy.index) == list(X.index), "times of the target")
    check_meta_features(ctx, s, ok, X, use_proba, use_pred)
    for k, i in enumerate(ok):
        ctx.check_same(yy.iloc[k], 1 if bool(s["prim"].preds[i] == y[i]) else 0, "meta-label")
    check_asked(ctx, s, split, use_proba, use_pred)


def bad_target(ctx, n, which):
    s = setup(ctx, n, True, miss=(False, False))
    y = [0.0] * n
    v = ctx.int("v", lo=-3, hi=3)
    ctx.assume((v != 0) & (v != 1) & (v != -1))
    y[ctx.choice("at", range(n))] = v
    f = s["p"].create_dataset_primary if which == "primary" else s["p"].create_dataset_metalabeling
    ctx.check(ctx.raises(AssertionError, lambda: f(s["X"], ctx.series(y, s["t"]))) is not None, "a target outside {-1,0,1} is rejected")


def cases(tier):
    T = tier == "thorough"
    out = []
    for n, sp, sub, d in [(3, False, False, True), (2, True, True, True), (2, False, True, False)] + ([(4, False, True, True), (3, True, True, True)] if T else []):
        out.append(Case(f"primary n={n}" + (" two frames" if sp else "") + (" late target" if sub else "") + ("" if d else " keep missing"), primary,
                        f"{n} bars, any missing features and targets, targets any in {{-1,0,1}}", dict(n=n, split=sp, sub=sub, drop=d)))
    for n, sp, up, ur, sub, sy in [(2, False, True, True, False, True), (2, False, False, True, True, False), (2, False, True, False, False, False),
                                   (2, True, False, False, True, False)] + ([(3, False, True, False, False, False), (3, True, True, True, True, True), (3, False, False, True, False, True)] if T else []):
        out.append(Case(f"meta n={n}" + (" two frames" if sp else "") + (" late target" if sub else "") + f" proba={int(up)} pred={int(ur)}", meta,
                        f"{n} bars, any missing features and targets, any model outputs", dict(n=n, split=sp, use_proba=up, use_pred=ur, sub=sub, sym_pred=sy)))
    for n, sp, sub, fr in [(50, False, True, (21,)), (40, True, True, (30,))] + ([(200, False, True, (60, 150))] if T else []):
        out.append(Case(f"many primary n={n}" + (" two frames" if sp else ""), primary, f"{n} bars, set but for {fr}: missing or not, any target", dict(n=n, split=sp, sub=sub, drop=True, free=fr)))
        out.append(Case(f"many meta n={n}" + (" two frames" if sp else ""), meta, f"{n} bars, set but for {fr}: missing or not, any target and model outputs",
                        dict(n=n, split=sp, use_proba=True, use_pred=True, sub=sub, sym_pred=True, free=fr)))
    for w in ("primary", "meta"):
        out.append(Case(f"bad target {w}", bad_target, "2 bars, any target outside {-1,0,1} at either", dict(n=2, which=w)))
    return out

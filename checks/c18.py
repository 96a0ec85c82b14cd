from symx.case import Case
from checks.common_pipeline import setup, check_asked, Sizer, ASSUMPTIONS  # noqa
from mizarlabs.transformers.trading.bet_sizing import BetSizingFromProbabilities


def side_and_size(ctx, n, meta, sizer, split, use_proba, use_pred, classes, free=None):
    bs = None if sizer is None else (Sizer(meta) if sizer == "stand-in" else BetSizingFromProbabilities(num_classes=2, meta_labeling=meta))
    s = setup(ctx, n, meta, split, use_proba, use_pred, classes, sizer=bs, free=free)
    p, t = s["p"], s["t"]
    out = p.get_side_and_size(s["X"])
    want = [i for i in range(n) if not s["pm"][i] and not s["mm"][i]]
    ctx.check(list(out.index) == [t[i] for i in want], f"times with a signal: {list(out.index)}")
    model = s["meta"] if meta else s["prim"]
    for k, i in enumerate(want):
        ctx.check_same(out["side"].iloc[k], s["prim"].preds[i], f"side at {i}")
        pr = model.probs[i]
        best = ctx.max(pr)
        if sizer is None:
            size = pr[1] if meta else best
        else:
            c = 0
            for j in range(1, len(pr)):
                if bool(pr[j] > pr[c]):
                    c = j
            cls = float(model.classes_[c])
            size = Sizer.of(best, cls, s["prim"].preds[i] if meta else 0)
        ctx.check_close(out["size"].iloc[k], size, f"size at {i}")
    check_asked(ctx, s, split, use_proba, use_pred)


def predictions(ctx, n, meta, use_proba, use_pred, free=None):
    """predict and predict_proba report each model's own output for each complete row"""
    s = setup(ctx, n, meta, False, use_proba, use_pred, free=free)
    p, t = s["p"], s["t"]
    pr, pp = p.predict(s["X"]), p.predict_proba(s["X"])
    ok = [i for i in range(n) if not s["pm"][i]]
    a, b = pr["primary_model_predictions"], pp["primary_model_proba"]
    ctx.check(list(a.index) == [t[i] for i in ok] and list(b.index) == list(a.index), "times with a primary prediction")
    ctx.check([float(c) for c in b.columns] == [float(c) for c in s["prim"].classes_], "probability columns are the classes")
    for k, i in enumerate(ok):
        ctx.check_same(a.iloc[k], s["prim"].preds[i], "primary prediction")
        ctx.check_all_same(list(b.iloc[k].values), s["prim"].probs[i], "primary probabilities")
    a, b = pr["metalabeling_model_predictions"], pp["metalabeling_model_proba"]
    if not meta:
        ctx.check(a is None and b is None, "no meta-labelling output without a model")
        return
    pos = {x: i for i, x in enumerate(t)}
    ctx.check([float(c) for c in b.columns] == [0.0, 1.0], "probability columns are the classes")
    ctx.check(list(a.index) == list(b.index), "same times")
    seen = []
    for k, x in enumerate(a.index):
        i = pos[x]
        seen.append(i)
        ctx.check(not s["mm"][i], "incomplete meta features")
        ctx.check_same(a.iloc[k], s["meta"].preds[i], "meta prediction")
        ctx.check_all_same(list(b.iloc[k].values), s["meta"].probs[i], "meta probabilities")
    ctx.check(all(i in seen for i in range(n) if not s["pm"][i] and not s["mm"][i]), "every complete row has a meta prediction")
    ctx.check(seen == sorted(set(seen)), "in order")
    check_asked(ctx, s, False, use_proba, use_pred)


def cases(tier):
    three, two = (-1.0, 0.0, 1.0), (-1.0, 1.0)
    q = [(2, False, None, True, True, True, three), (2, True, None, False, True, True, two), (3, True, None, False, True, False, two),
         (2, True, None, True, False, True, two), (2, True, None, False, False, False, two),
         (2, False, "stand-in", False, True, True, three), (2, True, "stand-in", False, True, True, two)]
    if tier == "thorough":
        q += [(3, True, "stand-in", True, True, True, three), (3, True, None, True, False, True, three), (3, False, "stand-in", True, True, True, three)]
    out = [Case(f"side and size n={n}" + (" meta" if m else "") + (f" sizer" if b else "") + (" two frames" if sp else "") + f" proba={int(up)} pred={int(ur)} K={len(c)}",
                side_and_size, f"{n} bars, any missing-feature pattern, any model outputs" + (", bet sizer" if b else ""),
                dict(n=n, meta=m, sizer=b, split=sp, use_proba=up, use_pred=ur, classes=c)) for n, m, b, sp, up, ur, c in q]
    big = [(45, True, None, False, True, True, two, (20,)), (60, True, "stand-in", True, True, True, three, (31,)), (40, False, "stand-in", False, True, True, three, (7, 39))]
    if tier == "thorough":
        big += [(200, True, None, False, True, True, two, (150, 3)), (120, True, "stand-in", True, True, True, three, (100,))]
    out += [Case(f"many n={n}" + (" meta" if m else "") + (" sizer" if b else "") + (" two frames" if sp else ""), side_and_size,
                 f"{n} bars, set but for {fr}: missing or not, any model outputs", dict(n=n, meta=m, sizer=b, split=sp, use_proba=up, use_pred=ur, classes=c, free=fr))
            for n, m, b, sp, up, ur, c, fr in big]
    out += [Case(f"predictions n={n}" + (" meta" if m else "") + f" proba={int(up)} pred={int(ur)}", predictions,
                 f"{n} bars, any missing-feature pattern, any model outputs", dict(n=n, meta=m, use_proba=up, use_pred=ur))
            for n, m, up, ur in [(3, False, True, True), (2, True, True, True), (2, True, False, True)]]
    out.append(Case("many predictions n=50 meta", predictions, "50 bars, set but for 17 and 49: missing or not, any model outputs",
                    dict(n=50, meta=True, use_proba=True, use_pred=True, free=(17, 49))))
    return out

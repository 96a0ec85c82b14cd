"""A signal pipeline over stand-in models whose outputs are unconstrained."""
import numpy as np
import pandas as pd
from mizarlabs.model.pipeline import StrategySignalPipeline

ASSUMPTIONS = ["models are any functions of the row they are given; one output per row, unconstrained (probabilities in [0,1])",
               "features, options and missing values as listed per case"]
NAN = float("nan")


class Model:
    """Answers by the row id in its id column, and remembers what it was asked."""

    def __init__(self, ctx, name, idcol, n, classes, preds=None, proba=None):
        self.ctx, self.idcol, self.name = ctx, idcol, name
        self.classes_ = np.array(classes, dtype=float)
        self.n_classes_ = len(classes)
        self.preds = preds if preds is not None else ctx.reals(f"{name}_pred", n, lo=-1, hi=1)
        self.probs = proba if proba is not None else [ctx.reals(f"{name}_prob{i}_", len(classes), lo=0, hi=1) for i in range(n)]
        self.asked = []

    def fit(self, X, y=None):
        return self

    def ids(self, X):
        if not isinstance(X, pd.DataFrame):
            raise TypeError("a frame of features is expected")
        got = [int(v) - 100 for v in X[self.idcol].values]
        self.asked.append((got, X.copy()))
        return got

    def predict(self, X):
        return self.ctx.array([self.preds[i] for i in self.ids(X)])

    def predict_proba(self, X):
        return self.ctx.matrix([self.probs[i] for i in self.ids(X)])


class Select:
    """feature transformer that selects columns"""

    def __init__(self, cols):
        self.cols = cols

    def transform(self, X):
        return X[self.cols]


class Sizer:
    """A bet sizer stand-in: an injective function of what it is given."""

    def __init__(self, meta):
        self.meta = meta

    @staticmethod
    def of(prob, pred, side):
        return prob * 16 + pred * 4 + side

    def transform(self, X):
        side = X["side"] if self.meta else 0
        return X["prob"] * 16 + X["pred"] * 4 + side


def known(ctx, name, n, K, free):
    """model outputs of which only the rows in free are any"""
    if free is None:
        return None, None
    preds = [ctx.real(f"{name}_pred{i}", lo=-1, hi=1) if i in free else float((i * 3) % 5 % 3 - 1) for i in range(n)]
    probs = [ctx.reals(f"{name}_prob{i}_", K, lo=0, hi=1) if i in free else [((i * 7 + 3 * j) % 16 + 1) / 32 for j in range(K)] for i in range(n)]
    return preds, probs


def setup(ctx, n, meta, split=False, use_proba=True, use_pred=True, classes=(-1.0, 0.0, 1.0), extra=1, sizer=None, miss=(True, True), closing=None,
          keep_one=True, free=None):
    """a pipeline over n bars; split: further primary features come in a second frame, which may start late;
    free: only these rows are any, the others are set"""
    t = ctx.date_range(n)
    if split:
        late = 0 if not miss[0] else ctx.choice("late", range(n) if free is None else [0, n // 4, n - 3])
        pm = [i < late for i in range(n)]
    else:
        pm = [miss[0] and (ctx.flag(f"primary_missing{i}") if free is None or i in free else i % 11 == 3) for i in range(n)]
    mm = [meta and miss[1] and (ctx.flag(f"meta_missing{i}") if free is None or i in free else i % 7 == 2) for i in range(n)]
    if keep_one:
        ctx.assume(not all(a or b for a, b in zip(pm, mm)))
    else:
        ctx.assume(not all(pm))
    fa, fb, ma = [[ctx.real(f"{c}{i}") if free is None or i in free else w * ((i * 13) % 17) + i / 4 for i in range(n)] for w, c in enumerate(["fa", "fb", "ma"], 1)]
    ids = [100 + i for i in range(n)]
    d = {"id": ids, "fa": [NAN if m and not split else v for v, m in zip(fa, pm)]}
    if meta:
        d.update({"mid": ids, "ma": [NAN if m else v for v, m in zip(ma, mm)]})
    X = {"lead": ctx.frame(d, t)}
    tr = {"lead": Select(["id", "fa"])}
    if split:
        X["second"] = ctx.frame({"fb": fb[late:]}, t[late:])
        tr["second"] = None
    trm = {"lead": Select(["mid", "ma"])} if meta else None
    p = StrategySignalPipeline(tr, "lead", {"second": "mean"}, trm, use_proba, use_pred, sizer, closing)
    prim = Model(ctx, "primary", "id", n, classes, *known(ctx, "primary", n, len(classes), free))
    p.set_primary_model(prim)
    mod = None
    if meta:
        mod = Model(ctx, "meta", "mid", n, [0.0, 1.0], *known(ctx, "meta", n, 2, free))
        p.set_metalabeling_model(mod)
    return dict(t=t, pm=pm, mm=mm, X=X, p=p, prim=prim, meta=mod, fa=fa, fb=fb, ma=ma, n=n)


def check_asked(ctx, s, split, use_proba, use_pred):
    """every model only ever saw complete rows, each with that time's own features"""
    for got, X in s["prim"].asked:
        cols = ["id", "fa"] + (["fb"] if split else [])
        ctx.check(sorted(X.columns) == sorted(cols), f"primary features {list(X.columns)}")
        for k, i in enumerate(got):
            ctx.check(X.index[k] == s["t"][i], "features of the row's own time")
            ctx.check_same(X["fa"].iloc[k], s["fa"][i], "primary feature")
            if split:
                ctx.check_same(X["fb"].iloc[k], s["fb"][i], "second primary feature")
    if s["meta"] is None:
        return
    for got, X in s["meta"].asked:
        check_meta_features(ctx, s, got, X, use_proba, use_pred)


def check_meta_features(ctx, s, got, X, use_proba, use_pred):
    K = s["prim"].n_classes_
    cols = ["mid", "ma"] + (["primary_side_pred"] if use_pred else []) + ([f"primary_side_pred_proba_{c}" for c in range(K)] if use_proba else [])
    ctx.check(sorted(X.columns) == sorted(cols), f"meta features {list(X.columns)}")
    for k, i in enumerate(got):
        ctx.check(X.index[k] == s["t"][i], "meta features of the row's own time")
        ctx.check_same(X["ma"].iloc[k], s["ma"][i], "meta feature")
        if use_pred:
            ctx.check_same(X["primary_side_pred"].iloc[k], s["prim"].preds[i], "primary prediction as a feature")
        if use_proba:
            for c in range(K):
                ctx.check_same(X[f"primary_side_pred_proba_{c}"].iloc[k], s["prim"].probs[i][c], "primary probability as a feature")

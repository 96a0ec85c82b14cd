import numpy as np
import pandas as pd
import talib
from symx.case import Case
from checks.common_ta import signature, indicator, vals, ASSUMPTIONS  # noqa
from mizarlabs.transformers.technical.factory import TAFactory

ASSUMPTIONS = ASSUMPTIONS + ["argument and setting names are those of the library's own typed signatures",
                             "a mapping does not rename a column that is also named as the column to transform"]


def plan(ctx, name, n):
    """columns of the frame and the settings that ask for them"""
    args, sets = signature(name)
    kw, cols = {}, list(args)
    if "real" in args:
        kw["col_to_transform"] = cols[args.index("real")] = ctx.choice("column", ["close", "x"])
    if "real0" in args:
        two = ctx.choice("columns", [["open", "close"], ["close", "open"], ["a", "b"]])
        kw["col_to_transform"] = list(two)
        cols = [two[int(a[-1])] if a in ("real0", "real1") else a for a in args]
    free = [i for i, a in enumerate(args) if not a.startswith("real")]
    if free:
        how = ctx.choice("mapping", ["none", "one", "all", "rotate"])
        m = {}
        if how == "one":
            m = {args[free[-1]]: "my_" + args[free[-1]]}
        elif how == "all":
            m = {args[i]: "my_" + args[i] for i in free}
        elif how == "rotate":       # every column under its neighbour's name
            m = {args[i]: args[free[(k + 1) % len(free)]] for k, i in enumerate(free)}
        if how != "none":
            kw["col_to_transform_mapping"] = m
        cols = [m.get(a, c) if i in free else c for i, (a, c) in enumerate(zip(args, cols))]
    return args, sets, kw, cols


def called(ctx, names, n, outs):
    name = ctx.choice("indicator", names)
    args, sets, kw, cols = plan(ctx, name, n)
    some = [s for i, s in enumerate(sets) if i < 2 or i == len(sets) - 1]
    given = {s: ctx.int(f"set_{s}", lo=2, hi=50) for s in some if ctx.flag(f"given_{s}")}
    if given or ctx.flag("empty settings") and sets:
        kw["kw_args"] = dict(given)
    idx = ctx.date_range(n)
    data = {c: ctx.reals(f"{c}_", n, lo=-9, hi=9) for c in dict.fromkeys(cols)}
    data["other"] = ctx.reals("other_", n, lo=-9, hi=9)
    data["real"] = ctx.reals("real_", n, lo=-9, hi=9) if "real" not in data else data["real"]
    order = list(data) if ctx.flag("order") else list(data)[::-1]
    X = ctx.frame({c: data[c] for c in order}, idx)
    k = ctx.choice("outputs", outs)
    ret = [[float("nan") if i == 0 else ctx.real(f"out{j}_{i}", lo=-9, hi=9) for i in range(n)] for j in range(k)]
    log = []

    def fn(a, s):
        log.append(([vals(v) for v in a], dict(s)))
        o = tuple(ctx.array(v) for v in ret)
        return o if k > 1 else o[0]

    with indicator(name, fn):
        t = TAFactory().create_transformer(name, **kw)
        out = t.transform(X)
    ctx.check(len(log) == 1, "the indicator is called once")
    a, s = log[0]
    ctx.check(len(a) == len(args), f"{len(a)} arguments instead of {len(args)}")
    for i, (v, c) in enumerate(zip(a, cols)):
        ctx.check_all_same(v, data[c], f"{name}: argument {args[i]} is column {c}")
    ctx.check(set(s) == set(given), f"{name}: settings {sorted(s)} instead of {sorted(given)}")
    for q in given:
        ctx.check(s[q] == given[q], f"{name}: setting {q}")
    ctx.check(np.shape(out) == (n, k), f"{name}: shape {np.shape(out)}")
    for j in range(k):
        ctx.check_all_same(list(np.asarray(out)[:, j]), ret[j], f"{name}: output {j}")
    for c in X:
        ctx.check_all_same(list(X[c].values), data[c], "the input is left alone")


def described(ctx, names):
    name = ctx.choice("indicator", names)
    a, k = TAFactory().get_args_kwargs(name)
    args, sets = signature(name)
    ctx.check(list(a) == args, f"{name}: arguments {a} instead of {args}")
    ctx.check(list(k or []) == sets, f"{name}: settings {k} instead of {sets}")


def rejected(ctx, names):
    what = ctx.choice("what", ["name", "setting", "mapping", "mapping type", "no column", "one column", "missing", "array", "settings of none"])
    f = TAFactory()
    bad, use = (ValueError, TypeError), None
    with_args = [n for n in names if not any(a.startswith("real") for a in signature(n)[0])]
    if what == "name":
        use = lambda: f.create_transformer(ctx.choice("bad", ["RSI2", "rsi ", "", "nothing"]), "close")  # noqa
    elif what == "setting":
        n = ctx.choice("i", [n for n in names if signature(n)[1]])
        use = lambda: f.create_transformer(n, **column(n), kw_args={signature(n)[1][0]: 3, "period": 3})  # noqa
    elif what == "settings of none":
        n = ctx.choice("i", [n for n in names if not signature(n)[1]])
        use = lambda: f.create_transformer(n, **column(n), kw_args={"timeperiod": 3})  # noqa
    elif what == "mapping":
        n = ctx.choice("i", with_args)
        use = lambda: f.create_transformer(n, col_to_transform_mapping={signature(n)[0][0]: "x", "nothing": "y"})  # noqa
    elif what == "mapping type":
        n = ctx.choice("i", with_args)
        use = lambda: f.create_transformer(n, col_to_transform_mapping=[signature(n)[0][0]])  # noqa
    elif what == "no column":
        n = ctx.choice("i", [n for n in names if "real" in signature(n)[0]])
        use = lambda: f.create_transformer(n, ctx.choice("col", [None, ["close"]]))  # noqa
    elif what == "one column":
        n = ctx.choice("i", [n for n in names if "real0" in signature(n)[0]])
        use = lambda: f.create_transformer(n, ctx.choice("col", [None, "close", ["close", 3]]))  # noqa
    else:
        n = ctx.choice("i", names)
        args = signature(n)[0]
        cols = [dict(real="close", real0="open", real1="close").get(a, a) for a in args]
        t = f.create_transformer(n, **column(n))
        if what == "missing":
            gone = ctx.choice("gone", list(dict.fromkeys(cols)))
            bad = ValueError
            X = pd.DataFrame({c: [1., 2., 3.] for c in cols + ["z"] if c != gone})
        else:
            bad = TypeError
            X = np.ones((3, len(cols)))
        use = lambda: t.transform(X)  # noqa
    ctx.check(ctx.raises(bad, use) is not None, f"rejected: {what}")


def column(n):
    a = signature(n)[0]
    return dict(col_to_transform="close") if "real" in a else (dict(col_to_transform=["open", "close"]) if "real0" in a else {})


def cases(tier):
    names = talib.get_functions()
    kinds = {}
    for n in names:
        kinds.setdefault(tuple(map(tuple, signature(n))), []).append(n)
    few = [v[0] for v in kinds.values()]
    out = [Case("signatures", described, f"all {len(names)} indicators of the library", dict(names=names)),
           Case("rejected", rejected, f"unknown names, settings, mappings and columns, {len(few)} indicators (one per signature)", dict(names=few))]
    chunk = (lambda l, m: [l[i::m] for i in range(m)])
    for i, c in enumerate(chunk(names, 8)):
        out.append(Case(f"indicators {i}", called, f"{len(c)} indicators, 2 rows of any values, any columns, mappings and settings; 1 output",
                        dict(names=c, n=2, outs=[1])))
    multi = [n for n in few if len(signature(n)[0]) <= 2][:6]
    out.append(Case("outputs", called, f"{len(multi)} indicators with 1 to 3 outputs, 3 rows", dict(names=multi, n=3, outs=[1, 2, 3])))
    if tier == "thorough":
        for i, c in enumerate(chunk(names, 8)):
            out.append(Case(f"indicators {i} outputs", called, f"{len(c)} indicators, 3 rows, 2 or 3 outputs", dict(names=c, n=3, outs=[2, 3])))
    return out

#!/opt/venv/bin/python
"""The stand-ins against the real libraries: every operation below is run on symbolic columns that are constrained to
given numbers, and the outcome compared with what pandas/numpy give for those numbers.
An operation the engine refuses (LIMIT) is harmless: checks then fall back on concrete runs.  One that silently
differs (WRONG) would make the encoding unsound.   usage: selftest.py [regex]"""
import os, sys
PY = "/opt/venv/bin/python"
if os.environ.get("SYMX_CHILD") != "1":
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ, SYMX_CHILD="1", NUMBA_DISABLE_JIT="1", PYTHONHASHSEED="0",
              OMP_NUM_THREADS="1", PYTHONWARNINGS="ignore"))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import re, math, types, warnings, traceback, multiprocessing as mp
warnings.filterwarnings("ignore")
import numpy as np, pandas as pd
N = float("nan")
S = [3.0, 1.5, -2.25, 1.5, 0.0, 7.125, -0.5]
T = [1.0, 2.0, 0.5, 4.0, 8.0, 0.25, 3.0]
G = [3.0, N, -2.25, N, N, 7.125, -0.5]
IDX = pd.date_range("2020-01-01", periods=7, freq="7H")
OPS = """
s.round(1) ; s.round() ; D.round(1) ; s.clip(-1,2) ; s.clip(lower=0) ; s.clip(upper=t) ; s.abs() ; s.diff() ; s.diff(2) ; s.diff(-1) ; t.pct_change() ; t.pct_change(2)
g.pct_change() ; s.shift(1) ; s.shift(-2) ; s.shift(1, fill_value=0) ; s.rank() ; s.quantile(.3) ; s.median() ; g.median() ; g.interpolate() ; g.ffill() ; g.bfill() ; g.ffill(limit=1)
g.fillna(0) ; g.fillna(s) ; g.fillna(method="ffill") ; s.where(s>0) ; s.where(s>0, t) ; s.mask(s>0, 0) ; s.replace(1.5, 9) ; g.replace(np.nan, 0) ; s.cumsum() ; g.cumsum() ; s.cumprod() ; g.cumprod()
s.cummax() ; g.cummax() ; s.cummin() ; g.cummin() ; s.sum() ; g.sum() ; g.mean() ; g.std() ; g.var(ddof=0) ; g.std(ddof=0) ; g.count() ; g.prod() ; g.max() ; g.min() ; g.isna() ; g.notna() ; g.dropna()
g.sem() ; s.skew() ; s.kurt() ; s.mad() ; s.mode() ; s.nunique() ; s.unique() ; s.duplicated() ; s.drop_duplicates() ; s.value_counts() ; s.is_monotonic_increasing ; s.is_unique ; s.hasnans ; g.hasnans
s.sort_values() ; s.sort_values(ascending=False) ; g.sort_values() ; s.argsort() ; s.idxmax() ; s.idxmin() ; g.idxmax() ; s.argmax() ; s.argmin() ; s.nlargest(2) ; s.nsmallest(2) ; s.between(0, 2) ; s.isin([1.5, 0.0])
s.combine_first(t) ; g.combine_first(s) ; s.add(g, fill_value=0) ; s.sub(t) ; s.mul(t) ; s.div(t) ; t.pow(2) ; s.mod(t) ; s.floordiv(t) ; s // t ; s % t ; s ** 2 ; t ** .5 ; t ** -1 ; 2 ** t ; s.gt(t) ; s.eq(t) ; s.ne(1.5) ; s.le(0)
s.corr(t) ; s.cov(t) ; g.cov(t) ; s.autocorr() ; s.dot(t) ; s.any() ; s.all() ; (s>0).any() ; (s>0).all() ; (s>0).sum() ; (s>0).mean() ; (s>0).astype(int) ; (s>0).cumsum() ; (s>0).idxmax() ; (s>0).argmax() ; ~(s>0)
(s>0)&(t>1) ; (s>0)|(t>1) ; (s>0)^(t>1) ; s.astype(int) ; s.astype(float) ; s.astype(bool) ; s.astype("float32") ; s.astype(np.int64) ; s.to_numpy() ; s.values ; s.tolist() ; list(s) ; s.to_frame() ; s.reindex(IDX[::2]) ; s.reindex(IDX[::2], method="ffill") ; s.loc[IDX[2]:] ; s[s>0] ; s.loc[s>0] ; s.iloc[1:3] ; s[s.isna()]
s.map(lambda v: v*2) ; s.apply(lambda v: v*2) ; s.apply(np.sign) ; s.agg("mean") ; s.agg(["mean","max"]) ; s.transform(np.abs) ; s.pipe(np.abs) ; s.describe() ; s.nlargest(1).index[0] ; s.rename("x").name ; s.tail(2) ; s.head(2) ; s.first_valid_index() ; g.last_valid_index() ; g.first_valid_index()
s.groupby(s>0).sum() ; s.groupby((s>0).cumsum()).cumsum() ; s.groupby([0,0,1,1,1,2,2]).mean() ; s.groupby([0,0,1,1,1,2,2]).cumsum() ; s.groupby([0,0,1,1,1,2,2]).transform("max") ; s.groupby([0,0,1,1,1,2,2]).std() ; s.groupby([0,0,1,1,1,2,2]).last() ; g.groupby([0,0,1,1,1,2,2]).first() ; g.groupby([0,0,1,1,1,2,2]).ffill()
s.resample("1D").sum() ; s.resample("1D").last() ; s.resample("1D").mean() ; s.resample("1D").ohlc() ; s.asof(IDX[3]) ; s.truncate(after=IDX[3]) ; s.at[IDX[2]] ; s.get(IDX[2]) ; s.item if False else 0
s.rolling(3).mean() ; s.rolling(3).sum() ; s.rolling(3).std() ; s.rolling(3).var() ; s.rolling(3).max() ; s.rolling(3).min() ; s.rolling(3).median() ; s.rolling(3).count() ; s.rolling(3).apply(lambda x: x.sum()) ; s.rolling(3).apply(lambda x: x[0], raw=True)
s.rolling(3).skew() ; s.rolling(4).kurt() ; s.rolling(3).quantile(.5) ; s.rolling(3).corr(t) ; s.rolling(3).cov(t) ; g.rolling(3).cov(t) ; s.rolling(3).cov(t, ddof=0) ; s.rolling(3).agg("sum") ; s.rolling(3).agg(["sum","max"]) ; s.rolling(3).rank() ; s.rolling(3).sem()
s.rolling(3).std(ddof=0) ; s.rolling(3).var(ddof=0) ; s.rolling(3, min_periods=1).mean() ; s.rolling(3, min_periods=2).std() ; g.rolling(3).mean() ; g.rolling(3, min_periods=1).mean() ; g.rolling(3, min_periods=1).sum() ; g.rolling(2, min_periods=0).sum() ; g.rolling(3).max() ; g.rolling(3, min_periods=1).max() ; g.rolling(3, min_periods=1).var() ; g.rolling(3).count()
s.rolling(3, center=True).mean() ; s.rolling(3, closed="left").mean() ; s.rolling(3, closed="both").mean() ; s.rolling("15H").sum() ; s.rolling("15H").mean() ; s.rolling("15H", closed="left").sum() ; s.rolling(pd.Timedelta(hours=15)).max() ; s.rolling(window=1).mean() ; s.rolling(1).std() ; s.rolling(9).mean() ; s.rolling(9, min_periods=1).mean() ; s.rolling(3, win_type="triang").mean() ; D.rolling(3).mean() ; D.rolling(2).sum() ; D.rolling(2).max() ; D.rolling(3).cov() ; D.rolling(3).corr()
s.expanding().mean() ; s.expanding().max() ; s.expanding().std() ; g.expanding().sum() ; s.expanding(2).mean() ; g.expanding(1).count() ; s.expanding(min_periods=3).var()
s.ewm(span=3).mean() ; s.ewm(span=3).std() ; s.ewm(span=3).var() ; s.ewm(span=3, adjust=False).mean() ; s.ewm(alpha=.3).mean() ; s.ewm(com=2).mean() ; s.ewm(halflife=2).mean() ; g.ewm(span=3).mean() ; g.ewm(span=3, ignore_na=True).mean() ; g.ewm(span=3, adjust=False).mean() ; s.ewm(span=3, min_periods=3).mean() ; g.ewm(span=3).std() ; s.ewm(span=3).var(bias=True) ; g.ewm(span=3, adjust=False).var() ; s.ewm(span=3, adjust=False).std() ; s.ewm(span=3).cov(t) ; s.ewm(span=3).corr(t) ; s.ewm(span=3).sum() ; D.ewm(span=3).mean() ; s.ewm(span=1).mean() ; s.ewm(span=3, min_periods=2).std() ; s.ewm(2).mean() ; s.ewm(span=3).agg("mean")
s.ewm(halflife="7H", times=IDX).mean()
np.sign(s) ; np.abs(s) ; np.log(t) ; np.exp(t/8) ; np.sqrt(t) ; np.square(s) ; np.power(t, 2) ; np.power(t, .5) ; np.floor(s) ; np.ceil(s) ; np.rint(s) ; np.round(s, 1) ; np.trunc(s) ; np.fix(s) ; np.log1p(t) ; np.log2(t) ; np.log10(t) ; np.expm1(t/8) ; np.cbrt(t) ; np.reciprocal(t) ; np.hypot(s, t) ; np.tanh(s) ; np.arctan(s)
np.maximum(s, t) ; np.minimum(s, 0) ; np.fmax(g, t) ; np.fmin(g, t) ; np.maximum(g, t) ; np.where(s>0, s, t) ; np.where(s>0, 1, -1) ; np.where(s.values>0)[0] ; np.nan_to_num(g) ; np.nan_to_num(g.values) ; np.clip(s, -1, 2) ; np.clip(s.values, 0, None) ; np.diff(s) ; np.diff(s.values) ; np.cumsum(s.values) ; np.cumprod(s.values) ; np.mean(s) ; np.mean(s.values) ; np.std(s) ; np.std(s.values) ; np.var(s.values, ddof=1) ; np.median(s.values) ; np.nanmean(g.values) ; np.nanstd(g.values) ; np.nansum(g.values) ; np.nanmax(g.values) ; np.nanmin(g) ; np.nanmedian(g.values) ; np.mean(g.values) ; np.sum(g.values) ; np.max(g.values) ; np.min(g.values) ; np.max(g) ; np.nanvar(g.values)
np.isclose(s, t) ; np.allclose(s, s) ; np.isnan(g) ; np.isnan(g.values) ; np.isfinite(g) ; np.isinf(s.values) ; np.select([s>1, s<0],[1,-1],0) ; np.dot(s.values, t.values) ; s.values @ t.values ; np.inner(s.values, t.values) ; np.outer(s.values, t.values) ; np.sort(s.values) ; np.argsort(s.values) ; np.argmax(s.values) ; np.argmin(s.values) ; np.nanargmax(g.values) ; np.searchsorted(t.cumsum().values, 5.0) ; np.digitize(s.values, [0., 1.]) ; np.interp(2.5, t.cumsum().values, s.values) ; np.unique(s.values) ; np.any(s.values>5) ; np.all(s.values>-5) ; np.count_nonzero(s.values) ; np.nonzero(s.values)[0] ; np.flatnonzero(s.values>0) ; np.prod(t.values) ; np.average(s.values, weights=t.values) ; np.average(s.values) ; np.ptp(s.values) ; np.percentile(s.values, 30) ; np.quantile(s.values, .5) ; np.cov(s.values, t.values) ; np.corrcoef(s.values, t.values) ; np.trapz(s.values) ; np.convolve(s.values, [1.,2.]) ; np.convolve(s.values, np.ones(3)/3, "valid") ; np.polyfit(t.values, s.values, 1) ; np.vander(t.values, 2) ; np.gradient(s.values) ; np.heaviside(s.values, 0.) ; np.copysign(t.values, s.values) ; np.mod(s.values, 2) ; np.divide(s.values, t.values) ; np.add.reduce(s.values) ; np.maximum.accumulate(s.values) ; np.minimum.accumulate(s.values) ; np.add.accumulate(s.values) ; np.maximum.reduce(s.values) ; np.multiply(s.values, t.values) ; np.subtract(s.values, t.values) ; np.logical_and(s.values>0, t.values>1) ; np.logical_not(s.values>0) ; np.equal(s.values, t.values) ; np.greater_equal(s.values, t.values) ; np.less(s.values, 0) ; np.sum(s.values>0) ; np.bincount((s.values>0).astype(int)) ; np.repeat(s.values, 2) ; np.tile(s.values, 2) ; np.roll(s.values, 1) ; np.flip(s.values) ; np.concatenate([s.values, t.values]) ; np.column_stack([s.values, t.values]) ; np.vstack([s.values, t.values]) ; np.stack([s.values, t.values], 1) ; np.append(s.values, 1.) ; np.insert(s.values, 0, 1.) ; np.delete(s.values, 0) ; np.take(s.values, [0, 2]) ; np.full(3, s.values[0]) ; np.full_like(s.values, 2.) ; np.zeros_like(s.values) ; np.ones_like(t.values) ; np.asarray(s) ; np.array(s, dtype=float) ; np.array(list(s)) ; np.asarray(s.values, dtype=np.float64) ; np.ascontiguousarray(s.values) ; np.atleast_2d(s.values) ; np.array_equal(s.values, s.values) ; np.array_split(s.values, 3)[1] ; np.split(s.values, [2])[1] ; np.linspace(s.values[0], t.values[0], 3) ; np.arange(3) * s.values[0] ; np.triu(M) ; np.tril(M) ; np.diag(M) ; np.trace(M) ; np.eye(2) @ M ; np.linalg.inv(M) ; np.linalg.pinv(M) ; np.linalg.det(M) ; np.linalg.solve(M, [1., 2.]) ; np.linalg.norm(s.values) ; np.linalg.lstsq(np.column_stack([t.values, np.ones(7)]), s.values, rcond=None)[0] ; np.linalg.matrix_rank(M) ; np.linalg.matrix_power(M, 2) ; M.T @ M ; M.dot(M) ; np.matmul(M, M) ; np.einsum("ij,jk->ik", M, M) ; np.einsum("i,i->", s.values, t.values) ; np.kron(M, M) ; np.cross([1.,2,3], s.values[:3]) ; np.sliding_window_view if False else 0 ; np.lib.stride_tricks.sliding_window_view(s.values, 3).mean(axis=1) ; np.lib.stride_tricks.sliding_window_view(s.values, 3).max(1)
M.mean() ; M.mean(axis=0) ; M.sum(axis=1) ; M.std(axis=0, ddof=1) ; M.max(axis=1) ; M.min() ; M.argmax(axis=1) ; M.cumsum(axis=0) ; M.T ; M.reshape(-1) ; M.flatten() ; M.ravel() ; M.round(1) ; M.clip(0, 1) ; M.any() ; M.all() ; M.prod() ; M.var() ; np.amax(M, axis=0) ; np.argmax(M, axis=0) ; np.sort(M, axis=0) ; np.mean(M, axis=1, keepdims=True) ; np.nanmean(M, axis=0) ; np.apply_along_axis(lambda r: r.sum(), 1, M) ; np.sum(M) ; np.cumsum(M, axis=1) ; s.values.cumsum() ; s.values.argsort() ; s.values.searchsorted(0) if False else 0 ; s.values.dot(t.values) ; s.values.mean() ; s.values.std() ; s.values.std(ddof=1) ; s.values.var() ; s.values.astype(int) ; s.values.astype(float) ; s.values.astype(bool) ; s.values.tolist() ; s.values.max() ; s.values[s.values>0] ; s.values[::-1] ; s.values.copy() ; s.values.nonzero()[0] ; s.values.repeat(2) ; s.values.take([1]) ; abs(s.values) ; -s.values ; s.values**2 ; 1/t.values ; s.values//2 ; s.values%2 ; divmod(s.values, 2)[0]
D.mean() ; D.mean(axis=1) ; D.max(axis=1) ; D.min(axis=1) ; D.sum(axis=1) ; D.sum() ; D.std() ; D.std(axis=1) ; D.var() ; D.median() ; D.median(axis=1) ; D.idxmax(axis=1) ; D.idxmin() ; D.idxmax() ; D.abs() ; D.diff() ; D.shift() ; D.cumsum() ; D.cumsum(axis=1) ; D.cummax() ; D.pct_change() ; D.clip(0,1) ; D.fillna(0) ; DG.fillna(0) ; DG.ffill() ; DG.bfill() ; DG.dropna() ; DG.isna().any(axis=1) ; DG.isna().sum() ; DG.notna().all(axis=1) ; DG.mean() ; DG.mean(axis=1) ; DG.max() ; DG.count() ; DG.dropna(how="all") ; DG.dropna(subset=["b"]) ; DG.dropna(thresh=2) ; DG.interpolate()
D.corr() ; D.cov() ; D.corrwith(s) ; D.rank() ; D.quantile(.5) ; D.describe() ; D.apply(np.sum) ; D.apply(lambda r: r["a"]*r["b"], axis=1) ; D.apply(np.sum, axis=1) ; D.applymap(lambda v: v+1) ; D.agg("sum") ; D.agg({"a":"sum","b":"max"}) ; D.agg(["min","max"]) ; D.transform(np.abs) ; D.eval("a*b") ; D.query("a > 0") ; D.assign(c=D.a+D.b) ; D.sort_values("a") ; D.sort_values(["a","b"], ascending=False) ; D.nlargest(2, "a") ; D[D.a>0] ; D.loc[D.a>0, "b"] ; D.where(D>0) ; D.mask(D>0, 0) ; D.replace(1.5, 0) ; D.values ; D.to_numpy() ; D.T ; D.sub(s, axis=0) ; D.div(t, axis=0) ; D.mul(D) ; D - D.mean() ; (D - D.mean())/D.std() ; D.dot(M) ; D @ M ; D.gt(0) ; (D>0).all(axis=1) ; (D>0).any() ; D.astype(float) ; D.astype(int) ; D.stack() ; D.melt() ; D.prod(axis=1) ; D.iloc[1] ; D.iloc[:, 0] ; D.iterrows if False else 0 ; [r.a for r in D.itertuples()] ; [r["a"] for _, r in D.iterrows()] ; D.to_dict("list") ; D.groupby([0,0,1,1,1,2,2]).sum() ; D.groupby([0,0,1,1,1,2,2]).mean() ; D.resample("1D").sum() ; D.resample("1D").agg({"a":"sum","b":"last"}) ; D.drop_duplicates() ; D.duplicated() ; D.nunique() ; D.equals(D) ; D.reindex(IDX[::2]) ; D.join(s.rename("c")) ; D.merge(D, left_index=True, right_index=True) ; pd.concat([D, s.rename("c")], axis=1) ; pd.concat([s, t]) ; pd.concat([s, t.iloc[:3].rename("b")], axis=1) ; pd.merge_asof(D, t.iloc[::2].rename("c").to_frame(), left_index=True, right_index=True) ; pd.DataFrame({"x": s, "y": t.iloc[:3]}) ; pd.Series(s.values, index=IDX, dtype=float) ; pd.isna(s) ; pd.isnull(g.values) ; pd.notnull(g) ; pd.cut(s, [-10, 0, 10], labels=False) ; pd.qcut(s, 2, labels=False) ; pd.to_numeric(s) ; pd.Series(np.sign(s.values)).diff() ; pd.Series(s.values).infer_objects() ; s.convert_dtypes() ; s.infer_objects() ; pd.factorize(s)[0] ; pd.get_dummies(s>0) ; pd.Series([s.values[0]]*2).nunique()
math.sqrt(t.iloc[0]) ; math.log(t.iloc[1]) ; math.exp(t.iloc[0]) ; math.floor(s.iloc[0]) ; math.ceil(s.iloc[1]) ; math.isnan(s.iloc[0]) ; math.fabs(s.iloc[2]) ; math.fsum(s) ; math.isclose(s.iloc[0], 3) ; math.pow(t.iloc[1], 2) ; math.copysign(1, s.iloc[2]) ; math.hypot(s.iloc[0], t.iloc[0]) ; sum(s) ; max(s) ; min(s) ; sorted(s) ; abs(s.iloc[2]) ; round(s.iloc[1]) ; round(s.iloc[5], 1) ; int(s.iloc[0]) ; float(s.iloc[0]) ; bool(s.iloc[4]) ; s.iloc[0] // 2 ; s.iloc[5] % 2 ; -s.iloc[2] // 2 ; divmod(s.iloc[5], 2) ; any(v > 5 for v in s) ; all(s) ; hash(s.iloc[0]) and 0 ; {v: 1 for v in s.iloc[:2]}[s.iloc[0]] ; s.iloc[0] in [3.0, 1] ; s.iloc[0] in set([3.0]) ; [3.0,1.5].index(s.iloc[1]) ; str(s.iloc[0]) ; f"{s.iloc[0]:.1f}" ; s.iloc[0].is_integer() ; np.float64(s.iloc[0]) ; isinstance(s.iloc[0], float) ; isinstance(s.iloc[0], numbers.Number) ; np.isscalar(s.iloc[0]) ; type(s.iloc[0])(2) ; s.dtype == float ; s.dtype.kind ; s.values.dtype == np.float64 ; pd.api.types.is_numeric_dtype(s) ; D.select_dtypes("number") ; D.dtypes.tolist()
scipy.stats.norm.cdf(s.values) ; scipy.stats.norm.cdf(s.iloc[0]) ; scipy.special.ndtr(s.values) ; scipy.stats.zscore(s.values) ; scipy.stats.norm.ppf([.3])[0]*s.iloc[0] ; scipy.stats.linregress(t.values, s.values).slope ; scipy.signal.lfilter([1.],[1.,-.5], s.values) ; sklearn.preprocessing.StandardScaler().fit_transform(D) ; sklearn.linear_model.LinearRegression().fit(D[["a"]], D.b).coef_ ; sklearn.metrics.accuracy_score((s>0), (t>1)) ; sklearn.utils.check_array(D) ; sklearn.utils.check_X_y(D, s>0)[0] ; sklearn.utils.check_array(DG) ; sklearn.utils.check_array(DG, force_all_finite=False)
"""


def mk(s, t, g, ser, frm, mat):
    import scipy.stats, scipy.special, scipy.signal, sklearn.preprocessing, sklearn.linear_model, sklearn.metrics, sklearn.utils, sklearn, scipy, numbers
    s_, t_, g_ = ser(s), ser(t), ser(g)
    return dict(s=s_, t=t_, g=g_, D=frm({"a": s, "b": t}), DG=frm({"a": g, "b": t}), M=mat([[s[0], t[1]], [s[2], t[3]]]), np=np, pd=pd, math=math,
                IDX=IDX, scipy=scipy, sklearn=sklearn, numbers=numbers)


def flat(x):
    if isinstance(x, pd.DataFrame):
        return [("cols", list(map(str, x.columns)))] + [v for i in range(x.shape[0]) for v in x.iloc[i].tolist()] + [str(i) for i in x.index]
    if isinstance(x, pd.Series):
        return list(x.values) + [i for i in x.index]
    if isinstance(x, pd.Index):
        return list(x)
    if isinstance(x, dict):
        return [v for k in x for v in [k] + flat(x[k])]
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in flat(y)]
    return [x]


def real(op):
    try:
        return ("ok", flat(eval(op, mk(S, T, G, lambda v: pd.Series(v, index=IDX), lambda d: pd.DataFrame(d, index=IDX), lambda m: np.array(m)))))
    except Exception as e:
        return ("raise", type(e).__name__ + " " + str(e)[:60])


def sym_one(op, want, q):
    from symx import engine
    from symx.engine import Engine, PathEnd, Stats
    from symx.ctx import SymCtx, isnan
    from symx.sym import SymNum
    from fractions import Fraction
    prefix = []
    eng = Engine(prefix, Stats())
    engine.CUR = eng
    ctx = SymCtx(eng)
    try:
        def num(nm, v):
            if v != v:
                return N
            x = ctx.real(nm)
            ctx.assume(x == Fraction(v))
            return x
        a = [num(f"s{i}", v) for i, v in enumerate(S)]
        b = [num(f"t{i}", v) for i, v in enumerate(T)]
        c = [N if v != v else a[i] for i, v in enumerate(G)]
        env = mk(a, b, c, lambda v: ctx.series(v, IDX), lambda d: ctx.frame(d, IDX), ctx.matrix)
        import ast
        import types
        from symx import shims
        m = types.ModuleType("ops")
        m.__dict__.update(env)
        shims._install_globals(m)
        m.__dict__["__symx__"] = shims
        tree = shims.Rewriter().visit(ast.parse(op, mode="eval"))
        ast.fix_missing_locations(tree)
        got = flat(eval(compile(tree, "ops", "eval"), m.__dict__))
        if want[0] == "raise":
            q.put(("EXTRA", "gives a value where the real code raises " + want[1]))
            return
        w = want[1]
        if len(got) != len(w):
            q.put(("WRONG", f"{len(got)} values instead of {len(w)}: {got} {w}"[:300]))
            return
        for i, (x, y) in enumerate(zip(got, w)):
            if isinstance(x, SymNum) or isinstance(y, (float, int, np.floating, np.integer)) and not isinstance(y, (bool, np.bool_)):
                n0 = len(eng.cex) + len(eng.inconclusive)
                ctx.check_close(x, float(y), f"value {i}", 1e-6)
                if len(eng.cex) + len(eng.inconclusive) > n0:
                    q.put(("WRONG", f"value {i}: not {y}: {x!r}"[:300]))
                    return
            elif isinstance(y, (bool, np.bool_)):
                if bool(x) != bool(y):
                    q.put(("WRONG", f"value {i}: {x!r} not {y}"[:300]))
                    return
            elif not (x == y or (x is y) or (pd.isna(x) and pd.isna(y))):
                q.put(("WRONG", f"value {i}: {x!r} not {y!r}"[:300]))
                return
        q.put(("OK", ""))
    except PathEnd as e:
        q.put(("WRONG" if eng.cex else "END", repr(e)[:200] + str(eng.cex)[:200]))
    except Exception as e:
        q.put(("OK" if want[0] == "raise" else "LIMIT", f"{type(e).__name__}: {str(e)[:150]}"))


def run(op):
    want = real(op)
    return want


def main():
    pat = re.compile(sys.argv[1]) if len(sys.argv) > 1 and not sys.argv[1].startswith("-") else None
    ops = [o.strip() for line in OPS.strip().splitlines() for o in line.split(" ; ") if o.strip()]
    ops = [o for o in ops if not pat or pat.search(o)]
    # the real results first, from a process without stand-ins
    wants = [real(o) for o in ops]
    from symx import shims
    shims.install()
    ctx = mp.get_context("fork")
    tally = {}
    bad = 0
    jobs = []

    def collect(limit):
        nonlocal bad
        while len(jobs) > limit:
            op, want, p, q = jobs.pop(0)
            try:
                st, msg = q.get(timeout=60)
            except Exception:
                st, msg = "LIMIT", "no answer"
            p.join(1)
            if p.is_alive():
                p.kill()
            tally[st] = tally.get(st, 0) + 1
            if st == "WRONG" and re.search(r"log|exp|cdf|ndtr|2 \*\* t|dtype|str\(|f\"|in set", op):
                st = "KNOWN"        # uninterpreted functions; symbolic columns are object columns; text of a number; see DESIGN
                tally["WRONG"] -= 1
                tally[st] = tally.get(st, 0) + 1
            if st == "WRONG":
                bad += 1
            if st in ("WRONG", "END", "EXTRA") or "-v" in sys.argv and st == "LIMIT":
                print(f"{st:6} {op}   {msg}   [real: {str(want)[:160]}]", flush=True)
    for op, want in zip(ops, wants):
        q = ctx.Queue()
        p = ctx.Process(target=sym_one, args=(op, want, q), daemon=True)
        p.start()
        jobs.append((op, want, p, q))
        collect(4)
    collect(0)
    print(tally)
    return 1 if bad else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

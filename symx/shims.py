"""Makes the real code run on symbolic values: source import hook, numpy stand-ins, pandas kernels.

What is replaced, and by what, is part of the claim (see DESIGN.md, "Trusted base"):
  * numba kernels run as the Python source they are written in (NUMBA_DISABLE_JIT=1);
  * numpy functions whose C loops need machine floats are replaced, for object arrays only, by
    element-by-element equivalents; np.linalg.inv by the adjugate formula; np.empty by fresh
    unconstrained variables (uninitialised memory may hold anything);
  * pandas' rolling / ewm / reductions C kernels are replaced, for object columns only, by their
    defining formulas.
Everything is otherwise the real pandas / numpy / scipy / sklearn.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import math
import os
import sys
import types
from fractions import Fraction

import numpy as np
import pandas as pd

from . import engine
from .sym import (SymNum, SymBool, SymTime, SymDelta, NAN, INF, is_sym, has_sym, mk, lift, sign, rint,
                  sym_cdf, sym_sqrt, sym_log, sym_exp, floordiv, any_of, all_of, is_num, E, div)
from .engine import EngineLimit
from .alg import Rat, Poly

REPO = os.environ.get("SYMX_REPO", "/repo")


def isnan(x):
    return x is pd.NaT or x is pd.NA or x is None or (isinstance(x, (float, np.floating)) and math.isnan(x))


# ------------------------------------------------------------------------------------------
# elementwise helpers
# ------------------------------------------------------------------------------------------
def omap(f, x, out_bool=False):
    if isinstance(x, pd.Series):
        return pd.Series(omap(f, _obj(x.values), out_bool), index=x.index, name=x.name)
    if isinstance(x, pd.DataFrame):
        return pd.DataFrame({c: omap(f, x[c], out_bool) for c in x.columns}, index=x.index)
    if isinstance(x, pd.Index):
        return omap(f, _obj(x.values), out_bool)
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=bool if out_bool else object)
        xo = x
        for i in np.ndindex(x.shape):
            out[i] = f(xo[i])
        return out if x.ndim else out[()]
    if isinstance(x, (list, tuple)):
        return omap(f, np.array(x, dtype=object), out_bool)
    return f(x)


def _obj(a):
    a = np.asarray(a)
    return a if a.dtype == object else a.astype(object)


def _is_obj(x):
    if isinstance(x, (SymNum, SymBool, SymTime, SymDelta)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (pd.Series, pd.Index)):
        return x.dtype == object
    if isinstance(x, pd.DataFrame):
        return any(t == object for t in x.dtypes)
    if isinstance(x, (list, tuple)):
        return any(_is_obj(i) for i in x)
    return False


def s_sqrt(x):
    if isinstance(x, SymNum):
        return sym_sqrt(x.r)
    if isnan(x) or x < 0:
        return NAN
    return math.sqrt(x)


def sqrt_nn(x):
    """square root of a sum of squares"""
    return sym_sqrt(x.r, True) if isinstance(x, SymNum) else s_sqrt(x)


def s_log(x):
    if isinstance(x, SymNum):
        return sym_log(x.r)
    if isnan(x) or x < 0:
        return NAN
    return -INF if x == 0 else math.log(x)


def s_exp(x):
    if isinstance(x, SymNum):
        return sym_exp(x.r)
    return NAN if isnan(x) else (math.exp(x) if x < 700 else INF)


def s_cdf(x):
    if isinstance(x, SymNum):
        return sym_cdf(x.r)
    return NAN if isnan(x) else 0.5 * math.erfc(-float(x) / math.sqrt(2))


def s_abs(x):
    return NAN if isnan(x) else abs(x)


def s_rint(x):
    if isinstance(x, SymNum):
        return rint(x)
    return NAN if isnan(x) else float(np.rint(float(x)))


def s_round(x, d=0):
    if isinstance(x, SymNum):
        return rint(x * 10 ** d) / 10 ** d if d else rint(x)
    return NAN if isnan(x) else float(np.round(float(x), d))


def s_floor(x):
    return floordiv(x, 1) if isinstance(x, SymNum) else (NAN if isnan(x) else math.floor(x))


def s_ceil(x):
    return -floordiv(-x, 1) if isinstance(x, SymNum) else (NAN if isnan(x) else math.ceil(x))


def s_sign(x):
    return sign(x) if not isnan(x) else NAN


def s_max2(a, b):
    if isnan(a) or isnan(b):
        return NAN
    return a if bool(a >= b) else b


def s_min2(a, b):
    if isnan(a) or isnan(b):
        return NAN
    return a if bool(a <= b) else b


def reduce_vals(name, vals, skipna=True, ddof=1):
    """reference semantics of the pandas/numpy reductions on a list of values"""
    if name in ("any", "all"):
        vs = [v for v in vals if not isnan(v)] if skipna else list(vals)
        vs = [v if isinstance(v, (SymBool, bool, np.bool_)) else (v != 0) for v in vs]
        return any_of(vs) if name == "any" else all_of(vs)
    if skipna:
        vals = [v for v in vals if not isnan(v)]
    elif any(isnan(v) for v in vals):
        return NAN
    n = len(vals)
    if name == "count":
        return n
    if name in ("sum", "nansum"):
        return _sum(vals)
    if name == "prod":
        acc = 1
        for v in vals:
            acc = acc * v
        return acc
    if name == "mean":
        return _sum(vals) / n if n else NAN
    if name in ("var", "std", "sem"):
        if n - ddof <= 0:
            return NAN
        m = _sum(vals) / n
        v = _sum([(x - m) * (x - m) for x in vals]) / (n - ddof)
        return v if name == "var" else sqrt_nn(v) if name == "std" else sqrt_nn(v / n)
    if name == "max":
        if not n:
            return NAN
        acc = vals[0]
        for v in vals[1:]:
            acc = v if bool(v > acc) else acc
        return acc
    if name == "min":
        if not n:
            return NAN
        acc = vals[0]
        for v in vals[1:]:
            acc = v if bool(v < acc) else acc
        return acc
    if name == "median":
        if not n:
            return NAN
        s = sort_vals(vals)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    if name in ("skew", "kurt"):
        if n < (3 if name == "skew" else 4):
            return NAN
        m = _sum(vals) / n
        d = [v - m for v in vals]
        m2 = _sum([v * v for v in d])
        if bool(m2 == 0):
            return 0.0
        if name == "skew":
            m3 = _sum([v * v * v for v in d])
            return m3 / (sqrt_nn(m2) * m2) * (n * math.sqrt(n - 1) / (n - 2))
        m4 = _sum([v * v * v * v for v in d])
        return Fraction(n * (n + 1) * (n - 1), (n - 2) * (n - 3)) * m4 / (m2 * m2) - Fraction(3 * (n - 1) ** 2, (n - 2) * (n - 3))
    raise EngineLimit("reduction " + name)


def quantile_vals(vals, q):
    """linear interpolation between the order statistics"""
    vals = [v for v in vals if not isnan(v)]
    if not vals:
        return NAN
    s = sort_vals(vals)
    h = Fraction(repr(float(q))) * (len(s) - 1)
    k = int(h)
    return s[k] if h == k else s[k] + (s[k + 1] - s[k]) * (h - k)


def cov_vals(xs, ys, ddof=1):
    g = [(x, y) for x, y in zip(xs, ys) if not isnan(x) and not isnan(y)]
    n = len(g)
    if n - ddof <= 0:
        return NAN
    mx, my = _sum([x for x, _ in g]) / n, _sum([y for _, y in g]) / n
    return _sum([(x - mx) * (y - my) for x, y in g]) / (n - ddof)


def corr_vals(xs, ys):
    g = [(x, y) for x, y in zip(xs, ys) if not isnan(x) and not isnan(y)]
    if len(g) < 2:
        return NAN
    x, y = [p for p, _ in g], [q for _, q in g]
    vx, vy = cov_vals(x, x), cov_vals(y, y)
    if bool(vx == 0) or bool(vy == 0):
        return NAN
    return cov_vals(x, y) / (sqrt_nn(vx) * sqrt_nn(vy))


def sort_vals(vals):
    import functools
    return sorted(vals, key=functools.cmp_to_key(lambda a, b: -1 if bool(a < b) else (1 if bool(b < a) else 0)))


def _sum(vals):
    acc = 0
    for v in vals:
        acc = acc + v
    return acc


def reduce_nd(name, a, axis=None, skipna=False, ddof=0, keepdims=False):
    a = np.asarray(a)
    if axis is None:
        r = reduce_vals(name, list(a.flat), skipna, ddof)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o
        return r
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = reduce_vals(name, list(b[i]), skipna, ddof)
    if keepdims:
        return np.expand_dims(out, axis)
    return out if out.ndim else out[()]


def arg_extreme(a, axis, mx):
    a = np.asarray(a)
    if axis is not None and a.ndim > 1:
        b = np.moveaxis(a, axis, -1)
        out = np.empty(b.shape[:-1], dtype=int)
        for i in np.ndindex(out.shape):
            out[i] = arg_extreme(b[i], None, mx)
        return out
    vals = list(a.flat)
    for i, v in enumerate(vals):
        if isnan(v):
            return i
    k = 0
    for i in range(1, len(vals)):
        if bool(vals[i] > vals[k]) if mx else bool(vals[i] < vals[k]):
            k = i
    return k


def sym_inv(M):
    M = np.asarray(M)
    n = M.shape[0]

    def minor(A, i, j):
        return np.delete(np.delete(A, i, 0), j, 1)

    def det(A):
        k = A.shape[0]
        if k == 0:
            return 1
        if k == 1:
            return A[0, 0]
        if k == 2:
            return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        return _sum([(1 if c % 2 == 0 else -1) * A[0, c] * det(minor(A, 0, c)) for c in range(k)])
    d = det(M)
    if isinstance(d, float) and math.isnan(d):
        out = np.empty((n, n), dtype=object)
        out[...] = NAN
        return out
    if bool(d == 0):
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[j, i] = (1 if (i + j) % 2 == 0 else -1) * det(minor(M, i, j)) / d
    return out


# ------------------------------------------------------------------------------------------
# numpy stand-in
# ------------------------------------------------------------------------------------------
OBJ_ALLOC = True          # float allocations become object arrays (a harness may switch this off)


def _floatish(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind == "f"
    except TypeError:
        return False


def _alloc(fill):
    def f(shape, *a, **k):
        dtype = k.get("dtype", a[0] if a else None)
        if OBJ_ALLOC and _floatish(dtype):
            out = np.empty(shape, dtype=object)
            if fill is None:
                e = E()
                for i in np.ndindex(out.shape):
                    out[i] = SymNum(Rat(Poly.atom(e.new_atom(f"uninit!{len(e.atoms)}", kind="uninit"))))
            else:
                out[...] = fill
            return out
        return {None: np.empty, 0.0: np.zeros, 1.0: np.ones}[fill](shape, *a, **k)
    return f


def _alloc_like(fill):
    def f(x, dtype=None, **k):
        if OBJ_ALLOC and (_floatish(dtype) and dtype is not None or dtype is None and (
                _is_obj(x) or getattr(x, "dtype", np.dtype(int)).kind == "f")):
            return _alloc(fill)(np.shape(x))
        return {None: np.empty_like, 0.0: np.zeros_like, 1.0: np.ones_like}[fill](x, dtype=dtype, **k)
    return f


def _full(shape, fill_value, dtype=None, **k):
    if OBJ_ALLOC and (is_sym(fill_value) or _floatish(dtype) and (dtype is not None or isinstance(fill_value, float))):
        out = np.empty(shape, dtype=object)
        out[...] = fill_value
        return out
    return np.full(shape, fill_value, dtype=dtype, **k)


def _full_like(x, fill_value, dtype=None, **k):
    if is_sym(fill_value) or (OBJ_ALLOC and (_floatish(dtype) and dtype is not None or _is_obj(x))):
        return _full(np.shape(x), fill_value)
    return np.full_like(x, fill_value, dtype=dtype, **k)


def _unary(name, f, out_bool=False):
    real = getattr(np, name)

    def g(x, *a, **k):
        if _is_obj(x):
            return omap(f, x, out_bool)
        return real(x, *a, **k)
    g.__name__ = name
    return g


def _binary(name, f):
    real = getattr(np, name)

    def g(a, b, *r, **k):
        if _is_obj(a) or _is_obj(b):
            if isinstance(a, pd.Series) or isinstance(b, pd.Series):
                s = a if isinstance(a, pd.Series) else b
                av = a.values if isinstance(a, pd.Series) else a
                bv = b.values if isinstance(b, pd.Series) else b
                return pd.Series(g(av, bv), index=s.index, name=s.name)
            A, B = np.broadcast_arrays(_wrap0(a), _wrap0(b))
            out = np.empty(A.shape, dtype=object)
            for i in np.ndindex(A.shape):
                out[i] = f(A[i], B[i])
            return out if out.ndim else out[()]
        return real(a, b, *r, **k)
    return g


def _wrap0(a):
    if is_sym(a):
        o = np.empty((), dtype=object)
        o[()] = a
        return o
    return np.asarray(a)


def _red(name, np_name, skipna=False, ddof0=0):
    real = getattr(np, np_name)

    def g(a, axis=None, *r, **k):
        if isinstance(a, (pd.Series, pd.DataFrame)):
            if np_name in ("nansum", "nanmean", "nanstd", "nanvar", "nanmax", "nanmin") and _is_obj(a):
                return reduce_nd(name, a.values, axis, skipna, k.get("ddof", ddof0))
            return real(a, axis, *r, **k) if axis is not None else real(a, *r, **k)
        if _is_obj(a):
            if not isinstance(a, np.ndarray):
                a = np.array(a, dtype=object)
            return reduce_nd(name, a, axis, skipna, k.get("ddof", ddof0), k.get("keepdims", False))
        return real(a, axis, *r, **k)
    return g


def _np_array(real):
    def g(x, *a, **k):
        dt = k.get("dtype", a[0] if a else None)
        if dt is not None and dt is not object and _is_obj(x) and has_sym(_flat(x)):
            k = dict(k)
            a = a[1:] if a else a
            k["dtype"] = object
            return m_astype(real(x, *a, **k), dt)
        return real(x, *a, **k)
    return g


def _flat(x):
    if isinstance(x, (pd.Series, pd.Index, pd.DataFrame)):
        return _obj(x.values)
    if isinstance(x, np.ndarray):
        return x
    try:
        return np.array(x, dtype=object)
    except Exception:
        return x


def _np_round(x, decimals=0, **k):
    if _is_obj(x):
        return omap(lambda v: s_round(v, decimals), x)
    return np.round(x, decimals, **k)


def _np_clip(x, lo, hi, **k):
    if _is_obj(x):
        def f(v):
            if isnan(v):
                return v
            if lo is not None and bool(v < lo):
                return lo
            if hi is not None and bool(v > hi):
                return hi
            return v
        return omap(f, x)
    return np.clip(x, lo, hi, **k)


def _np_where(c, *ab):
    if _is_obj(c):
        c = omap(lambda v: bool(v), _flat(c), True)
    elif isinstance(c, SymBool):
        c = bool(c)
    return np.where(c, *ab)


def _np_nonzero(c):
    if _is_obj(c):
        c = omap(lambda v: bool(v), _flat(c), True)
    return np.nonzero(c)


def _np_cumsum(a, axis=None, **k):
    if _is_obj(a) and isinstance(a, np.ndarray) and a.ndim == 1:
        return np.array(list(_accum(a)), dtype=object)
    return np.cumsum(a, axis, **k)


def _accum(a):
    s = 0
    for v in a:
        s = s + v
        yield s


def _np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if _is_obj(x):
        return omap(lambda v: nan if isnan(v) else v, _flat(x) if isinstance(x, pd.Series) else x)
    return np.nan_to_num(x, copy, nan, posinf, neginf)


def _np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if _is_obj(a) or _is_obj(b):
        return _binary("subtract", lambda x, y: (isnan(x) and isnan(y) and equal_nan) or (
            not isnan(x) and not isnan(y) and bool(abs(x - y) <= atol + rtol * abs(y))))(_flat1(a), _flat1(b))
    return np.isclose(a, b, rtol, atol, equal_nan)


def _flat1(a):
    return _flat(a) if isinstance(a, (pd.Series, pd.DataFrame, pd.Index)) else a


def _np_searchsorted(a, v, side="left", sorter=None):
    return np.searchsorted(_wrap_ss(a), v if not is_sym(v) else _wrap0(v), side, sorter)


def _wrap_ss(a):
    return a.values if isinstance(a, (pd.Index, pd.Series)) else a


class _Linalg:
    def inv(self, M):
        if _is_obj(M):
            return sym_inv(M)
        return np.linalg.inv(M)

    def pinv(self, M, *a, **k):
        if _is_obj(M):
            return sym_inv(M)
        return np.linalg.pinv(M, *a, **k)

    def solve(self, A, b):
        if _is_obj(A) or _is_obj(b):
            return np.dot(sym_inv(A), b)
        return np.linalg.solve(A, b)

    def det(self, M):
        if _is_obj(M):
            n = M.shape[0]
            if n == 1:
                return M[0, 0]
            return _sum([(1 if c % 2 == 0 else -1) * M[0, c] * self.det(np.delete(np.delete(M, 0, 0), c, 1))
                         for c in range(n)])
        return np.linalg.det(M)

    def lstsq(self, A, b, rcond=None):
        if _is_obj(A) or _is_obj(b):
            x = np.dot(sym_inv(np.dot(A.T, A)), np.dot(A.T, b))
            e = b - np.dot(A, x)
            return x, np.array([_sum([v * v for v in np.asarray(e).flat])], dtype=object), A.shape[1], None
        return np.linalg.lstsq(A, b, rcond=rcond)

    def norm(self, x, *a, **k):
        if _is_obj(x) and not a and not k:
            return s_sqrt(_sum([v * v for v in np.asarray(x).flat]))
        return np.linalg.norm(x, *a, **k)

    def __getattr__(self, n):
        return getattr(np.linalg, n)


class NumpyProxy:
    def __init__(self):
        d = self.__dict__
        d["zeros"], d["ones"], d["empty"] = _alloc(0.0), _alloc(1.0), _alloc(None)
        d["zeros_like"], d["ones_like"], d["empty_like"] = _alloc_like(0.0), _alloc_like(1.0), _alloc_like(None)
        d["full"], d["full_like"] = _full, _full_like
        for n, f in dict(sqrt=s_sqrt, log=s_log, exp=s_exp, sign=s_sign, rint=s_rint, floor=s_floor, ceil=s_ceil,
                         abs=s_abs, absolute=s_abs, fabs=s_abs, trunc=lambda x: x.__trunc__(),
                         square=lambda x: x * x, log1p=lambda x: s_log(x + 1), expm1=lambda x: s_exp(x) - 1).items():
            d[n] = _unary(n, f)
        d["log2"] = _unary("log2", lambda x: s_log(x) / math.log(2))
        d["log10"] = _unary("log10", lambda x: s_log(x) / math.log(10))
        d["isnan"] = _unary("isnan", isnan, True)
        d["isinf"] = _unary("isinf", lambda x: isinstance(x, float) and math.isinf(x), True)
        d["isfinite"] = _unary("isfinite", lambda x: not isnan(x) and not (isinstance(x, float) and math.isinf(x)), True)
        d["maximum"], d["minimum"] = _binary("maximum", s_max2), _binary("minimum", s_min2)
        d["fmax"] = _binary("fmax", lambda a, b: b if isnan(a) else a if isnan(b) else s_max2(a, b))
        d["fmin"] = _binary("fmin", lambda a, b: b if isnan(a) else a if isnan(b) else s_min2(a, b))
        d["divide"] = d["true_divide"] = _binary("divide", np_div)
        for n in ("sum", "mean", "std", "var", "max", "min", "prod", "any", "all", "median"):
            d[n] = _red(n, n)
        d["amax"], d["amin"] = _red("max", "amax"), _red("min", "amin")
        for n, m in dict(nansum="sum", nanmean="mean", nanstd="std", nanvar="var", nanmax="max", nanmin="min").items():
            d[n] = _red(m, n, skipna=True)
        d["argmax"] = lambda a, axis=None, **k: arg_extreme(_flat(a), axis, True) if _is_obj(a) else np.argmax(a, axis, **k)
        d["argmin"] = lambda a, axis=None, **k: arg_extreme(_flat(a), axis, False) if _is_obj(a) else np.argmin(a, axis, **k)
        d["array"], d["asarray"] = _np_array(np.array), _np_array(np.asarray)
        d["ascontiguousarray"], d["asanyarray"] = _np_array(np.ascontiguousarray), _np_array(np.asanyarray)
        d["round"] = d["around"] = d["round_"] = _np_round
        d["clip"], d["where"], d["nonzero"] = _np_clip, _np_where, _np_nonzero
        d["flatnonzero"] = lambda c: _np_nonzero(np.ravel(c))[0]
        d["cumsum"], d["nan_to_num"], d["isclose"] = _np_cumsum, _np_nan_to_num, _np_isclose
        d["allclose"] = lambda *a, **k: bool(np.all(_np_isclose(*a, **k)))
        d["searchsorted"] = _np_searchsorted
        d["linalg"] = _Linalg()
        d["unique"] = _np_unique
        d["power"] = _binary("power", lambda a, b: a ** b)
        d["hypot"] = _binary("hypot", lambda a, b: sqrt_nn(a * a + b * b))
        d["copysign"] = _binary("copysign", s_copysign)
        d["heaviside"] = _binary("heaviside", lambda a, b: NAN if isnan(a) else b if bool(a == 0) else 1.0 if bool(a > 0) else 0.0)
        d["cov"], d["corrcoef"] = _np_cov(np.cov, cov_vals), _np_cov(np.corrcoef, corr_vals)
        d["interp"], d["linspace"], d["isin"] = _np_interp, _np_linspace, _np_isin
        for n in ("maximum", "minimum", "fmax", "fmin"):
            d[n] = _UfuncLike(d[n], getattr(np, n))

    def __getattr__(self, n):
        return getattr(np, n)


class _UfuncLike:
    def __init__(self, f, real):
        self.f, self.real, self.__name__ = f, real, real.__name__

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def accumulate(self, a, axis=0, **k):
        if not _is_obj(a):
            return self.real.accumulate(a, axis, **k)
        a = _flat(a)
        if a.ndim != 1:
            raise EngineLimit("accumulate on a matrix")
        out = []
        for v in a:
            out.append(v if not out else self.f(out[-1], v))
        return arg_list(out)

    def reduce(self, a, axis=0, **k):
        if not _is_obj(a):
            return self.real.reduce(a, axis, **k)
        if isinstance(a, (list, tuple)) and len(a) and not is_sym(a[0]) and not is_num(a[0]):
            acc = a[0]
            for v in a[1:]:
                acc = self.f(acc, v)
            return acc
        a = _flat(a)
        if axis is None:
            a, axis = a.reshape(-1), 0
        a = np.moveaxis(a, axis, 0)
        acc = a[0]
        for v in a[1:]:
            acc = self.f(acc, v)
        return acc

    def __getattr__(self, n):
        return getattr(self.__dict__["real"], n)


def s_copysign(a, b):
    if isnan(a):
        return NAN
    neg = math.copysign(1, b) < 0 if not is_sym(b) else bool(b < 0)
    return -abs(a) if neg else abs(a)


def _np_cov(real, f):
    def g(m, y=None, *a, **k):
        if not (_is_obj(m) or _is_obj(y)):
            return real(m, y, *a, **k)
        if a or set(k) - {"ddof", "bias"} or f is corr_vals and k:
            raise EngineLimit("np.cov option")
        ddof = k.get("ddof", 0 if k.get("bias") else 1)
        rows = [list(r) for r in np.atleast_2d(_flat(m))] + ([] if y is None else [list(r) for r in np.atleast_2d(_flat(y))])
        out = np.empty((len(rows), len(rows)), dtype=object)
        for i, r in enumerate(rows):
            for j, c in enumerate(rows):
                out[i, j] = NAN if any(isnan(v) for v in r + c) else f(r, c, ddof) if f is cov_vals else f(r, c)
        return out if len(rows) > 1 else out[0, 0]
    return g


def _np_interp(x, xp, fp, *a, **k):
    if not (_is_obj(x) or _is_obj(xp) or _is_obj(fp)):
        return np.interp(x, xp, fp, *a, **k)
    if a or k:
        raise EngineLimit("np.interp option")
    xp, fp = list(_flat(xp)), list(_flat(fp))

    def f(v):
        if isnan(v):
            return NAN
        if bool(v <= xp[0]):
            return fp[0]
        for i in range(1, len(xp)):
            if bool(v <= xp[i]):
                return fp[i - 1] + (fp[i] - fp[i - 1]) * np_div(v - xp[i - 1], xp[i] - xp[i - 1])
        return fp[-1]
    return omap(f, _flat(x) if not is_sym(x) and not is_num(x) else x)


def _np_linspace(a, b, num=50, endpoint=True, **k):
    if not (is_sym(a) or is_sym(b)):
        return np.linspace(a, b, num, endpoint, **k)
    n = num - 1 if endpoint else num
    return arg_list([a + (b - a) * Fraction(i, n) if n else a for i in range(num)])


def _np_isin(x, pool, *a, **k):
    if _is_obj(x) or _is_obj(pool):
        pool = list(_flat(pool).reshape(-1))
        inv = k.get("invert", False)
        return omap(lambda v: any(bool(v == p) for p in pool if not isnan(p)) != inv, _flat(x), True)
    return np.isin(x, pool, *a, **k)


def np_div(a, b):
    """float division (numpy semantics) whatever the operand types"""
    if is_sym(a) or is_sym(b):
        ra, rb = lift(a), lift(b)
        return div(ra, rb)
    if isnan(a) or isnan(b):
        return NAN
    if b == 0:
        return NAN if a == 0 else math.copysign(INF, a)
    return a / b


_ND_DIV = np.frompyfunc(np_div, 2, 1)


def np_floats(v):
    """numbers held as objects, as numpy floats"""
    f = lambda x: np.float64(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x  # noqa
    if isinstance(v, pd.DataFrame):
        return v.applymap(f)
    return v.map(f) if isinstance(v, pd.Series) else (np.frompyfunc(f, 1, 1)(v) if isinstance(v, np.ndarray) else f(v))


def div_(a, b):
    """a / b; elements of object arrays divide as numpy floats do (no ZeroDivisionError)"""
    try:
        return a / b
    except ZeroDivisionError:
        arr = [v for v in (a, b) if isinstance(v, (np.ndarray, pd.Series, pd.DataFrame))]
        if not arr or not any(_is_obj(v) for v in arr):
            raise
        if all(isinstance(v, np.ndarray) or not isinstance(v, (pd.Series, pd.DataFrame)) for v in (a, b)):
            return _ND_DIV(a, b)

        with np.errstate(all="ignore"):
            return np_floats(a) / np_floats(b)


def _np_unique(x, *a, **k):
    if _is_obj(x) and has_sym(_flat(x)) and not a and not k:
        s = sort_vals([v for v in _flat(x).flat])
        out = []
        for v in s:
            if not out or not bool(out[-1] == v):
                out.append(v)
        return np.array(out, dtype=object)
    return np.unique(x, *a, **k)


NPX = NumpyProxy()


class MathProxy:
    sqrt = staticmethod(lambda x: s_sqrt(x) if is_sym(x) else math.sqrt(x))
    log = staticmethod(lambda x, *b: s_log(x) / math.log(*b) if is_sym(x) and b else s_log(x) if is_sym(x) else math.log(x, *b))
    exp = staticmethod(lambda x: s_exp(x) if is_sym(x) else math.exp(x))
    isnan = staticmethod(lambda x: isnan(x) if is_sym(x) or isnan(x) else math.isnan(x))
    floor = staticmethod(lambda x: s_floor(x) if is_sym(x) else math.floor(x))
    ceil = staticmethod(lambda x: s_ceil(x) if is_sym(x) else math.ceil(x))
    fabs = staticmethod(lambda x: s_abs(x) if is_sym(x) else math.fabs(x))
    erf = staticmethod(lambda x: 2 * s_cdf(x * math.sqrt(2)) - 1 if is_sym(x) else math.erf(x))
    pow = staticmethod(lambda x, y: x ** y)
    fsum = staticmethod(lambda v: _sum(list(v)) if has_sym(list(v)) else math.fsum(v))
    hypot = staticmethod(lambda *v: sqrt_nn(_sum([x * x for x in v])) if any(is_sym(x) for x in v) else math.hypot(*v))
    copysign = staticmethod(lambda a, b: s_copysign(a, b) if is_sym(a) or is_sym(b) else math.copysign(a, b))
    isinf = staticmethod(lambda x: False if is_sym(x) else math.isinf(x))
    isfinite = staticmethod(lambda x: True if is_sym(x) else math.isfinite(x))
    trunc = staticmethod(lambda x: x.__trunc__() if is_sym(x) else math.trunc(x))
    log1p = staticmethod(lambda x: s_log(x + 1) if is_sym(x) else math.log1p(x))
    isclose = staticmethod(lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(a - b) <= s_max2(rel_tol * s_max2(abs(a), abs(b)), abs_tol))
                           if is_sym(a) or is_sym(b) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))

    def __getattr__(self, n):
        return getattr(math, n)


class NormProxy:
    """scipy.stats.norm with an uninterpreted distribution function for symbolic arguments"""

    def cdf(self, x, *a, **k):
        from scipy.stats import norm
        if _is_obj(x) and not a and not k:
            r = omap(s_cdf, _flat(x) if isinstance(x, (pd.Series, pd.DataFrame)) else x)
            return r
        return norm.cdf(x, *a, **k)

    def sf(self, x):
        if _is_obj(x):
            return 1 - self.cdf(x)
        from scipy.stats import norm
        return norm.sf(x)

    def __getattr__(self, n):
        from scipy.stats import norm
        return getattr(norm, n)


class ModProxy:
    def __init__(self, mod, **over):
        self.__dict__["_m"] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._m, n)


# ------------------------------------------------------------------------------------------
# builtins / methods intercepted in the source
# ------------------------------------------------------------------------------------------
def _to_int_ns(v):
    if isinstance(v, (SymTime, SymDelta)):
        n = v.n
        return n * 10 ** 6
    if v is pd.NaT:
        return np.iinfo(np.int64).min
    if isinstance(v, (pd.Timestamp, pd.Timedelta)):
        return v.value
    if isinstance(v, SymBool):
        return 1 if bool(v) else 0
    if isinstance(v, SymNum):
        if v.isint:
            return v
        return v.__trunc__()
    return int(v)


def cast_elem(v, kind):
    if kind == "f":
        if isinstance(v, SymBool):
            return 1.0 if bool(v) else 0.0
        if isinstance(v, SymNum):
            return SymNum(v.r, False)
        if isinstance(v, (SymTime, SymDelta)):
            return SymNum(lift(_to_int_ns(v)), False)
        if isinstance(v, (pd.Timestamp, pd.Timedelta)):
            return float(v.value)
        if isnan(v):
            return NAN
        return float(v)
    if kind in "iu":
        return _to_int_ns(v)
    if kind == "b":
        return bool(v)
    return v


def m_astype(x, dtype, *a, **k):
    if isinstance(x, np.ndarray) and x.dtype == object and has_sym(x):
        try:
            kind = np.dtype(dtype).kind
        except TypeError:
            kind = "O"
        if kind == "M":
            return x
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = cast_elem(x[i], kind)
        if kind == "b":
            return out.astype(bool)
        return out
    return x.astype(dtype, *a, **k)


def call_method(x, name, *a, **k):
    if isinstance(x, np.ndarray) and x.dtype == object and not isinstance(x, np.matrix):
        if name == "astype":
            return m_astype(x, *a, **k)
        if name in ("mean", "std", "var", "any", "all", "max", "min", "sum", "prod"):
            kk = dict(k)
            kk.pop("dtype", None)
            return reduce_nd(name, x, kk.get("axis", a[0] if a else None), False, kk.get("ddof", 0), kk.get("keepdims", False))
        if name == "round":
            return _np_round(x, *(a or (k.get("decimals", 0),)))
        if name in ("argmax", "argmin"):
            return arg_extreme(x, k.get("axis", a[0] if a else None), name == "argmax")
        if name == "clip":
            return _np_clip(x, *a)
        if name == "nonzero":
            return _np_nonzero(x)
    if name == "astype":
        return m_astype(x, *a, **k)
    if name == "view" and isinstance(x, np.ndarray) and x.dtype == object and a and a[0] in ("int64", "i8", "int", int, np.int64):
        return m_astype(x, np.int64)
    if isinstance(x, NumpyProxy) or isinstance(x, ModProxy) or x is np:
        return getattr(x, name)(*a, **k)
    return getattr(x, name)(*a, **k)


def float_(x=0.0):
    if isinstance(x, SymNum):
        return SymNum(x.r, False)
    if isinstance(x, SymBool):
        return float(x)
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
        return float_(x.reshape(-1)[0])
    return float(x)


def int_(x=0, *a):
    if isinstance(x, SymNum):
        return x if x.isint else x.__trunc__()
    return int(x, *a) if a else int(x)


def isinstance_(x, t):
    if isinstance(x, SymNum):
        ts = t if isinstance(t, tuple) else (t,)
        import numbers
        for k in ts:
            if k in ((int, np.integer, np.int64, numbers.Integral) if x.isint else (float, np.floating, np.float64)):
                return True
            if k in (numbers.Real, numbers.Number):
                return True
        return isinstance(x, t)
    if isinstance(x, SymTime):
        ts = t if isinstance(t, tuple) else (t,)
        return any(k in (pd.Timestamp,) for k in ts) or isinstance(x, t)
    if isinstance(x, SymDelta):
        ts = t if isinstance(t, tuple) else (t,)
        return pd.Timedelta in ts or isinstance(x, t)
    if isinstance(x, pd.Index) and x.dtype == object and len(x) and isinstance(x[0], SymTime):
        ts = t if isinstance(t, tuple) else (t,)
        return pd.DatetimeIndex in ts or isinstance(x, t)
    return isinstance(x, t)


METHODS = {"astype", "mean", "std", "var", "any", "all", "max", "min", "sum", "round", "argmax", "argmin", "clip",
           "nonzero", "prod", "view"}
SCALARS = {"float64", "float32", "float_"}


class Rewriter(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not isinstance(node.op, ast.Div):
            return node
        return ast.copy_location(ast.Call(func=ast.Attribute(ast.Name("__symx__", ast.Load()), "div_", ast.Load()),
                                          args=[node.left, node.right], keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in METHODS and not (
                isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy", "pd")) and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
            return ast.copy_location(ast.Call(
                func=ast.Attribute(ast.Name("__symx__", ast.Load()), "call_method", ast.Load()),
                args=[f.value, ast.Constant(f.attr)] + node.args, keywords=node.keywords), node)
        if isinstance(f, ast.Attribute) and f.attr in SCALARS and isinstance(f.value, ast.Name) and f.value.id in (
                "np", "numpy") and len(node.args) == 1:
            return ast.copy_location(ast.Call(
                func=ast.Attribute(ast.Name("__symx__", ast.Load()), "float_", ast.Load()),
                args=node.args, keywords=[]), node)
        if isinstance(f, ast.Name) and f.id in ("float", "int", "isinstance") and node.args:
            return ast.copy_location(ast.Call(
                func=ast.Attribute(ast.Name("__symx__", ast.Load()), f.id + "_", ast.Load()),
                args=node.args, keywords=node.keywords), node)
        return node


FUNCS_OVER = {}


def _install_globals(mod):
    g = mod.__dict__
    import scipy
    import scipy.stats
    import scipy.special
    real_norm = scipy.stats.norm
    for name, v in list(g.items()):
        if v is np:
            g[name] = NPX
        elif v is math:
            g[name] = MathProxy()
        elif v is real_norm:
            g[name] = NormProxy()
        elif v is scipy.stats:
            g[name] = ModProxy(scipy.stats, norm=NormProxy())
        elif v is scipy:
            g[name] = ModProxy(scipy, stats=ModProxy(scipy.stats, norm=NormProxy()),
                               special=ModProxy(scipy.special, ndtr=NormProxy().cdf))
        elif v is scipy.special:
            g[name] = ModProxy(scipy.special, ndtr=NormProxy().cdf)
        elif v is np.linalg:
            g[name] = NPX.linalg
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType, np.ufunc)) and \
                getattr(v, "__module__", "") != mod.__name__:
            nm = getattr(v, "__name__", None)
            if nm and nm in NPX.__dict__ and getattr(np, nm, None) is v:
                g[name] = NPX.__dict__[nm]
            elif v is scipy.special.ndtr:
                g[name] = NormProxy().cdf
            elif nm and nm in MathProxy.__dict__ and getattr(math, nm, None) is v:
                g[name] = getattr(MathProxy, nm)
            elif nm in ("check_X_y", "check_array", "check_consistent_length") and \
                    getattr(v, "__module__", "").startswith("sklearn"):
                g[name] = _sk_check(nm, v)


def _sk_check(nm, real):
    def check_X_y(X, y, *a, **k):
        if _is_obj(X) or _is_obj(y):
            if len(X) != len(y):
                raise ValueError("Found input variables with inconsistent numbers of samples")
            if len(X) == 0:
                raise ValueError("Found array with 0 sample(s)")
            return np.asarray(X), np.asarray(y)
        return real(X, y, *a, **k)

    def check_array(X, *a, **k):
        if _is_obj(X):
            return np.asarray(X)
        return real(X, *a, **k)
    return {"check_X_y": check_X_y, "check_array": check_array}.get(nm, real)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = Rewriter().visit(ast.parse(src, self.path))
        ast.fix_missing_locations(tree)
        module.__dict__["__symx__"] = sys.modules[__name__]
        exec(compile(tree, self.path, "exec"), module.__dict__)
        _install_globals(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "mizarlabs" and not name.startswith("mizarlabs."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(p, True),
                                                          submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(base + ".py", False))
        if os.path.isdir(base):
            return None
        return None


# ------------------------------------------------------------------------------------------
# pandas kernels
# ------------------------------------------------------------------------------------------
def _vals(s):
    out = []
    for v in _obj(s.values):
        if isinstance(v, SymBool):
            v = 1.0 if bool(v) else 0.0
        elif isinstance(v, (bool, np.bool_)):
            v = float(v)
        elif isinstance(v, (float, np.floating)) and math.isinf(v):
            v = NAN
        out.append(v)
    return out


class SymRolling:
    """rolling / expanding windows of object columns; the bounds come from the window, closed and center options"""

    def __init__(self, obj, window, min_periods=None, center=False, closed=None, kind="rolling", step=None):
        self.obj, self.window, self.kind, self.center, self.closed = obj, window, kind, center, closed
        if step is not None:
            raise EngineLimit("rolling option")
        self.offset = None
        if kind == "expanding":
            self.minp = 1 if min_periods is None else min_periods
            return
        if not isinstance(window, (int, np.integer)):
            if center or has_sym(obj.index):
                raise EngineLimit("rolling offset window")
            self.offset = pd.Timedelta(window)
            self.minp = 1 if min_periods is None else min_periods
            return
        if window < 0:
            raise ValueError("window must be an integer 0 or greater")
        if closed not in (None, "left", "right", "both", "neither"):
            raise ValueError("closed must be 'right', 'left', 'both' or 'neither'")
        self.minp = window if min_periods is None else min_periods
        if self.minp > window:
            raise ValueError(f"min_periods {self.minp} must be <= window {window}")

    def _with(self, obj):
        o = SymRolling.__new__(SymRolling)
        o.__dict__.update(self.__dict__)
        o.obj = obj
        return o

    def __getitem__(self, c):
        return self._with(self.obj[c])

    def __getattr__(self, c):
        if isinstance(self.__dict__.get("obj"), pd.DataFrame) and c in self.obj.columns:
            return self[c]
        raise AttributeError(c)

    def _bounds(self, n):
        closed = self.closed or "right"
        for i in range(n):
            if self.kind == "expanding":
                yield 0, i + 1
            elif self.offset is not None:
                t = self.obj.index
                lo, hi = t[i] - self.offset, t[i]
                a = 0
                while a < n and (t[a] < lo or t[a] == lo and closed in ("right", "neither")):
                    a += 1
                b = i + 1
                if closed in ("left", "neither"):
                    while b > 0 and not t[b - 1] < hi:
                        b -= 1
                yield a, max(a, b)
            else:
                off = (self.window - 1) // 2 if self.center else 0
                b = i + 1 + off
                a = b - self.window
                if closed in ("left", "both"):
                    a -= 1
                if closed in ("left", "neither"):
                    b -= 1
                yield min(max(0, a), n), max(0, min(b, n))

    def _apply(self, f, obj=None, minp=None):
        obj = self.obj if obj is None else obj
        if isinstance(obj, pd.DataFrame):
            return pd.DataFrame({c: self._with(obj[c])._apply(f, None, minp) for c in obj.columns}, index=obj.index)
        vs = _vals(obj)
        minp = self.minp if minp is None else minp
        out = np.empty(len(vs), dtype=object)
        for i, (lo, hi) in enumerate(self._bounds(len(vs))):
            w = vs[lo:hi]
            good = [v for v in w if not isnan(v)]
            # an empty sum/mean over a window of size zero periods is NaN in pandas unless min_periods=0
            out[i] = f(good, w) if len(good) >= max(minp, 0) and (good or minp == 0) else NAN
        return pd.Series(out, index=obj.index, name=obj.name, dtype=object)

    def mean(self, *a, **k):
        return self._apply(lambda g, w: _sum(g) / len(g) if g else NAN)

    def sum(self, *a, **k):
        return self._apply(lambda g, w: _sum(g))

    def var(self, ddof=1, *a, **k):
        return self._apply(lambda g, w: reduce_vals("var", g, True, ddof))

    def std(self, ddof=1, *a, **k):
        return self._apply(lambda g, w: reduce_vals("std", g, True, ddof))

    def sem(self, ddof=1, *a, **k):
        return self._apply(lambda g, w: sqrt_nn(reduce_vals("var", g, True, ddof) / (len(g) - 1)) if len(g) > 1 else NAN)

    def max(self, *a, **k):
        return self._apply(lambda g, w: reduce_vals("max", g))

    def min(self, *a, **k):
        return self._apply(lambda g, w: reduce_vals("min", g))

    def median(self, *a, **k):
        return self._apply(lambda g, w: reduce_vals("median", g))

    def quantile(self, quantile, interpolation="linear", *a, **k):
        if interpolation != "linear":
            raise EngineLimit("rolling quantile interpolation")
        return self._apply(lambda g, w: quantile_vals(g, quantile))

    def rank(self, method="average", ascending=True, pct=False, *a, **k):
        if method != "average" or not ascending:
            raise EngineLimit("rolling rank option")
        # the rank of the last value of the window (0.5 for each tie)
        def f(g, w):
            if not w or isnan(w[-1]):
                return NAN
            x = w[-1]
            less = sum(1 for v in g if bool(v < x))
            eq = sum(1 for v in g if v is x or not isinstance(v < x, bool) and bool(v == x) or v == x)
            r = less + (eq + 1) / 2
            return r / len(g) if pct else r
        return self._apply(f)

    def count(self, *a, **k):
        return self._apply(lambda g, w: float(len(g)), minp=0 if self.kind == "rolling" and self.offset is None
                           and self.minp == self.window else self.minp)

    def agg(self, func, *a, **k):
        if isinstance(func, (list, tuple)):
            if isinstance(self.obj, pd.DataFrame):
                raise EngineLimit("rolling agg of several functions")
            return pd.DataFrame({f if isinstance(f, str) else f.__name__: self.agg(f) for f in func}, index=self.obj.index)
        if isinstance(func, dict):
            return pd.DataFrame({c: self[c].agg(f) for c, f in func.items()}, index=self.obj.index)
        if isinstance(func, str):
            return getattr(self, func)(*a, **k)
        nm = getattr(func, "__name__", "")
        if nm in ("sum", "mean", "std", "var", "max", "min", "median", "amax", "amin") and getattr(func, "__module__", "") in (
                "numpy", "builtins", "symx.shims"):
            return getattr(self, {"amax": "max", "amin": "min"}.get(nm, nm))(*a, **k)
        return self.apply(func, *a, **k)

    aggregate = agg

    def apply(self, func, raw=False, engine=None, engine_kwargs=None, args=None, kwargs=None):
        obj = self.obj
        if isinstance(obj, pd.DataFrame):
            return pd.DataFrame({c: self._with(obj[c]).apply(func, raw, args=args, kwargs=kwargs)
                                 for c in obj.columns}, index=obj.index)
        vs = _vals(obj)
        out = np.empty(len(vs), dtype=object)
        for i, (lo, hi) in enumerate(self._bounds(len(vs))):
            w = vs[lo:hi]
            good = [v for v in w if not isnan(v)]
            if len(good) < self.minp or len(w) == 0:
                out[i] = NAN
                continue
            arr = arg_list(w)
            r = func(arr if raw else pd.Series(arr, index=obj.index[lo:hi]), *(args or ()), **(kwargs or {}))
            out[i] = float(r) if isinstance(r, (bool, np.bool_, SymBool)) else r
        return pd.Series(out, index=obj.index, name=obj.name, dtype=object)

    def cov(self, other=None, pairwise=None, ddof=1, **k):
        a, b = self.obj, other
        if not isinstance(a, pd.Series) or not isinstance(b, pd.Series):
            raise EngineLimit("rolling covariance of frames")
        b = b.reindex(a.index) if not b.index.equals(a.index) else b
        x, y = _vals(a), _vals(b)
        x, y = ([NAN if isnan(q) else p for p, q in zip(x, y)], [NAN if isnan(p) else q for p, q in zip(x, y)])
        out = np.empty(len(x), dtype=object)
        for i, (lo, hi) in enumerate(self._bounds(len(x))):
            g = [(p, q) for p, q in zip(x[lo:hi], y[lo:hi]) if not isnan(p)]
            n = len(g)
            if n < self.minp or n == 0 or n - ddof == 0:
                out[i] = NAN
                continue
            mxy = _sum([p * q for p, q in g]) / n
            mx = _sum([p for p, q in g]) / n
            my = _sum([q for p, q in g]) / n
            out[i] = (mxy - mx * my) * Fraction(n, n - ddof)
        return pd.Series(out, index=a.index, name=a.name, dtype=object)

    def corr(self, other=None, **k):
        c = self.cov(other)
        b = other
        x, y = self.obj, b
        mask = x.isna() | y.isna()
        vx = self._with(x.where(~mask)).std()
        vy = self._with(y.where(~mask)).std()
        return c / (vx * vy)


class SymEwm:
    def __init__(self, obj, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True,
                 ignore_na=False, axis=0, times=None, method="single"):
        if times is not None or not (halflife is None or isinstance(halflife, (int, float, Fraction))):
            raise EngineLimit("ewm option")
        if sum(x is not None for x in (com, span, halflife, alpha)) != 1:
            raise ValueError("comass, span, halflife, and alpha are mutually exclusive, one of them has to be given")
        if com is not None and com < 0 or span is not None and span < 1 or halflife is not None and halflife <= 0 or \
                alpha is not None and not 0 < alpha <= 1:
            raise ValueError("ewm parameter out of range")
        if halflife is not None:
            alpha = 1 - math.exp(math.log(0.5) / halflife)
        if com is not None:
            self.com = Fraction(com)
        elif span is not None:
            self.com = Fraction(span - 1) / 2
        else:
            self.com = (1 - Fraction(alpha)) / Fraction(alpha)
        self.obj = obj
        self.minp = max(int(min_periods or 0), 1)
        self.adjust, self.ignore_na = adjust, ignore_na

    def __getitem__(self, c):
        o = SymEwm.__new__(SymEwm)
        o.__dict__.update(self.__dict__)
        o.obj = self.obj[c]
        return o

    def _wrap(self, f):
        if isinstance(self.obj, pd.DataFrame):
            return pd.DataFrame({c: self[c]._wrap(f) for c in self.obj.columns}, index=self.obj.index)
        out = np.array(f(_vals(self.obj)) + [None], dtype=object)[:-1]
        return pd.Series(out, index=self.obj.index, name=self.obj.name, dtype=object)

    def mean(self, *a, **k):
        return self._wrap(self._mean)

    def _mean(self, vs):
        alpha = Fraction(1) / (1 + self.com)
        f = 1 - alpha
        new_wt = Fraction(1) if self.adjust else alpha
        out = []
        w = NAN
        nobs = 0
        old_wt = Fraction(1)
        for i, cur in enumerate(vs):
            obs = not isnan(cur)
            nobs += obs
            if i == 0:
                w = cur
            elif not isnan(w):
                if obs or not self.ignore_na:
                    old_wt *= f
                    if obs:
                        w = (w * old_wt + cur * new_wt) / (old_wt + new_wt)
                        if self.adjust:
                            old_wt += new_wt
                        else:
                            old_wt = Fraction(1)
            elif obs:
                w = cur
            out.append(w if nobs >= self.minp else NAN)
        return out

    def var(self, bias=False, *a, **k):
        return self._wrap(lambda v: self._var(v, bias))

    def std(self, bias=False, *a, **k):
        def f(v):
            return [NAN if isnan(x) else (0.0 if (not is_sym(x) and x < 0) else sqrt_nn(x)) for x in self._var(v, bias)]
        return self._wrap(f)

    def _wts(self, cols):
        """per row: the weighted observations (rows where any column is missing do not count), their number"""
        alpha = Fraction(1) / (1 + self.com)
        f = 1 - alpha
        wts, nobs = [], 0
        for cur in zip(*cols):
            obs = not any(isnan(c) for c in cur)
            if obs or not self.ignore_na:
                wts = [(w * f, x) for w, x in wts]
            if obs:
                if self.adjust or not wts:
                    wts.append((Fraction(1), cur))
                else:                       # the recursion weighs the past by (1-alpha)^gap against alpha, renormalised
                    tot = sum(w for w, _ in wts)
                    wts = [(w / (tot + alpha), x) for w, x in wts] + [(alpha / (tot + alpha), cur)]
                nobs += 1
            yield wts, nobs

    def _cov(self, xs, ys, bias):
        out = []
        for wts, nobs in self._wts((xs, ys)):
            if nobs < self.minp or not wts:
                out.append(NAN)
                continue
            sw = sum(w for w, _ in wts)
            mx = _sum([x * w for w, (x, y) in wts]) / sw
            my = mx if xs is ys else _sum([y * w for w, (x, y) in wts]) / sw
            v = _sum([(x - mx) * (y - my) * w for w, (x, y) in wts]) / sw
            if bias:
                out.append(v)
            else:
                num = sw * sw
                den = num - sum(w * w for w, _ in wts)
                out.append(v * (num / den) if den > 0 else NAN)
        return out

    def _var(self, vs, bias):
        return self._cov(vs, vs, bias)

    def cov(self, other, pairwise=None, bias=False, *a, **k):
        o = other.reindex(self.obj.index) if not other.index.equals(self.obj.index) else other
        return _series(self._cov(_vals(self.obj), _vals(o), bias), self.obj.index, self.obj.name)

    def corr(self, other, *a, **k):
        o = other.reindex(self.obj.index) if not other.index.equals(self.obj.index) else other
        x, y = _vals(self.obj), _vals(o)
        x, y = ([NAN if isnan(q) else p for p, q in zip(x, y)], [NAN if isnan(p) else q for p, q in zip(x, y)])
        c, vx, vy = self._cov(x, y, True), self._cov(x, x, True), self._cov(y, y, True)
        return _series([np_div(p, sqrt_nn(q) * sqrt_nn(r)) if not (isnan(p) or isnan(q) or isnan(r)) else NAN
                        for p, q, r in zip(c, vx, vy)], self.obj.index, self.obj.name)

    def sum(self, *a, **k):
        if not self.adjust:
            raise NotImplementedError("sum is not implemented with adjust=False")
        return self._wrap(lambda vs: [_sum([x * w for w, (x,) in wts]) if wts and nobs >= self.minp else NAN
                                      for wts, nobs in self._wts((vs,))])

    def agg(self, func, *a, **k):
        if isinstance(func, str):
            return getattr(self, func)(*a, **k)
        raise EngineLimit("ewm agg")

    aggregate = agg


def _obj_frame(x):
    if isinstance(x, pd.Series):
        return x.dtype == object
    return any(t == object for t in x.dtypes)


def install_pandas():
    from pandas.core.generic import NDFrame
    from pandas.core import nanops

    def wrap(cls, name, fn):
        real = getattr(cls, name)

        def g(self, *a, **k):
            r = fn(real, self, *a, **k)
            return r
        g.__name__ = name
        setattr(cls, name, g)

    def rolling(real, self, window=None, min_periods=None, center=False, *a, **k):
        if _obj_frame(self):
            if k.get("axis", 0) not in (0, "index") or k.get("win_type"):
                raise EngineLimit("rolling option")
            return SymRolling(self, window, min_periods, center, k.get("closed"), step=k.get("step"))
        return real(self, window, min_periods, center, *a, **k)

    def expanding(real, self, min_periods=1, *a, **k):
        if _obj_frame(self):
            return SymRolling(self, None, min_periods, kind="expanding")
        return real(self, min_periods, *a, **k)

    def ewm(real, self, *a, **k):
        if _obj_frame(self):
            return SymEwm(self, *a, **k)
        return real(self, *a, **k)
    for c in (pd.Series, pd.DataFrame):
        wrap(c, "rolling", rolling)
        wrap(c, "expanding", expanding)
        wrap(c, "ewm", ewm)

    def divide(real, self, other, *a, **k):
        try:
            return real(self, other, *a, **k)
        except ZeroDivisionError:
            if not _is_obj(self) and not _is_obj(other):
                raise
            with np.errstate(all="ignore"):
                return real(np_floats(self), np_floats(other), *a, **k)
    for c in (pd.Series, pd.DataFrame):
        for nm in ("div", "truediv", "divide", "rdiv", "rtruediv"):
            wrap(c, nm, divide)

    NAMES = {"sum", "mean", "std", "var", "min", "max", "any", "all", "median", "prod", "count", "sem", "skew", "kurt"}

    def s_reduce(real, self, op, name, *, axis=0, skipna=True, numeric_only=None, filter_type=None, **kwds):
        if self.dtype == object and name in NAMES and has_sym(self.values):
            return reduce_vals(name, list(self.values), skipna, kwds.get("ddof", 1))
        return real(self, op, name, axis=axis, skipna=skipna, numeric_only=numeric_only, filter_type=filter_type, **kwds)
    wrap(pd.Series, "_reduce", s_reduce)

    def d_reduce(real, self, op, name, *, axis=0, skipna=True, numeric_only=None, filter_type=None, **kwds):
        if name in NAMES and axis is not None and has_sym(self):
            ddof = kwds.get("ddof", 1)
            if self._get_axis_number(axis) == 1:
                rows = [reduce_vals(name, [self.iloc[i, j] for j in range(self.shape[1])], skipna, ddof)
                        for i in range(self.shape[0])]
                return _series(rows, self.index)
            cols = [reduce_vals(name, list(_obj(self.iloc[:, j].values)), skipna, ddof) for j in range(self.shape[1])]
            return _series(cols, self.columns)
        return real(self, op, name, axis=axis, skipna=skipna, numeric_only=numeric_only, filter_type=filter_type, **kwds)
    wrap(pd.DataFrame, "_reduce", d_reduce)

    def astype(real, self, dtype, *a, **k):
        if isinstance(self, pd.Series) and self.dtype == object and has_sym(self.values):
            try:
                kind = np.dtype(dtype).kind
            except TypeError:
                kind = "O"
            vals = [cast_elem(v, kind) for v in self.values]
            return _series(vals, self.index, self.name)
        if isinstance(self, pd.DataFrame) and not isinstance(dtype, dict) and has_sym(self):
            return pd.DataFrame({c: self[c].astype(dtype) for c in self.columns}, index=self.index)
        return real(self, dtype, *a, **k)
    for c in (pd.Series, pd.DataFrame):
        wrap(c, "astype", astype)

    def index_astype(real, self, dtype, *a, **k):
        if self.dtype == object and not isinstance(self, pd.MultiIndex) and has_sym(self.values):
            try:
                kind = np.dtype(dtype).kind
            except TypeError:
                kind = "O"
            if kind in "iufM":
                return pd.Index([cast_elem(v, kind) for v in self.values], dtype=object, name=self.name)
        return real(self, dtype, *a, **k)
    wrap(pd.Index, "astype", index_astype)

    def index_view(real, self, cls=None):
        if self.dtype == object and has_sym(self.values) and cls in ("int64", "i8", "int", int, np.int64):
            return m_astype(self.values, np.int64)
        return real(self, cls)
    wrap(pd.Index, "view", index_view)

    def asi8(self):
        if self.dtype == object and has_sym(self.values):
            return m_astype(self.values, np.int64)
        raise AttributeError("asi8")
    pd.Index.asi8 = property(asi8)

    # constructors with a numeric dtype
    def init(real, self, data=None, *a, **k):
        dt = k.get("dtype")
        if dt is not None and dt is not object and data is not None and _is_obj(data) and has_sym(_flat(data)):
            k = dict(k)
            k["dtype"] = object
        return real(self, data, *a, **k)
    for c in (pd.Series, pd.DataFrame):
        wrap(c, "__init__", init)

    real_td = pd.to_datetime

    def to_datetime(arg, *a, **k):
        if _is_obj(arg) and (has_sym(arg) or (isinstance(arg, pd.Series) and k.get("unit") and len(arg)
                                              and not has_sym(arg) and _all_num(arg))):
            f = {"ms": 1, "s": 1000, "ns": Fraction(1, 10 ** 6), "us": Fraction(1, 1000), "D": 86400000}
            u = k.get("unit")

            def conv(v):
                if isinstance(v, (SymTime, pd.Timestamp)):
                    return v
                if isnan(v):
                    return pd.NaT
                if isinstance(v, SymNum):
                    m = f[u or "ns"]
                    return SymTime(v * m if m != 1 else v)
                return real_td(v, *a, **k)
            if isinstance(arg, pd.Series):
                return _series([conv(v) for v in arg.values], arg.index, arg.name)
            if isinstance(arg, (np.ndarray, list, pd.Index)):
                return pd.Index(_flat(arg_list([conv(v) for v in arg])))
            return conv(arg)
        return real_td(arg, *a, **k)
    pd.to_datetime = to_datetime

    real_dti_new = pd.DatetimeIndex.__new__

    def dti_new(cls, data=None, *a, **k):
        if data is not None and not isinstance(data, pd.DatetimeIndex) and has_sym(data):
            return pd.Index(arg_list(list(data)), dtype=object)
        return real_dti_new(cls, data, *a, **k)
    pd.DatetimeIndex.__new__ = dti_new

    # concrete times against symbolic times and durations: element by element
    from pandas.core.arrays import DatetimeArray, TimedeltaArray
    from pandas.core.ops import roperator
    import operator

    def sym_other(o):
        return isinstance(o, (SymTime, SymDelta)) or isinstance(o, np.ndarray) and o.dtype == object and has_sym(o)

    def dt_op(real, op):
        def g(self, other):
            if sym_other(other):
                other = other if isinstance(other, np.ndarray) else [other] * len(self)
                out = np.empty(len(self), dtype=object)
                out[:] = [op(a, b) for a, b in zip(self, other)]
                return out
            return real(self, other)
        return g

    def dt_cmp(real):
        def g(self, other, op):
            if sym_other(other):
                other = other if isinstance(other, np.ndarray) else [other] * len(self)
                return np.array([bool(op(a, b)) if a is not pd.NaT and b is not pd.NaT else op is operator.ne for a, b in zip(self, other)], dtype=bool)
            return real(self, other, op)
        return g
    for c in (DatetimeArray, TimedeltaArray):
        for n, op in (("__add__", operator.add), ("__radd__", roperator.radd), ("__sub__", operator.sub), ("__rsub__", roperator.rsub)):
            setattr(c, n, dt_op(getattr(c, n), op))
        c._cmp_method = dt_cmp(c._cmp_method)
    if not hasattr(pd.Index, "tz"):
        pd.Index.tz = None

    import pandas.testing as pt
    real_ase = pt.assert_series_equal

    def assert_series_equal(left, right, *a, **k):
        if has_sym(left) or has_sym(right):
            assert len(left) == len(right), "Series are different: length"
            for x, y in zip(left.index, right.index):
                if x is not y and not (x == y):
                    raise AssertionError("Series.index are different")
            for x, y in zip(left.values, right.values):
                if isnan(x) and isnan(y):
                    continue
                if isnan(x) != isnan(y) or not bool(x == y):
                    raise AssertionError("Series are different")
            return None
        return real_ase(left, right, *a, **k)
    pt.assert_series_equal = assert_series_equal
    pd.testing.assert_series_equal = assert_series_equal

    # cumulative sums on object columns
    def cumsum(real, self, axis=None, skipna=True, *a, **k):
        if isinstance(self, pd.Series) and self.dtype == object and has_sym(self.values):
            out, s = [], 0
            for v in self.values:
                if isnan(v):
                    out.append(NAN)
                    continue
                s = s + v
                out.append(s)
            return _series(out, self.index, self.name)
        return real(self, axis, skipna, *a, **k)
    wrap(pd.Series, "cumsum", cumsum)

    def s_round_(real, self, decimals=0, *a, **k):
        if self.dtype == object and has_sym(self.values):
            return _series([s_round(v, decimals) for v in self.values], self.index, self.name)
        return real(self, decimals, *a, **k)
    wrap(pd.Series, "round", s_round_)

    for nm, mx in (("argmax", True), ("argmin", False)):
        def argx(real, self, *a, _mx=mx, **k):
            if self.dtype == object and has_sym(self.values):
                return arg_extreme(self.values, None, _mx)
            return real(self, *a, **k)
        wrap(pd.Series, nm, argx)

        def idx(real, self, *a, _mx=mx, **k):
            if self.dtype == object and has_sym(self.values):
                vs = [(i, v) for i, v in enumerate(self.values) if not isnan(v)]
                if not vs:
                    return NAN
                j = arg_extreme(np.array([v for _, v in vs] + [None], dtype=object)[:-1], None, _mx)
                return self.index[vs[j][0]]
            return real(self, *a, **k)
        wrap(pd.Series, "idx" + nm[3:], idx)

    def d_idx(mx):
        def f(real, self, axis=0, *a, **k):
            if has_sym(self) and self._get_axis_number(axis) == 1:
                return _series([self.columns[arg_extreme(np.array([self.iloc[i, j] for j in range(self.shape[1])] + [None],
                                                                  dtype=object)[:-1], None, mx)]
                                for i in range(self.shape[0])], self.index)
            return real(self, axis, *a, **k)
        return f
    wrap(pd.DataFrame, "idxmax", d_idx(True))
    wrap(pd.DataFrame, "idxmin", d_idx(False))

    _install_more(wrap)


def _install_more(wrap):
    """operations whose object-column fallback would differ silently, or is missing"""
    from pandas.core.groupby import generic as gb
    from pandas.core.groupby.groupby import GroupBy

    def sobj(s):
        return s.dtype == object and has_sym(s.values)

    def each(f):
        """a per-column operation, on the frame"""
        def g(real, self, *a, **k):
            if has_sym(self):
                return pd.DataFrame({c: f(self[c], *a, **k) for c in self.columns}, index=self.index)
            return real(self, *a, **k)
        return g
    wrap(pd.DataFrame, "round", each(lambda c, decimals=0, *a, **k: c.round(decimals[c.name] if isinstance(decimals, dict) else decimals)))

    def d_clip(real, self, lower=None, upper=None, *a, **k):
        if has_sym(self):
            if not all(x is None or is_num(x) or is_sym(x) for x in (lower, upper)):
                raise EngineLimit("DataFrame.clip with vectors")
            return pd.DataFrame({c: self[c].clip(lower, upper) for c in self.columns}, index=self.index)
        return real(self, lower, upper, *a, **k)
    wrap(pd.DataFrame, "clip", d_clip)

    def s_clip(real, self, lower=None, upper=None, *a, **k):
        if sobj(self) or _is_obj(lower) or _is_obj(upper):
            if k.get("inplace"):
                raise EngineLimit("clip in place")
            lo, hi = [x.reindex(self.index).values if isinstance(x, pd.Series) else x for x in (lower, upper)]
            out = []
            for i, v in enumerate(self.values):
                l, h = [x[i] if isinstance(x, (np.ndarray, list)) else x for x in (lo, hi)]
                if not isnan(v) and not isnan(l) and l is not None and bool(v < l):
                    v = l
                if not isnan(v) and not isnan(h) and h is not None and bool(v > h):
                    v = h
                out.append(v)
            return _series(out, self.index, self.name)
        return real(self, lower, upper, *a, **k)
    wrap(pd.Series, "clip", s_clip)

    def isin_list(vals, pool):
        pool = [p for p in (pool.values if isinstance(pool, (pd.Series, pd.Index)) else pool)]
        out = []
        for v in vals:
            if isnan(v):
                out.append(any(isnan(p) for p in pool))
            else:
                out.append(any(not isnan(p) and bool(v == p) for p in pool))
        return out

    def s_isin(real, self, values):
        if sobj(self) or has_sym(values):
            return pd.Series(isin_list(self.values, values), index=self.index, name=self.name, dtype=bool)
        return real(self, values)
    wrap(pd.Series, "isin", s_isin)

    def d_isin(real, self, values):
        if has_sym(self) and isinstance(values, (list, tuple, set, np.ndarray)):
            return pd.DataFrame({c: self[c].isin(values) for c in self.columns}, index=self.index)
        return real(self, values)
    wrap(pd.DataFrame, "isin", d_isin)

    def interp(c, method="linear", axis=0, limit=None, inplace=False, limit_direction=None, limit_area=None, **k):
        if method not in ("linear", "index", "time") or limit is not None or limit_direction not in (None, "forward") \
                or limit_area is not None or inplace or axis not in (0, "index"):
            raise EngineLimit("interpolate option")
        vals = list(c.values)
        good = [i for i, v in enumerate(vals) if not isnan(v)]
        if method == "linear":
            x = list(range(len(vals)))
        else:
            x = [t.value if isinstance(t, pd.Timestamp) else t for t in c.index]
        for a, b in zip(good, good[1:]):
            for i in range(a + 1, b):
                vals[i] = vals[a] + (vals[b] - vals[a]) * Fraction(x[i] - x[a], x[b] - x[a])
        if good:
            for i in range(good[-1] + 1, len(vals)):
                vals[i] = vals[good[-1]]
        return _series(vals, c.index, c.name)

    def s_interp(real, self, *a, **k):
        return interp(self, *a, **k) if sobj(self) else real(self, *a, **k)
    wrap(pd.Series, "interpolate", s_interp)
    wrap(pd.DataFrame, "interpolate", each(interp))

    def s_quantile(real, self, q=0.5, interpolation="linear"):
        if sobj(self):
            if interpolation != "linear":
                raise EngineLimit("quantile interpolation")
            if is_num(q):
                return quantile_vals(list(self.values), q)
            return _series([quantile_vals(list(self.values), x) for x in q], pd.Index(q, dtype=float), self.name)
        return real(self, q, interpolation)
    wrap(pd.Series, "quantile", s_quantile)

    def d_quantile(real, self, q=0.5, axis=0, numeric_only=True, interpolation="linear", *a, **k):
        if has_sym(self):
            if not is_num(q) or axis not in (0, "index"):
                raise EngineLimit("quantile option")
            return _series([self[c].quantile(q, interpolation) for c in self.columns], self.columns, q)
        return real(self, q, axis, numeric_only, interpolation, *a, **k)
    wrap(pd.DataFrame, "quantile", d_quantile)

    def pair(f):
        def g(real, self, other, *a, **k):
            if sobj(self) or isinstance(other, pd.Series) and sobj(other):
                x, y = self.align(other, join="inner", copy=False)
                if k.get("method", "pearson") != "pearson" or k.get("min_periods") or a:
                    raise EngineLimit("corr/cov option")
                return f(list(_obj(x.values)), list(_obj(y.values)), *((k["ddof"],) if k.get("ddof") is not None else ()))
            return real(self, other, *a, **k)
        return g
    wrap(pd.Series, "cov", pair(cov_vals))
    wrap(pd.Series, "corr", pair(corr_vals))

    def dpair(f):
        def g(real, self, *a, **k):
            if has_sym(self):
                if a or k.get("method", "pearson") != "pearson" or k.get("min_periods"):
                    raise EngineLimit("corr/cov option")
                cols = list(self.columns)
                dd = (k["ddof"],) if k.get("ddof") is not None else ()
                return pd.DataFrame({c: _series([f(list(_obj(self[r].values)), list(_obj(self[c].values)), *dd) for r in cols], cols)
                                     for c in cols}, index=self.columns, columns=self.columns)
            return real(self, *a, **k)
        return g
    wrap(pd.DataFrame, "cov", dpair(cov_vals))
    wrap(pd.DataFrame, "corr", dpair(corr_vals))

    def refuse(cls, nm):
        def g(real, self, *a, **k):
            if has_sym(self):
                raise EngineLimit(f"{cls.__name__}.{nm}")
            return real(self, *a, **k)
        wrap(cls, nm, g)
    refuse(pd.DataFrame, "describe")
    refuse(pd.DataFrame, "corrwith")
    refuse(pd.DataFrame, "mad")

    def s_mad(real, self, *a, **k):
        if sobj(self):
            d = self - self.mean()
            return d.abs().mean()
        return real(self, *a, **k)
    wrap(pd.Series, "mad", s_mad)

    def s_describe(real, self, *a, **k):
        if sobj(self):
            if a or k:
                raise EngineLimit("describe option")
            return _series([float(self.count()), self.mean(), self.std(), self.min(), self.quantile(.25), self.median(),
                            self.quantile(.75), self.max()], ["count", "mean", "std", "min", "25%", "50%", "75%", "max"], self.name)
        return real(self, *a, **k)
    wrap(pd.Series, "describe", s_describe)

    def select(real, self, include=None, exclude=None):
        if has_sym(self):
            names = {c: (float if _all_num_or_sym(self[c]) and self[c].dtype == object else self[c].dtype) for c in self.columns}
            probe = pd.DataFrame({c: pd.Series([], dtype=t) for c, t in names.items()})
            return self[list(real(probe, include, exclude).columns)]
        return real(self, include, exclude)
    wrap(pd.DataFrame, "select_dtypes", select)

    def large(mx):
        def g(real, self, n=5, keep="first"):
            if sobj(self):
                if keep != "first":
                    raise EngineLimit("nlargest keep")
                d = self.dropna()
                order = []
                left = list(range(len(d)))
                while left and len(order) < n:
                    k = left[0]
                    for i in left[1:]:
                        if bool(d.values[i] > d.values[k]) if mx else bool(d.values[i] < d.values[k]):
                            k = i
                    order.append(k)
                    left.remove(k)
                return d.iloc[order]
            return real(self, n, keep)
        return g
    wrap(pd.Series, "nlargest", large(True))
    wrap(pd.Series, "nsmallest", large(False))

    def g_each(nm):
        def g(real, self, *a, **k):
            o = self._selected_obj
            if has_sym(o) and isinstance(o, pd.Series):
                out = [NAN] * len(o)
                for rows in self.indices.values():
                    rows = sorted(int(i) for i in rows)
                    for i, v in zip(rows, getattr(o.iloc[rows], nm)(*a, **k).values):
                        out[i] = v
                return _series(out, o.index, o.name)
            if has_sym(o):
                raise EngineLimit("groupby " + nm)
            return real(self, *a, **k)
        wrap(GroupBy, nm, g)
    for nm in ("cumsum", "cumprod", "cummax", "cummin"):
        g_each(nm)

    def g_red(nm):
        def g(real, self, *a, **k):
            o = self._selected_obj
            if has_sym(o):
                return self.agg(lambda c: getattr(c, nm)(*a, **k))
            return real(self, *a, **k)
        wrap(GroupBy, nm, g)
    for nm in ("std", "var", "sem"):
        g_red(nm)

    real_num = pd.to_numeric

    def to_numeric(arg, *a, **k):
        if has_sym(arg):
            return arg
        return real_num(arg, *a, **k)
    pd.to_numeric = to_numeric


def _all_num_or_sym(c):
    return all(isnan(v) or is_num(v) or isinstance(v, SymNum) for v in _obj(c.values))


def arg_list(l):
    o = np.empty(len(l), dtype=object)
    for i, v in enumerate(l):
        o[i] = v
    return o


def _all_num(s):
    return all(isnan(v) or is_num(v) for v in s.values)


def _series(vals, index, name=None):
    a = arg_list(vals)
    if not has_sym(a):
        try:
            return pd.Series(list(vals), index=index, name=name)
        except Exception:
            pass
    return pd.Series(a, index=index, name=name, dtype=object)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert os.environ.get("NUMBA_DISABLE_JIT") == "1"
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    install_pandas()

"""The two faces of a harness context: symbolic (inputs are solver variables) and concrete (replay)."""
import contextlib
import math
from fractions import Fraction

import numpy as np
import pandas as pd

BASE_MS = 1577836800000          # 2020-01-01


class AssumeFail(Exception):
    pass


class CheckFail(Exception):
    pass


def isnan(x):
    return x is pd.NaT or x is pd.NA or x is None or (isinstance(x, (float, np.floating)) and math.isnan(x)) or (
        isinstance(x, (np.datetime64, np.timedelta64)) and np.isnat(x))


class Base:
    def choice(self, name, seq):
        seq = list(seq)
        return seq[self._choice(name, len(seq))]

    def flag(self, name):
        return bool(self._choice(name, 2))

    def reals(self, name, n, **k):
        return [self.real(f"{name}{i}", **k) for i in range(n)]

    isnan = staticmethod(isnan)

    @contextlib.contextmanager
    def float_arrays(self):
        """numpy allocations of the code inside are real float arrays (all data concrete there)"""
        if not self.symbolic:
            yield
            return
        from . import shims
        shims.OBJ_ALLOC = False
        try:
            yield
        finally:
            shims.OBJ_ALLOC = True

    def sum(self, xs):
        acc = 0
        for x in xs:
            acc = acc + x
        return acc

    def mean(self, xs):
        xs = list(xs)
        return self.div(self.sum(xs), len(xs)) if xs else float("nan")

    def max(self, xs):
        acc = None
        for x in xs:
            if acc is None or self.over(x, acc):
                acc = x
        return acc

    def over(self, x, y):
        """x > y, or either answer where they are equal: as the path already decided if it did"""
        k = self.known(x >= y)
        return bool(x > y) if k is None else k

    def min(self, xs):
        acc = None
        for x in xs:
            if acc is None or self.over(acc, x):
                acc = x
        return acc

    def abs(self, x):
        return float("nan") if isnan(x) else abs(x)

    def sign(self, x):
        if isnan(x):
            return float("nan")
        return 1 if bool(x > 0) else (-1 if bool(x < 0) else 0)

    def std(self, xs, ddof=1):
        n = len(xs)
        if n - ddof <= 0:
            return float("nan")
        m = self.div(self.sum(xs), n)
        return self.sqrt(self.div(self.sum([(x - m) * (x - m) for x in xs]), n - ddof))

    def raises(self, exc, fn):
        """the exception fn raises (an instance of exc), or None"""
        try:
            fn()
        except exc as e:
            return e
        return None

    def check_all_close(self, xs, ys, msg, tol=1e-6):
        xs, ys = list(xs), list(ys)
        self.check(len(xs) == len(ys), f"{msg}: {len(xs)} values instead of {len(ys)}")
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.check_close(x, y, f"{msg}[{i}]", tol)

    def check_all_same(self, xs, ys, msg):
        self.check(len(xs) == len(ys), f"{msg}: {len(xs)} values instead of {len(ys)}")
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.check_same(x, y, f"{msg}[{i}]")

    def check_equal_times(self, xs, ys, msg):
        xs, ys = list(xs), list(ys)
        self.check(len(xs) == len(ys), f"{msg}: {len(xs)} times instead of {len(ys)}")
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.check((isnan(x) and isnan(y)) or (not isnan(x) and not isnan(y) and x == y), f"{msg}[{i}]")

    def days(self, n):
        return pd.Timedelta(days=n)

    def date_range(self, n, freq="1D", start="2020-01-01", tz=None):
        return pd.date_range(start, periods=n, freq=freq, tz=tz)


# ------------------------------------------------------------------------------------------
class SymCtx(Base):
    symbolic = True

    def __init__(self, eng):
        from . import sym
        self.e = eng
        self.s = sym

    def note(self, *a):
        pass

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, isint=False, lo_open=False):
        import z3
        s = self.s
        a = self.e.new_atom(name, is_int=isint, pos=pos)
        z = self.e.atoms[a]["z"]
        n = s.SymNum(s.Rat(s.Poly.atom(a)), isint)
        if isint and lo is not None and hi is not None and hi - lo <= 10:
            self.e.atoms[a]["range"] = (int(lo), int(hi))
        if lo is not None and not (pos and lo == 0):
            q = _q(lo)
            self.e.assume(z > q if lo_open else z >= q)
        if hi is not None:
            self.e.assume(z <= _q(hi))
        return n

    def int(self, name, lo=None, hi=None, pos=False):
        return self.real(name, lo, hi, pos, isint=True)

    def price(self, name, logs=False, lo=None, hi=None):
        """a positive price; logs=True declares it as exp(u), so that its logarithm is exact"""
        if not logs:
            return self.real(name, pos=True, lo=lo, hi=hi)
        u = self.real("log_" + name, lo=-4, hi=4)
        s = self.s
        return s.sym_exp(u.r)

    def prices(self, name, n, logs=False, **k):
        return [self.price(f"{name}{i}", logs, **k) for i in range(n)]

    def _choice(self, name, n):
        return self.e.choice(name, n)

    def time(self, name, hi=10 ** 10):
        n = self.real(name, lo=0, hi=hi, isint=True)
        return self.s.SymTime(n + BASE_MS)

    def hold(self, t):
        """a known time, of the kind the symbolic ones are (they share indexes)"""
        return self.s.SymTime(self.s.SymNum(self.s.lift(t.value // 10 ** 6), True))

    def delta(self, name, lo=0, hi=10 ** 10, pos=False):
        return self.s.SymDelta(self.real(name, lo=lo, hi=hi, isint=True, pos=pos))

    def times(self, name, n, strict=True, first=None, gap_hi=4 * 10 ** 9):
        """n increasing (or non-decreasing) times, as a first time plus gaps"""
        t = self.time(f"{name}0") if first is None else first
        out = [t]
        for i in range(1, n):
            d = self.real(f"{name}_gap{i}", lo=None if strict else 0, hi=gap_hi, pos=strict, isint=True)
            t = self.s.SymTime(t.n + d)
            out.append(t)
        return out

    # logic
    def assume(self, c):
        from .engine import PathEnd
        if isinstance(c, (bool, np.bool_)):
            if not c:
                self.e.die()
            return
        if isinstance(c, self.s.SymBool):
            k = self.e.known.get(c.key)
            if k is not None:
                if k == c.neg:
                    self.e.die()
                return
            self.e.assume(c.zf() if not c.neg else _znot(c.zf()), c.key, c.neg)
            return
        raise TypeError("assume: " + repr(c))

    def check(self, c, msg):
        e = self.e
        if isinstance(c, self.s.SymBool):
            e.check(c.key, c.zf(), c.neg, msg)
            return
        if isinstance(c, self.s.SymNum):
            c = c != 0
            return self.check(c, msg)
        e.stats.checks += 1
        e.reached += 1
        if not bool(c):
            e.fail(msg)
            e.die()
        e.stats.checks_nf += 1

    def known(self, c):
        """what the path has already decided about c without asking the solver: True, False or None"""
        if isinstance(c, self.s.SymBool):
            k = self.e.known.get(c.key)
            return None if k is None else k != c.neg
        return bool(c)

    def nearly(self, a, b):
        """the same expression, but for the rounding of constants"""
        ra, rb = self.s.lift(a), self.s.lift(b)
        if ra is None or rb is None or isinstance(ra, float) or isinstance(rb, float):
            return False
        n1, n2 = self.s.alg.cross(ra, rb)
        return (n1 - n2).maxcoef() <= Fraction(1, 10 ** 9) * max(n1.maxcoef(), n2.maxcoef())

    def check_close(self, a, b, msg, tol=1e-6):
        e, s = self.e, self.s
        if isnan(a) or isnan(b):
            return self.check(isnan(a) and isnan(b), msg + (": missing value" if isnan(a) else ": should be missing"))
        ra, rb = s.lift(a), s.lift(b)
        if ra is None or rb is None:
            return self.check(False, msg + f": not a number: {type(a)}")
        if isinstance(ra, float) or isinstance(rb, float):
            return self.check(isinstance(ra, float) and isinstance(rb, float) and ra == rb, msg + ": infinite value")
        d = ra - rb
        if d.num.is_zero():
            return self.check(True, msg)
        n1, n2 = s.alg.cross(ra, rb)
        if (n1 - n2).maxcoef() <= Fraction(1, 10 ** 9) * max(n1.maxcoef(), n2.maxcoef()):
            e.stats.checks += 1
            e.stats.checks_nf += 1
            e.reached += 1
            return
        sgn, odd = s.den_sign(d.den)
        for c in odd:
            if bool(c):
                sgn = -sgn
        # |num| <= tol * den (den > 0) unless den is huge: stated as |num/den| <= tol
        num = e.z_poly(d.num if sgn > 0 else -d.num)
        den = s._den_z(d.den)
        import z3
        t = z3.Q(1, int(1 / tol))
        bound = t if den is None else t * den
        if den is not None and sgn < 0:
            bound = t * -den
            num = e.z_poly(d.num)
            # den < 0: |num| <= tol*(-den)
        if z3.is_int(num):
            num = z3.ToReal(num)
        z = z3.And(num <= bound, -num <= bound)
        e.prefer = [z3.Or(num > 10000 * bound, -num > 10000 * bound)]
        try:
            e.check(("close", d, tol), z, False, msg)
        finally:
            e.prefer = []

    # functions
    def check_same(self, a, b, msg):
        """the very value (passed on, not computed)"""
        if isnan(a) or isnan(b):
            return self.check(isnan(a) and isnan(b), msg + (": missing value" if isnan(a) else ": should be missing"))
        c = a == b
        self.check(bool(c) if isinstance(c, np.bool_) else c, msg)

    def sqrt(self, x):
        return self.s.sym_sqrt(self.s.lift(x))

    def log(self, x):
        return self.s.sym_log(self.s.lift(x))

    def exp(self, x):
        return self.s.sym_exp(self.s.lift(x))

    def Phi(self, x):
        return self.s.sym_cdf(self.s.lift(x))

    def div(self, a, b):
        a, b = self.s.lift(a), self.s.lift(b)
        return self.s.div(a, b)

    def rint(self, x):
        from .shims import s_rint
        return s_rint(x)

    def num(self, x):
        """a concrete number as an exact one"""
        return self.s.mk(self.s.lift(x))

    # containers
    def array(self, vals):
        vals = list(vals)
        o = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            o[i] = v
        return o

    def matrix(self, rows):
        o = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
        for i, r in enumerate(rows):
            for j, v in enumerate(r):
                o[i, j] = v
        return o

    def index(self, times, name=None):
        times = list(times)
        if not any(self.s.is_sym(t) for t in times):
            return pd.DatetimeIndex(times, name=name)
        return pd.Index(self.array(times), dtype=object, name=name)

    def series(self, vals, index=None, name=None, concrete=False):
        vals = list(vals)
        if concrete:
            return pd.Series(vals, index=index, name=name)
        return pd.Series(self.array(vals), index=index, name=name, dtype=object)

    def tseries(self, times, index=None, name=None):
        """series of times (NaT allowed)"""
        if not any(self.s.is_sym(t) for t in times):
            return pd.Series(pd.DatetimeIndex([pd.NaT if isnan(t) else t for t in times]), index=index, name=name)
        return pd.Series(self.array(list(times)), index=index, name=name, dtype=object)

    def frame(self, cols, index=None):
        d = {}
        for k, v in cols.items():
            if isinstance(v, pd.Series):
                d[k] = v.values
            elif isinstance(v, pd.DatetimeIndex):
                d[k] = v
            else:
                d[k] = self.array(v) if not (len(v) and isinstance(v[0], str)) else v
        return pd.DataFrame(d, index=index)

    def value(self, x):
        return x


def _znot(z):
    import z3
    return z3.Not(z)


def _q(x):
    import z3
    f = Fraction(x) if not isinstance(x, float) else Fraction(repr(x))
    return z3.IntVal(int(f)) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


# ------------------------------------------------------------------------------------------
class ConcCtx(Base):
    symbolic = False

    def __init__(self, vals):
        self.vals = vals
        self.checks = 0

    def note(self, *a):
        pass

    def real(self, name, lo=None, hi=None, pos=False, isint=False, lo_open=False):
        v = self.vals.get(name, 1 if pos else (lo if lo is not None else 0))
        v = int(v) if isint else float(v)
        if (pos and not v > 0) or (lo is not None and (v < lo or (lo_open and v <= lo))) or (hi is not None and v > hi):
            raise AssumeFail(name)
        return v

    def int(self, name, lo=None, hi=None, pos=False):
        return self.real(name, lo, hi, pos, isint=True)

    def price(self, name, logs=False, lo=None, hi=None):
        if not logs:
            return self.real(name, pos=True, lo=lo, hi=hi)
        return math.exp(self.real("log_" + name, lo=-4, hi=4))

    def prices(self, name, n, logs=False, **k):
        return [self.price(f"{name}{i}", logs, **k) for i in range(n)]

    def _choice(self, name, n):
        return int(self.vals.get("#" + name, 0))

    def time(self, name, hi=10 ** 10):
        return pd.Timestamp(BASE_MS + self.real(name, lo=0, hi=hi, isint=True), unit="ms")

    def hold(self, t):
        return t

    def delta(self, name, lo=0, hi=10 ** 10, pos=False):
        return pd.Timedelta(self.real(name, lo=lo, hi=hi, isint=True, pos=pos), unit="ms")

    def times(self, name, n, strict=True, first=None, gap_hi=4 * 10 ** 9):
        t = self.time(f"{name}0") if first is None else first
        out = [t]
        for i in range(1, n):
            d = self.real(f"{name}_gap{i}", lo=None if strict else 0, hi=gap_hi, pos=strict, isint=True)
            t = t + pd.Timedelta(d, unit="ms")
            out.append(t)
        return out

    def assume(self, c):
        if not bool(c):
            raise AssumeFail()

    def check(self, c, msg):
        self.checks += 1
        if not bool(c):
            raise CheckFail(msg)

    def known(self, c):
        return bool(c)

    def check_close(self, a, b, msg, tol=1e-6):
        self.checks += 1
        if isnan(a) or isnan(b):
            if not (isnan(a) and isnan(b)):
                raise CheckFail(f"{msg}: {a!r} instead of {b!r}")
            return
        try:
            a, b = float(a), float(b)
        except TypeError:
            raise CheckFail(f"{msg}: not a number: {type(a)}")
        if a == b:
            return
        if not abs(a - b) <= tol * 0.5 + 1e-7 * abs(b):
            raise CheckFail(f"{msg}: {a!r} instead of {b!r}")

    def check_same(self, a, b, msg):
        self.check(isnan(a) and isnan(b) or not isnan(a) and not isnan(b) and a == b, f"{msg}: {a!r} instead of {b!r}")

    def sqrt(self, x):
        return float("nan") if isnan(x) or x < 0 else math.sqrt(x)

    def log(self, x):
        if isnan(x) or x < 0:
            return float("nan")
        return -math.inf if x == 0 else math.log(x)

    def exp(self, x):
        return math.exp(x)

    def Phi(self, x):
        return float("nan") if isnan(x) else 0.5 * math.erfc(-x / math.sqrt(2))

    def div(self, a, b):
        if isnan(a) or isnan(b):
            return float("nan")
        if b == 0:
            return float("nan") if a == 0 else math.copysign(math.inf, a)
        return a / b

    def rint(self, x):
        return float(np.rint(x))

    def num(self, x):
        return float(x)

    def array(self, vals):
        return np.array(list(vals), dtype=float)

    def matrix(self, rows):
        return np.array([list(r) for r in rows], dtype=float).reshape(len(rows), len(rows[0]) if rows else 0)

    def index(self, times, name=None):
        return pd.DatetimeIndex(list(times), name=name)

    def series(self, vals, index=None, name=None, concrete=False):
        vals = list(vals)
        if concrete:
            return pd.Series(vals, index=index, name=name)
        return pd.Series(vals, index=index, name=name, dtype=float)

    def tseries(self, times, index=None, name=None):
        return pd.Series(pd.DatetimeIndex([pd.NaT if isnan(t) else t for t in times]), index=index, name=name)

    def frame(self, cols, index=None):
        d = {}
        for k, v in cols.items():
            if isinstance(v, pd.Series):
                d[k] = v.values
            elif isinstance(v, pd.DatetimeIndex) or (len(v) and isinstance(v[0], (str, pd.Timestamp))):
                d[k] = v
            else:
                d[k] = np.array(list(v), dtype=float)
        return pd.DataFrame(d, index=index)

    def value(self, x):
        return x

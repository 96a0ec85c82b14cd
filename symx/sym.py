"""Symbolic values that flow through the real Python/pandas/numpy code."""
import math
import numbers
from fractions import Fraction

import numpy as np
import pandas as pd
import z3

from . import alg, engine
from .alg import Poly, Rat
from .engine import EngineLimit

NAN = float("nan")
INF = float("inf")
_NUM = (int, float, np.integer, np.floating, np.bool_, bool, Fraction)


def E():
    return engine.CUR


# ------------------------------------------------------------------------------------------
# conditions
# ------------------------------------------------------------------------------------------
class SymBool:
    __slots__ = ("key", "zf", "neg", "_z")

    def __init__(self, key, zf, neg=False):
        self.key = key
        self.zf = zf          # thunk giving the z3 condition (un-negated)
        self.neg = neg
        self._z = None

    def z(self):
        z = self.zf()
        return z3.Not(z) if self.neg else z

    def __bool__(self):
        return E().branch(self.key, self.zf(), self.neg)

    def __invert__(self):
        return SymBool(self.key, self.zf, not self.neg)

    def _k(self):
        return ("not", self.key) if self.neg else self.key

    def __and__(self, o):
        return band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return SymBool(("xor", self._k(), o._k()), lambda a=self, b=o: z3.Xor(a.z(), b.z()))
        if isinstance(o, (bool, np.bool_)):
            return ~self if o else self
        return NotImplemented

    __rxor__ = __xor__

    # arithmetic on booleans (masks multiplied, summed)
    def _n(self):
        return 1 if bool(self) else 0

    def __mul__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return band(self, o)
        return self._n() * o

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, SymBool):
            o = o._n()
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - (o._n() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self._n()

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return ~(self ^ o)
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, _NUM):
            return self._n() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 77

    def __float__(self):
        return float(self._n())

    def __int__(self):
        return self._n()

    __index__ = __int__

    def logical_not(self):
        return ~self

    def __repr__(self):
        return "<SymBool>"


def band(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (bool, np.bool_)):
            return y if x else False
    if not (isinstance(a, SymBool) and isinstance(b, SymBool)):
        return NotImplemented
    return SymBool(("and", a._k(), b._k()), lambda: z3.And(a.z(), b.z()))


def bor(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (bool, np.bool_)):
            return True if x else y
    if not (isinstance(a, SymBool) and isinstance(b, SymBool)):
        return NotImplemented
    return SymBool(("or", a._k(), b._k()), lambda: z3.Or(a.z(), b.z()))


def all_of(xs):
    acc = True
    for x in xs:
        if isinstance(x, np.bool_):
            x = bool(x)
        acc = band(acc, x)
    return acc


def any_of(xs):
    acc = False
    for x in xs:
        if isinstance(x, np.bool_):
            x = bool(x)
        acc = bor(acc, x)
    return acc


def _lt_poly(p):
    """p < 0"""
    e = E()
    s = e.syn_sign(p)
    if s is not None:
        return s == "-"
    if e.syn_nonneg(p):
        return False
    lm, lc = p.lead()
    p = alg.tidy(p.scale(alg._norm(Fraction(1) / abs(Fraction(lc)))))
    return SymBool(("lt", p), lambda: e.z_poly(p) < 0)


def _eq_poly(p):
    e = E()
    if p.is_const():
        return p.is_zero()
    if e.syn_sign(p) in ("+", "-"):
        return False
    lm, lc = p.lead()
    p = alg.tidy(p.scale(alg._norm(Fraction(1) / Fraction(lc))))
    return SymBool(("eq", p), lambda: e.z_poly(p) == 0)


def den_sign(den):
    """('+', None) if the denominator is evidently positive, else the list of factors to sign-test."""
    e = E()
    odd = []
    sgn = 1
    for f, k in den.items():
        if k % 2 == 0:
            continue
        s = e.syn_sign(f)
        if s == "+":
            continue
        if s == "-":
            sgn = -sgn
            continue
        c = _lt_poly(f)
        if isinstance(c, bool):
            if c:
                sgn = -sgn
            continue
        k2 = e.known.get(c.key)
        if k2 is not None:
            if k2 != c.neg:
                sgn = -sgn
            continue
        odd.append(c)
    return sgn, odd


def _lt_rat(r):
    """r < 0"""
    if not r.den:
        return _lt_poly(r.num)
    sgn, odd = den_sign(r.den)
    num = r.num if sgn > 0 else -r.num
    # fork on the unknown denominator signs: they are almost always decided by the path
    for c in odd:
        if bool(c):
            num = -num
    return _lt_poly(num)


# ------------------------------------------------------------------------------------------
# numbers
# ------------------------------------------------------------------------------------------
def is_num(x):
    return isinstance(x, _NUM)


def lift(x):
    """SymNum or concrete -> Rat or a special float (nan, inf) or None."""
    if isinstance(x, SymNum):
        return x.r
    if isinstance(x, SymBool):
        return Rat.const(x._n())
    if isinstance(x, (bool, np.bool_)):
        return Rat.const(int(x))
    if isinstance(x, (int, np.integer)):
        return Rat.const(int(x))
    if isinstance(x, Fraction):
        return Rat.const(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isnan(f) or math.isinf(f):
            return f
        return Rat.const(_float_const(f))
    if x is pd.NA or x is None:
        return NAN
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


_FC = {}


def _float_const(f):
    """A float constant as the rational it stands for: its shortest decimal form when that is
    exact enough to be what the programmer wrote (0.1, 4.6), else its exact binary value."""
    c = _FC.get(f)
    if c is None:
        c = Fraction(f)
        d = Fraction(repr(f)) if "e" not in repr(f) else c
        if len(repr(f)) <= 10:
            c = d
        else:
            g = c.limit_denominator(10 ** 6)
            if g != 0 and abs(float(g) - f) <= 1e-15 * abs(f):
                c = g
        c = alg._norm(c)
        _FC[f] = c
    return c


def mk(r, isint=False):
    if isinstance(r, float):
        return r
    if r.is_const():
        v = r.const_value()
        if isint and isinstance(v, int):
            return v
        return SymNum(r, isint)
    return SymNum(r, isint)


def _binop_array(op):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            a = np.empty(o.shape, dtype=object)
            for i in np.ndindex(o.shape):
                a[i] = op(self, o[i])
            return a
        return NotImplemented
    return f


class SymNum:
    """A number: exact rational function of atoms."""
    __slots__ = ("r", "isint")

    def __init__(self, r, isint=False):
        self.r = r
        self.isint = isint

    # -- helpers
    def _other(self, o):
        return lift(o)

    def __repr__(self):
        if self.r.is_const():
            return f"<{self.r.const_value()}>"
        return f"<sym {show(self.r)}>"

    def is_const(self):
        return self.r.is_const()

    def __add__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        if isinstance(r, float):
            return r
        return mk(self.r + r, self.isint and _isint(o))

    __radd__ = __add__

    def __sub__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        if isinstance(r, float):
            return -r
        return mk(self.r - r, self.isint and _isint(o))

    def __rsub__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        if isinstance(r, float):
            return r
        return mk(r - self.r, self.isint and _isint(o))

    def __mul__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        if isinstance(r, float):
            if math.isnan(r):
                return NAN
            if bool(self < 0):
                return -r
            if bool(self == 0):
                return NAN
            return r
        return mk(self.r * r, self.isint and _isint(o))

    __rmul__ = __mul__

    def __neg__(self):
        return mk(-self.r, self.isint)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        return div(self.r, r)

    def __rtruediv__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        return div(r, self.r)

    def __floordiv__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return self - floordiv(self, o) * o

    def __rmod__(self, o):
        return o - floordiv(o, self) * self

    def __pow__(self, o):
        if isinstance(o, SymNum):
            if o.is_const():
                o = o.r.const_value()
            else:
                raise EngineLimit("symbolic exponent")
        if isinstance(o, (float, np.floating)):
            o = float(o)
            if o.is_integer():
                o = int(o)
        if isinstance(o, (int, np.integer)):
            o = int(o)
            if o == 0:
                return 1.0 if not self.isint else 1
            b = self if o > 0 else 1 / self
            acc = b
            for _ in range(abs(o) - 1):
                acc = acc * b
            return acc
        if isinstance(o, Fraction):
            o = float(o)
        if isinstance(o, float):
            if o * 2 == int(o * 2):
                s = self.sqrt()
                return s ** int(round(o * 2))
            if self.is_const():
                return float(self.r.const_value()) ** o
            # x**y = exp(y*log x)
            return sym_exp(lift(o * sym_log(self.r))) if not isinstance(sym_log(self.r), float) else NAN
        return NotImplemented

    def __rpow__(self, o):
        if self.is_const():
            return o ** float(self.r.const_value())
        if isinstance(o, (int, float, np.integer, np.floating)) and o > 0:
            return sym_exp(lift(self * math.log(o)))
        return NotImplemented

    def __abs__(self):
        r = self.r
        if r.is_const():
            return mk(Rat.const(abs(r.const_value())), self.isint)
        if not r.den and E().syn_sign(r.num) == "+":
            return self
        if bool(self < 0):
            return -self
        return self

    # -- comparisons
    def _cmp(self, o, kind):
        r = lift(o)
        if r is None:
            return NotImplemented
        if isinstance(r, float):
            if math.isnan(r):
                return False
            return {"lt": r > 0, "le": r > 0, "gt": r < 0, "ge": r < 0}[kind]
        if kind == "lt":
            return _lt_rat(self.r - r)
        if kind == "gt":
            return _lt_rat(r - self.r)
        if kind == "le":
            return bnot(_lt_rat(r - self.r))
        return bnot(_lt_rat(self.r - r))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = lift(o)
        if r is None:
            return NotImplemented if not isinstance(o, (str, type(None))) else False
        if isinstance(r, float):
            return False
        if o is self:
            return True
        return _eq_poly((self.r - r).num)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r)

    def __hash__(self):
        if self.r.is_const():
            return hash(self.r.const_value())
        # an integer of a small range takes each of its values (so that it meets them in sets and dicts)
        t = self.r.num.t
        at = next(iter(t))[0][0] if len(t) == 1 and self.r == Rat(Poly.atom(next(iter(t))[0][0])) else None
        rg = E().atoms[at].get("range") if at is not None else None
        if rg is not None:
            for k in range(rg[0], rg[1] + 1):
                if bool(self == k):
                    return hash(k)
        for k in (0, 1, -1):
            if bool(self == k):
                return hash(k)
        return 4242

    def __divmod__(self, o):
        q = floordiv(self, o)
        return q, self - q * o

    def is_integer(self):
        return bool(self == floordiv(self, 1))

    def __format__(self, spec):
        return repr(self)

    # -- functions numpy's object loops call
    def sqrt(self):
        return sym_sqrt(self.r)

    def log(self):
        return sym_log(self.r)

    def exp(self):
        return sym_exp(self.r)

    def log1p(self):
        return sym_log((self + 1).r) if not isinstance(self + 1, float) else NAN

    def expm1(self):
        return sym_exp(self.r) - 1

    def square(self):
        return self * self

    def sign(self):
        return sign(self)

    def floor(self):
        return floordiv(self, 1)

    __floor__ = floor

    def ceil(self):
        return -floordiv(-self, 1)

    __ceil__ = ceil

    def rint(self):
        return rint(self)

    def __round__(self, n=None):
        if not n:
            return rint(self)
        return rint(self * 10 ** n) / 10 ** n

    def conjugate(self):
        return self

    def isnan(self):
        return False

    def item(self):
        return self

    @property
    def real(self):
        return self

    def __trunc__(self):
        return floordiv(self, 1) if bool(self >= 0) else -floordiv(-self, 1)

    # -- concretisation: a C kernel wants a machine number
    def __float__(self):
        if self.r.is_const():
            return float(self.r.const_value())
        E().limits.append("float()")
        raise EngineLimit("a concrete float is needed for " + repr(self))

    def __int__(self):
        if self.r.is_const():
            return int(self.r.const_value())
        raise EngineLimit("a concrete int is needed for " + repr(self))

    def __index__(self):
        if self.r.is_const() and isinstance(self.r.const_value(), int):
            return self.r.const_value()
        raise EngineLimit("a concrete index is needed for " + repr(self))

    def __bool__(self):
        b = self != 0
        return bool(b)


numbers.Real.register(SymNum)


def _isint(o):
    if isinstance(o, SymNum):
        return o.isint
    return isinstance(o, (int, np.integer, bool, np.bool_))


def bnot(b):
    if isinstance(b, SymBool):
        return ~b
    return not b


def div(a, b):
    if isinstance(a, float) or isinstance(b, float):
        fa = isinstance(a, float)
        fb = isinstance(b, float)
        if fa and math.isnan(a) or fb and math.isnan(b):
            return NAN
        if fa and fb:
            return NAN
        if fb:
            return mk(Rat.const(0))
        s = mk(b)
        if isinstance(s, SymNum) and bool(s < 0):
            return -a
        return a
    sb = mk(b)
    zero = _eq_poly(b.num)
    if bool(zero):
        sa = mk(a)
        if bool(_eq_poly(a.num)):
            return NAN
        return -INF if bool(_lt_rat(a)) else INF
    return mk(a / b)


def _known_nonneg(r):
    if not r.den:
        return E().syn_sign(r.num) in ("+", "0")
    return False


def pos_rat(r):
    """evidently positive"""
    e = E()
    if e.syn_sign(r.num) != "+":
        return False
    return all(k % 2 == 0 or e.syn_sign(f) == "+" for f, k in r.den.items())


def _root_const(c):
    """the root of a positive constant: exact if there is one, else rounded"""
    q = _perfect_sqrt(c)
    return q if q is not None else alg._norm(Fraction(math.sqrt(c)))


def _known_pos(rad):
    """is rad > 0 already on the path?"""
    e = E()
    sgn, odd = den_sign(rad.den)
    if odd:
        return False
    c = _lt_poly(-rad.num if sgn > 0 else rad.num)
    if isinstance(c, bool):
        return c
    k = e.known.get(c.key)
    return k is not None and k != c.neg


def _perfect_sqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return alg._norm(Fraction(a, b))
    return None


def sym_sqrt(r, nonneg=False):
    e = E()
    if isinstance(r, float):
        return math.sqrt(r) if r >= 0 else NAN
    if r.is_const():
        c = r.const_value()
        if c < 0:
            return NAN
        q = _perfect_sqrt(c)
        if q is not None:
            return mk(Rat.const(q))
        return mk(Rat.const(Fraction(math.sqrt(c))))
    if not nonneg and bool(_lt_rat(r)):
        return NAN
    # pull even powers of positive atoms / perfect-square constants and even denominator factors out
    out = Rat.const(1)
    den = {}
    num = r.num
    for f, k in r.den.items():
        if k >= 2 and e.syn_sign(f) == "+":
            out = out * Rat(alg.PONE, {f: k // 2})
            if k % 2:
                den[f] = 1
        elif k >= 2 and len(f.t) >= 1:
            # sqrt(x/f^2) = sqrt(x)/|f|
            if bool(_lt_poly(f)):
                out = out * Rat(alg.PONE.scale(-1 if (k // 2) % 2 else 1), {f: k // 2})
            else:
                out = out * Rat(alg.PONE, {f: k // 2})
            if k % 2:
                den[f] = 1
        else:
            den[f] = k
    # sqrt(n/f) = sqrt(n*f)/f for positive f
    for f in list(den):
        if e.syn_sign(f) == "+":
            num = num * f
            out = out * Rat(alg.PONE, {f: 1})
            del den[f]
    # common even powers of positive atoms
    content = None
    for m in num.t:
        d = dict(m)
        content = d if content is None else {a: min(x, d[a]) for a, x in content.items() if a in d}
    for a, x in sorted((content or {}).items()):
        if x >= 2 and e.atoms[a]["pos"]:
            h = x // 2
            out = out * Rat(Poly({((a, h),): 1}))
            n2 = {}
            for m, c in num.t.items():
                d = dict(m)
                d[a] -= 2 * h
                n2[tuple(sorted((k, v) for k, v in d.items() if v))] = c
            num = Poly(n2)
    # a perfect square trinomial etc. is not searched for; a single monomial with even powers is
    lm, lc = num.lead()
    c = abs(Fraction(lc))
    num = alg.tidy(num.scale(alg._norm(1 / c)))
    out = out * Rat.const(_root_const(c))
    rad = Rat(num, den)
    if rad.is_const():
        return mk(out * Rat.const(1))
    # exact square of a polynomial (e.g. a single squared difference)
    sq = _poly_sqrt(rad)
    if sq is not None:
        return mk(out) * abs(mk(sq))
    key = ("sqrt", rad)
    a = e.uf.get(key)
    if a is None:
        a = e.new_atom(f"sqrt!{len(e.atoms)}", kind="sqrt")
        e.uf[key] = a
        alg.SQRT_OF[a] = rad
        e.atoms[a]["nonneg"] = True

        def lazy(a=a, rad=rad):
            z = e.atoms[a]["z"]
            e.add(z >= 0)
            dz = _den_z(rad.den)
            if dz is None:
                e.add(z * z == e.z_poly(rad.num))
            else:
                e.add(z * z * dz == e.z_poly(rad.num))
        e.atoms[a]["lazy"] = lazy
        if pos_rat(rad) or _known_pos(rad):
            e.atoms[a]["pos"] = True
    return mk(out * Rat(Poly.atom(a)))


def _poly_sqrt(r):
    """sqrt of r if it is the square of a linear form (exactly), else None."""
    if r.den:
        return None
    p = r.num
    if p.degree() != 2 or len(p.t) > 40:
        return None
    # try l = sum c_i x_i (+c0): from the lead monomial
    import itertools
    ats = sorted(p.atoms())
    coef = {}
    # pick an atom with a square term
    base = None
    for a in ats:
        c = p.t.get(((a, 2),), 0)
        if c:
            q = _perfect_sqrt(c)
            if q is None:
                return None
            base = (a, q)
            break
    if base is None:
        return None
    a, q = base
    lin = {((a, 1),): q}
    for b in ats:
        if b == a:
            continue
        m = tuple(sorted(((a, 1), (b, 1))))
        c = p.t.get(m, 0)
        if c:
            lin[((b, 1),)] = alg._norm(Fraction(c) / (2 * q))
    c = p.t.get(((a, 1),), 0)
    if c:
        lin[alg.ONE] = alg._norm(Fraction(c) / (2 * q))
    l = Poly(lin)
    if l * l == p:
        return Rat(l)
    return None


def _den_z(den):
    e = E()
    z = None
    for f, k in den.items():
        for _ in range(k):
            z = e.z_poly(f) if z is None else z * e.z_poly(f)
    return z


def rat_z(r):
    e = E()
    d = _den_z(r.den)
    n = e.z_poly(r.num)
    if d is None:
        return z3.ToReal(n) if z3.is_int(n) else n
    return n / d


def _uf_atom(name, r, pos=False, axioms=None):
    e = E()
    r = alg.tidy_rat(r)
    key = (name, r)
    a = e.uf.get(key)
    if a is not None:
        return a
    a = e.new_atom(f"{name}!{len(e.atoms)}", kind=name, pos=pos)
    e.uf[key] = a
    def lazy():
        z = e.atoms[a]["z"]
        zr = rat_z(r)
        for a2, r2 in e.uf_by_name.get(name, []):
            z2, zr2 = e.atoms[a2]["z"], rat_z(r2)
            e.add((z < z2) == (zr < zr2))
            e.add((z == z2) == (zr == zr2))
        e.uf_by_name.setdefault(name, []).append((a, r))
        if axioms:
            axioms(z, zr)
    e.atoms[a]["lazy"] = lazy
    return a


def sym_log(r):
    e = E()
    if isinstance(r, float):
        return NAN if not (r > 0) else INF
    if r.is_const():
        c = r.const_value()
        if c == 0:
            return -INF
        return NAN if c < 0 else mk(Rat.const(Fraction(math.log(c)))) if c != 1 else mk(Rat.const(0))
    if not pos_rat(r):
        if bool(_eq_poly(r.num)):
            return -INF
        if bool(_lt_rat(r)):
            return NAN
        facs = None
    else:
        facs = True
    if facs:
        # log of a product = sum of logs, monomial by monomial / factor by factor
        acc = Rat.const(0)
        if len(r.num.t) == 1:
            (m, c), = r.num.t.items()
            if c != 1:
                acc = acc + Rat.const(Fraction(math.log(c)))
            for a, k in m:
                acc = acc + _log_atom(a) * Rat.const(k)
        else:
            acc = acc + _log_poly(r.num)
        for f, k in r.den.items():
            if len(f.t) == 1:
                (m, c), = f.t.items()
                for a, kk in m:
                    acc = acc - _log_atom(a) * Rat.const(kk * k)
            else:
                acc = acc - _log_poly(f) * Rat.const(k)
        return mk(acc)
    return mk(_log_generic(r))


def _log_atom(a):
    e = E()
    at = e.atoms[a]
    if "log" in at:
        return at["log"]          # atom declared as exp(u)
    return _log_generic(Rat(Poly.atom(a)))


def _log_poly(p):
    return _log_generic(Rat(p))


def _log_generic(r):
    e = E()

    def ax(z, zr):
        e.add((z > 0) == (zr > 1))
        e.add((z == 0) == (zr == 1))
        e.add(z <= zr - 1)
    return Rat(Poly.atom(_uf_atom("log", r, axioms=ax)))


def sym_exp(r):
    e = E()
    if isinstance(r, float):
        return math.exp(r) if r < 0 else r
    if r.is_const():
        c = r.const_value()
        return mk(Rat.const(1)) if c == 0 else mk(Rat.const(Fraction(math.exp(c))))

    # exp of a single log atom
    if not r.den and len(r.num.t) == 1:
        (m, c), = r.num.t.items()
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1):
            at = e.atoms[m[0][0]]
            if at["kind"] == "log":
                for (n, rr), a in e.uf.items():
                    if n == "log" and a == m[0][0]:
                        return mk(rr if c == 1 else rr.inverse())

    def ax(z, zr):
        e.add((z > 1) == (zr > 0))
        e.add((z == 1) == (zr == 0))
        e.add(z >= zr + 1)
    a = _uf_atom("exp", r, pos=True, axioms=ax)
    e.atoms[a]["log"] = r
    return mk(Rat(Poly.atom(a)))


def sym_cdf(r):
    """Standard normal distribution function (uninterpreted; monotone, symmetric, in (0,1))."""
    e = E()
    if isinstance(r, float):
        if math.isnan(r):
            return NAN
        return 1.0 if r > 0 else 0.0
    if r.is_const():
        c = r.const_value()
        if c == 0:
            return mk(Rat.const(Fraction(1, 2)))
        return mk(Rat.const(Fraction(0.5 * math.erfc(-float(c) / math.sqrt(2)))))
    lm, lc = r.num.lead()
    flip = lc < 0
    if flip:
        r = -r

    def ax(z, zr):
        e.add(z < 1)
        e.add((z > z3.Q(1, 2)) == (zr > 0))
        e.add((z == z3.Q(1, 2)) == (zr == 0))
        # also against the mirrored arguments of the other applications
        for a2, r2 in e.uf_by_name.get("Phi", []):
            z2, zr2 = e.atoms[a2]["z"], rat_z(r2)
            if z2 is not z:
                e.add((z < 1 - z2) == (zr < -zr2))
                e.add((z == 1 - z2) == (zr == -zr2))
    a = _uf_atom("Phi", r, pos=True, axioms=ax)
    v = Rat(Poly.atom(a))
    return mk(Rat.const(1) - v) if flip else mk(v)


def sign(x):
    if isinstance(x, (float, np.floating)) and math.isnan(x):
        return NAN
    if bool(x > 0):
        return 1.0
    if bool(x < 0):
        return -1.0
    return 0.0


def floordiv(a, b):
    ra, rb = lift(a), lift(b)
    if ra is None or rb is None:
        raise EngineLimit("floordiv")
    if isinstance(ra, float) or isinstance(rb, float):
        return NAN
    ints = _isint(a) and _isint(b)
    if rb.is_const() and rb.const_value() != 0:
        c = rb.const_value()
        if ints and not ra.den and all(isinstance(v, int) and v % c == 0 for v in ra.num.t.values()):
            return mk(ra.num and Rat(Poly({m: v // c for m, v in ra.num.t.items()})), True)
        if ra.is_const():
            v = Fraction(ra.const_value()) / Fraction(c)
            return mk(Rat.const(v.numerator // v.denominator), ints)
        q = ra / rb
        return _floor(q, ints)
    d = div(ra, rb)
    if isinstance(d, float):
        return NAN if math.isnan(d) else d
    return _floor(d.r, ints)


def _floor(q, ints=False):
    e = E()
    key = ("floor", q)
    a = e.uf.get(key)
    if a is None:
        a = e.new_atom(f"floor!{len(e.atoms)}", is_int=True, kind="floor")
        e.uf[key] = a
        z = z3.ToReal(e.atoms[a]["z"])
        zq = rat_z(q)
        e.add(z <= zq)
        e.add(zq < z + 1)
    return mk(Rat(Poly.atom(a)), ints)


def rint(x):
    """round half to even"""
    r = lift(x)
    if isinstance(r, float):
        return r
    if r.is_const():
        return mk(Rat.const(round(Fraction(r.const_value()))))
    e = E()
    key = ("rint", r)
    a = e.uf.get(key)
    if a is None:
        a = e.new_atom(f"rint!{len(e.atoms)}", is_int=True, kind="rint")
        e.uf[key] = a
        zi = e.atoms[a]["z"]
        z = z3.ToReal(zi)
        zr = rat_z(r)
        h = z3.Q(1, 2)
        e.add(z - h <= zr)
        e.add(zr <= z + h)
        e.add(z3.Implies(zr == z - h, zi % 2 == 0))
        e.add(z3.Implies(zr == z + h, zi % 2 == 0))
    return mk(Rat(Poly.atom(a)))


def show(r):
    e = E()

    def sp(p):
        if not p.t:
            return "0"
        out = []
        for m, c in list(p.t.items())[:6]:
            out.append("*".join([str(c)] + [e.atoms[a]["name"] + ("^%d" % k if k > 1 else "") for a, k in m]))
        return "+".join(out) + ("+..." if len(p.t) > 6 else "")
    s = sp(r.num)
    for f, k in r.den.items():
        s += f" / ({sp(f)})^{k}"
    return s


# ------------------------------------------------------------------------------------------
# times (milliseconds since the epoch)
# ------------------------------------------------------------------------------------------
def _td_ms(o):
    """milliseconds of a concrete timedelta, exactly"""
    ns = pd.Timedelta(o).value
    return alg._norm(Fraction(ns, 10 ** 6))


def _ts_ms(o):
    t = pd.Timestamp(o)
    return alg._norm(Fraction(t.value, 10 ** 6))


_TD = (pd.Timedelta, np.timedelta64)
import datetime as _dt
_TD = (pd.Timedelta, np.timedelta64, _dt.timedelta, pd.tseries.offsets.Tick)
_TS = (pd.Timestamp, np.datetime64, _dt.datetime)


def _isnat(o):
    return o is pd.NaT or o is None or o is pd.NA or (isinstance(o, float) and math.isnan(o)) or (
        isinstance(o, (np.datetime64, np.timedelta64)) and np.isnat(o))


class SymTime:
    __slots__ = ("n",)
    __array_priority__ = 1000
    tzinfo = None
    tz = None

    def __init__(self, n):
        self.n = n            # SymNum (ms)

    def __repr__(self):
        return f"<time {self.n!r}>"

    def _o(self, o):
        if isinstance(o, SymTime):
            return o.n
        if _isnat(o):
            return NAN
        if isinstance(o, _TS):
            return _ts_ms(o)
        if isinstance(o, float) and math.isinf(o):
            return o
        return None

    def _c(self, o, k):
        v = self._o(o)
        if v is None:
            return NotImplemented
        if isinstance(self.n, (int, Fraction)) and not isinstance(v, SymNum):
            return {"lt": self.n < v, "le": self.n <= v, "gt": self.n > v, "ge": self.n >= v}[k]
        if isinstance(self.n, (int, Fraction)):
            return {"lt": v > self.n, "le": v >= self.n, "gt": v < self.n, "ge": v <= self.n}[k]
        return self.n._cmp(v, k)

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        v = self._o(o)
        if v is None:
            return False
        if o is self:
            return True
        r = self.n == v
        return bool(r) if r is not NotImplemented else False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 31337

    def __add__(self, o):
        if isinstance(o, SymDelta):
            return SymTime(self.n + o.n)
        if _isnat(o):
            return pd.NaT
        if isinstance(o, _TD):
            return SymTime(self.n + _td_ms(o))
        if isinstance(o, pd.DateOffset):
            raise EngineLimit("calendar offset")
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymTime):
            return SymDelta(self.n - o.n)
        if isinstance(o, SymDelta):
            return SymTime(self.n - o.n)
        if _isnat(o):
            return pd.NaT
        if isinstance(o, _TD):
            return SymTime(self.n - _td_ms(o))
        if isinstance(o, _TS):
            return SymDelta(self.n - _ts_ms(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _TS):
            return SymDelta(_ts_ms(o) - self.n)
        if _isnat(o):
            return pd.NaT
        return NotImplemented

    @property
    def value(self):
        return self.n * 10 ** 6

    def timestamp(self):
        return self.n / 1000

    def to_pydatetime(self, warn=True):
        return self

    def to_datetime64(self):
        return self

    def isoformat(self, *a, **k):
        return repr(self)

    def __index__(self):
        raise EngineLimit("a concrete time is needed")


class SymDelta:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def _o(self, o):
        if isinstance(o, SymDelta):
            return o.n
        if _isnat(o):
            return NAN
        if isinstance(o, _TD):
            return _td_ms(o)
        return None

    def _c(self, o, k):
        v = self._o(o)
        if v is None:
            return NotImplemented
        s = self.n
        if not isinstance(s, SymNum):
            s = SymNum(Rat.const(s), True)
        return s._cmp(v, k)

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        v = self._o(o)
        return False if v is None else bool(self.n == v)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return 31338

    def __neg__(self):
        return SymDelta(-self.n)

    def __abs__(self):
        return SymDelta(abs(self.n))

    def __add__(self, o):
        if isinstance(o, SymDelta):
            return SymDelta(self.n + o.n)
        if isinstance(o, SymTime):
            return SymTime(self.n + o.n)
        if _isnat(o):
            return pd.NaT
        if isinstance(o, _TD):
            return SymDelta(self.n + _td_ms(o))
        if isinstance(o, _TS):
            return SymTime(self.n + _ts_ms(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if is_num(o) or isinstance(o, SymNum):
            return SymDelta(self.n * o)
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        v = self._o(o)
        if v is not None:
            return self.n / v
        return SymDelta(self.n / o)

    def __floordiv__(self, o):
        v = self._o(o)
        if v is not None:
            return self.n // v
        return SymDelta(self.n // o)

    @property
    def days(self):
        return self.n // 86400000

    @property
    def value(self):
        return self.n * 10 ** 6

    def total_seconds(self):
        return self.n / 1000


def _elementwise(cls, names):
    for nm in names:
        real = cls.__dict__.get(nm)
        if real is None:
            continue

        def f(self, o, _real=real):
            if isinstance(o, np.ndarray) and o.ndim:
                out = np.empty(o.shape, dtype=object)
                for i in np.ndindex(o.shape):
                    out[i] = _real(self, o[i])
                return out
            if isinstance(o, (pd.Series, pd.Index, pd.DataFrame)):
                return NotImplemented
            return _real(self, o)
        f.__name__ = nm
        setattr(cls, nm, f)


_ops = ["__lt__", "__le__", "__gt__", "__ge__", "__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__",
        "__truediv__", "__floordiv__", "__eq__", "__ne__"]
_elementwise(SymTime, _ops)
_elementwise(SymDelta, _ops)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool, SymTime, SymDelta))


def has_sym(arr):
    """an object array holding a symbolic value"""
    try:
        if isinstance(arr, np.ndarray):
            if arr.dtype != object:
                return False
            for x in arr.flat:
                if isinstance(x, (SymNum, SymBool, SymTime, SymDelta)):
                    return True
            return False
        if isinstance(arr, (pd.Series, pd.Index)):
            return arr.dtype == object and has_sym(np.asarray(arr, dtype=object))
        if isinstance(arr, pd.DataFrame):
            return any(has_sym(arr.iloc[:, i]) for i in range(arr.shape[1]))
        if isinstance(arr, (list, tuple)):
            return any(has_sym(x) if isinstance(x, (list, tuple, np.ndarray)) else is_sym(x) for x in arr)
    except EngineLimit:
        raise
    return is_sym(arr)

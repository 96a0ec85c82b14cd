"""Exact algebra behind the symbolic values.

A symbolic number is a rational function over *atoms*.  Atoms are solver variables: inputs,
square roots (s >= 0, s*s = x), and applications of uninterpreted functions (log, exp, Phi...).
Polynomials are kept expanded with exact rational coefficients, so that equal expressions are
structurally equal, and they are translated to SMT terms (z3) when the solver is asked.
"""
from fractions import Fraction
import math

ONE = ()          # the empty monomial


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def exact(x):
    """Exact rational value of a concrete finite number."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _norm(x)
    if hasattr(x, "dtype"):
        x = x.item()
        return exact(x)
    return _norm(Fraction(x))


_BIG = 10 ** 12
_NOISE = Fraction(1, 10 ** 13)


class Poly:
    __slots__ = ("t", "_h", "_z")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None

    @staticmethod
    def const(c):
        c = exact(c)
        return Poly({ONE: c} if c != 0 else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): 1})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const_value(self):
        return self.t.get(ONE, 0)

    def is_zero(self):
        return not self.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v == 0 or (type(v) is Fraction and v.denominator > _BIG and abs(v) <= _NOISE * abs(c)):
                r.pop(m, None)          # equal up to the rounding of constants
            else:
                r[m] = _norm(v)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        if c == 0:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: _norm(v * c) for m, v in self.t.items()})

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                r[m] = v
        return Poly({m: _norm(c) for m, c in r.items() if c != 0})

    def lead(self):
        m = max(self.t, key=_mkey)
        return m, self.t[m]

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def maxcoef(self):
        return max((abs(c) for c in self.t.values()), default=0)

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def divexact(self, d):
        """self / d if exact, else None (single-divisor multivariate division)."""
        if not self.t:
            return self
        lm, lc = d.lead()
        lmd = dict(lm)
        r = dict(self.t)
        q = {}
        steps = 0
        while r:
            steps += 1
            if steps > 400:
                return None
            m = max(r, key=_mkey)
            md = dict(m)
            ok = True
            for a, e in lm:
                if md.get(a, 0) < e:
                    ok = False
                    break
            if not ok:
                return None
            qm = dict(md)
            for a, e in lm:
                qm[a] -= e
                if qm[a] == 0:
                    del qm[a]
            qmt = tuple(sorted(qm.items()))
            qc = _norm(Fraction(r[m]) / Fraction(lc))
            q[qmt] = q.get(qmt, 0) + qc
            for m2, c2 in d.t.items():
                mm = mono_mul(qmt, m2)
                v = r.get(mm, 0) - qc * c2
                if v == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = _norm(v)
        return Poly(q)


def _mkey(m):
    return (sum(e for _, e in m), m)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    # merge sorted
    r = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a1, e1 = m1[i]
        a2, e2 = m2[j]
        if a1 == a2:
            r.append((a1, e1 + e2))
            i += 1
            j += 1
        elif a1 < a2:
            r.append(m1[i])
            i += 1
        else:
            r.append(m2[j])
            j += 1
    r.extend(m1[i:])
    r.extend(m2[j:])
    return tuple(r)


PZERO = Poly({})
PONE = Poly({ONE: 1})


def tidy(p):
    """coefficients that carry float noise (huge denominators) rounded to 12 significant digits: expressions
    that differ only by the rounding of their constants become the same expression"""
    ch = None
    for m, c in p.t.items():
        if type(c) is Fraction and c.denominator > _BIG:
            if ch is None:
                ch = dict(p.t)
            v = _norm(Fraction("%.11e" % float(c)))
            if v == 0:
                del ch[m]
            else:
                ch[m] = v
    return p if ch is None else Poly(ch)


def tidy_rat(r):
    n = tidy(r.num)
    d = {f: tidy(f) for f in r.den}
    if n is r.num and all(a is b for a, b in d.items()):
        return r
    den = {}
    for f, k in r.den.items():
        den[d[f]] = den.get(d[f], 0) + k
    return Rat(n, den)


class Rat:
    """num / prod(f**e for f,e in den) -- den is a dict {Poly: exponent} of monic nonconstant factors."""
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._h = None

    @staticmethod
    def const(c):
        return Rat(Poly.const(c))

    def is_const(self):
        return not self.den and self.num.is_const()

    def const_value(self):
        return self.num.const_value()

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.num, frozenset(self.den.items())))
        return self._h

    def __eq__(self, o):
        return self.num == o.num and self.den == o.den

    def __neg__(self):
        return Rat(-self.num, self.den)

    def __add__(self, o):
        if self.den == o.den:
            return cancel(reduce_sqrt(self.num + o.num), self.den)
        # lcm of denominators
        lcm = dict(self.den)
        for f, e in o.den.items():
            if lcm.get(f, 0) < e:
                lcm[f] = e
        n1, n2 = self.num, o.num
        for f, e in lcm.items():
            for _ in range(e - self.den.get(f, 0)):
                n1 = n1 * f
            for _ in range(e - o.den.get(f, 0)):
                n2 = n2 * f
        return cancel(reduce_sqrt(n1 + n2), lcm)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        n = self.num * o.num
        if not n.t:
            return Rat(PZERO)
        den = self.den
        if o.den:
            den = dict(den)
            for f, e in o.den.items():
                den[f] = den.get(f, 0) + e
        return cancel(reduce_sqrt(n), den)

    def inverse(self):
        """1/self, assuming self != 0."""
        num = PONE
        for f, e in self.den.items():
            for _ in range(e):
                num = num * f
        n = self.num
        den = {}
        # split monomial content
        if n.is_const():
            return Rat(num.scale(_norm(Fraction(1) / Fraction(n.const_value()))), {})
        content = None
        for m in n.t:
            d = dict(m)
            if content is None:
                content = d
            else:
                content = {a: min(e, d[a]) for a, e in content.items() if a in d}
            if not content:
                break
        if content:
            for a, e in content.items():
                den[Poly.atom(a)] = e
            cm = tuple(sorted(content.items()))
            n2 = {}
            for m, c in n.t.items():
                d = dict(m)
                for a, e in cm:
                    d[a] -= e
                    if d[a] == 0:
                        del d[a]
                n2[tuple(sorted(d.items()))] = c
            n = Poly(n2)
        lm, lc = n.lead()
        n = n.scale(_norm(Fraction(1) / Fraction(lc)))
        num = num.scale(_norm(Fraction(1) / Fraction(lc)))
        if not n.is_const():
            den[n] = den.get(n, 0) + 1
        return cancel(num, den)

    def __truediv__(self, o):
        return self * o.inverse()


# sqrt atoms: atom -> Rat x with s*s = x;  filled by sym.py
SQRT_OF = {}


def reduce_sqrt(p):
    """replace s**2 by x for square-root atoms whose radicand is a polynomial."""
    if not SQRT_OF:
        return p
    changed = True
    while changed:
        changed = False
        for m in p.t:
            for a, e in m:
                if e >= 2 and a in SQRT_OF and not SQRT_OF[a].den:
                    changed = True
                    break
            if changed:
                break
        if changed:
            acc = PZERO
            plain = {}
            for m, c in p.t.items():
                hit = None
                for a, e in m:
                    if e >= 2 and a in SQRT_OF and not SQRT_OF[a].den:
                        hit = (a, e)
                        break
                if hit is None:
                    plain[m] = c
                else:
                    a, e = hit
                    rest = tuple((b, f) for b, f in m if b != a)
                    if e % 2:
                        rest = mono_mul(rest, ((a, 1),))
                    q = Poly({rest: c})
                    for _ in range(e // 2):
                        q = q * SQRT_OF[a].num
                    acc = acc + q
            p = acc + Poly(plain)
    return p


def cancel(num, den):
    if not num.t:
        return Rat(PZERO)
    if SQRT_OF:
        # s**2 with a rational-function radicand
        for m in num.t:
            for a, e in m:
                if e >= 2 and a in SQRT_OF and SQRT_OF[a].den:
                    acc = Rat(PZERO)
                    for m2, c in num.t.items():
                        rest = m2
                        r = None
                        for b, f in m2:
                            if b == a and f >= 2:
                                rest = tuple((x, y) for x, y in m2 if x != a)
                                if f % 2:
                                    rest = mono_mul(rest, ((a, 1),))
                                r = Rat(Poly({rest: c}))
                                for _ in range(f // 2):
                                    r = r * SQRT_OF[a]
                        if r is None:
                            r = Rat(Poly({m2: c}))
                        acc = acc + r
                    if den:
                        acc = acc * Rat(PONE, dict(den))
                    return acc
    if not den:
        return Rat(num)
    out = {}
    for f, e in den.items():
        while e > 0:
            if len(num.t) > 300 and len(f.t) > 1:
                break
            q = num.divexact(f)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out[f] = e
    # s**e in the denominator with s*s = x:  1/s**2 = 1/x
    if SQRT_OF:
        for f in list(out):
            if len(f.t) == 1:
                (m, c), = f.t.items()
                if len(m) == 1 and m[0][0] in SQRT_OF and out[f] >= 2:
                    e = out.pop(f)
                    x = SQRT_OF[m[0][0]]
                    r = Rat(num, out)
                    inv = x.inverse()
                    for _ in range(e // 2):
                        r = r * inv
                    if e % 2:
                        d = dict(r.den)
                        d[f] = d.get(f, 0) + 1
                        r = Rat(r.num, d)
                    return r
    return Rat(num, out)


def cross(a, b):
    """numerators of a and b over their common denominator, uncancelled"""
    lcm = dict(a.den)
    for f, e in b.den.items():
        if lcm.get(f, 0) < e:
            lcm[f] = e
    n1, n2 = a.num, b.num
    for f, e in lcm.items():
        for _ in range(e - a.den.get(f, 0)):
            n1 = n1 * f
        for _ in range(e - b.den.get(f, 0)):
            n2 = n2 * f
    return reduce_sqrt(n1), reduce_sqrt(n2)

"""Path exploration: one Engine object drives one symbolic execution path of a harness."""
import time
import z3
from fractions import Fraction
from . import alg
from .alg import Poly, Rat

CUR = None            # the engine of the path being executed


class PathEnd(BaseException):
    """The path stops here (infeasible assumption, or budget)."""


class EngineLimit(TypeError):
    """The code needed a concrete value (a C kernel, an unsupported operation)."""


def cur():
    return CUR


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.branches = 0
        self.checks = 0
        self.checks_nf = 0
        self.paths = 0
        self.infeasible = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


class Engine:
    SOLVER_MS = 8000          # assertions
    FEAS_MS = 1500            # feasibility of a branch

    def __init__(self, prefix, stats, symbolic=True):
        self.prefix = prefix
        self.stats = stats
        self.pos = 0
        self.decisions = []          # what was taken: bool or int (choice)
        self.pending = []            # alternative prefixes found on this path
        self.solver = z3.Solver()
        self.solver.set("timeout", self.SOLVER_MS)
        self.model = None
        self.known = {}              # canonical condition -> bool
        self.atoms = []              # atom id -> dict(name, z3, kind, pos, int)
        self.by_name = {}
        self.uf = {}                 # (fname, Rat) -> atom id
        self.uf_by_name = {}
        self.inputs = []             # input atoms, in creation order
        self.choices = {}
        self.cex = []                # (msg, assignment)
        self.inconclusive = []
        self.suspects = []
        self.limits = []
        self.assumptions = 0
        self.reached = 0
        self.prefer = []
        self.keep = []
        self.incomplete = False
        self.nonlinear = False
        self.dead = False
        self.rng = None
        alg.SQRT_OF.clear()

    def die(self):
        """end the path; sticky, because C code may swallow the exception"""
        self.dead = True
        raise PathEnd()

    # ---- atoms ---------------------------------------------------------------------------
    def new_atom(self, name, is_int=False, pos=False, kind="input"):
        i = len(self.atoms)
        z = z3.Int(name) if is_int else z3.Real(name)
        self.atoms.append(dict(name=name, z=z, int=is_int, pos=pos, kind=kind))
        self.by_name[name] = i
        if kind == "input":
            self.inputs.append(i)
        if pos:
            self.add(z > 0)
        return i

    def z_poly(self, p):
        if p._z is not None and p._z[0] is self:
            return p._z[1]
        terms = []
        ats = p.atoms()
        allint = all(self.atoms[a]["int"] for a in ats) and all(isinstance(c, int) for c in p.t.values())
        for a in ats:
            lazy = self.atoms[a].pop("lazy", None)
            if lazy is not None:
                lazy()
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                z = self.atoms[a]["z"]
                if self.atoms[a]["int"] and not allint:
                    z = z3.ToReal(z)
                fs.extend([z] * e)
            if allint:
                cz = z3.IntVal(c)
            else:
                cz = z3.RealVal(str(c)) if isinstance(c, int) else z3.Q(c.numerator, c.denominator)
            if not fs:
                terms.append(cz)
            else:
                t = fs[0] if len(fs) == 1 else z3.Product(*fs)
                if len(fs) > 1:
                    self.nonlinear = True
                terms.append(t if c == 1 else cz * t)
        if not terms:
            r = z3.RealVal(0)
        elif len(terms) == 1:
            r = terms[0]
        else:
            r = z3.Sum(*terms)
        p._z = (self, r)
        return r

    # ---- syntactic sign ------------------------------------------------------------------
    def syn_sign(self, p):
        """'+' / '-' if the polynomial's strict sign is syntactically evident, '0' if zero, else None."""
        if not p.t:
            return "0"
        s = None
        for m, c in p.t.items():
            for a, e in m:
                if not self.atoms[a]["pos"] and e % 2:
                    return None
                if not self.atoms[a]["pos"]:
                    return None      # could be zero
            k = "+" if c > 0 else "-"
            if s is None:
                s = k
            elif s != k:
                return None
        return s

    def syn_nonneg(self, p):
        """syntactically evident p >= 0"""
        for m, c in p.t.items():
            if c < 0:
                return False
            for a, e in m:
                if e % 2 and not self.atoms[a]["pos"] and not self.atoms[a].get("nonneg"):
                    return False
        return True

    # ---- solver --------------------------------------------------------------------------
    def add(self, z):
        self.solver.add(z)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(z, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, extra=None, ms=None, second=True):
        t = time.time()
        ms = ms or self.SOLVER_MS
        self.stats.queries += 1
        if extra is not None:
            self.solver.push()
            self.solver.add(extra)
        self.solver.set("timeout", ms)
        r = self.solver.check()
        m = None
        if r == z3.sat:
            m = self.solver.model()
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        elif second:
            # second opinion from the non-linear procedure
            s2 = z3.Tactic("qfnra-nlsat").solver() if self._pure_real() else z3.Then("simplify", "solve-eqs", "smt").solver()
            s2.set("timeout", ms)
            s2.add(*self.solver.assertions())
            try:
                r = s2.check()
                if r == z3.sat:
                    m = s2.model()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.sat:
                self.stats.sat += 1
            elif r == z3.unsat:
                self.stats.unsat += 1
            else:
                self.stats.unknown += 1
        else:
            self.stats.unknown += 1
        if extra is not None:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        return r, m

    def _feas(self, extra=None):
        return self._check(extra, self.FEAS_MS, self.FEAS_MS > 600)

    def _pure_real(self):
        return not any(a["int"] for a in self.atoms)

    def ensure_model(self):
        if self.model is None:
            r, m = self._feas()
            if r == z3.unsat:
                self.stats.infeasible += 1
                self.die()
            self.model = m
        return self.model

    def assume(self, z, key=None, neg=False):
        """Add an assumption (part of the claim)."""
        self.add(z)
        if key is not None:
            self.know(key, not neg)
        self.assumptions += 1

    # ---- branching -----------------------------------------------------------------------
    def know(self, key, v):
        """a decided condition, and what follows from it for the other order relations on the same expression"""
        kn = self.known
        kn[key] = v
        if type(key) is not tuple or len(key) != 2 or key[0] not in ("lt", "eq") or not isinstance(key[1], Poly) or not key[1].t:
            return
        p = key[1]
        if key[0] == "eq":
            lt, gt = ("lt", p), ("lt", -p)
            if v:
                kn.setdefault(lt, False)
                kn.setdefault(gt, False)
            elif kn.get(lt) is False:
                kn.setdefault(gt, True)
            elif kn.get(gt) is False:
                kn.setdefault(lt, True)
            return
        m = -p
        other = ("lt", m)
        eq = ("eq", p if p.lead()[1] > 0 else m)
        if v:
            kn.setdefault(other, False)
            kn.setdefault(eq, False)
        elif kn.get(other) is False:
            kn.setdefault(eq, True)
        elif kn.get(eq) is False:
            kn.setdefault(other, True)

    def branch(self, key, z, neg=False):
        """Decide the condition (key, z), negated if neg. Returns a Python bool."""
        if self.dead:
            raise PathEnd()
        k = self.known.get(key)
        if k is not None:
            return k != neg
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            if v in ("T", "F"):          # forced decisions are recorded too
                v = v == "T"
                self.decisions.append("T" if v else "F")
                self.know(key, v)
                return v != neg
            assert isinstance(v, bool), (v, key)
            self.decisions.append(v)
            self.know(key, v)
            self.solver.add(z if v else z3.Not(z))
            self.model = None
            return v != neg
        self.stats.branches += 1
        m = self.ensure_model()
        v = None
        if m is not None:
            ev = m.eval(z, model_completion=True)
            if z3.is_true(ev):
                v = True
            elif z3.is_false(ev):
                v = False
        if v is None:
            r, m1 = self._feas(z)
            if r == z3.unsat:
                v, forced = False, True
                r2, m2 = self._feas(z3.Not(z))
                if r2 == z3.unsat:
                    self.die()
                self._take(key, v, m2, forced)
                return v != neg
            v = True
            self.model = m = m1
        r, m2 = self._feas(z3.Not(z) if v else z)
        if r == z3.unsat:
            self._take(key, v, m, True)
        else:
            if r == z3.unknown:
                self.incomplete = True
            self.pending.append(self.decisions + [not v])
            self.solver.add(z if v else z3.Not(z))
            self._take(key, v, m, False)
        return v != neg

    def _take(self, key, v, m, forced):
        self.model = m
        self.know(key, v)
        self.decisions.append(("T" if v else "F") if forced else v)

    def choice(self, name, n):
        if name in self.choices:
            return self.choices[name]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            assert isinstance(v, int) and not isinstance(v, bool), (v, name)
        else:
            v = 0
            for j in range(n - 1, 0, -1):
                self.pending.append(self.decisions + [j])
        self.decisions.append(v)
        self.choices[name] = v
        return v

    # ---- assertions ----------------------------------------------------------------------
    def check(self, key, z, neg, msg):
        """Assert condition; on failure record a counterexample and go on assuming it."""
        self.stats.checks += 1
        self.reached += 1
        k = self.known.get(key)
        if k is not None and k != neg:
            self.stats.checks_nf += 1
            return
        if k is not None:
            self.fail(msg)
            self.die()
        cond = z3.Not(z) if neg else z
        if self.pos < len(self.prefix):        # discharged on the parent path already
            self.solver.add(cond)
            self.model = None
            self.know(key, not neg)
            return
        r, m = self._check(z3.Not(cond))
        if r == z3.unsat:
            self.know(key, not neg)
            return
        if r == z3.unknown:
            self.inconclusive.append(msg)
            self.suspect(msg)
        else:
            self.cex.append((msg, self.variants(m, z3.Not(cond))))
        self.solver.add(cond)
        self.model = None
        self.know(key, not neg)
        r, m = self._feas()
        if r == z3.unsat:
            self.die()
        self.model = m

    def fail(self, msg):
        """The check is false on the whole path."""
        r, m = self._check()
        if r == z3.unsat:
            self.stats.infeasible += 1
            self.die()
        if r == z3.unknown:
            self.inconclusive.append(msg)
            self.suspect(msg)
        else:
            self.cex.append((msg, self.variants(m)))

    def suspect(self, msg):
        """inputs of a path on which the solver gave no verdict: the real code is tried on them"""
        if len(self.suspects) < 3:
            m = self._feas()[1]
            if m is not None:
                self.suspects.append((msg, self.variants(m, n=6)))

    def variants(self, m, extra=None, n=4):
        if m is None:
            m = self.ensure_model()
        out = [self.assignment(m, extra)]
        for k in range(1, n):
            out.append(self.assignment(m, extra, seed=k))
        return out

    def robust_model(self, eps=z3.Q(1, 500)):
        """a model of the path away from every real-valued boundary, or None"""
        cons = []
        for key, v in self.known.items():
            if not (isinstance(key, tuple) and len(key) == 2 and key[0] in ("lt", "eq") and isinstance(key[1], Poly)):
                continue
            p = key[1]
            if all(self.atoms[a]["int"] for a in p.atoms()):
                continue
            z = self.z_poly(p)
            if key[0] == "lt":
                cons.append(z <= -eps if v else z >= eps)
            elif v:
                return None
            else:
                cons.append(z3.Or(z <= -eps, z >= eps))
        if not cons:
            m = self.ensure_model()
            return (m, None) if m is not None else None
        c = z3.And(*cons)
        r, m = self._check(c, 1000, False)
        return (m, c) if r == z3.sat else None

    # ---- models --------------------------------------------------------------------------
    def assignment(self, m, extra=None, nice=True, seed=None):
        """Concrete values for the inputs: a model of the path (and extra), made readable."""
        vals = {}
        self.solver.push()
        try:
            if extra is not None:
                self.solver.add(extra)
            self.solver.set("timeout", 1500)
            for p in self.prefer:
                self.solver.push()
                self.solver.add(p)
                if self.solver.check() == z3.sat:
                    m = self.solver.model()
                    # keep the preference
                    continue
                self.solver.pop()
            import random
            rnd = random.Random(seed) if seed is not None else None
            for i in self.inputs:
                a = self.atoms[i]
                v = m.eval(a["z"], model_completion=True)
                f = _to_frac(v)
                done = False
                if nice:
                    cands = []
                    if a["int"]:
                        cands = [int(f)]
                        if rnd is not None:
                            cands.insert(0, int(f) + rnd.randint(0, 1000))
                    else:
                        if rnd is not None:
                            cands.append(Fraction(round(f * 64) + rnd.randint(-40, 40), 64))
                            cands.append(f + Fraction(rnd.randint(-1000, 1000), 100000))
                        cands += [Fraction(round(f)), Fraction(round(f * 8), 8), Fraction(round(f * 1024), 1024),
                                  Fraction(round(f * (1 << 30)), 1 << 30)]
                    for c in cands:
                        cz = z3.IntVal(c) if a["int"] else z3.Q(c.numerator, c.denominator)
                        self.solver.push()
                        self.solver.add(a["z"] == cz)
                        if self.solver.check() == z3.sat:
                            m = self.solver.model()
                            f = Fraction(c)
                            done = True
                            break
                        self.solver.pop()
                vals[a["name"]] = int(f) if a["int"] else f
        finally:
            self.solver.set("timeout", self.SOLVER_MS)
            # unwind every push made here
            while self.solver.num_scopes() > 0:
                self.solver.pop()
        vals.update({"#" + k: v for k, v in self.choices.items()})
        return vals


def _to_frac(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)

"""Translation of symbolic values to z3 and the queries."""
import math
import sys
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    sys.path.append(_VT)
    import z3

from . import sym
from .sym import Sym, BASES


def rv(c):
    c = Fraction(c)
    return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)


class Encoder(object):
    def __init__(self):
        self.terms = {}
        self.axioms = {}      # base id -> list of z3 constraints
        self.deps = {}        # base id -> set of base ids
        self.aux = {}

    def base(self, b, used):
        used.add(b)
        if b in self.terms:
            return self.terms[b]
        x = BASES[b]
        ax, deps = [], set()
        if x.kind == 'var':
            t = z3.Real(x.name)
            if x.lo is not None:
                ax.append(t > rv(x.lo) if x.strict_lo else t >= rv(x.lo))
            if x.hi is not None:
                ax.append(t < rv(x.hi) if x.strict_hi else t <= rv(x.hi))
        elif x.kind == 'pi':
            t = z3.Real('PI!')
            ax += [t > rv(Fraction(3141592653, 10 ** 9)), t < rv(Fraction(3141592654, 10 ** 9))]
        elif x.kind == 'prime':
            t = rv(x.data)
        elif x.kind == 'neg':
            t = -self.base(x.data, deps)
        elif x.kind == 'log':
            t = z3.Real('LOG!%d' % b)
            if isinstance(x.data, Fraction):
                v = math.log(float(x.data))
                lo, hi = Fraction(v).limit_denominator(10 ** 12) - Fraction(1, 10 ** 9), \
                    Fraction(v).limit_denominator(10 ** 12) + Fraction(1, 10 ** 9)
                ax += [t > rv(lo), t < rv(hi)]
            else:
                a = self.base(x.data, deps)
                ax += [z3.Implies(a > 1, t > 0), z3.Implies(a < 1, t < 0), z3.Implies(a == 1, t == 0), t <= a - 1]
        elif x.kind == 'exp':
            t = z3.Real('EXP!%d' % b)
            a = self.mono(x.data, deps)
            ax += [t > 0, t >= a + 1, z3.Implies(a > 0, t > 1), z3.Implies(a < 0, t < 1), z3.Implies(a == 0, t == 1)]
        elif x.kind == 'max':
            t = z3.Real('MAX!%d' % b)
            vs = [self.value(v, deps) for v in x.data]
            ax += [t >= v for v in vs] + [z3.Or([t == v for v in vs])]
        elif x.kind == 'poly':
            t = z3.Sum([rv(c) * self.mono(m, deps) if m else rv(c) for m, c in x.data.items()])
        else:
            raise KeyError(x.kind)
        self.terms[b], self.axioms[b], self.deps[b] = t, ax, deps
        return t

    def power(self, b, e, used):
        if abs(Fraction(e).numerator) + Fraction(e).denominator > 40:
            # large exponent: an unknown number (positive for a positive base), shared by equal exponents
            key = ('power', b, abs(e))
            if key not in self.aux:
                v, w = z3.Real('POW!%d!%s' % (b, abs(e))), z3.Real('IPOW!%d!%s' % (b, abs(e)))
                deps = set()
                t = self.base(b, deps)
                ax = [z3.Implies(v != 0, v * w == 1), z3.Implies(t > 0, v > 0), z3.Implies(t == 1, v == 1),
                      z3.Implies(t > 1, v > t if abs(e) > 1 else v < t),
                      z3.Implies(z3.And(t > 0, t < 1), v < t if abs(e) > 1 else v > t)]
                self.aux[key] = ((v, w), ax, deps)
            v, w = self.aux[key][0]
            used.add(key)
            return v if e > 0 else w
        if isinstance(e, int) and e > 0:
            t = self.base(b, used)
            r = t
            for _ in range(e - 1):
                r = r * t
            return r
        if isinstance(e, int):
            key = ('inv', b)
            if key not in self.aux:
                deps = set()
                t = self.base(b, deps)
                v = z3.Real('INV!%d' % b)
                self.aux[key] = (v, [v * t == 1], deps)
            v = self.aux[key][0]
            used.add(key)
            r = v
            for _ in range(-e - 1):
                r = r * v
            return r
        e = Fraction(e)
        q = e.denominator
        key = ('root', b, q)
        if key not in self.aux:
            deps = set()
            t = self.base(b, deps)
            v = z3.Real('ROOT!%d!%d' % (b, q))
            p = v
            for _ in range(q - 1):
                p = p * v
            self.aux[key] = (v, [v >= 0, p == t], deps)
        v = self.aux[key][0]
        used.add(key)
        n = e.numerator
        if n > 0:
            r = v
            for _ in range(n - 1):
                r = r * v
            return r
        ikey = ('iroot', b, q)
        if ikey not in self.aux:
            w = z3.Real('IROOT!%d!%d' % (b, q))
            self.aux[ikey] = (w, [w * v == 1], {key})
        w = self.aux[ikey][0]
        used.add(ikey)
        r = w
        for _ in range(-n - 1):
            r = r * w
        return r

    def mono(self, m, used):
        if not m:
            return z3.RealVal(1)
        r = None
        for b, e in m:
            t = self.power(b, e, used)
            r = t if r is None else r * t
        return r

    def value(self, s, used):
        if not s.m:
            return rv(s.c)
        t = self.mono(s.m, used)
        return t if s.c == 1 else rv(s.c) * t

    def closure(self, used):
        seen, out, stack = set(), [], list(used)
        while stack:
            k = stack.pop()
            if k in seen:
                continue
            seen.add(k)
            if isinstance(k, tuple):
                _, ax, deps = self.aux[k]
            else:
                if k not in self.axioms:
                    self.base(k, set())
                ax, deps = self.axioms[k], self.deps[k]
            out.extend(ax)
            stack.extend(deps)
        return out, seen

    # constraint "the monomial m has a sign in ``signs``"
    def sign_constraint(self, m, signs, used):
        fac = []
        for b, e in m:
            s = BASES[b].sign
            if s == '+':
                continue
            odd = (e % 2 == 1) if isinstance(e, int) else True
            fac.append((self.base(b, used), odd))
        odd = [t for t, o in fac if o]
        even = [t for t, o in fac if not o]
        prod = None
        for t in odd:
            prod = t if prod is None else prod * t
        opts = []
        if '0' in signs:
            opts.append(z3.Or([t == 0 for t, _ in fac]) if fac else z3.BoolVal(False))
        nz = [t != 0 for t in even]
        if '+' in signs:
            opts.append(z3.And(nz + ([prod > 0] if prod is not None else [])))
        if '-' in signs:
            opts.append(z3.And(nz + [prod < 0]) if prod is not None else z3.BoolVal(False))
        return z3.Or(opts) if len(opts) != 1 else opts[0]


class Solver(object):
    def __init__(self, timeout_ms=2000, assert_timeout_ms=10000):
        self.enc = Encoder()
        self.timeout_ms = timeout_ms
        self.assert_timeout_ms = assert_timeout_ms
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.cache = {}
        self.model_cache = {}
        self.witness = None

    def _check(self, cons, used, timeout):
        ax, seen = self.enc.closure(used)
        s = z3.SolverFor('QF_NRA') if False else z3.Solver()
        s.set('timeout', timeout)
        s.add(cons)
        s.add(ax)
        t0 = time.time()
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        self.time += time.time() - t0
        self.queries += 1
        setattr(self, r, getattr(self, r) + 1)
        return r, (s.model() if r == 'sat' else None), seen

    def feasible(self, cond):
        key = tuple((m, s) for m, s in cond)
        if key in self.cache:
            return self.cache[key]
        used = set()
        cons = [self.enc.sign_constraint(m, s, used) for m, s in cond]
        r, model, seen = self._check(cons, used, self.timeout_ms)
        self.cache[key] = r
        if r == 'sat':
            self.model_cache[key] = self._assignment(model, seen)
        return r

    def path_model(self, cond):
        key = tuple((m, s) for m, s in cond)
        if not cond:
            return {}
        if key not in self.model_cache:
            self.cache.pop(key, None)
            self.feasible(cond)
        return self.model_cache.get(key)

    def _assignment(self, model, seen):
        out = {}
        for b in seen:
            if isinstance(b, int) and BASES[b].kind == 'var':
                v = model.eval(z3.Real(BASES[b].name), model_completion=True)
                out[BASES[b].name] = _num(v)
        return out

    def refute(self, cond, core):
        """
        Is there an assignment with the path condition and  ``core`` (list of ('sign', mono, signs))?
        returns (verdict, assignment)
        """
        used = set()
        cons = [self.enc.sign_constraint(m, s, used) for m, s in cond]
        cons += [self.enc.sign_constraint(m, s, used) for m, s in core]
        r, model, seen = self._check(cons, used, self.assert_timeout_ms)
        return r, (self._assignment(model, seen) if r == 'sat' else None)

    def equal_query(self, cond, a, b):
        """z3 verdict on  path and N_a*D_b != N_b*D_a  (polynomials sent unfactored; z3 does the arithmetic)"""
        used = set()
        cons = [self.enc.sign_constraint(m, s, used) for m, s in cond]

        def split(s):
            num, den = rv(s.c), z3.RealVal(1)
            for bb, e in s.m:
                if e > 0:
                    num = num * self.enc.power(bb, e, used)
                else:
                    den = den * self.enc.power(bb, -e, used)
            return num, den
        na, da = split(a)
        nb, db = split(b)
        cons.append(na * db != nb * da)
        r, model, seen = self._check(cons, used, self.assert_timeout_ms)
        return r, (self._assignment(model, seen) if r == 'sat' else None)

    def opaque_query(self, a, b):
        """z3 verdict on  a != b  with every base of the normal forms as an uninterpreted number different from zero"""
        cons, terms = [], {}

        def atom(bb, e):
            if abs(Fraction(e).numerator) > 40:
                if (bb, 'p', abs(e)) not in terms:
                    terms[bb, 'p', abs(e)] = z3.Real('B!%d!p!%s' % (bb, abs(e)))
                    cons.append(terms[bb, 'p', abs(e)] != 0)
                return terms[bb, 'p', abs(e)]
            q = Fraction(e).denominator
            if (bb, q) not in terms:
                terms[bb, q] = z3.Real('B!%d!%d' % (bb, q))
                cons.append(terms[bb, q] != 0)
            r = terms[bb, q]
            for _ in range(abs(Fraction(e).numerator) - 1):
                r = r * terms[bb, q]
            return r

        def split(s):
            num, den = rv(s.c), z3.RealVal(1)
            for bb, e in s.m:
                if e > 0:
                    num = num * atom(bb, e)
                else:
                    den = den * atom(bb, e)
            return num, den
        na, da = split(a)
        nb, db = split(b)
        cons.append(na * db != nb * da)
        r, _, _ = self._check(cons, set(), self.timeout_ms)
        return r

    def nonneg_linear(self, s):
        """
        s >= 0 because every monomial of its numerator is non-negative: decided by z3 over fresh non-negative
        variables for the monomials (linear arithmetic).
        """
        if s.c == 0:
            return True
        sg = []
        for b, e in s.m:
            x = BASES[b]
            if x.sign == '+' or (isinstance(e, int) and e % 2 == 0):
                continue
            if x.sign == '0+':
                continue
            sg.append((b, e))
        if len(sg) == 0:
            return s.c > 0
        if len(sg) > 1 or BASES[sg[0][0]].kind != 'poly':
            return False
        data = BASES[sg[0][0]].data
        cons, terms = [], []
        for i, (m, c) in enumerate(data.items()):
            ms = sym._mono_sign(m)
            if ms not in ('+', '0+'):
                return False
            y = z3.Real('y!%d' % i)
            cons.append(y >= 0)
            terms.append(rv(c * (1 if s.c > 0 else -1)) * y)
        cons.append(z3.Sum(terms) < 0)
        r, _, _ = self._check(cons, set(), self.assert_timeout_ms)
        return r == 'unsat'


def _num(v):
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 1.0

"""
Harness environments.  A harness is written once against this interface and is executed
  * symbolically (SymEnv): inputs are symbolic reals, assertions become solver queries,
  * concretely (ConcreteEnv): on the unmodified package, with ordinary floats (validation of the engine, replay).
"""
import hashlib
import math
import random
from fractions import Fraction


def _rng(seed, name):
    h = hashlib.sha256('{}:{}'.format(seed, name).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def draw(seed, name, lo, hi):
    """a sample of the domain of a variable, with a short decimal representation"""
    r = _rng(seed, name)
    if lo is not None and hi is not None:
        lo, hi = float(lo), float(hi)
        v = lo + (hi - lo) * (0.05 + 0.9 * r.random())
    elif lo is not None:
        v = float(lo) + math.exp(r.uniform(-1.5, 1.0))
    elif hi is not None:
        v = float(hi) - math.exp(r.uniform(-1.5, 1.0))
    else:
        v = r.uniform(-2., 2.)
    q = Fraction(round(v * 1000), 1000)
    if lo is not None and q <= Fraction(lo):
        q = Fraction(round(v * 10 ** 6), 10 ** 6)
    if hi is not None and q >= Fraction(hi):
        q = Fraction(v)
    return q


class HarnessAbort(Exception):
    """assumption of the harness does not hold"""


def flat_pairs(a, b, path=''):
    """pairs of scalars of two (nested) sequences; yields (path, x, y) or (path, None, None) for a shape mismatch"""
    la, lb = _len(a), _len(b)
    if la is None and lb is None:
        yield path, a, b
    elif la is None or lb is None or la != lb:
        yield path + ' (shape {} vs {})'.format(la, lb), None, None
    else:
        for i in range(la):
            for t in flat_pairs(a[i], b[i], path + '[%d]' % i):
                yield t


def _len(x):
    if isinstance(x, (list, tuple)):
        return len(x)
    if hasattr(x, 'ndim') and hasattr(x, '__len__'):
        return len(x) if x.ndim > 0 else None
    return None


class BaseEnv(object):
    def __init__(self, seed):
        self.seed = seed
        self.vars = {}          # name -> (lo, hi)
        self.observed = []
        self.known_hits = []

    # numbers
    def pos(self, name, fixed=None):
        return self.real(name, lo=0, strict_lo=True, fixed=fixed)

    def nonneg(self, name, fixed=None):
        return self.real(name, lo=0, fixed=fixed)

    def frac(self, name, fixed=None):
        return self.real(name, lo=0, hi=1, strict_lo=True, strict_hi=True, fixed=fixed)

    def sample(self, name, lo=None, hi=None):
        """a concrete pseudo-random number (the same in both environments), as an exact rational"""
        return draw(self.seed, 'sample:' + name, lo, hi)


class ConcreteEnv(BaseEnv):
    symbolic = False

    def __init__(self, bl, np, assignment, seed, tol=1e-6, known=()):
        BaseEnv.__init__(self, seed)
        self.bl, self.np = bl, np
        self.assignment = assignment
        self.tol = tol
        self.known = known
        self.failures = []
        self.checked = 0

    def num(self, x):
        return float(Fraction(x)) if isinstance(x, (str, Fraction, int)) else float(x)

    def real(self, name, lo=None, hi=None, strict_lo=False, strict_hi=False, fixed=None):
        if fixed is not None:
            return self.num(fixed)
        self.vars[name] = (lo, hi)
        if name in self.assignment:
            return float(self.assignment[name])
        return float(draw(self.seed, name, lo, hi))

    def choice(self, name, n):
        return int(self.assignment.get('choice:' + name, 0)) % n

    def order(self, name, n):
        """a permutation of range(n)"""
        perm, rest = [], list(range(n))
        for i in range(n - 1):
            perm.append(rest.pop(self.choice('{}.{}'.format(name, i), len(rest))))
        return perm + rest

    def array(self, x):
        return self.np.array(x, dtype=float)

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def sqrt(self, x):
        return math.sqrt(x)

    @property
    def pi(self):
        return math.pi

    def maximum(self, values):
        return max(values)

    def is_true(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not cond:
            raise HarnessAbort()

    def close(self, x, y, tol=None, scale=None):
        if x is None or y is None:
            return False
        try:
            x, y = float(x), float(y)
        except (TypeError, ValueError):
            return False
        if x != x or y != y:
            return x != x and y != y
        if math.isinf(x) or math.isinf(y):
            return x == y
        t = tol or self.tol
        return abs(x - y) <= t * max(abs(x), abs(y), float(scale) if scale is not None else 0.) + 1e-11

    def fail(self, label, x=None, y=None):
        self.failures.append([label, repr(x), repr(y)])

    def assert_eq(self, label, a, b, known=None, tol=None, scale=None):
        alt = {}
        if known is not None:
            for p, x, y in flat_pairs(a, known[1]):
                alt[p] = y
        for p, x, y in flat_pairs(a, b):
            self.checked += 1
            if not self.close(x, y, tol, scale):
                if known is not None and known[0] in self.known and x is not None and self.close(x, alt.get(p), tol, scale):
                    self.known_hits.append(known[0])
                    continue
                self.fail(label + p, x, y)

    def assert_log_eq(self, label, logval, val, known=None, tol=None):
        """logval == log(val)"""
        v = self.log(val) if not isinstance(val, str) else float(val)
        kn = (known[0], self.log(known[1])) if known is not None else None
        self.assert_eq(label, logval, v, known=kn, scale=1.)

    def assert_true(self, label, cond):
        self.checked += 1
        if not bool(cond):
            self.fail(label)

    def assert_le(self, label, a, b):
        self.checked += 1
        if not float(a) <= float(b) + self.tol * max(1., abs(float(b))):
            self.fail(label, a, b)

    def observe(self, label, v):
        for p, x, _ in flat_pairs(v, v):
            try:
                self.observed.append([label + p, float(x)])
            except (TypeError, ValueError):
                self.observed.append([label + p, None])

    def minimize_stub(self, f):
        """installs f(fun, x0) -> point, value of the function as a replacement of the optimiser"""
        import scipy.optimize
        places = [m for m in (scipy.optimize, self.bl.core) if hasattr(m, 'minimize')]

        def mini(fun, x0, *a, **k):
            x, y = f(fun, x0)
            return scipy.optimize.OptimizeResult(x=self.np.array([float(v) for v in x]), fun=y, success=True, status=1,
                                                 nfev=5, message='', maxcv=0.)
        old = [m.minimize for m in places]
        for m in places:
            m.minimize = mini

        def undo():
            for m, o in zip(places, old):
                m.minimize = o
        return undo

    def pool_order(self, f):
        """the real package is run with real worker processes"""
        return lambda: None

    def drawn(self, f):
        """calls f and returns what it draws (see drawing.py)"""
        from . import drawing
        calls, stop = drawing.record()
        try:
            f()
        finally:
            stop()
        return drawing.interpret(calls)

    def fork_max(self):
        pass


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, bl, explorer, seed, keep=None):
        from . import npx, sym
        BaseEnv.__init__(self, seed)
        self.bl, self.ex = bl, explorer
        self.npx, self.sym = npx, sym
        self.np = npx.np_proxy
        self.asserts = []
        self.choices = {}
        self.keep = keep        # None: all variables symbolic; otherwise callable(index) -> bool
        self.count = 0
        self.fixed = {}

    def num(self, x):
        if isinstance(x, (str, int, Fraction)):
            return self.sym.lift(Fraction(x))
        return self.sym.lift(x)

    def real(self, name, lo=None, hi=None, strict_lo=False, strict_hi=False, fixed=None):
        if fixed is not None:
            return self.num(fixed)
        self.vars[name] = (lo, hi)
        i = self.count
        self.count += 1
        if self.keep is not None and not self.keep(i):
            q = draw(self.seed, name, lo, hi)
            self.fixed[name] = float(q)
            return self.num(q)
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        return self.sym.variable(name, lo, hi, strict_lo, strict_hi)

    def choice(self, name, n):
        if n == 1:
            return 0
        k = self.ex.choose(n)
        self.choices['choice:' + name] = k
        return k

    order = ConcreteEnv.order

    def array(self, x):
        return self.npx.x_array(x, float)

    def exp(self, x):
        return self.sym.lift(x).exp()

    def log(self, x):
        return self.sym.lift(x).log()

    def sqrt(self, x):
        return self.sym.lift(x).sqrt()

    @property
    def pi(self):
        return self.npx.np_proxy.pi

    def maximum(self, values):
        return self.sym.symmax(list(values))

    def is_true(self, cond):
        return bool(cond)

    def assume(self, cond):
        self.ex.assume(cond)

    def assert_eq(self, label, a, b, known=None, tol=None, scale=None):
        alt = {}
        if known is not None:
            for p, x, y in flat_pairs(a, known[1]):
                alt[p] = y
        for p, x, y in flat_pairs(a, b):
            self.asserts.append(('eq', label + p, x, y, (known[0], alt.get(p)) if known is not None else None, tol,
                                 scale))

    def assert_log_eq(self, label, logval, val, known=None, tol=None):
        lv = self.sym.lift(logval)
        if isinstance(val, str):
            self.asserts.append(('eq', label, lv, float(val), None, tol, None))
            return
        self.asserts.append(('eq', label, lv.exp(), val, known, tol, None))

    def assert_true(self, label, cond):
        self.asserts.append(('true', label, cond))

    def assert_le(self, label, a, b):
        a, b = self.sym.lift(a), self.sym.lift(b)
        self.asserts.append(('true', label, self.sym.compare(b, a, '>='), b - a if not (a.special or b.special)
                             else None))

    def observe(self, label, v):
        for p, x, _ in flat_pairs(v, v):
            self.observed.append((label + p, x))

    def minimize_stub(self, f):
        from scipy.optimize import OptimizeResult
        npx = self.npx

        def mini(fun, x0, *a, **k):
            x, y = f(fun, x0)
            return OptimizeResult(x=npx.x_array(list(x)), fun=y, success=True, status=1, nfev=5, message='', maxcv=0.)
        npx.MINIMIZE[0] = mini

        def undo():
            npx.MINIMIZE[0] = None
        return undo

    def pool_order(self, f):
        self.npx.POOL_ORDER[0] = f

        def undo():
            self.npx.POOL_ORDER[0] = None
        return undo

    def drawn(self, f):
        from . import drawing
        self.npx.PLOT_CALLS.clear()
        f()
        return drawing.interpret(self.npx.PLOT_CALLS)

    def fork_max(self):
        """maxima are resolved by case distinction (one path per position of the maximum)"""
        self.sym.FORK_MAX[0] = True

"""
Symbolic real numbers.

A ``Sym`` is a real-valued expression kept in a factored normal form

        coef * prod_i base_i ** exponent_i

``coef`` is an exact rational, a *base* is an interned object: an input variable, a transcendental atom (LOG, EXP, MAX,
PI) or a polynomial node (a sum of at least two monomials over the other bases, scaled to leading coefficient one).
Sums are brought to this form by extracting the common factors of all summands and expanding the remainder, so that
normalisation constants cancel exactly.  +inf, -inf and nan are represented explicitly and follow IEEE rules.

Comparisons of symbolic values give a ``SymBool``; turning that into a Python bool asks the path explorer
(engine.path), which forks the execution if the solver finds both outcomes feasible.
"""
import math
import numbers
from fractions import Fraction

ZERO, ONE = Fraction(0), Fraction(1)
TINY = 1e-200        # |float| below this is lifted to 0 (the 1e-300 floor used for numerical stability)
MAX_TERMS = 60000


class EngineError(BaseException):
    """The engine cannot model an operation (never a verdict about the code)."""


class Unsupported(EngineError):
    pass


class TooLarge(EngineError):
    pass


ENGINE_ERRORS = []   # every engine error raised, even if the code under test swallows it


def unsupported(msg):
    e = Unsupported(msg)
    ENGINE_ERRORS.append(msg)
    raise e


# --------------------------------------------------------------------------------------------------------------------
# bases
# --------------------------------------------------------------------------------------------------------------------
class Base(object):
    __slots__ = ('id', 'kind', 'name', 'data', 'sign', 'lo', 'hi', 'strict_lo', 'strict_hi', 'flipped')

    def __repr__(self):
        return self.name


BASES = []
_INTERN = {}


def _new_base(kind, name, data, sign, lo=None, hi=None):
    b = Base()
    b.id = len(BASES)
    b.kind, b.name, b.data, b.sign, b.lo, b.hi = kind, name, data, sign, lo, hi
    b.strict_lo = b.strict_hi = b.flipped = False
    BASES.append(b)
    return b


def variable(name, lo=None, hi=None, strict_lo=False, strict_hi=False):
    key = ('var', name)
    if key in _INTERN:
        b = _INTERN[key]
        return Sym(ONE, ((b.id, 1),))
    sign = None
    if lo is not None and (lo > 0 or (lo == 0 and strict_lo)):
        sign = '+'
    elif lo is not None and lo >= 0:
        sign = '0+'
    elif hi is not None and (hi < 0 or (hi == 0 and strict_hi)):
        sign = '-'
    b = _new_base('var', name, None, sign, lo, hi)
    b.strict_lo, b.strict_hi = strict_lo, strict_hi
    _INTERN[key] = b
    return Sym(ONE, ((b.id, 1),))


def _atom(kind, key, name, data, sign):
    k = (kind, key)
    b = _INTERN.get(k)
    if b is None:
        b = _new_base(kind, name, data, sign)
        _INTERN[k] = b
    return b


def _pi():
    return _atom('pi', 'pi', 'PI', None, '+')


PRIMES = set()      # ids of prime numbers that occur below fractional powers


def _fold_primes(c, m):
    """exponents of prime numbers are kept within (0, 1)"""
    for b, e in m:
        if b in PRIMES and not 0 < e < 1:
            break
    else:
        return c, m
    out = []
    for b, e in m:
        if b in PRIMES and not 0 < e < 1:
            n = math.floor(e)
            c = c * BASES[b].data ** n
            if e != n:
                out.append((b, e - n))
        else:
            out.append((b, e))
    return c, tuple(out)


def _int_exp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


# --------------------------------------------------------------------------------------------------------------------
# monomials: tuples of (base id, exponent), sorted by id
# --------------------------------------------------------------------------------------------------------------------
def _mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for b, e in n:
        x = d.get(b, 0) + e
        if x == 0:
            d.pop(b, None)
        else:
            d[b] = _int_exp(x)
    return tuple(sorted(d.items()))


def _mono_pow(m, e):
    return tuple((b, _int_exp(x * e)) for b, x in m)


def _poly_mul(p, q):
    r = {}
    if len(p) * len(q) > 4 * MAX_TERMS:
        ENGINE_ERRORS.append('polynomial too large')
        raise TooLarge('polynomial product of {} x {} terms'.format(len(p), len(q)))
    for m, c in p.items():
        for n, d in q.items():
            k = _mono_mul(m, n)
            x = r.get(k)
            if x is None:
                r[k] = c * d
            else:
                x += c * d
                if x:
                    r[k] = x
                else:
                    del r[k]
    return r


def _needs_expand(m):
    for b, e in m:
        if BASES[b].kind == 'poly' and e >= 1:
            return True
    return False


_EXPAND_CACHE = {}


def _expand(m):
    """Expand all polynomial bases with exponent >= 1 of a monomial; returns a dict monomial -> coef."""
    if not _needs_expand(m):
        return {m: ONE}
    r = _EXPAND_CACHE.get(m)
    if r is not None:
        return r
    rest = []
    polys = []
    for b, e in m:
        if BASES[b].kind == 'poly' and e >= 1:
            n = int(math.floor(e))
            f = _int_exp(e - n)
            polys.append((b, n))
            if f != 0:
                rest.append((b, f))
        else:
            rest.append((b, e))
    r = {tuple(rest): ONE}
    for b, n in polys:
        for _ in range(n):
            r = _poly_mul(r, BASES[b].data)
    if any(_needs_expand(k) for k in r):
        r2 = {}
        for k, c in r.items():
            for k2, c2 in _expand(k).items():
                x = r2.get(k2, ZERO) + c * c2
                if x:
                    r2[k2] = x
                else:
                    r2.pop(k2, None)
        r = r2
    if len(_EXPAND_CACHE) < 200000:
        _EXPAND_CACHE[m] = r
    return r


def _poly_sign(data):
    """Sign of a polynomial from the signs of its monomials: '+', '0+', '-', '0-' or None."""
    strict = False
    s = None
    for m, c in data.items():
        ms = _mono_sign(m)
        if ms is None:
            return None
        if c < 0:
            ms = {'+': '-', '0+': '0-', '-': '+', '0-': '0+'}[ms]
        if ms in ('+', '-'):
            strict = True
        p = ms[-1]
        if s is None:
            s = p
        elif s != p:
            return None
    return s if strict else '0' + s


def _mono_sign(m):
    neg = False
    strict = True
    for b, e in m:
        s = BASES[b].sign
        if isinstance(e, int) and e % 2 == 0:
            if s not in ('+', '-'):
                if e < 0:
                    continue  # even inverse power: positive wherever it is defined
                strict = False
            continue
        if not isinstance(e, int) and s is None:
            # a fractional power is only defined for non-negative bases
            strict = False
            continue
        if s is None:
            return None
        if s in ('-', '0-'):
            neg = not neg
        if s in ('0+', '0-') and e > 0:
            strict = False
    return ('' if strict else '0') + ('-' if neg else '+')


def _base_bounds(b):
    """(lower, strict, upper, strict) of a base; None stands for unbounded"""
    x = BASES[b]
    if x.kind == 'var':
        return x.lo, x.strict_lo, x.hi, x.strict_hi
    if x.kind == 'poly' and x.data is not None and len(x.data) <= 8:
        return _poly_bounds(x.data)
    if x.sign in ('+', '0+'):
        return ZERO, x.sign == '+', None, False
    if x.sign in ('-', '0-'):
        return None, False, ZERO, x.sign == '-'
    return None, False, None, False


def _interval_mul(a, b):
    """product of two intervals with finite or infinite ends"""
    inf = float('inf')

    def end(v, strict, default):
        return (default, True) if v is None else (v, strict)
    ends_a = [end(a[0], a[1], -inf), end(a[2], a[3], inf)]
    ends_b = [end(b[0], b[1], -inf), end(b[2], b[3], inf)]
    cand = []
    for x, sx in ends_a:
        for y, sy in ends_b:
            if x == 0 or y == 0:
                v = ZERO
                strict = (sx if x == 0 else False) or (sy if y == 0 else False)
                if x == 0 and y == 0:
                    strict = sx and sy
                elif x == 0:
                    strict = sx
                else:
                    strict = sy
            else:
                v = x * y
                strict = sx or sy
            cand.append((v, strict))
    lo = min(v for v, _ in cand)
    hi = max(v for v, _ in cand)
    slo = all(t for v, t in cand if v == lo)
    shi = all(t for v, t in cand if v == hi)
    return (None if lo == -inf else lo, slo, None if hi == inf else hi, shi)


def _interval_pow(a, e):
    r = (ONE, False, ONE, False)
    for _ in range(e):
        r = _interval_mul(r, a)
    if e % 2 == 0:
        lo, slo, hi, shi = a
        if lo is None or lo < 0:
            r = (ZERO, False, r[2], r[3]) if (hi is None or hi > 0 or (hi == 0 and not shi)) else r
        if lo is not None and hi is not None and lo < 0 < hi:
            m = max(-lo, hi)
            st = all(t for v, t in ((-lo, slo), (hi, shi)) if v == m)
            r = (ZERO, False, m ** e, st)
        elif lo is None or hi is None:
            r = (r[0], r[1], None, True)
    return r


def _poly_bounds(data):
    lo, hi, slo, shi = ZERO, ZERO, False, False
    for m, c in data.items():
        r = (ONE, False, ONE, False)
        for b, e in m:
            if not isinstance(e, int) or e < 0 or e > 8:
                return None, False, None, False
            r = _interval_mul(r, _interval_pow(_base_bounds(b), e))
        a, sa, z, sz = r
        if c < 0:
            a, sa, z, sz = z, sz, a, sa
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or z is None else hi + c * z
        slo, shi = slo or sa, shi or sz
        if lo is None and hi is None:
            break
    return lo, slo, hi, shi


def _full_sign(data):
    s = _poly_sign(data)
    if s is None and len(data) <= 8:
        lo, slo, hi, shi = _poly_bounds(data)
        if lo is not None and lo >= 0:
            return '+' if lo > 0 or slo else '0+'
        if hi is not None and hi <= 0:
            return '-' if hi < 0 or shi else '0-'
    return s


def _poly_node(data):
    """
    Intern a polynomial with at least two terms (no common monomial factor); returns (lead coef, base).  Polynomials
    that are known to be negative are represented by their negative.
    """
    lead_m = max(data)
    lead = data[lead_m]
    if lead != 1:
        data = {m: c / lead for m, c in data.items()}
    key = ('poly', frozenset(data.items()))
    b = _INTERN.get(key)
    if b is None:
        s = _full_sign(data)
        if s in ('-', '0-'):
            b = _new_base('poly', 'P%d' % len(BASES), {m: -c for m, c in data.items()}, {'-': '+', '0-': '0+'}[s])
            b.flipped = True
        else:
            b = _new_base('poly', 'P%d' % len(BASES), data, s)
            b.flipped = False
        _INTERN[key] = b
    return (-lead if b.flipped else lead), b


def _sum_terms(terms):
    """terms: list of (coef, mono) -> Sym"""
    d = {}
    if PRIMES:
        terms = [_fold_primes(c, m) for c, m in terms]
    for c, m in terms:
        if c:
            x = d.get(m, ZERO) + c
            if x:
                d[m] = x
            else:
                del d[m]
    if not d:
        return S_ZERO
    if len(d) == 1:
        (m, c), = d.items()
        return Sym(c, m)
    # common factor (minimal exponent of every base over all terms; negative exponents = common denominator)
    common = None
    for m in d:
        if common is None:
            common = dict(m)
        else:
            dm = dict(m)
            for b in list(common):
                e = dm.get(b, 0)
                if e < common[b]:
                    common[b] = e
            for b, e in m:
                if b not in common and e < 0:
                    common[b] = e
    # bases missing in an earlier term have exponent 0 there
    for b in list(common):
        e = common[b]
        if e > 0:
            for m in d:
                if b not in dict(m):
                    e = 0
                    break
        if e == 0:
            del common[b]
        else:
            common[b] = e
    g = tuple(sorted(common.items()))
    inv = _mono_pow(g, -1)
    p = {}
    for m, c in d.items():
        r = _mono_mul(m, inv)
        for k, c2 in _expand(r).items():
            x = p.get(k, ZERO) + c * c2
            if x:
                p[k] = x
            else:
                p.pop(k, None)
        if len(p) > MAX_TERMS:
            ENGINE_ERRORS.append('polynomial too large')
            raise TooLarge('sum of more than {} terms'.format(MAX_TERMS))
    if not p:
        return S_ZERO
    if len(p) == 1:
        (m, c), = p.items()
        return Sym(c, _mono_mul(g, m))
    # monomial content
    cont = None
    for m in p:
        if cont is None:
            cont = dict(m)
        else:
            dm = dict(m)
            for b in list(cont):
                e = dm.get(b, 0)
                if e <= 0:
                    if e < 0 and e < cont[b]:
                        cont[b] = e
                    elif e == 0 and cont[b] > 0:
                        del cont[b]
                elif e < cont[b]:
                    cont[b] = e
        if not cont:
            break
    cont = {b: e for b, e in (cont or {}).items() if e > 0 and all(dict(m).get(b, 0) >= e for m in p)}
    if cont:
        ct = tuple(sorted(cont.items()))
        ci = _mono_pow(ct, -1)
        p = {_mono_mul(m, ci): c for m, c in p.items()}
        g = _mono_mul(g, ct)
    lead, b = _poly_node(p)
    return Sym(lead, _mono_mul(g, ((b.id, 1),)))


# --------------------------------------------------------------------------------------------------------------------
# lifting of Python numbers
# --------------------------------------------------------------------------------------------------------------------
_PI_CACHE = {}


def lift_float(f):
    f = float(f)
    if f != f:
        return S_NAN
    if f == math.inf:
        return S_INF
    if f == -math.inf:
        return S_NINF
    if abs(f) < TINY:
        return S_ZERO
    if f == int(f) and abs(f) < 1e15:
        return Sym(Fraction(int(f)), ())
    r = Fraction(f).limit_denominator(1000000)
    if r != 0 and abs(float(r) - f) <= 4e-16 * abs(f):
        return Sym(r, ())
    q = Fraction(f / math.pi).limit_denominator(512)
    if q != 0 and abs(float(q) * math.pi - f) <= 4e-16 * abs(f):
        return Sym(q, ((_pi().id, 1),))
    q = Fraction(f / math.pi ** 2).limit_denominator(64)
    if q != 0 and abs(float(q) * math.pi ** 2 - f) <= 4e-16 * abs(f):
        return Sym(q, ((_pi().id, 2),))
    for k in (2, 3, 5, 10):
        q = Fraction(f / math.log(k)).limit_denominator(64)
        if q != 0 and abs(float(q) * math.log(k) - f) <= 4e-16 * abs(f):
            return _log_const(Fraction(k)) * Sym(q, ())
    # a square root of a simple rational (e.g. sqrt(2), 1/sqrt(2))
    q = Fraction(f * f).limit_denominator(64)
    if q != 0 and abs(math.sqrt(q) - abs(f)) <= 4e-16 * abs(f):
        s = Sym(q, ()).sqrt()
        return s if f > 0 else -s
    return Sym(Fraction(f), ())


def lift(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return Sym(ONE if bool(x) else ZERO, ())
    if isinstance(x, bool):
        return Sym(Fraction(int(x)), ())
    if isinstance(x, Fraction):
        return Sym(x, ())
    if isinstance(x, numbers.Integral):
        return Sym(Fraction(int(x)), ())
    if isinstance(x, numbers.Real):
        return lift_float(float(x))
    if hasattr(x, 'dtype') and getattr(x, 'ndim', None) == 0:
        return lift(x.item())
    if hasattr(x, 'dtype') and getattr(x, 'size', None) == 1:
        return lift(x.reshape(-1)[0])
    unsupported('cannot lift {!r} ({})'.format(x, type(x)))


def _is_scalar(x):
    return isinstance(x, (Sym, SymBool, numbers.Real)) or (hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0)


# --------------------------------------------------------------------------------------------------------------------
# comparisons
# --------------------------------------------------------------------------------------------------------------------
DECIDER = [None]   # set by engine.path: callable(SymBool) -> bool


class SymBool(object):
    """Comparison of a symbolic value with zero: op in ('>', '>=', '==')  and its negation."""
    __slots__ = ('d', 'op', 'neg')

    def __init__(self, d, op, neg=False):
        self.d, self.op, self.neg = d, op, neg

    def __bool__(self):
        if DECIDER[0] is None:
            unsupported('symbolic branch outside of an exploration')
        return DECIDER[0](self)

    def __invert__(self):
        return SymBool(self.d, self.op, not self.neg)

    def __and__(self, other):
        return bool(self) and bool(other)
    __rand__ = __and__

    def __or__(self, other):
        return bool(self) or bool(other)
    __ror__ = __or__

    def __mul__(self, other):
        return lift(bool(self)) * other
    __rmul__ = __mul__

    def __add__(self, other):
        return lift(bool(self)) + other
    __radd__ = __add__

    def __eq__(self, other):
        return bool(self) == bool(other)

    def __hash__(self):
        return hash((self.d, self.op, self.neg))

    def any(self, *a, **k):
        return bool(self)
    all = any

    def __repr__(self):
        return '{}({} {} 0)'.format('not ' if self.neg else '', self.d, self.op)


def _log_reduce(d):
    """
    If d is a pure combination of logarithms, sum_i q_i*LOG(b_i) with rational q_i, return P with sign(d) =
    sign(P - 1); otherwise None.
    """
    if not any(BASES[b].kind in ('log', 'poly') for b, _ in d.m):
        return None
    terms = additive_terms(d)
    if terms is None:
        return None
    mono = ()
    coef = ONE
    den = 1
    for c, m in terms:
        if len(m) != 1 or m[0][1] != 1 or BASES[m[0][0]].kind != 'log':
            return None
        den = den * c.denominator // math.gcd(den, c.denominator)
    tot = 0
    for c, m in terms:
        q = int(c * den)
        tot += abs(q)
        if tot > 64:
            return None
        data = BASES[m[0][0]].data
        if isinstance(data, Fraction):
            coef *= data ** q
        else:
            mono = _mono_mul(mono, ((data, q),))
    return Sym(coef, mono)


def compare(a, b, op):
    """op in '>', '>=', '==' ; returns bool or SymBool"""
    a, b = lift(a), lift(b)
    if a.special or b.special:
        if a.special == 'nan' or b.special == 'nan':
            return False
        ra = {'inf': 1, '-inf': -1, None: 0}[a.special]
        rb = {'inf': 1, '-inf': -1, None: 0}[b.special]
        return {'>': ra > rb, '>=': ra >= rb, '==': ra == rb}[op]
    d = a - b
    if not d.m:
        return {'>': d.c > 0, '>=': d.c >= 0, '==': d.c == 0}[op]
    r = _log_reduce(d)
    if r is not None:
        d = r - S_ONE
        if not d.m:
            return {'>': d.c > 0, '>=': d.c >= 0, '==': d.c == 0}[op]
    s = d.sign()
    if s is None:
        # constants (e.g. exp(1/2) + 3): decided numerically unless they (nearly) agree
        va, vb = const_value(a), const_value(b)
        if va is not None and vb is not None and abs(va - vb) > 1e-9 * max(1., abs(va), abs(vb)):
            return va > vb if op != '==' else False
    if s == '+':
        return op != '=='
    if s == '-':
        return False
    if s == '0+' and op == '>=':
        return True
    if s == '0-' and op == '>':
        return False
    return SymBool(d, op)


def _neg(x):
    return (not x) if isinstance(x, bool) else ~x


# --------------------------------------------------------------------------------------------------------------------
# the number type
# --------------------------------------------------------------------------------------------------------------------
class Sym(object):
    __slots__ = ('c', 'm', 'special')
    __array_priority__ = 1000

    def __init__(self, c, m, special=None):
        if PRIMES:
            c, m = _fold_primes(c, m)
        self.c, self.m, self.special = c, m, special

    # -- basic protocol
    def __hash__(self):
        return hash((self.c, self.m, self.special))

    def same(self, other):
        return self.c == other.c and self.m == other.m and self.special == other.special

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (self.c, self.m, self.special))

    @property
    def is_const(self):
        return self.special is None and not self.m

    def sign(self):
        if self.special:
            return {'inf': '+', '-inf': '-'}.get(self.special)
        if self.c == 0:
            return '0'
        s = _mono_sign(self.m)
        if s is None:
            return None
        if self.c < 0:
            s = {'+': '-', '0+': '0-', '-': '+', '0-': '0+'}[s]
        return s

    def __repr__(self):
        if self.special:
            return self.special
        if not self.m:
            return str(self.c)
        return '*'.join([str(self.c)] + ['{}^{}'.format(BASES[b].name, e) if e != 1 else BASES[b].name
                                         for b, e in self.m])

    def __format__(self, spec):
        return str(self)

    # -- conversions
    def __float__(self):
        if self.special:
            return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[self.special]
        if not self.m:
            return float(self.c)
        v = const_value(self)
        if v is not None:
            return v
        unsupported('float() of a symbolic value: {}'.format(str(self)[:80]))

    def __int__(self):
        if self.special:
            raise ValueError('cannot convert {} to integer'.format(self.special))
        if not self.m:
            return int(self.c)
        v = const_value(self)
        if v is not None and abs(v - round(v)) > 1e-9:
            return int(v)
        unsupported('int() of a symbolic value')
    __trunc__ = __int__

    def __index__(self):
        if self.is_const and self.c.denominator == 1:
            return int(self.c)
        if self.is_const:
            raise TypeError('non-integer number used as an index')
        unsupported('symbolic index')

    def __round__(self, n=None):
        return self.round(n or 0)

    def round(self, decimals=0, out=None):
        if self.special:
            return self
        if self.is_const:
            s = Fraction(10) ** decimals
            v = Fraction(round(self.c * s)) / s
            return Sym(v, ())
        if decimals >= 6:
            return self          # rounding beyond the precision of the claim
        unsupported('round of a symbolic value')

    def __floor__(self):
        if self.is_const:
            return Sym(Fraction(math.floor(self.c)), ())
        unsupported('floor of a symbolic value')

    def __ceil__(self):
        if self.is_const:
            return Sym(Fraction(math.ceil(self.c)), ())
        unsupported('ceil of a symbolic value')
    floor, ceil = __floor__, __ceil__

    def rint(self):
        return self.round(0)

    def __bool__(self):
        if self.special:
            return True
        if not self.m:
            return self.c != 0
        return bool(_neg(compare(self, S_ZERO, '==')))

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self, *a, **k):
        return self

    def conjugate(self):
        return self

    def astype(self, t, *a, **k):
        return self

    def sum(self, *a, **k):
        return self

    def prod(self, *a, **k):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return S_ZERO

    @property
    def T(self):
        return self

    # -- comparisons
    def __lt__(self, o):
        return compare(o, self, '>') if _is_scalar(o) else NotImplemented

    def __gt__(self, o):
        return compare(self, o, '>') if _is_scalar(o) else NotImplemented

    def __le__(self, o):
        return compare(o, self, '>=') if _is_scalar(o) else NotImplemented

    def __ge__(self, o):
        return compare(self, o, '>=') if _is_scalar(o) else NotImplemented

    def __eq__(self, o):
        if isinstance(o, (str, type(None))):
            return False
        return compare(self, o, '==') if _is_scalar(o) else NotImplemented

    def __ne__(self, o):
        if isinstance(o, (str, type(None))):
            return True
        return _neg(compare(self, o, '==')) if _is_scalar(o) else NotImplemented

    # -- arithmetic
    def __neg__(self):
        if self.special:
            return {'inf': S_NINF, '-inf': S_INF, 'nan': S_NAN}[self.special]
        return Sym(-self.c, self.m)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.special:
            return S_NAN if self.special == 'nan' else S_INF
        s = self.sign()
        if s in ('+', '0+', '0'):
            return self
        if s in ('-', '0-'):
            return -self
        a = Sym(abs(self.c), self.m)           # |x| and |-x| take the same branch
        return a if bool(compare(a, S_ZERO, '>=')) else -a
    fabs = absolute = __abs__

    def __add__(self, o):
        if not _is_scalar(o):
            return NotImplemented
        o = lift(o)
        if self.special or o.special:
            if 'nan' in (self.special, o.special):
                return S_NAN
            if self.special and o.special:
                return self if self.special == o.special else S_NAN
            return self if self.special else o
        if self.c == 0:
            return o
        if o.c == 0:
            return self
        if not self.m and not o.m:
            return Sym(self.c + o.c, ())
        return _sum_terms([(self.c, self.m), (o.c, o.m)])
    __radd__ = __add__

    def __sub__(self, o):
        if not _is_scalar(o):
            return NotImplemented
        return self + (-lift(o))

    def __rsub__(self, o):
        if not _is_scalar(o):
            return NotImplemented
        return lift(o) + (-self)

    def __mul__(self, o):
        if not _is_scalar(o):
            return NotImplemented
        o = lift(o)
        if self.special or o.special:
            if 'nan' in (self.special, o.special):
                return S_NAN
            sa, sb = _decide_sign(self), _decide_sign(o)
            if sa == 0 or sb == 0:
                return S_NAN
            return S_INF if sa * sb > 0 else S_NINF
        if self.c == 0 or o.c == 0:
            return S_ZERO
        return Sym(self.c * o.c, _mono_mul(self.m, o.m))
    __rmul__ = __mul__

    def _inverse(self):
        """1/self for a finite value that is known to be non-zero on this path"""
        return Sym(1 / self.c, _mono_pow(self.m, -1))

    def __truediv__(self, o):
        if not _is_scalar(o):
            return NotImplemented
        o = lift(o)
        if self.special == 'nan' or o.special == 'nan':
            return S_NAN
        if o.special:
            return S_NAN if self.special else S_ZERO
        if is_zero(o):
            s = _decide_sign(self)
            return S_NAN if s == 0 else (S_INF if s > 0 else S_NINF)
        if self.special:
            return self if _decide_sign(o) > 0 else -self
        if self.c == 0:
            return S_ZERO
        return Sym(self.c / o.c, _mono_mul(self.m, _mono_pow(o.m, -1)))

    def __rtruediv__(self, o):
        if not _is_scalar(o):
            return NotImplemented
        return lift(o) / self

    def __floordiv__(self, o):
        q = self / o
        return q.__floor__() if q.special is None else q

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        if self.is_const and o.is_const:
            return Sym(self.c % o.c, ())
        unsupported('modulo of symbolic values')

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o, mod=None):
        if not _is_scalar(o):
            return NotImplemented
        o = lift(o)
        if o.special or self.special:
            if o.special == 'nan' or self.special == 'nan':
                return S_NAN
            if self.special and o.is_const:
                if o.c == 0:
                    return S_ONE
                if o.c < 0:
                    return S_ZERO
                return S_INF if self.special == 'inf' or (o.c.denominator == 1 and o.c % 2 == 0) else self
            unsupported('power with infinite operand')
        if not o.is_const:
            if self.is_const and self.c > 0:
                return (o * self.log()).exp()
            return (o * self.log()).exp()
        e = o.c
        if e == 0:
            return S_ONE
        if e == 1:
            return self
        if self.c == 0:
            return S_ZERO if e > 0 else S_INF
        if e.denominator == 1:
            e = int(e)
            if abs(e) > 400:
                unsupported('huge exponent')
            if e < 0 and is_zero(self):
                return S_INF
            return Sym(self.c ** e, _mono_pow(self.m, e))
        # fractional power: base has to be non-negative
        s = self.sign()
        if s in ('-',):
            return S_NAN
        if s not in ('+', '0+'):
            if not bool(compare(self, S_ZERO, '>=')):
                return S_NAN
        if e < 0 and is_zero(self):
            return S_INF
        return Sym(ONE, _const_frac_pow(abs(self.c), e)) * _frac_pow_mono(self, e)

    def __rpow__(self, o):
        if not _is_scalar(o):
            return NotImplemented
        return lift(o) ** self

    def sqrt(self):
        return self ** Fraction(1, 2)

    def square(self):
        return self * self

    def reciprocal(self):
        return S_ONE / self

    # -- transcendental functions
    def log(self):
        if self.special:
            return self if self.special == 'inf' else S_NAN
        if self.c == 0:
            return S_NINF
        s = self.sign()
        if s is None or s[0] == '0' or s[-1] == '-':
            if s in ('-', '0-') and s == '-':
                return S_NAN
            if not bool(compare(self, S_ZERO, '>')):
                return S_NINF if is_zero(self) else S_NAN
        m = self.m
        # all bases have to be positive on their own, otherwise use one atom for the whole product
        if all(BASES[b].sign == '+' for b, _ in m) and self.c > 0:
            r = _log_const(self.c)
            terms = list(additive_terms(r))
            for b, e in m:
                terms.extend(_log_base(b, e))
            return _sum_terms(terms)
        pos, rest = [], []
        for b, e in m:
            (pos if BASES[b].sign == '+' else rest).append((b, e))
        r = Sym(ONE if self.c > 0 else -ONE, tuple(rest))
        num = tuple((b, e) for b, e in r.m)
        if len(num) == 1 and r.c > 0 and (num[0][1] == 1 or num[0][1] == -1 or num[0][1] % 2 == 1):
            terms = _log_base(num[0][0], num[0][1])
        elif len(num) == 1 and r.c > 0 and isinstance(num[0][1], int):
            # even power of a base of unknown sign: 2k*LOG|b|
            b = num[0][0]
            if bool(compare(Sym(ONE, ((b, 1),)), S_ZERO, '>')):
                terms = _log_base(b, num[0][1])
            else:
                nb = -Sym(ONE, ((b, 1),))
                a = _atom('log', ('neg', b), 'LOG(-{})'.format(BASES[b].name), None, None)
                a.data = _neg_node(b)
                terms = [(Fraction(num[0][1]), ((a.id, 1),))]
        else:
            # product of bases with (path dependent) signs: split with absolute values
            terms = []
            for b, e in num:
                if bool(compare(Sym(ONE, ((b, 1),)), S_ZERO, '>')):
                    terms.extend(_log_base(b, e))
                else:
                    a = _atom('log', ('neg', b), 'LOG(-{})'.format(BASES[b].name), None, None)
                    a.data = _neg_node(b)
                    terms.append((Fraction(e), ((a.id, 1),)))
        terms = list(terms) + list(additive_terms(_log_const(abs(self.c))))
        for b, e in pos:
            terms.extend(_log_base(b, e))
        return _sum_terms(terms)

    def exp(self):
        if self.special:
            return {'inf': S_INF, '-inf': S_ZERO, 'nan': S_NAN}[self.special]
        if self.c == 0:
            return S_ONE
        coef, mono = ONE, ()
        for c, m in _collect_logs(additive_terms(self)):
            if len(m) == 1 and m[0][1] == 1 and BASES[m[0][0]].kind == 'log':
                data = BASES[m[0][0]].data
                if isinstance(data, Fraction):
                    if c.denominator == 1 and abs(c) < 4000:
                        coef *= data ** int(c)
                    else:
                        n = math.floor(c)
                        if abs(n) < 4000:
                            coef *= data ** n
                            c = c - n
                        mono = _mono_mul(mono, _const_frac_pow(data, c))
                else:
                    mono = _mono_mul(mono, ((data, _int_exp(c)),))
            else:
                a = _atom('exp', m, 'EXP({})'.format(Sym(ONE, m)), m, '+')
                mono = _mono_mul(mono, ((a.id, _int_exp(c)),))
        return Sym(coef, mono)

    def log2(self):
        return self.log() / _log_const(Fraction(2))

    def log10(self):
        return self.log() / _log_const(Fraction(10))

    def log1p(self):
        return (self + 1).log()

    def expm1(self):
        return self.exp() - 1

    def exp2(self):
        return S_ONE * 2 ** self

    def logaddexp(self, o):
        return symlogsumexp([self, lift(o)])

    # integer special function used by the Poisson model
    def factorial(self):
        if self.is_const and self.c.denominator == 1 and self.c >= 0:
            return Sym(Fraction(math.factorial(int(self.c))), ())
        unsupported('factorial of a symbolic value')


def _collect_logs(terms):
    """cancel common denominators in the cofactors of logarithms, e.g. log(2)/(1-r^2) - r^2*log(2)/(1-r^2) = log(2)"""
    groups, rest, fractions = {}, [], False
    for c, m in terms:
        logs = [b for b, e in m if BASES[b].kind == 'log']
        if len(logs) == 1 and (logs[0], 1) in m:
            k = tuple(x for x in m if x[0] != logs[0])
            fractions = fractions or any(BASES[b].kind == 'poly' for b, _ in k)
            groups.setdefault(logs[0], []).append((c, k))
        else:
            rest.append((c, m))
    if not fractions:
        return terms
    for b, t in groups.items():
        s = _sum_terms(t)
        if s.c != 0:
            rest += [(c, _mono_mul(m, ((b, 1),))) for c, m in additive_terms(s)]
    return rest


def _unpickle(c, m, special):
    return Sym(c, m, special)


S_ZERO = Sym(ZERO, ())
S_ONE = Sym(ONE, ())
S_INF = Sym(ZERO, (), 'inf')
S_NINF = Sym(ZERO, (), '-inf')
S_NAN = Sym(ZERO, (), 'nan')


def is_zero(x):
    """Decides (forking if necessary) whether a finite value is zero."""
    if x.special:
        return False
    if x.c == 0:
        return True
    if x.sign() in ('+', '-'):
        return False
    return bool(compare(x, S_ZERO, '=='))


def _decide_sign(x):
    if x.special:
        return {'inf': 1, '-inf': -1}[x.special]
    s = x.sign()
    if s == '0':
        return 0
    if s in ('+', '-'):
        return 1 if s == '+' else -1
    if is_zero(x):
        return 0
    if s in ('0+', '0-'):
        return 1 if s == '0+' else -1
    return 1 if bool(compare(x, S_ZERO, '>')) else -1


def _neg_node(b):
    """id of a base that equals -1 * base b (as a polynomial node over itself)"""
    key = ('negnode', b)
    x = _INTERN.get(key)
    if x is None:
        x = _new_base('neg', '(-{})'.format(BASES[b].name), b, '+')
        _INTERN[key] = x
    return x.id


def _factor_int(n):
    out = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _log_const(c):
    terms = []
    for p, e in _factor_int(c.numerator).items():
        a = _atom('log', ('c', p), 'LOG(%d)' % p, Fraction(p), '+')
        terms.append((Fraction(e), ((a.id, 1),)))
    for p, e in _factor_int(c.denominator).items():
        a = _atom('log', ('c', p), 'LOG(%d)' % p, Fraction(p), '+')
        terms.append((Fraction(-e), ((a.id, 1),)))
    return _sum_terms(terms)


def _log_base(b, e):
    base = BASES[b]
    if base.kind == 'exp':
        return [(Fraction(e), base.data)]
    if base.kind == 'prime':
        return [(Fraction(e) * c, m) for c, m in additive_terms(_log_const(base.data))]
    a = _atom('log', ('b', b), 'LOG({})'.format(base.name), b, None)
    return [(Fraction(e), ((a.id, 1),))]


def _const_frac_pow(c, e):
    """monomial for c**e, c positive rational, e fractional"""
    mono = ()
    for sgn, n in ((1, c.numerator), (-1, c.denominator)):
        for p, k in _factor_int(n).items():
            x = e * k * sgn
            a = _atom('prime', p, str(p), Fraction(p), '+')
            PRIMES.add(a.id)
            mono = _mono_mul(mono, ((a.id, _int_exp(x)),))
    return mono


def _frac_pow_mono(s, e):
    m = tuple((b, _int_exp(x * e)) for b, x in s.m)
    # even integer powers of bases without definite sign: (b^2)^(1/2) = |b|
    out = ()
    coef = ONE
    for (b, x), (_, y) in zip(s.m, m):
        if isinstance(x, int) and x % 2 == 0 and BASES[b].sign not in ('+', '0+'):
            a = abs(Sym(ONE, ((b, 1),)))
            if a.c < 0 and y % 2 != 0:
                unsupported('root of a negative factor')
            out = _mono_mul(out, _mono_pow(a.m, y))
        elif BASES[b].sign not in ('+', '0+') and not bool(compare(Sym(ONE, ((b, 1),)), S_ZERO, '>=')):
            unsupported('root of a negative factor')
        else:
            out = _mono_mul(out, ((b, y),))
    return Sym(coef, out)


def additive_terms(v):
    """List of (coef, mono) whose sum is v, with polynomial bases of positive exponent expanded."""
    if v.c == 0:
        return []
    return [(v.c * c, m) for m, c in _expand(v.m).items()]


def symsum(values):
    values = [lift(v) for v in values]
    if any(v.special for v in values):
        r = S_ZERO
        for v in values:
            r = r + v
        return r
    return _sum_terms([(v.c, v.m) for v in values])


def symlogsumexp(values):
    values = [lift(v) for v in values]
    if any(v.special == 'nan' for v in values):
        return S_NAN
    if any(v.special == 'inf' for v in values):
        return S_INF
    values = [v for v in values if v.special != '-inf']
    if not values:
        return S_NINF
    return symsum([v.exp() for v in values]).log()


FORK_MAX = [False]


def symmax(values):
    """Maximum as an atom M with  M >= every value  and  M == one of the values  (no fork)."""
    values = [lift(v) for v in values]
    if any(v.special == 'nan' for v in values):
        return S_NAN
    if any(v.special == 'inf' for v in values):
        return S_INF
    fin = [v for v in values if v.special is None]
    if not fin:
        return S_NINF
    uniq = list(dict.fromkeys((v.c, v.m) for v in fin))
    if len(uniq) == 1:
        return fin[0]
    consts = [c for c, m in uniq if not m]
    if len(consts) == len(uniq):
        return Sym(max(consts), ())
    # logarithms: the maximum of logs is the log of the maximum
    if all(_is_loglike(v) for v in fin):
        return symmax([v.exp() for v in fin]).log()
    # drop dominated constants
    if len(consts) > 1:
        mx = max(consts)
        uniq = [(c, m) for c, m in uniq if m] + [(mx, ())]
    if FORK_MAX[0]:
        best = Sym(*uniq[0])
        for c, m in uniq[1:]:
            v = Sym(c, m)
            if compare(v, best, '>'):
                best = v
        return best
    signs = [Sym(c, m).sign() for c, m in uniq]
    sign = '+' if '+' in signs else ('0+' if '0+' in signs or '0' in signs else None)
    key = frozenset(uniq)
    b = _INTERN.get(('max', key))
    if b is None:
        b = _new_base('max', 'MAX%d' % len(BASES), tuple(Sym(c, m) for c, m in uniq), sign)
        _INTERN[('max', key)] = b
    return Sym(ONE, ((b.id, 1),))


def symmin(values):
    return -symmax([-lift(v) for v in values])


def _is_loglike(v):
    if v.c == 0:
        return True
    for c, m in additive_terms(v):
        if len(m) != 1 or m[0][1] != 1 or BASES[m[0][0]].kind != 'log':
            return False
    return True


# --------------------------------------------------------------------------------------------------------------------
# numerical evaluation
# --------------------------------------------------------------------------------------------------------------------
def const_value(s):
    """float value if the expression contains no input variable"""
    try:
        return evaluate(s, {})
    except KeyError:
        return None


def evaluate(s, env, cache=None):
    """env: variable name -> float"""
    if s.special:
        return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[s.special]
    if cache is None:
        cache = {}
    r = _to_float(s.c)
    acc = 0.
    for b, e in s.m:
        if BASES[b].kind == 'exp':
            acc += float(e) * evaluate(Sym(ONE, BASES[b].data), env, cache)
            continue
        v = eval_base(b, env, cache)
        try:
            r *= v ** (e if isinstance(e, int) else float(e))
        except ZeroDivisionError:
            r = math.nan if r == 0 else math.inf
        except OverflowError:
            r = math.inf
        if isinstance(r, complex):
            return math.nan
    if acc:
        try:
            r *= math.exp(acc)
        except OverflowError:
            r = math.nan if r == 0 else math.copysign(math.inf, r)
    return r


def _to_float(c):
    try:
        return float(c)
    except OverflowError:
        return math.inf if c > 0 else -math.inf


def eval_base(b, env, cache):
    if b in cache:
        return cache[b]
    x = BASES[b]
    if x.kind == 'var':
        v = float(env[x.name])
    elif x.kind == 'pi':
        v = math.pi
    elif x.kind == 'prime':
        v = float(x.data)
    elif x.kind == 'neg':
        v = -eval_base(x.data, env, cache)
    elif x.kind == 'log':
        a = float(x.data) if isinstance(x.data, Fraction) else eval_base(x.data, env, cache)
        v = math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)
    elif x.kind == 'exp':
        a = evaluate(Sym(ONE, x.data), env, cache)
        try:
            v = math.exp(a)
        except OverflowError:
            v = math.inf
    elif x.kind == 'max':
        v = max(evaluate(y, env, cache) for y in x.data)
    elif x.kind == 'poly':
        v = math.fsum(evaluate(Sym(c, m), env, cache) for m, c in x.data.items())
    else:
        raise KeyError(x.kind)
    cache[b] = v
    return v


def variables_of(syms):
    """names of all input variables an iterable of Syms depends on"""
    seen, out = set(), set()
    stack = [b for s in syms for b, _ in s.m]
    while stack:
        b = stack.pop()
        if b in seen:
            continue
        seen.add(b)
        x = BASES[b]
        if x.kind == 'var':
            out.add(x.name)
        elif x.kind == 'neg':
            stack.append(x.data)
        elif x.kind == 'log' and not isinstance(x.data, Fraction):
            stack.append(x.data)
        elif x.kind == 'exp':
            stack.extend(k for k, _ in x.data)
        elif x.kind == 'max':
            stack.extend(k for s in x.data for k, _ in s.m)
        elif x.kind == 'poly':
            for m in x.data:
                stack.extend(k for k, _ in m)
    return out

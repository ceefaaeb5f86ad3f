"""
Symbolic NumPy/SciPy layer.

The package under test is loaded from /repo's current source with its own ``__import__``: NumPy, SciPy, math, tqdm,
matplotlib and pathos are seen through proxies whose functions work on ``SymArray`` (object arrays of exact symbolic
reals).  Nothing in the source of the package is rewritten; its functions are executed by the Python interpreter on
symbolic values.
"""
import builtins
import importlib
import importlib.abc
import importlib.util
import itertools
import math
import os
import sys
import types
from copy import deepcopy
from fractions import Fraction

import numpy as rnp

from . import sym
from .sym import Sym, SymBool, lift, symsum, symmax, symmin, unsupported, EngineError

# --------------------------------------------------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------------------------------------------------
_F64 = rnp.dtype(float)
UNINIT = [0]


class _ArrayMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymArray:
            return isinstance(x, rnp.ndarray)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, x):
        if cls is SymArray:
            return issubclass(x, rnp.ndarray)
        return type.__subclasscheck__(cls, x)


def is_symarray(x):
    return SymArray in type(x).__mro__


def _lift_el(x):
    if type(x) is Sym:
        return x
    return lift(x)


def _obj(a):
    """plain object ndarray of Syms"""
    if type(a) is Sym:
        r = rnp.empty((), dtype=object)
        r[()] = a
        return r
    if is_symarray(a):
        return a.view(rnp.ndarray)
    if not isinstance(a, rnp.ndarray):
        if sym._is_scalar(a):
            r = rnp.empty((), dtype=object)
            r[()] = lift(a)
            return r
        a = _to_object_array(a)
    if a.dtype.kind in 'biufO':
        r = rnp.empty(a.shape, dtype=object)
        flat = [_lift_el(v) for v in a.ravel().tolist()] if a.dtype.kind != 'f' else \
            [sym.lift_float(v) for v in a.ravel().tolist()]
        rf = rnp.empty(len(flat), dtype=object)
        for i, v in enumerate(flat):
            rf[i] = v
        return rf.reshape(a.shape)
    unsupported('array of dtype {}'.format(a.dtype))


def _to_object_array(x):
    a = rnp.array(x, dtype=object)
    return a


def wrap(a, like=None):
    """object ndarray -> SymArray (subclass attributes taken from ``like``)"""
    cls = type(like) if like is not None else SymArray
    r = a.view(cls)
    if like is not None and cls is not SymArray:
        fin = getattr(cls, '__array_finalize__', None)
        if fin is not None:
            r.__array_finalize__(like)
    return r


def symarray(x):
    return wrap(_obj(x))


def _template(inputs):
    for x in inputs:
        if is_symarray(x) and type(x) is not SymArray:
            return x
    return None


def _elementwise(f, *arrs):
    arrs = rnp.broadcast_arrays(*arrs)
    out = rnp.empty(arrs[0].shape, dtype=object)
    its = [a.ravel() for a in arrs]
    o = rnp.empty(out.size, dtype=object)
    for i in range(out.size):
        o[i] = f(*[a[i] for a in its])
    return o.reshape(out.shape)


def _bool_array(a):
    a = rnp.asarray(a, dtype=object)
    out = rnp.empty(a.size, dtype=bool)
    for i, v in enumerate(a.ravel()):
        out[i] = bool(v)
    return out.reshape(a.shape)


def _sign(s):
    d = sym._decide_sign(s)
    return Sym(Fraction(d), ())


def _maximum(a, b):
    if a.special == 'nan' or b.special == 'nan':
        return sym.S_NAN
    if a.same(b):
        return a
    return a if bool(sym.compare(a, b, '>=')) else b


def _minimum(a, b):
    if a.special == 'nan' or b.special == 'nan':
        return sym.S_NAN
    if a.same(b):
        return a
    return b if bool(sym.compare(a, b, '>=')) else a


def _fmod(a, b):
    return a % b


def _arctrig(fn):
    def f(s):
        if s.is_const or sym.const_value(s) is not None:
            return sym.lift_float(fn(float(s)))
        if s.special:
            return sym.lift_float(fn(float(s)))
        unsupported('{} of a symbolic value'.format(fn.__name__))
    return f


def _zero_pow(a, b):
    return a ** b


UNARY = {
    'log': lambda s: s.log(), 'exp': lambda s: s.exp(), 'sqrt': lambda s: s.sqrt(), 'log2': lambda s: s.log2(),
    'log10': lambda s: s.log10(), 'log1p': lambda s: s.log1p(), 'expm1': lambda s: s.expm1(),
    'exp2': lambda s: s.exp2(), 'absolute': abs, 'fabs': abs, 'negative': lambda s: -s, 'positive': lambda s: s,
    'square': lambda s: s * s, 'reciprocal': lambda s: s.reciprocal(), 'sign': _sign, 'rint': lambda s: s.round(0),
    'floor': lambda s: s if s.special else s.__floor__(), 'ceil': lambda s: s if s.special else s.__ceil__(),
    'trunc': lambda s: lift(int(s)), 'conjugate': lambda s: s,
    'sin': _arctrig(math.sin), 'cos': _arctrig(math.cos), 'tan': _arctrig(math.tan), 'tanh': _arctrig(math.tanh),
    'arctan': _arctrig(math.atan), 'sinh': _arctrig(math.sinh), 'cosh': _arctrig(math.cosh),
    'cbrt': lambda s: s ** Fraction(1, 3),
}
BOOL1 = {
    'isnan': lambda s: s.special == 'nan', 'isinf': lambda s: s.special in ('inf', '-inf'),
    'isfinite': lambda s: s.special is None, 'logical_not': lambda s: not bool(s),
    'signbit': lambda s: sym._decide_sign(s) < 0,
}
BINARY = {
    'add': lambda a, b: a + b, 'subtract': lambda a, b: a - b, 'multiply': lambda a, b: a * b,
    'divide': lambda a, b: a / b, 'true_divide': lambda a, b: a / b, 'power': _zero_pow, 'float_power': _zero_pow,
    'floor_divide': lambda a, b: a // b, 'remainder': lambda a, b: a % b, 'fmod': _fmod,
    'maximum': _maximum, 'minimum': _minimum, 'fmax': _maximum, 'fmin': _minimum,
    'logaddexp': lambda a, b: a.logaddexp(b), 'hypot': lambda a, b: (a * a + b * b).sqrt(),
}
BOOL2 = {
    'greater': lambda a, b: a > b, 'less': lambda a, b: a < b, 'greater_equal': lambda a, b: a >= b,
    'less_equal': lambda a, b: a <= b, 'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'logical_and': lambda a, b: bool(a) and bool(b), 'logical_or': lambda a, b: bool(a) or bool(b),
    'logical_xor': lambda a, b: bool(a) != bool(b),
}
SCIPY_SPECIAL_UFUNC = {
    'exp10': lambda s: 10 ** s, 'xlogy': None,
}


def _prod(values):
    r = sym.S_ONE
    for v in values:
        r = r * v
    return r


def _reduce_axis(f, a, axis, keepdims):
    a = rnp.asarray(a, dtype=object)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(int(x) % a.ndim for x in axis)
    else:
        if a.ndim == 0:
            axes = ()
        else:
            ax = int(axis)
            if ax < -a.ndim or ax >= a.ndim:
                raise rnp.AxisError(ax, a.ndim)
            axes = (ax % a.ndim,)
    keep = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(keep + list(axes))
    ks = tuple(a.shape[i] for i in keep)
    n = 1
    for i in axes:
        n *= a.shape[i]
    b = b.reshape((-1, n)) if ks else b.reshape((1, n))
    out = rnp.empty(b.shape[0], dtype=object)
    for i in range(b.shape[0]):
        out[i] = f(list(b[i]))
    if keepdims:
        return out.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    return out.reshape(ks)


REDUCE = {'add': symsum, 'multiply': _prod, 'maximum': symmax, 'minimum': symmin, 'fmax': symmax, 'fmin': symmin,
          'logical_and': lambda v: all(bool(x) for x in v), 'logical_or': lambda v: any(bool(x) for x in v),
          'logaddexp': sym.symlogsumexp}


def _store(out, res):
    """assign result to an existing array"""
    if isinstance(res, rnp.ndarray) and res.ndim == 0:
        res = res[()]
    if is_symarray(out):
        out.view(rnp.ndarray)[...] = res
        return out
    res = rnp.asarray(res, dtype=object)
    if out.dtype == object:
        out[...] = res
        return out
    if out.dtype == bool:
        out[...] = _bool_array(res)
        return out
    # a real float array: only constants can be stored
    out[...] = rnp.vectorize(float, otypes=[float])(res) if res.size else res.astype(float)
    return out


def _ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    if isinstance(out, tuple):
        out = out[0]
    where = kwargs.pop('where', True)
    dtype = kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    kwargs.pop('order', None)
    kwargs.pop('subok', None)
    like = _template(inputs)

    if method == '__call__':
        if ufunc in SPECIAL_UFUNCS:
            return SPECIAL_UFUNCS[ufunc](*inputs)
        if ufunc is rnp.matmul:
            return _wrap_result(_dot(*[_obj(x) for x in inputs]), like, out)
        is_bool = False
        if name in UNARY and len(inputs) == 1:
            f = UNARY[name]
        elif name in BOOL1:
            f, is_bool = BOOL1[name], True
        elif name in BINARY:
            f = BINARY[name]
        elif name in BOOL2:
            f, is_bool = BOOL2[name], True
            if name in ('equal', 'not_equal') and any(isinstance(x, str) or x is None for x in inputs):
                return name == 'not_equal'
        elif name in ('bitwise_and', 'bitwise_or', 'invert', 'bitwise_xor'):
            arrs = [_bool_array(x) if not isinstance(x, (bool, rnp.bool_)) else x for x in inputs]
            return ufunc(*arrs)
        elif name in ('divmod', 'modf', 'frexp'):
            unsupported('ufunc ' + name)
        else:
            # constants only: evaluate numerically
            args = [const_float(x) for x in inputs]
            r = ufunc(*args)
            return _lift_result(r)
        if where is not True:
            base = out if out is not None else None
            arrs = [_obj(x) for x in inputs]
            shp = rnp.broadcast_shapes(*[a.shape for a in arrs], rnp.shape(where))
            arrs = [rnp.broadcast_to(a, shp).ravel() for a in arrs]
            w = rnp.broadcast_to(_bool_array(where), shp).ravel()
            res = rnp.empty(len(w), dtype=object)
            old = rnp.broadcast_to(_obj(base), shp).ravel() if base is not None else None
            for i in range(len(w)):
                if w[i]:
                    res[i] = f(*[a[i] for a in arrs])
                else:
                    res[i] = old[i] if old is not None else uninit()
            res = res.reshape(shp)
        else:
            try:
                arrs = [_obj(x) for x in inputs]
            except EngineError:
                if sym.ENGINE_ERRORS:
                    sym.ENGINE_ERRORS.pop()
                return NotImplemented
            res = _elementwise(f, *arrs)
        if is_bool:
            res = _bool_array(res)
            if out is not None:
                return _store(out, res)
            return res if res.ndim else bool(res)
        return _wrap_result(res, like, out)

    if method == 'reduce':
        a = _obj(inputs[0])
        axis = kwargs.get('axis', 0)
        if len(inputs) > 1:
            axis = inputs[1]
        keepdims = kwargs.get('keepdims', False)
        initial = kwargs.get('initial', rnp._NoValue)
        if name not in REDUCE:
            unsupported('reduction ' + name)
        if a.size == 0 and name in ('maximum', 'minimum', 'fmax', 'fmin') and initial is rnp._NoValue:
            raise ValueError('zero-size array to reduction operation {} which has no identity'.format(name))
        f = REDUCE[name]
        if where is not True:
            w = rnp.broadcast_to(_bool_array(where), a.shape)
            ident = {'add': sym.S_ZERO, 'multiply': sym.S_ONE}.get(name)
            if ident is None:
                unsupported('masked reduction ' + name)
            a = a.copy()
            a[~w] = ident
        if initial is not rnp._NoValue and initial is not None:
            ini = lift(initial)
            g = f
            f = lambda v: g(v + [ini])
        res = _reduce_axis(f, a, axis, keepdims)
        if name in ('logical_and', 'logical_or'):
            res = res.astype(bool)
            return res if res.ndim else bool(res)
        return _wrap_result(res, like, out)

    if method == 'accumulate':
        a = _obj(inputs[0])
        axis = kwargs.get('axis', 0)
        a = rnp.moveaxis(a, axis, 0).copy()
        f = BINARY[name]
        for i in range(1, a.shape[0]):
            a[i] = _elementwise(f, rnp.asarray(a[i - 1], dtype=object), rnp.asarray(a[i], dtype=object))
        return _wrap_result(rnp.moveaxis(a, 0, axis), like, out)

    if method == 'outer':
        a, b = _obj(inputs[0]), _obj(inputs[1])
        res = _elementwise(BINARY[name], a.reshape(a.shape + (1,) * b.ndim), b)
        return _wrap_result(res, like, out)

    if method == 'at':
        a, idx = inputs[0], inputs[1]
        b = rnp.broadcast_to(_obj(inputs[2]), rnp.shape(a[idx])).ravel() if len(inputs) > 2 else None
        ii = rnp.arange(a.size).reshape(a.shape)[idx].ravel()
        flat = a.view(rnp.ndarray).reshape(-1)
        for k, i in enumerate(ii):
            flat[i] = BINARY[name](lift(flat[i]), b[k]) if b is not None else UNARY[name](lift(flat[i]))
        if not rnp.shares_memory(flat, a.view(rnp.ndarray)):
            a.view(rnp.ndarray)[...] = flat.reshape(a.shape)
        return None
    unsupported('ufunc method ' + method)


def _wrap_result(res, like, out):
    if out is not None:
        return _store(out, res)
    if not isinstance(res, rnp.ndarray):
        return res
    if res.ndim == 0:
        return res[()] if like is None else wrap(res, like)
    return wrap(res, like)


def _dot(a, b):
    """matrix product of object arrays (np.dot semantics for ndim <= 2, matmul otherwise)"""
    if a.ndim == 1 and b.ndim == 1:
        r = rnp.empty((), dtype=object)
        if a.shape != b.shape:
            raise ValueError('shapes not aligned')
        r[()] = symsum([x * y for x, y in zip(a, b)])
        return r
    if a.ndim == 2 and b.ndim == 1:
        r = rnp.empty(a.shape[0], dtype=object)
        for i in range(a.shape[0]):
            r[i] = symsum([x * y for x, y in zip(a[i], b)])
        return r
    if a.ndim == 1 and b.ndim == 2:
        return _dot(b.T, a)
    if a.ndim == 2 and b.ndim == 2:
        r = rnp.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                r[i, j] = symsum([x * y for x, y in zip(a[i], b[:, j])])
        return r
    if a.ndim == 0 or b.ndim == 0:
        return _elementwise(lambda x, y: x * y, a, b)
    unsupported('matrix product of arrays with more than two dimensions')


def uninit():
    """a fresh value nobody initialised (np.empty)"""
    UNINIT[0] += 1
    return sym.variable('uninit%d' % UNINIT[0])


class SymArray(rnp.ndarray, metaclass=_ArrayMeta):
    __array_priority__ = 500

    def __new__(cls, shape, dtype=None, **kw):
        if dtype is not None and rnp.dtype(dtype).kind != 'f':
            return rnp.ndarray(shape, dtype=dtype, **kw)
        return rnp.ndarray.__new__(cls, shape, dtype=object)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return _ufunc(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        h = FUNCTIONS.get(func)
        if h is not None:
            return h(*args, **kwargs)
        impl = getattr(func, '_implementation', None)
        try:
            r = impl(*args, **kwargs) if impl is not None else super().__array_function__(func, types_, args, kwargs)
        except (TypeError, rnp.core._exceptions.UFuncTypeError) as e:
            # constants can be evaluated numerically
            if all_const((args, kwargs)):
                return _lift_result(func(*_map(const_float, args), **_map(const_float, kwargs)))
            unsupported('{} on symbolic arrays: {}'.format(getattr(func, '__name__', func), e))
        return _wrap_any(r, args)

    @property
    def dtype(self):
        return _F64

    def __setitem__(self, key, value):
        key = _fix_key(key)
        b = self.view(rnp.ndarray)
        if not sym._is_scalar(value) or isinstance(value, rnp.ndarray):
            if isinstance(value, str) or value is None:
                unsupported('storing {!r}'.format(value))
            v = _obj(value)
            b[key] = v if v.ndim else v[()]
        else:
            b[key] = lift(value)

    def __getitem__(self, key):
        r = rnp.ndarray.__getitem__(self, _fix_key(key))
        if type(r) is float or isinstance(r, rnp.floating):
            return lift(r)
        return r

    # -- methods implemented in C that do not dispatch to __array_ufunc__
    def astype(self, dtype, *a, **k):
        dt = _dtype(dtype)
        if dt.kind in 'fO':
            return self.copy()
        if dt.kind == 'b':
            return _bool_array(self.view(rnp.ndarray))
        if dt.kind in 'iu':
            return rnp.array([int(v) for v in self.ravel()], dtype=dt).reshape(self.shape)
        unsupported('astype {}'.format(dt))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _ufunc(rnp.add, 'reduce', (self,), dict(axis=axis, keepdims=keepdims, out=out, **k))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _ufunc(rnp.multiply, 'reduce', (self,), dict(axis=axis, keepdims=keepdims, out=out, **k))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _ufunc(rnp.maximum, 'reduce', (self,), dict(axis=axis, keepdims=keepdims, out=out, **k))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _ufunc(rnp.minimum, 'reduce', (self,), dict(axis=axis, keepdims=keepdims, out=out, **k))

    def _count(self, axis):
        if axis is None:
            return self.size
        n = 1
        for i in (axis if isinstance(axis, (tuple, list)) else (axis,)):
            n *= self.shape[i]
        return n

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self.sum(axis=axis, keepdims=keepdims, **k) / self._count(axis)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        d = self - self.mean(axis=axis, keepdims=True)
        return (d * d).sum(axis=axis, keepdims=keepdims) / (self._count(axis) - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return rnp.sqrt(self.var(axis=axis, ddof=ddof, keepdims=keepdims))

    def round(self, decimals=0, out=None):
        return _wrap_result(_elementwise(lambda s: s.round(decimals), _obj(self)), _template((self,)), out)

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = rnp.maximum(r, min)
        if max is not None:
            r = rnp.minimum(r, max)
        if out is not None:
            return _store(out, _obj(r))
        return r

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _ufunc(rnp.logical_or, 'reduce', (self,), dict(axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _ufunc(rnp.logical_and, 'reduce', (self,), dict(axis=axis, keepdims=keepdims))

    def dot(self, b, out=None):
        return _wrap_result(_dot(_obj(self), _obj(b)), None, out)

    def fill(self, v):
        self[...] = v

    def cumsum(self, axis=None, **k):
        a = self.ravel() if axis is None else self
        return _ufunc(rnp.add, 'accumulate', (a,), dict(axis=axis or 0))

    def cumprod(self, axis=None, **k):
        a = self.ravel() if axis is None else self
        return _ufunc(rnp.multiply, 'accumulate', (a,), dict(axis=axis or 0))

    def nonzero(self):
        return _bool_array(self.view(rnp.ndarray)).nonzero()

    def item(self, *a):
        return self.view(rnp.ndarray).item(*a)

    def tolist(self):
        return self.view(rnp.ndarray).tolist()

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return any(bool(v == x) for v in self.ravel().view(rnp.ndarray))

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(self.ravel().view(rnp.ndarray)[0])

    def __float__(self):
        return float(self.ravel().view(rnp.ndarray)[0])

    def __repr__(self):
        return 'SymArray(%r)' % (self.view(rnp.ndarray).tolist(),)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __matmul__(self, o):
        return _wrap_result(_dot(_obj(self), _obj(o)), None, None)

    def __rmatmul__(self, o):
        return _wrap_result(_dot(_obj(o), _obj(self)), None, None)


def _fix_key(k):
    if type(k) is Sym:
        return k.__index__()
    if is_symarray(k):
        return rnp.array([v.__index__() for v in k.ravel()], dtype=int).reshape(k.shape)
    if isinstance(k, tuple):
        return tuple(_fix_key(x) for x in k)
    if isinstance(k, slice):
        return slice(*[x.__index__() if type(x) is Sym else x for x in (k.start, k.stop, k.step)])
    if isinstance(k, list):
        return [_fix_key(x) for x in k]
    return k


def _sym_array_ufunc(self, ufunc, method, *inputs, **kwargs):
    return _ufunc(ufunc, method, inputs, kwargs)


Sym.__array_ufunc__ = _sym_array_ufunc


def _wrap_any(r, args=()):
    if isinstance(r, rnp.ndarray):
        if is_symarray(r):
            return r
        if r.dtype == object:
            if r.size and all(sym._is_scalar(v) for v in r.ravel()):
                return symarray(r)
            return r
        if r.dtype.kind == 'f':
            return symarray(r)
        return r
    if isinstance(r, rnp.floating):
        return lift(r)
    if type(r) is float:
        return r
    if type(r) in (list, tuple):
        return type(r)(_wrap_any(x) for x in r)
    return r


def _lift_result(r):
    if type(r) is float:
        return lift(r)
    return _wrap_any(r)


# --------------------------------------------------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------------------------------------------------
def contains_sym(x, depth=0):
    if type(x) is Sym or is_symarray(x):
        return True
    if isinstance(x, rnp.ndarray):
        return x.dtype == object and any(contains_sym(v, depth + 1) for v in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(contains_sym(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 6:
        return any(contains_sym(v, depth + 1) for v in x.values())
    return False


def all_const(x):
    if type(x) is Sym:
        return x.special is not None or not x.m or sym.const_value(x) is not None
    if isinstance(x, rnp.ndarray):
        if is_symarray(x) or x.dtype == object:
            return all(all_const(v) for v in x.ravel().tolist())
        return True
    if isinstance(x, (list, tuple)):
        return all(all_const(v) for v in x)
    if isinstance(x, dict):
        return all(all_const(v) for v in x.values())
    return True


def const_float(x):
    if type(x) is Sym:
        return float(x)
    if is_symarray(x):
        return rnp.array([float(v) for v in x.ravel().tolist()], dtype=float).reshape(x.shape)
    if isinstance(x, rnp.ndarray) and x.dtype == object and x.size and all(sym._is_scalar(v) for v in x.ravel()):
        return rnp.array([float(v) for v in x.ravel().tolist()], dtype=float).reshape(x.shape)
    if type(x) in (list, tuple):
        return type(x)(const_float(v) for v in x)
    if type(x) is dict:
        return {k: const_float(v) for k, v in x.items()}
    if x is FloatType:
        return float
    return x


def _map(f, x):
    if isinstance(x, dict):
        return {k: f(v) for k, v in x.items()}
    return type(x)(f(v) for v in x)


# --------------------------------------------------------------------------------------------------------------------
# float type seen by the package
# --------------------------------------------------------------------------------------------------------------------
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or type(x) is Sym

    def __subclasscheck__(cls, x):
        return issubclass(x, float) or x is Sym

    def __call__(cls, x=0.0):
        if type(x) is Sym:
            return x
        if is_symarray(x):
            return x.ravel().view(rnp.ndarray)[0]
        return lift(builtins.float(x))

    def __eq__(cls, other):
        return other is cls or other is float

    def __hash__(cls):
        return hash(float)


class FloatType(metaclass=_FloatMeta):
    dtype = _F64
    fromhex = float.fromhex


def _dtype(d):
    if d is None or d is FloatType:
        return _F64
    return rnp.dtype(d)


def _isinstance(x, cls):
    if type(x) is Sym:
        c = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for k in c:
            flat.extend(k if isinstance(k, tuple) else (k,))
        import numbers
        for k in flat:
            if k in (float, FloatType, rnp.floating, rnp.float64, rnp.number, rnp.generic, numbers.Number,
                     numbers.Real, numbers.Complex, rnp.inexact, object, Sym):
                return True
        return builtins.isinstance(x, cls)
    return builtins.isinstance(x, cls)


# --------------------------------------------------------------------------------------------------------------------
# numpy namespace
# --------------------------------------------------------------------------------------------------------------------
def _is_float_dtype(dtype):
    if dtype is None or dtype is FloatType:
        return True
    try:
        return rnp.dtype(dtype).kind == 'f'
    except TypeError:
        return False


def x_array(x, dtype=None, *a, **k):
    copy = k.get('copy', True)
    subok = k.get('subok', False)
    ndmin = k.get('ndmin', 0)
    if dtype is not None and not _is_float_dtype(dtype):
        if contains_sym(x) and rnp.dtype(dtype).kind in 'biu':
            o = _obj(x)
            return rnp.array([int(v) if rnp.dtype(dtype).kind != 'b' else bool(v) for v in o.ravel()],
                             dtype=dtype).reshape(o.shape)
        if rnp.dtype(dtype) == object and contains_sym(x):
            o = _obj(x)
            return wrap(o.copy())
        return rnp.array(x, dtype, *a, **k)
    if isinstance(x, rnp.ndarray):
        if is_symarray(x):
            r = x.copy() if copy else x
            if not subok:
                r = r.view(SymArray) if type(r) is not SymArray else r
        elif x.dtype.kind == 'f' or dtype is not None:
            r = symarray(x)
        elif x.dtype == object and x.size and all(sym._is_scalar(v) for v in x.ravel()):
            r = symarray(x)
        else:
            r = rnp.array(x, copy=copy)
    elif type(x) is Sym:
        r = wrap(_obj(x))
    elif contains_sym(x):
        o = _ragged_safe(x)
        r = wrap(_obj(o)) if all(sym._is_scalar(v) for v in o.ravel()) else o
    else:
        o = rnp.array(x)
        if o.dtype.kind == 'f' or (dtype is not None and o.dtype.kind in 'biu'):
            r = symarray(o)
        elif o.dtype == object and dtype is not None:
            r = symarray(o)
        else:
            r = o
    while r.ndim < ndmin:
        r = r[rnp.newaxis]
    return r


def _ragged_safe(x):
    """np.array(nested sequence with Syms and arrays)"""
    def shape(v):
        if isinstance(v, rnp.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if not v:
                return (0,)
            s = [shape(w) for w in v]
            if any(t != s[0] for t in s):
                raise ValueError('setting an array element with a sequence. The requested array has an '
                                 'inhomogeneous shape')
            return (len(v),) + s[0]
        return ()

    def fill(o, v):
        if isinstance(v, rnp.ndarray):
            o[...] = _obj(v) if v.dtype.kind in 'biufO' else v
        elif isinstance(v, (list, tuple)):
            for i, w in enumerate(v):
                if o.ndim == 1:
                    o[i] = w.ravel()[0] if isinstance(w, rnp.ndarray) else w
                else:
                    fill(o[i], w)
    s = shape(x)
    o = rnp.empty(s, dtype=object)
    fill(o, x)
    return o


def x_asarray(x, dtype=None, *a, **k):
    if is_symarray(x) and _is_float_dtype(dtype):
        return x if type(x) is SymArray else x.view(SymArray)
    if isinstance(x, rnp.ndarray) and x.dtype.kind == 'f' and dtype is None:
        return x     # same object (writes have to reach the caller's array)
    k.pop('copy', None)
    return x_array(x, dtype, copy=False)


def x_asanyarray(x, dtype=None, *a, **k):
    if is_symarray(x):
        return x
    return x_asarray(x, dtype)


def _shape(shape):
    if isinstance(shape, (list, tuple, rnp.ndarray)):
        return tuple(int(s) for s in shape)
    return (int(shape),)


def _filled(shape, value):
    o = rnp.empty(_shape(shape), dtype=object)
    o[...] = value
    return wrap(o)


def x_zeros(shape, dtype=None, *a, **k):
    if not _is_float_dtype(dtype):
        return rnp.zeros(shape, dtype)
    return _filled(shape, sym.S_ZERO)


def x_ones(shape, dtype=None, *a, **k):
    if not _is_float_dtype(dtype):
        return rnp.ones(shape, dtype)
    return _filled(shape, sym.S_ONE)


def x_empty(shape, dtype=None, *a, **k):
    if not _is_float_dtype(dtype):
        return rnp.empty(shape, dtype)
    r = _filled(shape, sym.S_ZERO)
    f = r.view(rnp.ndarray).reshape(-1)
    for i in range(f.size):
        f[i] = uninit()
    return r


def x_full(shape, value, dtype=None, *a, **k):
    if not _is_float_dtype(dtype) or (dtype is None and isinstance(value, (int, bool, str, rnp.integer))):
        return rnp.full(shape, value, dtype)
    r = _filled(shape, sym.S_ZERO)
    r[...] = value
    return r


def _like(f):
    def g(x, *a, **k):
        dtype = k.pop('dtype', None)
        shp = k.pop('shape', None) or rnp.shape(x)
        if dtype is None and isinstance(x, rnp.ndarray) and not is_symarray(x) and x.dtype.kind != 'f':
            dtype = x.dtype
        return f(shp, *a, dtype=dtype)
    return g


def x_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    start, stop = lift(start), lift(stop)
    num = int(num)
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div > 0 else sym.S_NAN
    o = rnp.empty(num, dtype=object)
    for i in range(num):
        o[i] = start + (stop - start) * Fraction(i, div) if div > 0 else start
    r = wrap(o)
    return (r, step) if retstep else r


def x_arange(*args, **k):
    dtype = k.pop('dtype', None)
    if k:
        args = [k.get('start', 0), k['stop'], k.get('step', 1)] if 'stop' in k else args
    if all(isinstance(a, (int, rnp.integer)) for a in args):
        return rnp.arange(*args, dtype=dtype if dtype is not FloatType else float) if not (
            dtype is not None and _is_float_dtype(dtype)) else symarray(rnp.arange(*args))
    vals = [lift(a) for a in args]
    start, stop, step = sym.S_ZERO, None, sym.S_ONE
    if len(vals) == 1:
        stop = vals[0]
    elif len(vals) == 2:
        start, stop = vals
    else:
        start, stop, step = vals
    n = (stop - start) / step
    if n.is_const:
        n = max(0, math.ceil(n.c))
    else:
        v = sym.const_value(n)
        if v is None:
            unsupported('arange with symbolic bounds')
        n = max(0, math.ceil(v))
    o = rnp.empty(n, dtype=object)
    for i in range(n):
        o[i] = start + step * i
    if dtype is not None and not _is_float_dtype(dtype):
        return rnp.array([int(v) for v in o], dtype=dtype)
    return wrap(o)


def x_eye(n, m=None, k=0, dtype=None, **kw):
    r = rnp.eye(n, m, k, dtype=int)
    return symarray(r) if _is_float_dtype(dtype) else r.astype(dtype)


def x_where(cond, *args):
    c = _bool_array(cond) if contains_sym(cond) else rnp.asarray(cond, dtype=bool)
    if not args:
        return rnp.where(c)
    a, b = args
    if not contains_sym(a) and not contains_sym(b):
        return _lift_result(rnp.where(c, a, b))
    a, b = _obj(a), _obj(b)
    c, a, b = rnp.broadcast_arrays(c, a, b)
    r = rnp.where(c, a, b)
    return wrap(r) if r.ndim else r[()]


def x_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=rnp._NoValue, where=True):
    a = _prep(a)
    if not is_symarray(a) and type(a) is not Sym:
        return _lift_result(rnp.sum(a, axis=axis, keepdims=keepdims))
    return _ufunc(rnp.add, 'reduce', (a,), dict(axis=axis, keepdims=keepdims, out=out, initial=initial, where=where))


def x_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = _prep(a)
    if not is_symarray(a) and type(a) is not Sym:
        return _lift_result(rnp.prod(a, axis=axis, keepdims=keepdims))
    return _ufunc(rnp.multiply, 'reduce', (a,), dict(axis=axis, keepdims=keepdims, out=out))


def _minmax(f, uf):
    def g(a, axis=None, out=None, keepdims=False, **k):
        a = _prep(a)
        if not is_symarray(a) and type(a) is not Sym:
            return _lift_result(f(a, axis=axis, keepdims=keepdims))
        return _ufunc(uf, 'reduce', (a,), dict(axis=axis, keepdims=keepdims, out=out))
    return g


def _method(name):
    def g(a, *args, **k):
        a = _prep(a)
        if not isinstance(a, rnp.ndarray):
            a = symarray(a)
        if not is_symarray(a) and a.dtype.kind in 'biuf':
            a = symarray(a)
        return getattr(a, name)(*args, **k)
    return g


def _prep(a):
    """lists/tuples/object arrays with Syms -> SymArray; others unchanged"""
    if type(a) is Sym or is_symarray(a):
        return a
    if isinstance(a, rnp.ndarray):
        if a.dtype == object and a.size and all(sym._is_scalar(v) for v in a.ravel()):
            return symarray(a)
        if a.dtype.kind == 'f':
            return symarray(a)
        return a
    if isinstance(a, (list, tuple)):
        if contains_sym(a):
            return x_array(a)
        if any(isinstance(v, float) for v in a):
            return x_array(a)
    return a


def _nan_reduce(name, f):
    def g(a, axis=None, **k):
        a = _prep(a)
        if not is_symarray(a) and type(a) is not Sym:
            return _lift_result(getattr(rnp, 'nan' + name)(const_float(a), axis=axis, **k))
        if axis is not None and a.ndim > 1:
            if all_const(a):
                return _lift_result(getattr(rnp, 'nan' + name)(const_float(a), axis=axis, **k))
            unsupported('nan' + name + ' with axis')
        vals = [lift(v) for v in a.ravel().tolist()] if is_symarray(a) else [a]
        vals = [v for v in vals if v.special != 'nan']
        return f(wrap(_obj(vals) if vals else rnp.empty(0, dtype=object)), **k)
    return g


def x_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(rnp.all(x_isclose(a, b, rtol, atol, equal_nan)))


def x_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if x.special or y.special:
            return x.special == y.special and (x.special != 'nan' or equal_nan)
        return bool(abs(x - y) <= lift(atol) + lift(rtol) * abs(y))
    r = _bool_array(_elementwise(f, _obj(a), _obj(b)))
    return r if r.ndim else bool(r)


def x_bincount(x, weights=None, minlength=0):
    if weights is None or not contains_sym(weights):
        return _lift_result(rnp.bincount(rnp.asarray(x), weights, minlength))
    x = [int(v) for v in x]
    n = max([minlength] + [v + 1 for v in x])
    groups = [[] for _ in range(n)]
    w = _obj(weights)
    for i, v in zip(x, w):
        groups[i].append(v)
    o = rnp.empty(n, dtype=object)
    for i in range(n):
        o[i] = symsum(groups[i])
    return wrap(o)


def x_einsum(sub, *ops, **k):
    ops = [_obj(o) for o in ops]
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, outs = sub.split('->')
    else:
        ins = sub
        letters = [c for c in ins if c != ',']
        outs = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in sub:
        unsupported('einsum with ellipsis')
    dim = {}
    for s, o in zip(ins, ops):
        for c, n in zip(s, o.shape):
            dim[c] = n
    inner = [c for c in dim if c not in outs]
    r = rnp.empty(tuple(dim[c] for c in outs), dtype=object)
    for oi in itertools.product(*[range(dim[c]) for c in outs]):
        env = dict(zip(outs, oi))
        terms = []
        for ii in itertools.product(*[range(dim[c]) for c in inner]):
            env.update(zip(inner, ii))
            t = sym.S_ONE
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s)]
            terms.append(t)
        r[oi] = symsum(terms)
    return wrap(r) if r.ndim else r[()]


def x_dot(a, b, out=None):
    if not contains_sym(a) and not contains_sym(b):
        return _lift_result(rnp.dot(a, b))
    r = _dot(_obj(a), _obj(b))
    return wrap(r) if r.ndim else r[()]


def x_average(a, axis=None, weights=None, returned=False):
    if weights is None:
        return _method('mean')(a, axis=axis)
    a, w = symarray(a), symarray(weights)
    if w.shape != a.shape and w.ndim == 1:
        shp = [1] * a.ndim
        shp[axis] = -1
        w = w.reshape(shp)
    d = rnp.broadcast_to(_obj(w), a.shape)
    return x_sum(a * w, axis=axis) / x_sum(wrap(d), axis=axis)


def x_isscalar(x):
    return True if type(x) is Sym else rnp.isscalar(x)


def x_round(a, decimals=0, out=None):
    if type(a) is Sym:
        return a.round(decimals)
    return _method('round')(a, decimals)


def x_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        w = rnp.broadcast_to(_bool_array(where), dst.shape)
        s = rnp.broadcast_to(_obj(src), dst.shape)
        dst[w] = s[w]


def x_clip(a, a_min=None, a_max=None, out=None, **k):
    if type(a) is Sym:
        r = symarray([a]).clip(a_min, a_max)
        return r[0]
    return _method('clip')(a, a_min, a_max, out)


def x_unique(a, *args, **k):
    if contains_sym(a) and all_const(a) and not args and not k:
        vals = sorted({(lift(v).c, lift(v).m) for v in _obj(a).ravel()}, key=lambda t: float(Sym(*t)))
        return symarray([Sym(*v) for v in vals])
    if contains_sym(a) and all_const(a):
        return _lift_result(rnp.unique(const_float(a), *args, **k))
    return rnp.unique(a, *args, **k)


def x_concatenate(arrs, axis=0, out=None, **k):
    arrs = list(arrs)
    if not any(contains_sym(a) for a in arrs):
        return _lift_result(rnp.concatenate(arrs, axis=axis))
    return wrap(rnp.concatenate([_obj(a) for a in arrs], axis=axis))


def x_stack(arrs, axis=0, out=None, **k):
    arrs = list(arrs)
    if not any(contains_sym(a) for a in arrs):
        return _lift_result(rnp.stack(arrs, axis=axis))
    return wrap(rnp.stack([_obj(a) for a in arrs], axis=axis))


def x_append(arr, values, axis=None):
    if axis is None:
        arr = x_asarray(arr).ravel()
        values = x_asarray(values).ravel()
        axis = 0
    return x_concatenate([arr, values], axis=axis)


def x_searchsorted(a, v, side='left', sorter=None):
    if all_const((a, v)):
        return rnp.searchsorted(const_float(a), const_float(v), side=side)
    return rnp.searchsorted(_obj(a), _obj(v), side=side)


def x_tensordot(a, b, axes=2):
    return _wrap_any(rnp.tensordot(_obj(a), _obj(b), axes))


def x_convolve(a, v, mode='full'):
    a, v = _obj(a), _obj(v)
    n, m = len(a), len(v)
    full = rnp.empty(n + m - 1, dtype=object)
    for k in range(n + m - 1):
        full[k] = symsum([a[i] * v[k - i] for i in range(max(0, k - m + 1), min(n, k + 1))])
    if mode == 'full':
        return wrap(full)
    big, small = max(n, m), min(n, m)
    if mode == 'same':
        s = (small - 1) // 2
        return wrap(full[s:s + big])
    return wrap(full[small - 1:big])


def x_outer(a, b, out=None):
    return _ufunc(rnp.multiply, 'outer', (x_asarray(a).ravel(), x_asarray(b).ravel()), {})


def x_argmax(a, axis=None, **k):
    a = x_asarray(a)
    if axis is not None and a.ndim > 1:
        unsupported('argmax with axis')
    vals = [lift(v) for v in a.ravel().tolist()]
    best = 0
    for i in range(1, len(vals)):
        if vals[best].special == 'nan':
            break
        if vals[i].special == 'nan' or bool(vals[i] > vals[best]):
            best = i
    return best


def x_argmin(a, axis=None, **k):
    a = x_asarray(a)
    if axis is not None and a.ndim > 1:
        unsupported('argmin with axis')
    return x_argmax(-a)


def x_array_equal(a, b, equal_nan=False):
    a, b = x_asarray(a), x_asarray(b)
    if rnp.shape(a) != rnp.shape(b):
        return False
    return bool(rnp.all(a == b))


def x_count_nonzero(a, axis=None, **k):
    return rnp.count_nonzero(_bool_array(_obj(a)), axis=axis)


FUNCTIONS = {
    rnp.sum: x_sum, rnp.prod: x_prod, rnp.amax: _minmax(rnp.amax, rnp.maximum), rnp.max: _minmax(rnp.amax, rnp.maximum),
    rnp.amin: _minmax(rnp.amin, rnp.minimum), rnp.min: _minmax(rnp.amin, rnp.minimum),
    rnp.mean: _method('mean'), rnp.var: _method('var'), rnp.std: _method('std'), rnp.any: _method('any'),
    rnp.all: _method('all'), rnp.cumsum: _method('cumsum'), rnp.cumprod: _method('cumprod'), rnp.round: x_round,
    rnp.around: x_round, rnp.round_: x_round, rnp.where: x_where, rnp.allclose: x_allclose, rnp.isclose: x_isclose,
    rnp.bincount: x_bincount, rnp.einsum: x_einsum, rnp.dot: x_dot, rnp.average: x_average, rnp.copyto: x_copyto,
    rnp.clip: x_clip, rnp.unique: x_unique, rnp.concatenate: x_concatenate, rnp.stack: x_stack, rnp.append: x_append,
    rnp.searchsorted: x_searchsorted, rnp.tensordot: x_tensordot, rnp.convolve: x_convolve, rnp.outer: x_outer,
    rnp.argmax: x_argmax, rnp.argmin: x_argmin, rnp.array_equal: x_array_equal, rnp.count_nonzero: x_count_nonzero,
    rnp.zeros_like: _like(x_zeros), rnp.ones_like: _like(x_ones), rnp.empty_like: _like(x_empty),
    rnp.full_like: _like(x_full), rnp.vdot: lambda a, b: x_dot(x_asarray(a).ravel(), x_asarray(b).ravel()),
    rnp.inner: lambda a, b: x_dot(a, x_asarray(b).T), rnp.linspace: x_linspace,
    rnp.nansum: _nan_reduce('sum', x_sum), rnp.nanmax: _nan_reduce('max', _minmax(rnp.amax, rnp.maximum)),
    rnp.nanmin: _nan_reduce('min', _minmax(rnp.amin, rnp.minimum)), rnp.nanmean: _nan_reduce('mean', _method('mean')),
    rnp.nanstd: _nan_reduce('std', _method('std')), rnp.nanvar: _nan_reduce('var', _method('var')),
    rnp.nonzero: lambda a: _bool_array(_obj(a)).nonzero(),
}

NP_OVERRIDE = {
    'array': x_array, 'asarray': x_asarray, 'asanyarray': x_asanyarray, 'ascontiguousarray': x_asarray,
    'zeros': x_zeros, 'ones': x_ones, 'empty': x_empty, 'full': x_full, 'linspace': x_linspace, 'arange': x_arange,
    'eye': x_eye, 'identity': x_eye, 'isscalar': x_isscalar, 'ndarray': SymArray, 'copy': lambda a, **k: x_array(a),
    'float64': FloatType, 'float_': FloatType, 'double': FloatType, 'float': FloatType,
}

PASS = {'errstate', 'seterr', 'dtype', 'newaxis', 'inf', 'nan', 'int64', 'int32', 'bool_', 'random', 'ndim', 'shape',
        'size', 'iterable', 'can_cast', 'result_type', 'issubdtype', 'set_printoptions', 'get_printoptions',
        'vectorize', 'frompyfunc', 'ndindex', 'ndenumerate', 'nditer', 'broadcast', 'seterrcall', 'geterr',
        'array_split', 'split', 'broadcast_shapes', 'may_share_memory', 'shares_memory', 'AxisError'}


def _np_wrap(name, f):
    h = FUNCTIONS.get(f)

    def g(*args, **kwargs):
        if h is not None:
            return h(*args, **kwargs)
        if name == 'apply_over_axes':
            return _wrap_any(f(*args, **kwargs))
        if kwargs.get('dtype') is FloatType:
            kwargs['dtype'] = object if contains_sym(args) else float
        args = [_prep(a) if not callable(a) or isinstance(a, rnp.ndarray) else a for a in args]
        r = f(*args, **kwargs)
        return _lift_result(r) if not isinstance(f, rnp.ufunc) else _lift_uf(r)
    g.__name__ = name
    if isinstance(f, rnp.ufunc):
        return UfuncProxy(f, g)
    return g


def _lift_uf(r):
    if isinstance(r, (rnp.ndarray, rnp.floating, float)):
        return _lift_result(r)
    return r


class UfuncProxy(object):
    def __init__(self, f, g):
        self._f, self._g = f, g
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        f = self._f
        if f.nin == 1 and len(a) == 1 and isinstance(a[0], (int, float, rnp.integer)) \
                and f.__name__ in UNARY and not isinstance(a[0], bool):
            if f.__name__ in ('absolute', 'negative', 'square', 'sign') and not isinstance(a[0], float):
                return f(a[0])
            return UNARY[f.__name__](lift(a[0]))
        if f.__name__ in ('log', 'exp', 'sqrt', 'log10', 'log2', 'divide', 'true_divide', 'power') and \
                any(isinstance(x, rnp.ndarray) and not is_symarray(x) and x.dtype.kind in 'iu' for x in a) and \
                not (f.__name__ == 'power'):
            a = [symarray(x) if isinstance(x, rnp.ndarray) and not is_symarray(x) else x for x in a]
        return self._g(*a, **k)

    def reduce(self, a, *args, **k):
        if args:
            k['axis'] = args[0]
        a = _prep(a)
        if is_symarray(a):
            return _ufunc(self._f, 'reduce', (a,), k)
        return _lift_result(self._f.reduce(a, **k))

    def accumulate(self, a, *args, **k):
        if args:
            k['axis'] = args[0]
        a = _prep(a)
        if is_symarray(a):
            return _ufunc(self._f, 'accumulate', (a,), k)
        return _lift_result(self._f.accumulate(a, **k))

    def outer(self, a, b, **k):
        return _lift_result(self._f.outer(_prep(a), _prep(b), **k))

    def at(self, a, idx, *b):
        if is_symarray(a):
            return _ufunc(self._f, 'at', (a, idx) + b, {})
        return self._f.at(a, idx, *b)


class Proxy(types.ModuleType):
    """module proxy"""
    def __init__(self, real, overrides=None, wrapper=None, sub=None, passthrough=()):
        types.ModuleType.__init__(self, real.__name__)
        d = self.__dict__
        d['_real'], d['_over'], d['_wrapper'], d['_sub'] = real, dict(overrides or {}), wrapper, dict(sub or {})
        d['_pass'], d['_cache'] = passthrough, {}

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        if name in self._sub:
            return self._sub[name]
        if name in self._cache:
            return self._cache[name]
        x = getattr(self._real, name)
        if self._wrapper is not None and name not in self._pass:
            x = self._wrapper(name, x)
        self._cache[name] = x
        return x

    def __dir__(self):
        return dir(self._real)


def _np_wrapper(name, x):
    if isinstance(x, types.ModuleType):
        return x
    if isinstance(x, type):
        return x
    if name in ('pi',):
        return Sym(Fraction(1), ((sym._pi().id, 1),))
    if callable(x):
        return _np_wrap(name, x)
    return x


def _const_call(name, f):
    """functions that are evaluated numerically on constants"""
    def g(*args, **kwargs):
        if contains_sym(args) or contains_sym(kwargs):
            if not all_const((args, kwargs)):
                unsupported('{} on symbolic values'.format(name))
            args = tuple(const_float(a) for a in args)
            kwargs = {k: const_float(v) for k, v in kwargs.items()}
        return _lift_result(f(*args, **kwargs))
    g.__name__ = name
    return g


def x_roll(a, shift, axis=None):
    return _wrap_any(rnp.roll(_obj(a) if contains_sym(a) else a, shift, axis))


fft_proxy = Proxy(rnp.fft, {}, lambda n, f: _const_call(n, f) if callable(f) and not isinstance(f, type) else f)
linalg_proxy = Proxy(rnp.linalg, {}, lambda n, f: _const_call(n, f) if callable(f) and not isinstance(f, type) else f)
np_proxy = Proxy(rnp, NP_OVERRIDE, _np_wrapper, {'fft': fft_proxy, 'linalg': linalg_proxy}, PASS)
np_proxy._over['roll'] = x_roll

# --------------------------------------------------------------------------------------------------------------------
# scipy
# --------------------------------------------------------------------------------------------------------------------
LINEAR_CALLS = []    # names of operators that were probed


def linear_operator(name, f):
    """
    Operators that are linear in their first argument: the matrix of the real operator is determined by applying it to
    all unit vectors (with the concrete values of the other arguments) and is then applied to the symbolic array.
    """
    def g(x, *args, **kwargs):
        if contains_sym(x) is False and not contains_sym(args) and not contains_sym(kwargs):
            return _lift_result(f(x, *args, **kwargs))
        if not all_const((args, kwargs)):
            unsupported('{} with symbolic parameters'.format(name))
        args = tuple(const_float(a) for a in args)
        out = kwargs.pop('output', None)
        kwargs = {k: const_float(v) for k, v in kwargs.items()}
        xo = _obj(x)
        unit = rnp.zeros(xo.shape)
        zero = f(unit, *args, **kwargs)
        if rnp.any(rnp.abs(zero) > 0):
            unsupported('{}: not linear'.format(name))
        cols = []
        for idx in itertools.product(*[range(n) for n in xo.shape]):
            e = rnp.zeros(xo.shape)
            e[idx] = 1.
            cols.append((xo[idx], rnp.asarray(f(e, *args, **kwargs))))
        # linearity check on a probe vector
        probe = rnp.linspace(0.1, 1.7, xo.size).reshape(xo.shape)
        want = f(probe, *args, **kwargs)
        got = sum(p * c for p, (_, c) in zip(probe.ravel(), cols))
        if not rnp.allclose(want, got, rtol=1e-9, atol=1e-12):
            unsupported('{}: not linear'.format(name))
        LINEAR_CALLS.append(name)
        res = rnp.empty(zero.shape, dtype=object)
        flat = res.reshape(-1)
        for k in range(flat.size):
            terms = []
            for v, c in cols:
                w = c.reshape(-1)[k]
                if abs(w) > 1e-15:
                    terms.append(v * coef(w))
            flat[k] = symsum(terms)
        r = wrap(res)
        if out is not None and isinstance(out, rnp.ndarray):
            out[...] = r
            return out
        return r
    g.__name__ = name
    return g


_COEF = {}


def coef(w):
    """numerical weights of a real operator as rationals with 12 significant digits"""
    w = float(w)
    r = _COEF.get(w)
    if r is None:
        r = lift_weight(w)
        _COEF[w] = r
    return r


def lift_weight(w):
    r = sym.lift_float(w)
    if r.is_const and r.c.denominator <= 1000000:
        return r
    return Sym(Fraction('%.12e' % w), ())


LINEAR = {'gaussian_filter1d', 'gaussian_filter', 'convolve1d', 'correlate1d', 'convolve', 'correlate', 'fftconvolve',
          'oaconvolve', 'convolve2d', 'correlate2d', 'shift', 'uniform_filter1d', 'spline_filter', 'spline_filter1d',
          'zoom', 'affine_transform', 'map_coordinates'}


def x_logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    a = x_asarray(a)
    if b is not None:
        b = symarray(b)
        e = _elementwise(lambda x, w: w * x.exp(), _obj(a), _obj(b))
    else:
        e = _elementwise(lambda x: x.exp(), _obj(a))
    s = x_sum(wrap(e), axis=axis, keepdims=keepdims)
    if type(s) is Sym:
        return s.log()
    return wrap(_elementwise(lambda x: x.log(), _obj(s)))


def x_factorial(n, exact=False):
    def f(s):
        if s.special == 'nan':
            return s
        if s.is_const and s.c.denominator == 1:
            return s.factorial() if s.c >= 0 else sym.S_ZERO
        if s.is_const:
            import scipy.special
            return lift(float(scipy.special.factorial(float(s))))
        unsupported('factorial of a symbolic value')
    if sym._is_scalar(n):
        return f(lift(n))
    return wrap(_elementwise(f, _obj(n)))


def x_gammaln(n):
    def f(s):
        if s.is_const and s.c.denominator == 1 and s.c >= 1:
            return (s - 1).factorial().log()
        return _arctrig(math.lgamma)(s)
    if sym._is_scalar(n):
        return f(lift(n))
    return wrap(_elementwise(f, _obj(n)))


def x_xlogy(x, y):
    def f(a, b):
        if a.special is None and a.c == 0 and b.special != 'nan':
            return sym.S_ZERO
        return a * b.log()
    r = _elementwise(f, _obj(x), _obj(y))
    return wrap(r) if r.ndim else r[()]


def x_softmax(x, axis=None):
    e = wrap(_elementwise(lambda s: s.exp(), _obj(x)))
    return e / x_sum(e, axis=axis, keepdims=True)


SPECIAL_FUNCS = {'logsumexp': x_logsumexp, 'factorial': x_factorial, 'gammaln': x_gammaln, 'xlogy': x_xlogy,
                 'loggamma': x_gammaln, 'softmax': x_softmax,
                 'gamma': lambda n: x_factorial(x_asarray(n) - 1 if not sym._is_scalar(n) else lift(n) - 1)}
SPECIAL_UFUNCS = {}


def _special_wrapper(name, x):
    if isinstance(x, types.ModuleType) or isinstance(x, type) or not callable(x):
        return x
    return _const_call(name, x)


def _scipy_wrapper(name, x):
    if isinstance(x, types.ModuleType):
        return scipy_proxy(x)
    if name in LINEAR and callable(x):
        return linear_operator(name, x)
    if isinstance(x, type) or not callable(x):
        return x
    return _const_call_obj(name, x)


class FrozenProxy(object):
    """frozen scipy distribution: numerical evaluation on constants"""
    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        x = getattr(self._real, name)
        return _const_call(name, x) if callable(x) else x

    def __deepcopy__(self, memo):
        return self


def _const_call_obj(name, f):
    base = _const_call(name, f)

    def g(*a, **k):
        r = base(*a, **k)
        if type(r).__module__.startswith('scipy.stats'):
            return FrozenProxy(r)
        return r
    g.__name__ = name
    return g


MINIMIZE = [None]    # set by the harness environment


def x_minimize(fun, x0, *args, **kwargs):
    if MINIMIZE[0] is None:
        unsupported('scipy.optimize.minimize')
    return MINIMIZE[0](fun, x0, *args, **kwargs)


_SCIPY = {}


def scipy_proxy(mod):
    if mod.__name__ in _SCIPY:
        return _SCIPY[mod.__name__]
    if mod.__name__ == 'scipy.special':
        p = Proxy(mod, SPECIAL_FUNCS, _special_wrapper)
    elif mod.__name__ == 'scipy.optimize':
        p = Proxy(mod, {'minimize': x_minimize}, _scipy_wrapper)
    elif mod.__name__ == 'scipy.stats' or mod.__name__.startswith('scipy.stats.'):
        p = Proxy(mod, {}, lambda n, x: _const_call_obj(n, x) if callable(x) and n == 'multivariate_normal' else x)
    else:
        p = Proxy(mod, {}, _scipy_wrapper)
    _SCIPY[mod.__name__] = p
    return p


# --------------------------------------------------------------------------------------------------------------------
# math, tqdm, matplotlib, pathos
# --------------------------------------------------------------------------------------------------------------------
def _math_wrapper(name, x):
    if name == 'pi':
        return Sym(Fraction(1), ((sym._pi().id, 1),))
    if not callable(x):
        return x
    if name in ('log', 'exp', 'sqrt', 'log10', 'log2', 'log1p', 'expm1'):
        def g(v, *a):
            v = lift(v)
            if name == 'log' and a:
                return v.log() / lift(a[0]).log()
            if name == 'sqrt' and v.sign() == '-':
                raise ValueError('math domain error')
            if name.startswith('log') and v.special is None and v.c == 0:
                raise ValueError('math domain error')
            return getattr(v, name)()
        return g
    if name == 'isnan':
        return lambda v: lift(v).special == 'nan'
    if name == 'isinf':
        return lambda v: lift(v).special in ('inf', '-inf')
    if name == 'isfinite':
        return lambda v: lift(v).special is None
    if name == 'fsum':
        return lambda v: symsum(list(v))
    if name == 'prod':
        return lambda v, start=1: _prod([lift(x) for x in v]) * start
    if name == 'fabs':
        return lambda v: abs(lift(v))
    if name == 'pow':
        return lambda a, b: lift(a) ** lift(b)
    if name in ('floor', 'ceil', 'trunc'):
        def g(v):
            if type(v) is Sym:
                return int(getattr(v, '__%s__' % name)())
            return getattr(math, name)(v)
        return g
    if name == 'isclose':
        return lambda a, b, rel_tol=1e-9, abs_tol=0.0: x_isclose(a, b, rel_tol, abs_tol)
    return _const_call(name, x)


math_proxy = Proxy(math, {}, _math_wrapper)


class SilentBar(object):
    def __init__(self, iterable=None, *a, **k):
        self.iterable = iterable

    def __iter__(self):
        return iter(self.iterable)

    def __len__(self):
        return len(self.iterable)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


PLOT_CALLS = []


class Null(object):
    """absorbs every use; records calls"""
    def __init__(self, name='plt'):
        self.__dict__['_name'] = name

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Null(self._name + '.' + name)

    def __setattr__(self, name, v):
        pass

    def __call__(self, *a, **k):
        PLOT_CALLS.append((self._name, a, k))
        if self._name.endswith('to_rgb'):
            return (0.5, 0.5, 0.5)
        if self._name.endswith(('xlim', 'ylim')) and not a:
            return (0., 1.)
        if self._name.endswith('subplots'):
            return Null('fig'), Null('ax')
        return Null(self._name + '()')

    def __getitem__(self, i):
        return Null(self._name + '[]')

    def __setitem__(self, i, v):
        pass

    def __iter__(self):
        return iter([Null(self._name + '[]')])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __deepcopy__(self, memo):
        return self


class NullModule(types.ModuleType):
    def __init__(self, name):
        types.ModuleType.__init__(self, name)
        self.__dict__['_n'] = Null(name.split('.')[-1])
        self.__path__ = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in ('pyplot', 'colors'):
            return null_module('matplotlib.' + name)
        return getattr(self._n, name)


_NULLMODS = {}


def null_module(name):
    if name not in _NULLMODS:
        _NULLMODS[name] = NullModule(name)
    return _NULLMODS[name]


POOL_ORDER = [None]    # set by the harness environment: callable(n) -> permutation
POOL_LOG = []


class PoolStub(object):
    """
    pathos ProcessPool: every job works on its own (deep) copy of function and arguments, exactly as a process that
    receives pickled objects; the order in which unordered results arrive is a free choice.
    """
    def __init__(self, *a, **k):
        self.nodes = a[0] if a else k.get('nodes', k.get('ncpus', 1))
        self.ncpus = self.nodes
        POOL_LOG.append(self.nodes)

    def _run(self, f, args):
        memo = {}
        f2, args2 = deepcopy((f, args), memo)
        return deepcopy(f2(*args2))

    def map(self, f, *its, **k):
        return [self._run(f, a) for a in zip(*its)]

    def imap(self, f, *its, **k):
        return iter(self.map(f, *its))

    def uimap(self, f, *its, **k):
        res = self.map(f, *its)
        order = POOL_ORDER[0](len(res)) if POOL_ORDER[0] else range(len(res))
        return iter([res[i] for i in order])

    def pipe(self, f, *args, **k):
        return self._run(f, args)

    def apipe(self, f, *args, **k):
        r = self._run(f, args)

        class R(object):
            def get(self_inner, *a):
                return r
        return R()

    def amap(self, f, *its, **k):
        r = self.map(f, *its)

        class R(object):
            def get(self_inner, *a):
                return r
        return R()
    imap_unordered = uimap

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


def _pathos_module(name):
    m = types.ModuleType(name)
    m.__path__ = []
    m.ProcessPool = m.ProcessingPool = m.ThreadPool = m.SerialPool = m.ParallelPool = m._ProcessPool = PoolStub
    m.Pool = PoolStub
    m.cpu_count = lambda: 4
    return m


_PATHOS = {}


def pathos_module(name):
    if name not in _PATHOS:
        _PATHOS[name] = _pathos_module(name)
        for sub in ('multiprocessing', 'pools', 'pp', 'helpers'):
            if name == 'pathos':
                setattr(_PATHOS[name], sub, pathos_module('pathos.' + sub))
    return _PATHOS[name]


def _tqdm_module():
    m = types.ModuleType('tqdm')
    m.tqdm = SilentBar
    m.trange = lambda *a, **k: SilentBar(range(*a))
    m.tqdm_notebook = SilentBar
    m.auto = m
    m.notebook = m
    m.__path__ = []
    return m


tqdm_module = _tqdm_module()


# --------------------------------------------------------------------------------------------------------------------
# import machinery of the package under test
# --------------------------------------------------------------------------------------------------------------------
STUBBED = ('numpy', 'scipy', 'math', 'tqdm', 'matplotlib', 'pathos', 'sympy')
PACKAGE = 'bayesloop'


def x_lambdify(*args, **kwargs):
    """the generated function refers to the symbolic versions of NumPy functions; roots of integers stay exact"""
    import sympy
    f = sympy.lambdify(*args, **kwargs)

    def exact(g):
        def h(x, *a, **k):
            if type(x) is int and x >= 0:
                x = lift(x)
            return g(x, *a, **k)
        return h
    for k, v in list(f.__globals__.items()):
        if k == 'pi' and isinstance(v, float):
            f.__globals__[k] = np_proxy.pi
        elif getattr(rnp, k, None) is v and callable(v) and not isinstance(v, type):
            w = getattr(np_proxy, k)
            f.__globals__[k] = exact(w) if k in ('sqrt', 'exp', 'log') else w
    return f


_SYMPY = []


def sympy_proxy():
    if not _SYMPY:
        import sympy
        _SYMPY.append(Proxy(sympy, dict(lambdify=x_lambdify)))
    return _SYMPY[0]


def _proxied(name):
    top = name.split('.')[0]
    if top == 'sympy':
        return sympy_proxy() if name == 'sympy' else importlib.import_module(name)
    if top == 'numpy':
        if name == 'numpy':
            return np_proxy
        if name.startswith('numpy.fft'):
            return fft_proxy
        if name.startswith('numpy.linalg'):
            return linalg_proxy
        return importlib.import_module(name)
    if top == 'scipy':
        return scipy_proxy(importlib.import_module(name))
    if top == 'math':
        return math_proxy
    if top == 'tqdm':
        return tqdm_module
    if top == 'matplotlib':
        return null_module(name)
    if top == 'pathos':
        return pathos_module(name)


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name.split('.')[0] in STUBBED:
        if fromlist:
            m = _proxied(name)
            for f in fromlist:          # submodules named in "from x import sub"
                if f != '*' and name.split('.')[0] in ('numpy', 'scipy') or name == 'sympy':
                    try:
                        getattr(m, f)
                    except AttributeError:
                        sub = importlib.import_module(name + '.' + f)
                        m._over[f] = scipy_proxy(sub) if name.startswith('scipy') else sub
            return m
        if name.split('.')[0] in ('numpy', 'scipy', 'sympy'):
            importlib.import_module(name)
            if name.split('.')[0] == 'scipy' and '.' in name:
                parts = name.split('.')
                p = _proxied('scipy')
                cur = 'scipy'
                for q in parts[1:]:
                    cur += '.' + q
                    p._over[q] = _proxied(cur)
                    p = p._over[q]
        return _proxied(name.split('.')[0])
    return builtins.__import__(name, globals, locals, fromlist, level)


def _round(x, n=None):
    if type(x) is Sym:
        return x.round(n or 0)
    return builtins.round(x) if n is None else builtins.round(x, n)


def _sum(it, start=0):
    vals = list(it)
    if vals and all(type(v) is Sym for v in vals):
        return symsum(vals + [lift(start)])
    return builtins.sum(vals, start)


def _int(*a, **k):
    if len(a) == 1 and type(a[0]) is Sym:
        return a[0].__int__()
    return builtins.int(*a, **k)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, x):
        return issubclass(x, builtins.int)

    def __call__(cls, *a, **k):
        return _int(*a, **k)

    def __eq__(cls, other):
        return other is cls or other is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


def make_builtins():
    b = dict(builtins.__dict__)
    b['__import__'] = sym_import
    b['float'] = FloatType
    b['isinstance'] = _isinstance
    b['print'] = lambda *a, **k: None
    b['round'] = _round
    b['sum'] = _sum
    return b


SYM_BUILTINS = make_builtins()


class SymLoader(importlib.abc.Loader):
    def __init__(self, real):
        self.real = real

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__['__builtins__'] = SYM_BUILTINS
        path = self.real.path
        with open(path, 'rb') as f:
            src = f.read()
        code = compile(src, path, 'exec', dont_inherit=True)
        ENCODED_FILES[path] = src
        exec(code, module.__dict__)

    def get_source(self, name):
        return self.real.get_source(name)


ENCODED_FILES = {}


class SymFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != PACKAGE and not fullname.startswith(PACKAGE + '.'):
            return None
        repo = os.environ.get('VERIF_REPO', '/repo')
        parts = fullname.split('.')
        base = os.path.join(repo, *parts)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            loc, sub = os.path.join(base, '__init__.py'), [base]
        elif os.path.exists(base + '.py'):
            loc, sub = base + '.py', None
        else:
            return None
        real = importlib.machinery.SourceFileLoader(fullname, loc)
        spec = importlib.util.spec_from_loader(fullname, SymLoader(real), origin=loc, is_package=sub is not None)
        if sub:
            spec.submodule_search_locations = sub
        spec.has_location = True
        return spec


def load_symbolic():
    """imports bayesloop for symbolic execution"""
    import importlib.machinery  # noqa
    if PACKAGE in sys.modules:
        raise RuntimeError('package already imported')
    sys.meta_path.insert(0, SymFinder())
    return importlib.import_module(PACKAGE)

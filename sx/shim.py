"""Load the real source of the `interpolation` package from /repo and run it on
symbolic values.

The modules are compiled from the current files.  They run with a replacement
`__builtins__` whose `__import__` hands out thin stand-ins for numpy, math,
scipy.linalg and numba: numpy arrays of floats become arrays of exact symbolic
values, `numba.njit` leaves the Python function as is and `numba.extending.
overload` is resolved on the real numba types of the arguments, as the compiler
does.
"""
import sys, os, types, builtins, inspect, math, importlib
import numpy as np
import numba
from numba.core import types as nt
import numba.extending
from .core import *
from .core import _lift, pick as core_pick
import z3
from . import core
from .arrays import SymArray, AbsArray, mk, filled, uninit, asarr, lift, dkind, _intify, reduce_minmax, _clip, OutOfBounds, RowArray, MonoArray, isobj, raw_dtype, all_of, MANY

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'interpolation'


# --------------------------------------------------------------- builtins
class _MetaFloat(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.k == 'f') or isinstance(x, HF)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class Float(metaclass=_MetaFloat):
    _shim = 'f'

    def __new__(cls, x=0.0):
        if isinstance(x, HF):
            return x
        if isinstance(x, Sym):
            return x.asfloat()
        if isinstance(x, SymBool):
            return Sym.of(1.0 if bool(x) else 0.0)
        if isinstance(x, np.ndarray) and isobj(x):
            return Float(x.item())
        return float(x)


class _MetaInt(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Sym) and x.k == 'i')

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class Int(metaclass=_MetaInt):
    _shim = 'i'

    def __new__(cls, x=0, *a):
        if isinstance(x, (Sym, HF)):
            r = sym_int(x)
            return r
        if isinstance(x, SymBool):
            return 1 if bool(x) else 0
        if isinstance(x, np.ndarray) and isobj(x):
            return Int(x.item())
        return int(x, *a)


class SymRange:
    """range with a symbolic bound: the loop body is run once, for an arbitrary
    index in the range (row-generic abstraction)."""


def s_range(*args):
    args = [a if not isinstance(a, Sym) else (int(a.const()) if a.const() is not None and a.k == 'i' else a) for a in args]
    if any(isinstance(a, Sym) for a in args):
        if any(a.k != 'i' for a in args if isinstance(a, Sym)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        c = ctx()
        h = getattr(c, 'focus', None)
        if len(args) == 1 and h is not None:
            return h(args[0])
        # bounded number of iterations: enumerate the bound
        lo, hi, st = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
        if isinstance(lo, Sym) or isinstance(st, Sym):
            raise Unsupported('symbolic range start')
        return _enum_range(lo, hi, st)
    return range(*[int(a) if isinstance(a, np.integer) else a for a in args])


def _enum_range(lo, hi, st):
    i = lo
    while bool(hi > i) if st > 0 else bool(hi < i):
        yield i
        i += st
        if abs(i - lo) > 64:
            raise Unsupported('symbolic loop bound')


def s_len(x):
    if isinstance(x, AbsArray):
        return x.shape[0]
    return len(x)


def s_abs(x):
    return abs(x)


def s_print(*a, **k):
    return None


def s_isinstance(x, t):
    if isinstance(t, tuple):
        return any(s_isinstance(x, u) for u in t)
    if t is np.ndarray and isinstance(x, AbsArray):
        return True
    if isinstance(x, Sym) and t in (np.floating, np.float64):
        return x.k == 'f'
    return isinstance(x, t)


def s_minmax(ismin):
    native = min if ismin else max

    def f(*args, **kw):
        items = list(args[0]) if len(args) == 1 else list(args)
        if kw or not items:
            return native(*args, **kw)
        if any(isinstance(e, HF) for e in items):
            return HF()
        if any(isinstance(e, Sym) and e.const() is None for e in items):
            c = ctx()
            if c.havoc and all(isinstance(e, int) or (isinstance(e, Sym) and e.k == 'i') for e in items):
                # one value for both outcomes: fewer paths
                r = c.fresh_int('mm')
                for e in items:
                    c.add(SymBool.of(r <= e) if ismin else SymBool.of(r >= e))
                c.add(z3.Or(*[SymBool.of(r == e) for e in items]))
                return r
            r = items[0]
            for e in items[1:]:
                r = core_pick(r, e, ismin)
            return r
        return native(*items)
    return f


def s_round(x, *a):
    if isinstance(x, Sym):
        c = x.const()
        if c is not None:
            return Sym.of(round(c, *a)) if a else Sym.of(round(c))
        if a:
            raise Unsupported('round')
        f = sym_floor(x + Fraction(1, 2), 'i')
        return f
    return round(x, *a)


def s_pow(a, b, *m):
    return pow(a, b, *m)


def s_sum(it, start=0):
    if isinstance(it, SymArray):
        it = list(it)
    return sum(it, start)


# ------------------------------------------------------------------ numpy
def has_sym(x):
    if isinstance(x, (Sym, HF, SymBool, SymArray, AbsArray)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


def order_of(k):
    o = k.get('order', 'C')
    return o if o in ('C', 'F') else 'C'


def symrows(shape, init, name):
    """Array of symbolic length, or None if the shape is concrete."""
    sh = shape if isinstance(shape, (tuple, list)) else (shape,)
    if not any(isinstance(e, Sym) and e.const() is None for e in sh):
        return None
    c = ctx()
    c.nfresh += 1
    return RowArray('%s%d' % (name, c.nfresh), tuple(e if isinstance(e, Sym) and e.const() is None else int(e) for e in sh), init)


def n_zeros(shape, dtype=None, **k):
    kd = dkind(dtype) or 'f'
    r = symrows(shape, 0.0, 'zeros')
    if r is not None:
        return r
    if kd != 'f':
        return np.zeros(_intify(shape), dtype=np.int64 if kd == 'i' else bool)
    return filled(shape, 0.0, 'f', order_of(k))


def n_ones(shape, dtype=None, **k):
    kd = dkind(dtype) or 'f'
    if kd != 'f':
        return np.ones(_intify(shape), dtype=np.int64 if kd == 'i' else bool)
    return filled(shape, 1.0, 'f', order_of(k))


def n_empty(shape, dtype=None, **k):
    kd = dkind(dtype) or 'f'
    r = symrows(shape, 'uninit', 'empty')
    if r is not None:
        return r
    if kd != 'f':
        return np.zeros(_intify(shape), dtype=np.int64 if kd == 'i' else bool)
    return uninit(shape, 'f', order_of(k))


def n_full(shape, v, dtype=None, **k):
    kd = dkind(dtype)
    if kd is None:
        l = lift(v)
        kd = l.k if isinstance(l, (Sym, HF)) else 'f'
    if kd == 'i' and not isinstance(v, Sym):
        return np.full(_intify(shape), v, dtype=np.int64)
    return filled(shape, v, kd, order_of(k))


def _like(fn):
    def f(a, dtype=None, shape=None, **k):
        if isinstance(a, SymArray):
            kd = dkind(dtype) or a.kind
            o = 'F' if (a.ndim > 1 and a.flags.f_contiguous and not a.flags.c_contiguous) else 'C'
            return fn(shape if shape is not None else a.shape, dtype=np.float64 if kd == 'f' else np.int64, order=o)
        if isinstance(a, AbsArray):
            raise Unsupported('like of symbolic shape')
        a = np.asarray(a)
        return fn(shape if shape is not None else a.shape, dtype=dtype if dtype is not None else a.dtype)
    return f


def n_array(x, dtype=None, copy=True, order=None, ndmin=0, **k):
    if isinstance(x, str) or (isinstance(x, (list, tuple)) and x and all(isinstance(e, str) for e in x)):
        return np.array(x)
    if isinstance(x, AbsArray):
        return x
    kd = dkind(dtype)
    if isinstance(x, np.ndarray) and raw_dtype(x).kind in 'SUO' and not isinstance(x, SymArray):
        return np.array(x)
    if isinstance(x, (list, tuple)) and x and all(isinstance(e, range) for e in x):
        x = [list(e) for e in x]
    r = mk(x if not isinstance(x, range) else list(x), kd, order=order if order in ('C', 'F') else None)
    while r.ndim < ndmin:
        r = r[None]
    return r


def n_asarray(x, dtype=None, order=None, **k):
    kd = dkind(dtype)
    if isinstance(x, AbsArray):
        return x
    if isinstance(x, SymArray) and (kd is None or kd == x.kind):
        if order in ('C', 'F') and not x.flags[order + '_CONTIGUOUS']:
            return mk(x, kd, order=order)
        return x
    if isinstance(x, np.ndarray) and not isobj(x) and x.dtype.kind in 'iub' and kd in (None, 'i'):
        return x
    return n_array(x, dtype=dtype, order=order)


def n_ascontiguous(x, dtype=None):
    kd = dkind(dtype)
    if isinstance(x, AbsArray):
        return x
    if isinstance(x, SymArray) and (kd is None or kd == x.kind):
        if x.flags.c_contiguous:
            return x
        a = np.array(np.asarray(x, dtype=object), dtype=object, order='C').view(SymArray)
        a.kind = x.kind
        return a
    r = n_array(x, dtype=dtype)
    if isinstance(r, SymArray) and not r.flags.c_contiguous:
        return n_ascontiguous(r)
    return r


def n_asfortran(x, dtype=None):
    r = n_asarray(x, dtype)
    a = np.array(np.asarray(r, dtype=object), dtype=object, order='F').view(SymArray)
    a.kind = r.kind
    return a


def n_linspace(a, b, num=50, endpoint=True, dtype=None, **k):
    if isinstance(num, Sym):
        num = int(num)
    if isinstance(num, np.ndarray):
        num = num.item() if num.ndim == 0 else (_ for _ in ()).throw(TypeError('only 0-dimensional arrays can be converted to Python scalars'))
    num = int(num)
    if isinstance(a, np.ndarray) and a.ndim or isinstance(b, np.ndarray) and b.ndim:
        a, b = mk(a, 'f'), mk(b, 'f')
        rows = []
        for i in range(num):
            rows.append(a + (b - a) * Fraction(i, (num - 1 if endpoint else num) or 1))
        return asarr(np.stack(rows), 'f')
    a, b = lift(a, 'f'), lift(b, 'f')
    div = (num - 1) if endpoint else num
    out = []
    for i in range(num):
        if i == 0:
            out.append(a)
        elif endpoint and i == num - 1:
            out.append(b)
        elif isinstance(a, FT) or isinstance(b, FT):
            out.append((b - a) / div * i + a)
        else:
            out.append(a + (b - a) * Fraction(i, div))
    r = np.empty(num, dtype=object)
    for i, e in enumerate(out):
        r[i] = e
    return asarr(r, 'f')


def n_arange(*args, **k):
    dt = k.get('dtype')
    vals = [lift(a) for a in args]
    if all(v.k == 'i' for v in vals) and dkind(dt) in (None, 'i'):
        return np.arange(*[int(v) for v in vals])
    cs = [v.const() for v in vals]
    if any(c is None for c in cs):
        raise Unsupported('symbolic arange')
    lo, hi, st = (0, cs[0], 1) if len(cs) == 1 else (cs[0], cs[1], cs[2] if len(cs) > 2 else 1)
    out = []
    x = lo
    while x < hi:
        out.append(Sym.of(Fraction(x)).asfloat())
        x += st
    return mk(out, 'f') if out else n_zeros(0)


def n_searchsorted(a, v, side='left', sorter=None):
    if isinstance(v, np.ndarray) and v.ndim:
        return np.array([n_searchsorted(a, e, side) for e in v])
    if isinstance(a, (list, tuple)):
        a = mk(a)
    if isinstance(a, MonoArray) and isinstance(v, (Sym, int, float, np.number)):
        return a.search(v, side == 'left')
    if isinstance(v, HF) or isinstance(a, AbsArray) or (len(a) and isinstance(a[0], HF)):
        n = a.shape[0]
        return ctx().fresh_int('ss', 0, n)
    if not has_sym(a) and not has_sym(v):
        return np.searchsorted(a, v, side)
    n = a.shape[0]
    i = 0
    while i < n:
        e = a[i]
        if bool(e < v) if side == 'left' else bool(e <= v):
            i += 1
        else:
            break
    return i


def elementwise(f):
    u = np.frompyfunc(f, 1, 1)

    def g(x, out=None, **k):
        if isinstance(x, (list, tuple)):
            x = mk(x)
        if isinstance(x, np.ndarray):
            r = u(np.asarray(x, dtype=object))
            if isinstance(r, np.ndarray):
                r = r.astype(bool) if r.size and all(type(e) is bool for e in r.flat) else asarr(r)
            if out is not None:
                out[...] = r
                return out
            return r
        return f(x)
    return g


def elementwise2(f):
    u = np.frompyfunc(f, 2, 1)

    def g(x, y, out=None, **k):
        if isinstance(x, (list, tuple)):
            x = mk(x)
        if isinstance(y, (list, tuple)):
            y = mk(y)
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            X = np.asarray(x, dtype=object) if isinstance(x, np.ndarray) else np.array(x, dtype=object)
            Y = np.asarray(y, dtype=object) if isinstance(y, np.ndarray) else np.array(y, dtype=object)
            r = u(X, Y)
            r = asarr(r) if isinstance(r, np.ndarray) else r
            if out is not None:
                out[...] = r
                return out
            return r
        return f(x, y)
    return g


def _floor1(x):
    if isinstance(x, HF):
        return HF()
    if isinstance(x, Sym):
        return sym_floor(x, 'f')
    return math.floor(x) * 1.0


def _ceil1(x):
    return -_floor1(-x) if isinstance(x, (Sym, HF)) else float(math.ceil(x))


def _trunc1(x):
    if isinstance(x, HF):
        return HF()
    x = lift(x)
    return _floor1(x) if bool(x >= 0) else _ceil1(x)


def _min2(a, b):
    return core_pick(a, b, True) if isinstance(a, Sym) or isinstance(b, Sym) else (b if bool(b < a) else a)


def _max2(a, b):
    return core_pick(a, b, False) if isinstance(a, Sym) or isinstance(b, Sym) else (b if bool(b > a) else a)


def _isfinite1(x):
    if isinstance(x, core.NF):
        return False
    if isinstance(x, HF):
        return SymBool(ctx().fresh_bool())
    if isinstance(x, Sym):
        return getattr(ctx(), 'finite', True)
    return math.isfinite(x)


def _isinf1(x):
    if isinstance(x, core.NF):
        return x.w == x.w
    if isinstance(x, HF):
        return SymBool(ctx().fresh_bool())
    if isinstance(x, Sym):
        return False
    return math.isinf(x)


def _isnan1(x):
    if isinstance(x, core.NF):
        return x.w != x.w
    if isinstance(x, HF):
        return SymBool(ctx().fresh_bool())
    if isinstance(x, Sym):
        return False
    return math.isnan(x)


def _floatfn(fn):
    def f(x):
        if isinstance(x, HF):
            return HF()
        x = lift(x)
        c = x.const()
        if c is None:
            raise Unsupported('transcendental function of a symbolic value')
        return Sym.of(fn(float(c)))
    return f


def _sqrt1(x):
    if isinstance(x, HF):
        return HF()
    x = lift(x)
    c = x.const()
    if c is not None:
        c = Fraction(c)
        r = Fraction(math.isqrt(c.numerator), 1)
        return Sym.of(math.sqrt(float(c)))
    raise Unsupported('sqrt of a symbolic value')


def _sign1(x):
    x = lift(x)
    return Sym.of(1.0) if bool(x > 0) else (Sym.of(-1.0) if bool(x < 0) else Sym.of(0.0))


def n_all(x, axis=None, **k):
    if isinstance(x, (Sym, SymBool)):
        return bool(x)
    if isinstance(x, np.ndarray) and not isobj(x):
        return np.all(x, axis=axis)
    if isinstance(x, (list, tuple)) and not has_sym(x):
        return np.all(x)
    return all_of(np.ravel(np.asarray(x, dtype=object)))


def n_any(x, axis=None, **k):
    if isinstance(x, (Sym, SymBool)):
        return bool(x)
    if isinstance(x, np.ndarray) and not isobj(x):
        return np.any(x, axis=axis)
    if isinstance(x, (list, tuple)) and not has_sym(x):
        return np.any(x)
    return not all_of([~e if isinstance(e, SymBool) else not bool(e) for e in np.ravel(np.asarray(x, dtype=object))])


def n_minmax(ismin):
    def f(x, axis=None, **k):
        if isinstance(x, AbsArray):
            if x.havoc:
                return HF()
            if isinstance(x, MonoArray):
                return x.at(0) if ismin else x.at(Sym.of(x.shape[0]) - 1)
            raise Unsupported('min of symbolic shape')
        if isinstance(x, (list, tuple)):
            x = mk(x)
        if isinstance(x, SymArray):
            if x.size and isinstance(x.ravel()[0], HF) and not isinstance(x.ravel()[0], (core.NF, core.FT)):
                return HF()
            return reduce_minmax(x, ismin, axis)
        return (np.min if ismin else np.max)(x, axis=axis)
    return f


def n_where(c, *ab):
    if not ab:
        if isinstance(c, np.ndarray) and not isobj(c):
            return np.where(c)
        m = np.array([bool(e) for e in np.ravel(c)], dtype=bool).reshape(np.shape(c))
        return np.where(m)
    a, b = ab
    if isinstance(c, (bool, np.bool_, SymBool, Sym)):
        return a if bool(c) else b
    A, B = np.broadcast_arrays(np.array(a, dtype=object), np.array(b, dtype=object))
    C = np.broadcast_to(np.asarray(c), np.broadcast_shapes(np.shape(c), A.shape))
    A = np.broadcast_to(A, C.shape)
    B = np.broadcast_to(B, C.shape)
    out = np.empty(C.shape, dtype=object)
    for j in np.ndindex(C.shape):
        out[j] = lift(A[j] if bool(C[j]) else B[j])
    return asarr(out)


def n_clip(x, lo, hi, **k):
    if isinstance(x, np.ndarray):
        return mk(x).clip(lo, hi) if not np.ndim(lo) and not np.ndim(hi) else n_minimum(n_maximum(x, lo), hi)
    return _clip(x, lo, hi)


n_minimum = elementwise2(_min2)
n_maximum = elementwise2(_max2)


def _abs_nofork(e):
    if not isinstance(e, Sym) or e.const() is not None:
        return abs(e)
    c = ctx()
    if c.recorded(lambda: c.entails(SymBool.of(e >= 0))):
        return e
    if c.recorded(lambda: c.entails(SymBool.of(e <= 0))):
        return -e
    return c.fresh_abs(e)


def n_abs(x):
    if isinstance(x, np.ndarray):
        if not isobj(x):
            return np.abs(x)
        if not ctx().havoc and sum(isinstance(e, Sym) and e.const() is None for e in x.ravel()) > MANY:
            return elementwise(_abs_nofork)(x)
        return elementwise(abs)(x)
    return abs(x)


def n_ndim(x):
    if isinstance(x, (SymArray, AbsArray)):
        return x.ndim
    if isinstance(x, (Sym, HF)):
        return 0
    return np.ndim(x)


def n_shape(x):
    if isinstance(x, AbsArray):
        return x.shape
    return np.shape(x)


def n_atleast(k):
    def f(*xs):
        r = []
        for x in xs:
            x = n_asarray(x)
            if k == 1 and x.ndim == 0:
                x = x.reshape(1)
            if k == 2:
                if x.ndim == 0:
                    x = x.reshape(1, 1)
                elif x.ndim == 1:
                    x = x[None, :]
            r.append(x)
        return r[0] if len(r) == 1 else r
    return f


def n_count_nonzero(x, **k):
    return sum(1 for e in np.ravel(x) if bool(e != 0))


def n_meshgrid(*xs, indexing='xy', **k):
    r = np.meshgrid(*[np.asarray(n_asarray(x), dtype=object) for x in xs], indexing=indexing, **k)
    return [asarr(a) for a in r]


def n_floor_divide(a, b):
    return a // b


def n_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    A, B = np.broadcast_arrays(np.asarray(n_asarray(a), dtype=object), np.asarray(n_asarray(b), dtype=object))
    conds = []
    for x, y in zip(A.ravel(), B.ravel()):
        x, y = lift(x, 'f'), lift(y, 'f')
        r, t = lift(rtol, 'f'), lift(atol, 'f')
        d = x - y
        if any(isinstance(e, HF) for e in (d, r, t, y)):
            conds.append(abs(d) <= t + r * abs(y))
            continue
        if d.const() == 0:
            continue
        # |x - y| <= atol + rtol * |y|
        u, v = t + r * y, t - r * y
        f = SymBool.of
        conds.append(SymBool(z3.Or(z3.And(f(d <= u), f(-d <= u)), z3.And(f(d <= v), f(-d <= v)))))
    return all_of(conds)


def n_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
        return n_allclose(a, b, rtol, atol)
    A, B = np.broadcast_arrays(np.asarray(n_asarray(a), dtype=object), np.asarray(n_asarray(b), dtype=object))
    return np.array([n_allclose(x, y, rtol, atol) for x, y in zip(A.ravel(), B.ravel())], dtype=bool).reshape(A.shape)


def n_isscalar(x):
    return isinstance(x, (Sym, HF)) or np.isscalar(x)


def n_array_equal(a, b, **k):
    a, b = n_asarray(a), n_asarray(b)
    if a.shape != b.shape:
        return False
    return all_of(list((np.asarray(a, dtype=object) == np.asarray(b, dtype=object)).ravel()) if a.size else [])


def n_iterstack(fn):
    def f(xs, *a, **k):
        xs = [n_asarray(x) for x in xs]
        if any(isinstance(x, SymArray) for x in xs):
            xs = [mk(x, 'f') if not isinstance(x, SymArray) else x for x in xs]
            k.pop('dtype', None)
        r = fn([np.asarray(x) for x in xs], *a, **k)
        return asarr(r)
    return f


def n_vander_unsupported(*a, **k):
    raise Unsupported('numpy function')


def n_unique(x, **k):
    if has_sym(x):
        raise Unsupported('unique of symbolic values')
    return np.unique(x, **k)


def n_sort(x, **k):
    if isinstance(x, SymArray):
        import functools
        if x.ndim != 1:
            raise Unsupported('sort')
        l = sorted(list(x), key=functools.cmp_to_key(lambda a, b: -1 if bool(a < b) else (1 if bool(a > b) else 0)))
        return mk(l, x.kind)
    return np.sort(x, **k)


def n_diff(x, n=1, axis=-1):
    x = n_asarray(x)
    if x.ndim == 1 and n == 1:
        return x[1:] - x[:-1]
    raise Unsupported('diff')


def n_float64(x=0.0):
    return Float(x)


class _NF64(metaclass=_MetaFloat):
    _shim = 'f'

    def __new__(cls, x=0.0):
        if isinstance(x, (list, tuple, np.ndarray)):
            return mk(x, 'f')
        return Float(x)


class _NI64(metaclass=_MetaInt):
    _shim = 'i'

    def __new__(cls, x=0):
        return Int(x)


def n_einsum(spec, *ops, **k):
    k.pop('optimize', None)
    ops = [np.asarray(n_asarray(o), dtype=object) for o in ops]
    return asarr(np.einsum(spec, *ops))


def n_interp(*a, **k):
    raise Unsupported('np.interp')


NP = dict(
    zeros=n_zeros, ones=n_ones, empty=n_empty, full=n_full,
    zeros_like=_like(n_zeros), ones_like=_like(n_ones), empty_like=_like(n_empty),
    full_like=lambda a, v, **k: n_full(np.shape(a), v, dtype=k.get('dtype') or (np.float64 if isinstance(a, SymArray) and a.kind == 'f' else None)),
    array=n_array, asarray=n_asarray, asanyarray=n_asarray, ascontiguousarray=n_ascontiguous, asfortranarray=n_asfortran,
    linspace=n_linspace, arange=n_arange, searchsorted=n_searchsorted,
    floor=elementwise(_floor1), ceil=elementwise(_ceil1), trunc=elementwise(_trunc1), fix=elementwise(_trunc1),
    minimum=n_minimum, maximum=n_maximum, fmin=n_minimum, fmax=n_maximum,
    min=n_minmax(True), max=n_minmax(False), amin=n_minmax(True), amax=n_minmax(False),
    isfinite=elementwise(_isfinite1), isnan=elementwise(_isnan1), isinf=elementwise(_isinf1),
    cos=elementwise(_floatfn(math.cos)), sin=elementwise(_floatfn(math.sin)), exp=elementwise(_floatfn(math.exp)),
    log=elementwise(_floatfn(math.log)), arccos=elementwise(_floatfn(math.acos)), sqrt=elementwise(_sqrt1), sign=elementwise(_sign1),
    all=n_all, any=n_any, where=n_where, clip=n_clip, abs=n_abs, absolute=n_abs, fabs=n_abs,
    ndim=n_ndim, shape=n_shape, atleast_1d=n_atleast(1), atleast_2d=n_atleast(2), count_nonzero=n_count_nonzero,
    meshgrid=n_meshgrid, floor_divide=n_floor_divide, allclose=n_allclose, isclose=n_isclose, isscalar=n_isscalar, array_equal=n_array_equal,
    vstack=n_iterstack(np.vstack), hstack=n_iterstack(np.hstack), stack=n_iterstack(np.stack),
    row_stack=n_iterstack(np.vstack), column_stack=n_iterstack(np.column_stack), concatenate=n_iterstack(np.concatenate),
    unique=n_unique, sort=n_sort, diff=n_diff, einsum=n_einsum, interp=n_interp,
    float64=_NF64, float_=_NF64, double=_NF64, int64=_NI64, int_=_NI64, intp=_NI64, ndarray=np.ndarray,
)


class Proxy(types.ModuleType):
    def __init__(self, real, table, sub=None):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_sub'] = sub or {}

    def __getattr__(self, n):
        t = self.__dict__['_table']
        if n in t:
            return t[n]
        s = self.__dict__['_sub']
        if n in s:
            return s[n]
        v = getattr(self.__dict__['_real'], n)
        if callable(v) and not isinstance(v, type) and self.__dict__['_real'] is np:
            return _guard(v)
        return v


def _guard(fn):
    """numpy function not modelled explicitly: works on object arrays or is
    reported as not encodable."""
    def f(*a, **k):
        try:
            r = fn(*a, **k)
        except (TypeError, ValueError, AttributeError) as e:
            if any(has_sym(x) for x in a):
                raise Unsupported('numpy.%s on symbolic values (%s)' % (getattr(fn, '__name__', '?'), e))
            raise
        if isinstance(r, np.ndarray) and isobj(r):
            return asarr(r)
        if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            return mk(r, 'f')
        return r
    f.__name__ = getattr(fn, '__name__', 'f')
    return f


# ----------------------------------------------------------- linear algebra
def _frac_mat(a):
    a = np.asarray(a)
    out = []
    for row in a:
        r = []
        for e in row:
            c = lift(e).const() if not isinstance(e, HF) else None
            if c is None:
                return None
            r.append(Fraction(c))
        out.append(r)
    return out


def exact_solve(A, B):
    """A x = B with constant rational A, symbolic B (list of rows)."""
    n = len(A)
    A = [list(r) for r in A]
    B = [list(r) for r in B]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(A[i][c]))
        if A[p][c] == 0:
            raise np.linalg.LinAlgError('Singular matrix')
        A[c], A[p] = A[p], A[c]
        B[c], B[p] = B[p], B[c]
        inv = 1 / A[c][c]
        for i in range(n):
            if i != c and A[i][c] != 0:
                f = A[i][c] * inv
                Ai, Ac = A[i], A[c]
                for j in range(c, n):
                    if Ac[j]:
                        Ai[j] -= f * Ac[j]
                fs = Sym.of(f)
                B[i] = [x - fs * y for x, y in zip(B[i], B[c])]
    return [[x * Sym.of(1 / A[i][i]) for x in B[i]] for i in range(n)]


def la_solve(a, b, *args, **k):
    a0, b0 = a, b
    r = _solve(a, b)
    if k.get('overwrite_a'):
        _overwritten(a0)
    if k.get('overwrite_b'):
        _overwritten(b0)
    return r


def _solve(a, b):
    a, b = n_asarray(a), n_asarray(b)
    A = _frac_mat(a)
    if a.shape[0] != a.shape[1] or a.shape[0] != b.shape[0]:
        raise ValueError('shape')
    if A is None:
        if a.shape[0] > 3:
            raise Unsupported('solve with symbolic matrix')
        return _sym_normal(a, b)
    B = [[lift(e, 'f') for e in np.ravel(r)] for r in b] if b.ndim > 1 else [[lift(e, 'f')] for e in b]
    X = exact_solve(A, B)
    r = mk(X, 'f')
    return r.reshape(b.shape)


def _sym_normal(a, b):
    """Least squares with a symbolic matrix of at most three columns, through
    the normal equations and Cramer's rule."""
    m, n = a.shape
    A = [[lift(e, 'f') for e in r] for r in a]
    Bm = [[lift(e, 'f') for e in np.ravel(r)] for r in b] if b.ndim > 1 else [[lift(e, 'f')] for e in b]
    if m != n:
        G = [[sum((A[t][i] * A[t][j] for t in range(m)), Sym.of(0.0)) for j in range(n)] for i in range(n)]
        R = [[sum((A[t][i] * Bm[t][c] for t in range(m)), Sym.of(0.0)) for c in range(len(Bm[0]))] for i in range(n)]
    else:
        G, R = A, Bm

    def det(M):
        if len(M) == 1:
            return M[0][0]
        r = Sym.of(0.0)
        for j in range(len(M)):
            t = M[0][j] * det([row[:j] + row[j + 1:] for row in M[1:]])
            r = r + t if j % 2 == 0 else r - t
        return r
    D = det(G)
    if bool(D == 0):
        raise Unsupported('least squares with a singular matrix')
    X = [[det([G[r][:i] + [R[r][c]] + G[r][i + 1:] for r in range(n)]) / D for c in range(len(R[0]))] for i in range(n)]
    return mk(X, 'f').reshape((n,) + b.shape[1:])


def _overwritten(x):
    """LAPACK works in a Fortran-ordered array of doubles in place if it is told so."""
    if isinstance(x, SymArray) and x.kind == 'f' and x.flags.writeable and x.flags.f_contiguous:
        c = ctx()
        for j in np.ndindex(x.shape):
            c.nfresh += 1
            x[j] = c.sym(c.new_var('overwritten%d' % c.nfresh, 'r', role='uninit'))


def la_lstsq(a, b, cond=None, overwrite_a=False, overwrite_b=False, check_finite=True, lapack_driver=None, rcond=None, **k):
    """Exact least squares for full-column-rank matrices; with a given cut-off,
    directions with smaller singular values are dropped as the library does."""
    a0, b0 = a, b
    a, b = n_asarray(a), n_asarray(b)
    m, n = a.shape
    if b.shape[0] != m:
        raise ValueError('incompatible dimensions')
    cut = cond if cond is not None else rcond if rcond not in (None, -1) else None
    A = _frac_mat(a)
    if A is None:
        if n > 3 or (n == 3 and m > 3) or cut is not None:
            raise Unsupported('least squares with symbolic matrix')
        X = _sym_normal(a, b)
    else:
        AtA = [[sum(A[t][i] * A[t][j] for t in range(m)) for j in range(n)] for i in range(n)]
        Bm = [[lift(e, 'f') for e in np.ravel(r)] for r in b] if b.ndim > 1 else [[lift(e, 'f')] for e in b]
        P = None
        if cut is not None:
            Af = np.array([[float(x) for x in r] for r in A])
            sv = np.linalg.svd(Af, compute_uv=False)
            if sv[-1] <= float(cut) * sv[0]:
                P = np.linalg.pinv(Af, rcond=float(cut))
        if P is None:
            W = [[A[t][i] for t in range(m)] for i in range(n)]
        else:
            W = [[Fraction(float(x)) for x in r] for r in P]
        AtB = []
        for i in range(n):
            row = []
            for c in range(len(Bm[0])):
                s = Sym.of(0.0)
                for t in range(m):
                    if W[i][t]:
                        s = s + Sym.of(W[i][t]) * Bm[t][c]
                row.append(s)
            AtB.append(row)
        X = mk(exact_solve(AtA, AtB) if P is None else AtB, 'f').reshape((n,) + b.shape[1:])
    if overwrite_a:
        _overwritten(a0)
    if overwrite_b:
        _overwritten(b0)
    return X, n_zeros(0), n, n_zeros(n)


def la_lu(a, permute_l=False, overwrite_a=False, **k):
    A = _frac_mat(n_asarray(a))
    if overwrite_a:
        _overwritten(a)
    if A is None:
        raise Unsupported('lu of symbolic matrix')
    n = len(A)
    perm = list(range(n))
    L = [[Fraction(0)] * n for _ in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda i: abs(A[i][c]))
        A[c], A[p] = A[p], A[c]
        L[c], L[p] = L[p], L[c]
        perm[c], perm[p] = perm[p], perm[c]
        L[c][c] = Fraction(1)
        if A[c][c] == 0:
            continue
        for i in range(c + 1, n):
            f = A[i][c] / A[c][c]
            L[i][c] = f
            if f:
                for j in range(c, n):
                    A[i][j] -= f * A[c][j]
    PL = [None] * n
    for i in range(n):
        PL[perm[i]] = L[i]
    mkf = lambda M: mk([[Sym.of(e).asfloat() for e in r] for r in M], 'f')
    if permute_l:
        return mkf(PL), mkf(A)
    P = [[Fraction(1 if perm[j] == i else 0) for j in range(n)] for i in range(n)]
    return mkf(P), mkf(L), mkf(A)


def la_inv(a, **k):
    a = n_asarray(a)
    return la_solve(a, n_eye(a.shape[0]))


def n_eye(n, *a, **k):
    return mk(np.eye(int(n)), 'f')


NP['eye'] = NP['identity'] = n_eye
LA = dict(solve=la_solve, inv=la_inv, lstsq=la_lstsq, lu=la_lu)


# ------------------------------------------------------------------- numba
def s_typeof(x):
    if isinstance(x, (Sym, HF)):
        return nt.float64 if x.k == 'f' else nt.int64
    if isinstance(x, SymBool):
        return nt.boolean
    if isinstance(x, SymArray):
        lay = 'C' if x.flags.c_contiguous else ('F' if x.flags.f_contiguous else 'A')
        return nt.Array(nt.float64 if x.kind == 'f' else nt.int64, x.ndim, lay, readonly=not x.flags.writeable)
    if isinstance(x, AbsArray):
        return nt.Array(nt.float64, x.ndim, x.layout)
    if isinstance(x, tuple):
        if hasattr(x, '_fields'):
            return numba.typeof(x)
        ts = [s_typeof(e) for e in x]
        if not ts:
            return numba.typeof(())
        return nt.Tuple(ts) if not all(t == ts[0] for t in ts) else nt.UniTuple(ts[0], len(ts))
    if isinstance(x, types.FunctionType) or isinstance(x, type) or callable(x):
        return nt.pyobject
    if isinstance(x, (list,)) and has_sym(x):
        return nt.List(s_typeof(x[0]))
    return numba.typeof(x)


def lit_type(x):
    if isinstance(x, (int, str)) and not isinstance(x, bool):
        return nt.literal(x)
    if isinstance(x, Sym) and x.k == 'i' and x.const() is not None:
        return nt.literal(int(x.const()))
    return s_typeof(x)


class TypingError(Exception):
    pass


DISPATCHERS = []


class Dispatcher:
    def __init__(self, name):
        DISPATCHERS.append(self)
        self.name = name
        self.impls = []
        self.cache = {}

    def __call__(self, args, kw):
        nl = [s_typeof(a) for a in args]
        nlk = {k: s_typeof(v) for k, v in kw.items()}
        li = [lit_type(a) for a in args]
        lik = {k: lit_type(v) for k, v in kw.items()}
        errs = []
        for j, (b, prefer) in enumerate(self.impls):
            order = [(nl, nlk), (li, lik)]
            if prefer:
                order.reverse()
            for (a, k) in order:
                key = (j, tuple(a), tuple(sorted(k.items(), key=lambda t: t[0])))
                try:
                    f = self.cache.get(key)
                    hit = f is not None
                except TypeError:
                    hit, key = False, None
                if not hit:
                    try:
                        inspect.signature(b).bind(*a, **k)
                        f = b(*a, **k)
                    except Unsupported:
                        raise
                    except Exception as e:
                        errs.append('%s: %s' % (type(e).__name__, e))
                        continue
                    if f is None:
                        continue
                    if key is not None:
                        self.cache[key] = f
                ctx_record(b, f)
                return f(*args, **kw)
        raise TypingError('no matching overload of %s (%s)' % (self.name, '; '.join(errs[:3])))


ENCODED = set()


def ctx_record(b, f):
    ENCODED.add('%s.%s' % (b.__module__, b.__name__))


def _tramp(*args, __d, **kw):
    return __d(args, kw)


def s_overload(func, **opts):
    disp = getattr(func, '__sx_disp__', None)
    if disp is None:
        disp = Dispatcher(getattr(func, '__name__', '?'))
        if isinstance(func, types.FunctionType):
            func.__code__ = _tramp.__code__
            func.__defaults__ = None
            func.__kwdefaults__ = {'__d': disp}
            func.__sx_disp__ = disp
        else:
            raise Unsupported('overload of %r' % (func,))

    def deco(b):
        disp.impls.append((b, bool(opts.get('prefer_literal'))))
        return b
    return deco


def s_jit(*args, **kw):
    if args and callable(args[0]) and not isinstance(args[0], nt.Type) and not isinstance(args[0], (str, numba.core.typing.templates.Signature)):
        return args[0]
    return lambda f: f


def s_literally(x):
    return x


def s_unsup(name):
    def f(*a, **k):
        raise Unsupported('numba.' + name)
    return f


NBX = dict(overload=s_overload, register_jitable=s_jit)
NB = dict(njit=s_jit, jit=s_jit, typeof=s_typeof, literally=s_literally, prange=s_range,
          vectorize=s_unsup('vectorize'), guvectorize=s_unsup('guvectorize'), literal_unroll=lambda x: x)


# ----------------------------------------------------------------- proxies
import numpy.linalg, scipy.linalg
np_linalg = Proxy(numpy.linalg, LA)
sp_linalg = Proxy(scipy.linalg, LA)
np_proxy = Proxy(np, NP, {'linalg': np_linalg})
nbx_proxy = Proxy(numba.extending, NBX)
nb_proxy = Proxy(numba, NB, {'extending': nbx_proxy})


def m_floor(x):
    return x.__floor__() if isinstance(x, (Sym, HF)) else math.floor(x)


def m_ceil(x):
    return x.__ceil__() if isinstance(x, (Sym, HF)) else math.ceil(x)


math_proxy = Proxy(math, dict(floor=m_floor, ceil=m_ceil, trunc=lambda x: sym_int(x) if isinstance(x, (Sym, HF)) else math.trunc(x),
                              isfinite=_isfinite1, isnan=_isnan1, isinf=_isinf1, fabs=abs, sqrt=_sqrt1,
                              cos=_floatfn(math.cos), sin=_floatfn(math.sin)))
import scipy
sp_proxy = Proxy(scipy, {}, {'linalg': sp_linalg})

PROX = {'numpy': np_proxy, 'numpy.linalg': np_linalg, 'scipy.linalg': sp_linalg, 'scipy': sp_proxy,
        'numba': nb_proxy, 'numba.extending': nbx_proxy, 'math': math_proxy}


# ------------------------------------------------------------------ loader
class Loader:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.state = []
        self.seen = {}
        self.depth = 0
        self.pending = []
        b = dict(vars(builtins))
        b.update(int=Int, float=Float, range=s_range, len=s_len, print=s_print, isinstance=s_isinstance,
                 round=s_round, sum=s_sum, min=s_minmax(True), max=s_minmax(False), __import__=self.imp)
        self.builtins = b

    def path(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        if os.path.isdir(p):
            return None, True
        raise ImportError('no module %s in %s' % (name, self.root))

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.path(name)
        m = types.ModuleType(name)
        m.__file__ = path or ''
        m.__package__ = name if ispkg else name.rsplit('.', 1)[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path) if path else os.path.join(self.root, *name.split('.'))]
        native = name.startswith(PKG + '.tempita')
        m.__dict__['__builtins__'] = dict(vars(builtins), __import__=self.imp) if native else self.builtins
        self.mods[name] = m
        self.depth += 1
        try:
            if path:
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                code = compile(src, path, 'exec', dont_inherit=True)
                try:
                    exec(code, m.__dict__)
                except BaseException:
                    self.mods.pop(name, None)
                    raise
            if '.' in name:
                p, s = name.rsplit('.', 1)
                setattr(self.mods[p], s, m)
            if not native:
                self.pending.append(m)
        finally:
            self.depth -= 1
        if not self.depth:
            for q in self.pending:
                self.remember(q.__dict__, True)
            self.pending = []
        return m

    # A path starts from the state the modules have after their import: what one
    # path (or task) leaves in module-level containers is not seen by the next.
    def remember(self, x, ns=False):
        if id(x) in self.seen or x is None or isinstance(x, (int, float, str, bytes, types.ModuleType, Dispatcher, Proxy, Loader)) or x is self.builtins:
            return
        own = str(getattr(x, '__module__', '')).startswith(PKG)
        if isinstance(x, dict):
            self.seen[id(x)] = x
            self.state.append(('ns' if ns else 'dict', x, dict(x)))
            for k, v in list(x.items()):
                if not (ns and isinstance(k, str) and k.startswith('__')):
                    self.remember(v)
        elif isinstance(x, (list, tuple)):
            self.seen[id(x)] = x
            if isinstance(x, list):
                self.state.append(('list', x, list(x)))
            for v in x:
                self.remember(v)
        elif isinstance(x, set):
            self.seen[id(x)] = x
            self.state.append(('set', x, set(x)))
        elif isinstance(x, np.ndarray):
            self.seen[id(x)] = x
            if x.flags.writeable:
                self.state.append(('array', x, np.array(np.asarray(x), copy=True)))
        elif isinstance(x, types.FunctionType):
            if own:
                self.seen[id(x)] = x
                self.state.append(('attrs', x, dict(x.__dict__)))
                for v in (x.__defaults__, x.__kwdefaults__, x.__dict__.get('__wrapped__')):
                    if isinstance(v, dict):
                        v = list(v.values())
                    self.remember(v)
                for c in x.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    self.state.append(('cell', c, v))
                    self.remember(v)
        elif isinstance(x, type):
            if own:
                self.seen[id(x)] = x
                names = {k: v for k, v in vars(x).items() if not k.startswith('__')}
                self.state.append(('class', x, names))
                for v in names.values():
                    for w in (getattr(v, 'fget', None), getattr(v, '__func__', None), v):
                        self.remember(w)
        elif callable(getattr(x, 'cache_clear', None)):
            self.seen[id(x)] = x
            self.state.append(('cache', x, None))
            self.remember(getattr(x, '__wrapped__', None))
        elif own and hasattr(x, '__dict__'):
            self.seen[id(x)] = x
            self.remember(x.__dict__)

    def reset(self):
        keep = (types.ModuleType, types.FunctionType, type)
        for kind, x, old in self.state:
            if kind == 'ns':
                for k, v in old.items():
                    if x.get(k, x) is not v and not isinstance(x.get(k), types.ModuleType):
                        x[k] = v
                if len(x) != len(old):
                    for k in [k for k in x if k not in old and not isinstance(x[k], keep)]:
                        del x[k]
            elif kind == 'dict':
                if len(x) != len(old) or any(x.get(k, x) is not v for k, v in old.items()):
                    x.clear()
                    x.update(old)
            elif kind == 'list':
                if len(x) != len(old) or any(p is not q for p, q in zip(x, old)):
                    x[:] = old
            elif kind == 'set':
                if x != old:
                    x.clear()
                    x.update(old)
            elif kind == 'array':
                np.asarray(x)[...] = old
            elif kind == 'attrs':
                d = x.__dict__
                for k in [k for k in d if k not in old and k != '__sx_disp__']:
                    del d[k]
                for k, v in old.items():
                    if d.get(k, d) is not v:
                        d[k] = v
            elif kind == 'cell':
                try:
                    if x.cell_contents is not old:
                        x.cell_contents = old
                except ValueError:
                    x.cell_contents = old
            elif kind == 'class':
                d = vars(x)
                for k, v in old.items():
                    if d.get(k, d) is not v:
                        setattr(x, k, v)
                if len(d) != len(old) + sum(k.startswith('__') for k in d):
                    for k in [k for k in d if k not in old and not k.startswith('__')]:
                        delattr(x, k)
            elif kind == 'cache':
                x.cache_clear()

    def forget_code(self):
        """specialisations made so far are made again, from the current source"""
        for d in DISPATCHERS:
            d.cache.clear()

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__']
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            full = '.'.join(base + ([name] if name else []))
        else:
            full = name
        if full == PKG or full.startswith(PKG + '.'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(full + '.' + f)
                        except ImportError as e:
                            raise ImportError('cannot import name %s from %s' % (f, full))
                return m
            return self.load(full.split('.')[0]) if level == 0 else m
        if full in PROX and fromlist:
            return PROX[full]
        top = full.split('.')[0]
        r = builtins.__import__(full, None, None, fromlist, 0)
        if not fromlist and top in PROX:
            return PROX[top]
        if fromlist and full.startswith('numpy'):
            return r
        return r

    def get(self, dotted):
        """Resolve 'a.b.c' to a module or attribute (attribute wins over a
        submodule of the same name)."""
        parts = dotted.split('.')
        m = self.load(parts[0])
        for i in range(1, len(parts)):
            name = '.'.join(parts[:i + 1])
            last = i == len(parts) - 1
            v = getattr(m, parts[i], None)
            if v is None or (not last and not isinstance(v, types.ModuleType) and not isinstance(v, type)):
                v = self.load(name)
            m = v
        return m


_LOADER = None


def loader():
    global _LOADER
    if _LOADER is None:
        _LOADER = Loader()
        # module-level code may build symbolic constants and take branches
        set_ctx(Ctx(Explorer(budget_s=600)))
    return _LOADER

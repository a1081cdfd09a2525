"""Symbolic arrays: SymArray (concrete shape, symbolic content) and AbsArray
(symbolic shape, uninterpreted content)."""
import numpy as np
from .core import Sym, SymBool, HF, NF, Unsupported, ctx, _lift, p_key, pick
import z3


class OutOfBounds(IndexError):
    pass


RAW = np.ndarray.dtype


def raw_dtype(x):
    """The storage type (SymArray.dtype is the declared one)."""
    return RAW.__get__(x)


def isobj(x):
    return RAW.__get__(x) == object


def lift(x, kind=None):
    if isinstance(x, (Sym, HF)):
        if kind == 'f' and isinstance(x, Sym):
            return x.asfloat()
        return x
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (bool, np.bool_)):
        return x
    s = Sym.of(x)
    if s is None:
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return lift(x[()], kind)
        raise TypeError('cannot store %r in a symbolic array' % type(x))
    return s.asfloat() if kind == 'f' else s


def resolve(i, n):
    """A scalar index (possibly symbolic) into a dimension of concrete size n,
    with compiled-code semantics: negative indices wrap once, the rest is out
    of bounds."""
    if isinstance(i, HF):
        raise TypeError('float index')
    if isinstance(i, Sym):
        if i.k != 'i':
            raise TypeError('float index')
        c = i.const()
        if c is None:
            if bool(i < 0):
                if bool(i < -n):
                    raise OutOfBounds('index %r into size %d' % (i, n))
                return ctx().concretize(i + n, 0, n - 1)
            if bool(i >= n):
                raise OutOfBounds('index %r into size %d' % (i, n))
            return ctx().concretize(i, 0, n - 1)
        i = int(c)
    i = int(i)
    if i < -n or i >= n:
        raise OutOfBounds('index %d into size %d' % (i, n))
    return i


def _needs(i):
    if isinstance(i, tuple):
        return any(_needs(j) for j in i)
    if isinstance(i, np.ndarray):
        return isobj(i)
    return isinstance(i, (Sym, HF)) or (isinstance(i, slice) and any(isinstance(j, Sym) for j in (i.start, i.stop, i.step)))


def _cslice(s, n):
    def f(v):
        if isinstance(v, Sym):
            c = v.const()
            if c is None:
                return ctx().concretize(v, -n, n)
            return int(c)
        return v
    return slice(f(s.start), f(s.stop), f(s.step))


def fixindex(idx, shape):
    tup = idx if isinstance(idx, tuple) else (idx,)
    if not _needs(tup):
        return idx
    nreal = sum(1 for e in tup if e is not None and e is not Ellipsis)
    out = []
    pos = 0
    for e in tup:
        if e is Ellipsis:
            out.append(e)
            pos += len(shape) - nreal
        elif e is None:
            out.append(e)
        else:
            if isinstance(e, np.ndarray) and isobj(e):
                flat = list(np.asarray(e).ravel())
                if flat and all(isinstance(q, (SymBool, bool, np.bool_)) for q in flat):
                    e = np.array([bool(q) for q in flat], dtype=bool).reshape(e.shape)
                    pos += e.ndim - 1
                else:
                    e = np.array([resolve(q, shape[pos]) for q in flat], dtype=np.int64).reshape(e.shape)
                out.append(e)
            elif isinstance(e, (Sym, HF)):
                out.append(resolve(e, shape[pos]))
            elif isinstance(e, slice):
                out.append(_cslice(e, shape[pos]))
            else:
                out.append(e)
            pos += 1
    return tuple(out) if isinstance(idx, tuple) else out[0]


def all_of(items):
    """One decision for a conjunction."""
    zs = []
    for e in items:
        if isinstance(e, SymBool):
            zs.append(e.z)
        elif not bool(e):
            return False
    if not zs:
        return True
    return bool(SymBool(z3.And(*zs) if len(zs) > 1 else zs[0]))


class SymArray(np.ndarray):
    """Object array of Sym with a declared kind ('f' or 'i')."""
    kind = 'f'
    tag = None

    def __array_finalize__(self, obj):
        if obj is not None:
            self.kind = getattr(obj, 'kind', 'f')

    def __getitem__(self, idx):
        idx = fixindex(idx, self.shape)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, val):
        idx = fixindex(idx, self.shape)
        if isinstance(val, np.ndarray):
            if not isobj(val):
                val = mk(val, self.kind)
            elif self.kind == 'f' and getattr(val, 'kind', 'f') != 'f':
                val = mk(val, 'f')
            if val.ndim == 0:
                val = val[()]
        elif isinstance(val, (list, tuple)):
            val = mk(val, self.kind)
        else:
            val = lift(val, self.kind)
        np.ndarray.__setitem__(self, idx, val)

    @property
    def dtype(self):
        return np.dtype('float64') if self.kind == 'f' else np.dtype('int64')

    def astype(self, dtype, *a, **k):
        return mk(self, dkind(dtype), copy=True)

    def tolist(self):
        return np.ndarray.tolist(self)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def reshape(self, *shape, **kw):
        shape = tuple(_intify(s) for s in shape)
        return np.ndarray.reshape(self, *shape, **kw)

    def min(self, *a, **k):
        return reduce_minmax(self, True, *a, **k)

    def max(self, *a, **k):
        return reduce_minmax(self, False, *a, **k)

    def all(self, *a, **k):
        return all_of(self.ravel())

    def any(self, *a, **k):
        return not all_of([~e if isinstance(e, SymBool) else not bool(e) for e in self.ravel()])

    def tobytes(self, *a, **k):
        return ('bytes', self.kind) + tuple(np.asarray(self).ravel().tolist())

    def __invert__(self):
        return asarr(np.frompyfunc(lambda e: (not e) if isinstance(e, (bool, np.bool_)) else ~e, 1, 1)(self))

    def clip(self, lo=None, hi=None, **k):
        r = self
        f = np.frompyfunc(lambda x: _clip(x, lo, hi), 1, 1)
        return asarr(f(r))

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def round(self, *a, **k):
        raise Unsupported('round')


def _box(o):
    if isinstance(o, (Sym, HF)):
        a = np.empty((), dtype=object)
        a[()] = o
        return a
    return o


def _mkop(name):
    base = getattr(np.ndarray, name)

    def op(self, o):
        if isinstance(o, (Sym, HF)):
            k = 'f' if isinstance(o, HF) or o.k == 'f' or self.kind == 'f' or 'truediv' in name else 'i'
            r = base(self, _box(o))
            if isinstance(r, SymArray):
                r.kind = k
            return r
        return base(self, o)
    op.__name__ = name
    return op


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    for _p in ('__%s__', '__r%s__', '__i%s__'):
        setattr(SymArray, _p % _n, _mkop(_p % _n))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(SymArray, '__%s__' % _n, _mkop('__%s__' % _n))


def _clip(x, lo, hi):
    if lo is not None and bool(x < lo):
        x = lo
    if hi is not None and bool(x > hi):
        x = hi
    return lift(x)


def _intify(s):
    if isinstance(s, np.ndarray):
        return tuple(_intify(e) for e in s.tolist())
    if isinstance(s, (list, tuple)):
        return tuple(_intify(e) for e in s)
    if isinstance(s, Sym):
        c = s.const()
        if c is None:
            raise Unsupported('symbolic shape')
        return int(c)
    return int(s)


MANY = 2     # above this many undecided elements min, max and abs do not fork


def reduce_minmax(a, ismin, axis=None, **k):
    if axis is not None:
        f = (lambda v: reduce_minmax(v, ismin))
        return asarr(np.apply_along_axis(lambda v: f(v.view(SymArray)), axis, a))
    it = list(a.ravel())
    if any(isinstance(e, NF) for e in it):
        for e in it:
            if isinstance(e, NF) and e.w != e.w:
                return e
        worst = float('-inf') if ismin else float('inf')
        for e in it:
            if isinstance(e, NF) and e.w == worst:
                return e
        it = [e for e in it if not isinstance(e, NF)] or it[:1]
    if len(it) > MANY and not ctx().havoc and all(isinstance(e, Sym) for e in it):
        if sum(e.const() is None for e in it) > MANY:
            return ctx().fresh_extreme(it, ismin)
    r = it[0]
    for e in it[1:]:
        r = pick(r, e, ismin)
    return r


def dkind(dtype):
    if dtype is None:
        return None
    if isinstance(dtype, type) and getattr(dtype, '_shim', None):
        return dtype._shim
    if dtype is float or dtype is np.float64 or dtype is object:
        return 'f'
    if dtype is int:
        return 'i'
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        raise Unsupported('dtype %r' % (dtype,))
    if k in 'iu':
        return 'i'
    if k in 'fO':
        return 'f'
    if k == 'b':
        return 'b'
    raise Unsupported('dtype %r' % (dtype,))


def asarr(x, kind=None):
    """Wrap an object ndarray."""
    if isinstance(x, np.ndarray):
        if isobj(x):
            r = x.view(SymArray)
            if kind:
                r.kind = kind
            elif not isinstance(x, SymArray) and x.size:
                r.kind = 'i'
                for e in x.flat:
                    if not (isinstance(e, Sym) and e.k == 'i' or type(e) is int):
                        r.kind = 'f'
                        break
            return r
        return x
    return x


def mk(x, kind=None, copy=True, order=None):
    """Array from nested data, floats lifted to exact rationals."""
    if isinstance(x, AbsArray):
        raise Unsupported('conversion of an array of symbolic shape')
    if isinstance(x, SymArray):
        a = np.array(x, dtype=object, copy=True, order=order or 'K')
        src = x.kind
    elif isinstance(x, np.ndarray) and not isobj(x):
        if x.dtype.kind in 'iu' and kind in (None, 'i'):
            return x.copy(order=order or 'K')
        if x.dtype.kind == 'b' and kind in (None, 'b'):
            return x.copy()
        a = x.astype(object)
        src = 'i' if x.dtype.kind in 'iub' else 'f'
    else:
        a = np.array(x, dtype=object, order=order or 'K')
        src = None
    fl = a.ravel(order='K') if a.ndim else None
    items = list(a.ravel()) if a.ndim else [a[()]]
    if kind is None:
        if src:
            kind = src
        else:
            kind = 'i'
            for e in items:
                if isinstance(e, (float, np.floating, HF)) or (isinstance(e, Sym) and e.k == 'f'):
                    kind = 'f'
                    break
            if items and all(isinstance(e, (bool, np.bool_)) for e in items):
                return np.array(x, dtype=bool)
            if not items:
                kind = 'f'
    if kind == 'i':
        from .core import sym_int
        conv = []
        for e in items:
            if isinstance(e, (Sym, HF)):
                conv.append(sym_int(e) if not (isinstance(e, Sym) and e.k == 'i') else e)
            else:
                conv.append(int(e))
        if all((not isinstance(e, Sym)) or e.const() is not None for e in conv):
            return np.array([int(e) for e in conv], dtype=np.int64).reshape(a.shape)
        out = np.empty(a.shape, dtype=object)
        for j, e in zip(np.ndindex(a.shape), conv):
            out[j] = lift(e)
        r = out.view(SymArray)
        r.kind = 'i'
        return r
    if kind == 'b':
        raise Unsupported('bool array')
    out = np.empty(a.shape, dtype=object, order='F' if (a.ndim > 1 and a.flags.f_contiguous and not a.flags.c_contiguous) else 'C')
    for j, e in zip(np.ndindex(a.shape), items):
        out[j] = lift(e, 'f')
    r = out.view(SymArray)
    r.kind = 'f'
    return r


def filled(shape, value, kind='f', order='C'):
    shape = _intify(shape)
    if isinstance(shape, int):
        shape = (shape,)
    a = np.empty(shape, dtype=object, order=order)
    hf = isinstance(value, HF)
    v = lift(value, kind)
    for j in np.ndindex(shape):
        a[j] = HF() if hf else v
    r = a.view(SymArray)
    r.kind = kind
    return r


def uninit(shape, kind='f', order='C'):
    shape = _intify(shape)
    if isinstance(shape, int):
        shape = (shape,)
    a = np.empty(shape, dtype=object, order=order)
    c = ctx()
    for j in np.ndindex(shape):
        v = c.new_var('uninit%d' % c.nfresh, 'r', role='uninit')
        c.nfresh += 1
        a[j] = c.sym(v)
    r = a.view(SymArray)
    r.kind = kind
    return r


class AbsFlags:
    def __init__(self, a):
        fixed = [f is not None for f in a.view]
        n = sum(fixed)
        self.c_contiguous = a.layout == 'C' and all(fixed[:n])
        self.f_contiguous = (a.ndim <= 1 and self.c_contiguous) or (a.layout == 'F' and n == 0)
        self.contiguous = self.c_contiguous
        self.writeable = True

    def __getitem__(self, k):
        try:
            return {'C_CONTIGUOUS': self.c_contiguous, 'C': self.c_contiguous, 'F_CONTIGUOUS': self.f_contiguous, 'F': self.f_contiguous,
                    'WRITEABLE': self.writeable, 'W': self.writeable}[k]
        except KeyError:
            raise Unsupported('flag %r' % (k,))


class AbsArray:
    """Read-only-by-contract array of symbolic shape; content is an
    uninterpreted function of the index.  Every access must be in bounds."""
    __array_ufunc__ = None
    dtype = np.dtype('float64')
    kind = 'f'

    def __init__(self, name, shape, prefix=(), layout='C', havoc=False, writable=False, base=None):
        self.name = name
        self.full = tuple(shape)
        self.layout = layout
        self.havoc = havoc
        self.writable = writable
        # dims: list of either ('free', k) or fixed index, over the full shape
        self.view = base if base is not None else [None] * len(self.full)
        self.shape = tuple(self.full[k] for k, f in enumerate(self.view) if f is None)
        self.ndim = len(self.shape)

    def __len__(self):
        raise Unsupported('len of symbolic shape in native code')

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    itemsize = 8

    @property
    def flags(self):
        return AbsFlags(self)

    def copy(self):
        return self

    def _index(self, idx):
        tup = idx if isinstance(idx, tuple) else (idx,)
        nreal = sum(1 for e in tup if e is not Ellipsis)
        if nreal > self.ndim:
            raise IndexError('too many indices')
        exp = []
        for e in tup:
            if e is Ellipsis:
                exp.extend([slice(None)] * (self.ndim - nreal))
            else:
                exp.append(e)
        exp.extend([slice(None)] * (self.ndim - len(exp)))
        view = list(self.view)
        free = [k for k, f in enumerate(self.view) if f is None]
        for k, e in zip(free, exp):
            if isinstance(e, slice):
                if e != slice(None):
                    raise Unsupported('partial slice of symbolic array')
                continue
            view[k] = self._norm(e, self.full[k])
        return view

    def _norm(self, i, n):
        if isinstance(i, HF):
            raise TypeError('float index')
        if isinstance(i, Sym) and i.k != 'i':
            raise TypeError('float index')
        i = Sym.of(i)
        n = Sym.of(n)
        c = ctx()
        key = (p_key(i.n), p_key(n.n))
        if key in c.inb:
            # already known to be in bounds: the path condition only grows
            return i
        if c.entails(SymBool.of((i >= 0) & (i < n)) if isinstance(i >= 0, SymBool) and isinstance(i < n, SymBool) else z3.And(SymBool.of(i >= 0), SymBool.of(i < n))):
            c.inb[key] = True
            return i
        neg = i < 0
        if bool(neg):
            i = i + n
            if bool(i < 0):
                raise OutOfBounds('index out of range of %s' % self.name)
            return i
        if bool(i >= n):
            raise OutOfBounds('index out of range of %s' % self.name)
        return i

    def __getitem__(self, idx):
        v = self._index(idx)
        if all(e is not None for e in v):
            ctx().stats.inc('abs_reads')
            if self.havoc:
                return HF()
            return ctx().atom(self.name, tuple(p_key(e.n) for e in v), tuple(v))
        return AbsArray(self.name, self.full, layout='A', havoc=self.havoc, writable=self.writable, base=v)

    def __setitem__(self, idx, val):
        v = self._index(idx)
        if self.writable:
            ctx().stats.inc('abs_writes')
            return
        ctx().writes.append(self.name)

    def at(self, *idx):
        """Reference access (no bounds obligation)."""
        v = [Sym.of(i) for i in idx]
        return ctx().atom(self.name, tuple(p_key(e.n) for e in v), tuple(v))


def _noop(name):
    def f(self, *a):
        raise Unsupported('%s of an array of symbolic length' % name)
    return f


for _n in ('add radd sub rsub mul rmul truediv rtruediv pow rpow mod rmod floordiv rfloordiv matmul rmatmul neg pos abs '
           'iadd isub imul itruediv lt le gt ge invert and or').split():
    if '__%s__' % _n not in AbsArray.__dict__:
        setattr(AbsArray, '__%s__' % _n, _noop(_n))


def _abs_getattr(self, name):
    if not name.startswith('_') and name not in ('kind', 'at', 'full') and hasattr(np.ndarray, name):
        raise Unsupported('%s of an array of symbolic length' % name)
    raise AttributeError(name)


AbsArray.__getattr__ = _abs_getattr


class RowArray(AbsArray):
    """Array with a symbolic number of rows and concrete trailing dimensions that
    the code may write: a list of recorded writes over an initial content."""

    def __init__(self, name, shape, init, base=None, root=None):
        AbsArray.__init__(self, name, shape, base=base)
        self.init = init            # 'atom', 'uninit' or a value
        self.root = self if root is None else root
        if root is None:
            self.log = []

    def copy(self):
        if self.root is not self:
            raise Unsupported('copy of a part of an array of symbolic length')
        r = RowArray(self.name, self.full, self.init)
        r.log = list(self.log)
        return r

    def _expand(self, view, scalar=False):
        free = [k for k, f in enumerate(view) if f is None]
        if not free:
            yield (), tuple(view)
            return
        dims = []
        for k in free:
            n = Sym.of(self.full[k]).const()
            if n is None:
                if scalar:
                    # every index of these dimensions
                    yield (), tuple(view)
                    return
                raise Unsupported('whole-column access to an array of symbolic length')
            dims.append(int(n))
        for j in np.ndindex(*dims):
            v = list(view)
            for k, i in zip(free, j):
                v[k] = Sym.of(i)
            yield j, tuple(v)

    def __getitem__(self, idx):
        v = self._index(idx)
        if all(e is not None for e in v):
            return self.root.at(*v)
        return RowArray(self.name, self.full, self.init, base=v, root=self.root)

    def __setitem__(self, idx, val):
        v = self._index(idx)
        if all(e is None for e in v):
            if isinstance(val, np.ndarray) or isinstance(val, AbsArray):
                raise Unsupported('array assignment to an array of symbolic length')
            if getattr(self.root, 'input', False):
                ctx().writes.append(self.name)
            self.root.log.append((None, lift(val, 'f')))
            return
        if getattr(self.root, 'input', False):
            ctx().writes.append(self.name)
        scalar = not isinstance(val, (np.ndarray, AbsArray, list, tuple))
        if v[0] is None and not scalar:
            raise Unsupported('column assignment to an array of symbolic length')
        for j, w in self._expand(v, scalar):
            x = val
            if isinstance(val, np.ndarray):
                x = np.broadcast_to(np.asarray(val, dtype=object), [int(self.full[k]) for k, f in enumerate(v) if f is None])[j]
            self.root.log.append((w, lift(x, 'f')))

    def at(self, *idx):
        idx = tuple(Sym.of(i) for i in idx)
        for w, x in reversed(self.root.log):
            if w is None:
                return x
            same = True
            for i, k in zip(idx, w):
                if k is None:
                    continue
                d = i - k
                c = d.const()
                if c is None:
                    if not bool(i == k):
                        same = False
                        break
                elif c != 0:
                    same = False
                    break
            if same:
                return x
        if self.init == 'atom' or self.init == 'uninit':
            return ctx().atom(self.name, tuple(p_key(e.n) for e in idx), idx)
        return lift(self.init, 'f')


class MonoArray(AbsArray):
    """Strictly increasing one-dimensional array of symbolic length."""

    def __init__(self, name, n):
        AbsArray.__init__(self, name, (n,))
        self.known = []     # (index, value)
        self.cuts = []      # (s, v, strict): a[i] < v (or <=) exactly for i < s

    def _fact(self, i, v):
        c = ctx()
        for j, u in self.known:
            d = (i - j).const()
            if d is not None:
                if d != 0:
                    c.add(SymBool.of(v > u if d > 0 else v < u))
                continue
            c.add(z3.Implies(SymBool.of(i > j), SymBool.of(v > u)))
            c.add(z3.Implies(SymBool.of(i < j), SymBool.of(v < u)))
        for s, x, left in self.cuts:
            c.add(SymBool.of(i < s) == SymBool.of((v < x) if left else (v <= x)))
        self.known.append((i, v))

    def bind(self, i, v):
        """Element i is v (i not bound before)."""
        self._fact(Sym.of(i), Sym.of(v))

    def at(self, i):
        i = Sym.of(i)
        for j, v in self.known:
            d = (i - j).const()
            if d == 0:
                return v
        for j, v in self.known:
            if (i - j).const() is None and bool(i == j):
                return v
        v = ctx().atom(self.name, (p_key(i.n),), (i,))
        self._fact(i, v)
        return v

    def __getitem__(self, idx):
        v = self._index(idx)
        if v[0] is None:
            return self
        ctx().stats.inc('abs_reads')
        return self.at(v[0])

    def min(self):
        return self.at(0)

    def max(self):
        return self.at(Sym.of(self.shape[0]) - 1)

    def search(self, v, left):
        n = Sym.of(self.shape[0])
        v = Sym.of(v)
        lo, hi = [], []
        for j, u in list(self.known):
            if bool(u < v):
                lo.append(j)
                if (n - 1 - j).const() == 0:
                    return n
            elif bool(u > v):
                hi.append(j)
                if j.const() == 0:
                    return j
            else:
                return j if left else j + 1
        for j in lo:
            for k in hi:
                if (k - j).const() == 1:
                    return k
        c = ctx()
        s = c.fresh_int('ss', 0, n)
        old, self.known = self.known, []
        self.cuts.append((s, v, left))
        for j, u in old:
            c.add(SymBool.of(j < s) == SymBool.of((u < v) if left else (u <= v)))
        self.known = old
        return s

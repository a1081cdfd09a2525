"""Exact symbolic scalars, path exploration and solver queries.

A `Sym` is an exact rational function of named variables with rational
coefficients, kept in a normal form (Laurent polynomial numerator over an
optional polynomial denominator).  Branching on a comparison of `Sym`s asks the
SMT solver which outcomes are possible under the current path condition and
forks.  Obligations (`Ctx.prove*`) are negated and given to the solver.
"""
import sys, os, math, time, fractions
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3

Fraction = fractions.Fraction
INT_MIN = -(2 ** 63)


class Unsupported(Exception):
    """The code uses something the engine cannot encode."""


class PathInfeasible(BaseException):
    """Internal: the current path condition is unsatisfiable."""


class Budget(BaseException):
    """Internal: time or path budget exhausted."""


# ----------------------------------------------------------------- variables
class Var:
    __slots__ = ('id', 'name', 'sort', 'pos', 'z', 'role', 'info', 'lo', 'hi')

    def __init__(self, id, name, sort, pos, role, info=None):
        self.id, self.name, self.sort, self.pos, self.role, self.info = id, name, sort, pos, role, info
        self.z = z3.Int(name) if sort == 'i' else z3.Real(name)
        self.lo = self.hi = None

    def __repr__(self):
        return self.name


_CUR = None


def ctx():
    if _CUR is None:
        raise Unsupported('no active exploration')
    return _CUR


def set_ctx(c):
    global _CUR
    _CUR = c


# ------------------------------------------------------- rational recovery
_ratcache = {}


def rat(x):
    """The rational a float constant of the source stands for."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    x = float(x)
    r = _ratcache.get(x)
    if r is not None:
        return r
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('non-finite constant')
    if x == int(x) and abs(x) < 2 ** 53:
        r = int(x)
    else:
        tol = 2 * math.ulp(x)
        f = Fraction(x).limit_denominator(2000)
        if f != 0 and abs(float(f) - x) <= tol:
            r = f
        else:
            f = Fraction(repr(x))
            r = f
        if r.denominator == 1:
            r = int(r)
    _ratcache[x] = r
    return r


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


# -------------------------------------------------------------- polynomials
# monomial: tuple of (var id, exponent) sorted by id; polynomial: dict
_mm = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mm.get(k)
    if r is not None:
        return r
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va < vb:
            out.append(a[i]); i += 1
        elif vb < va:
            out.append(b[j]); j += 1
        else:
            e = ea + eb
            if e:
                out.append((va, e))
            i += 1; j += 1
    out.extend(a[i:]); out.extend(b[j:])
    r = tuple(out)
    if len(_mm) > 2000000:
        _mm.clear()
    _mm[k] = r
    return r


def mono_pow(a, e):
    return tuple((v, x * e) for v, x in a)


def p_add(a, b, s=1):
    if not b:
        return a
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        if s != 1:
            c = c * s
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            n = _norm(o + c)
            if n == 0:
                del r[m]
            else:
                r[m] = n
    return r


def p_scale(a, c):
    if c == 1:
        return a
    if c == 0:
        return {}
    return {m: _norm(x * c) for m, x in a.items()}


def p_mulmono(a, mono, c=1):
    return {mono_mul(m, mono): _norm(x * c) for m, x in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(b) == 1:
        (m, c), = b.items()
        if not m:
            return p_scale(a, c)
        return p_mulmono(a, m, c)
    if len(a) == 1:
        return p_mul(b, a)
    if len(a) < len(b):
        a, b = b, a
    r = {}
    for mb, cb in b.items():
        for ma, ca in a.items():
            m = mono_mul(ma, mb)
            o = r.get(m)
            if o is None:
                r[m] = ca * cb
            else:
                r[m] = o + ca * cb
    return {m: _norm(c) for m, c in r.items() if c != 0}


def p_subst(p, v, w, c):
    """p with variable v replaced by w + c (no negative exponents of v)."""
    base = {((w, 1),): 1}
    if c:
        base[()] = c
    r = {}
    for m, k in p.items():
        e = dict(m).get(v, 0)
        t = {tuple(x for x in m if x[0] != v): k}
        for _ in range(e):
            t = p_mul(t, base)
        r = p_add(r, t)
    return r


def p_key(a):
    return tuple(sorted(a.items()))


def p_content(a):
    """(monomial, rest): factor the largest common Laurent monomial."""
    it = iter(a)
    m0 = dict(next(it))
    vs = None
    mn = dict(m0)
    for m in it:
        d = dict(m)
        for v in list(mn):
            if v in d:
                if d[v] < mn[v]:
                    mn[v] = d[v]
            else:
                if mn[v] > 0:
                    del mn[v]
        for v, e in m:
            if v not in mn and e < 0:
                mn[v] = e
        # variables with negative exponent missing from this monomial stay
    mono = tuple(sorted((v, e) for v, e in mn.items() if e))
    if not mono:
        return (), a
    inv = mono_pow(mono, -1)
    return mono, p_mulmono(a, inv)


def p_divexact(a, b):
    """a / b if b divides a exactly (both Laurent), else None."""
    if not a:
        return {}
    if len(b) == 1:
        (m, c), = b.items()
        return p_mulmono(a, mono_pow(m, -1), Fraction(1) / c)
    ma, ra = p_content(a)
    mb, rb = p_content(b)
    vs = sorted({v for m in rb for v, _ in m} | {v for m in ra for v, _ in m})
    idx = {v: i for i, v in enumerate(vs)}

    def dense(m):
        t = [0] * len(vs)
        for v, e in m:
            t[idx[v]] = e
        return tuple(t)
    rem = {dense(m): c for m, c in ra.items()}
    div = {dense(m): c for m, c in rb.items()}
    ld = max(div)
    lc = div[ld]
    q = {}
    steps = 0
    while rem:
        lm = max(rem)
        e = tuple(x - y for x, y in zip(lm, ld))
        if min(e) < 0:
            return None
        c = Fraction(rem[lm]) / lc
        q[e] = _norm(c)
        for m, x in div.items():
            mm = tuple(p + r for p, r in zip(m, e))
            n = _norm(rem.get(mm, 0) - c * x)
            if n == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = n
        steps += 1
        if steps > 5000:
            return None
    qq = {tuple((vs[i], x) for i, x in enumerate(e) if x): c for e, c in q.items()}
    mono = mono_mul(ma, mono_pow(mb, -1))
    return p_mulmono(qq, mono) if mono else qq


# ---------------------------------------------------------------------- Sym
ONE = {(): 1}


def _lift(x):
    """Python number -> (poly, kind) or None."""
    if isinstance(x, bool):
        return ({(): 1} if x else {}), 'i'
    if isinstance(x, int):
        return ({(): x} if x else {}), 'i'
    if isinstance(x, float):
        r = rat(x)
        return ({(): r} if r else {}), 'f'
    if isinstance(x, Fraction):
        r = rat(x)
        return ({(): r} if r else {}), 'f'
    t = type(x).__module__
    if t == 'numpy':
        import numpy as np
        if isinstance(x, np.bool_):
            return _lift(bool(x))
        if isinstance(x, np.integer):
            return _lift(int(x))
        if isinstance(x, np.floating):
            return _lift(float(x))
        if isinstance(x, np.ndarray) and x.ndim == 0:
            return _lift(x.item())
    return None


class Sym:
    __slots__ = ('n', 'd', 'k')
    __array_ufunc__ = None
    def __hash__(self):
        # keys of dictionaries: equality of symbolic values is then decided by
        # the solver (a constant finds the plain number it equals)
        c = self.const()
        return 7919 if c is None else hash(c)

    shape = ()
    ndim = 0
    size = 1

    def __init__(self, n, d=None, k='f'):
        self.n, self.d, self.k = n, d, k

    # -- helpers
    @staticmethod
    def of(x):
        if isinstance(x, Sym):
            return x
        l = _lift(x)
        if l is None:
            if isinstance(x, SymBool):
                return Sym.of(1 if bool(x) else 0)
            return None
        return Sym(l[0], None, l[1])

    def const(self):
        """The rational value if constant, else None."""
        if self.d is not None:
            return None
        if not self.n:
            return 0
        if len(self.n) == 1 and () in self.n:
            return self.n[()]
        return None

    def vars(self):
        s = {v for m in self.n for v, _ in m}
        if self.d is not None:
            s |= {v for m in self.d for v, _ in m}
        return s

    def asfloat(self):
        return self if self.k == 'f' else Sym(self.n, self.d, 'f')

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('float64') if self.k == 'f' else np.dtype('int64')

    def item(self):
        return self

    def copy(self):
        return self

    def __repr__(self):
        s = ctx_str(self.n)
        if self.d is not None:
            s = '(%s)/(%s)' % (s, ctx_str(self.d))
        return s

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- arithmetic
    def _bin(self, o):
        if isinstance(o, HF):
            return NotImplemented
        r = Sym.of(o)
        if r is None:
            return NotImplemented
        return r

    def _arr(self, o, name):
        # Sym (op) plain numeric array: elementwise
        import numpy as np
        if type(o) is np.ndarray:
            from .arrays import mk, SymArray
            if o.ndim == 0:
                return getattr(self, name)(o[()])
            a = mk(o, 'f' if o.dtype.kind == 'f' or self.k == 'f' else None)
            if not isinstance(a, SymArray):
                a = a.astype(object)
            out = np.empty(a.shape, dtype=object)
            f = getattr(Sym, name)
            for j in np.ndindex(a.shape):
                out[j] = f(self, a[j])
            r = out.view(SymArray)
            r.kind = 'f' if any(getattr(e, 'k', 'f') == 'f' for e in out.ravel()) else 'i'
            return r
        return NotImplemented

    def __add__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__add__')
        k = 'i' if self.k == 'i' and o.k == 'i' else 'f'
        if self.d is None and o.d is None:
            return Sym(p_add(self.n, o.n), None, k)
        return _ratadd(self, o, 1, k)
    __radd__ = __add__

    def __sub__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__sub__')
        k = 'i' if self.k == 'i' and o.k == 'i' else 'f'
        if self.d is None and o.d is None:
            return Sym(p_add(self.n, o.n, -1), None, k)
        return _ratadd(self, o, -1, k)

    def __rsub__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__rsub__')
        return o.__sub__(self)

    def __mul__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__mul__')
        k = 'i' if self.k == 'i' and o.k == 'i' else 'f'
        if self.d is None and o.d is None:
            r = Sym(p_mul(self.n, o.n), None, k)
            return r if k == 'f' or _CUR is None or not _CUR.machine else wrapped(r)
        n = p_mul(self.n, o.n)
        d = self.d if o.d is None else (o.d if self.d is None else p_mul(self.d, o.d))
        return mkrat(n, d, k)
    __rmul__ = __mul__

    def __neg__(self):
        return Sym(p_scale(self.n, -1), self.d, self.k)

    def __pos__(self):
        return self

    def __truediv__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__truediv__')
        if not o.n:
            raise ZeroDivisionError('division by zero')
        if o.const() is None:
            nonzero(o)
        n = self.n
        d = self.d
        # self / (on/od) = self.n*od / (self.d*on)
        if o.d is not None:
            n = p_mul(n, o.d)
        if len(o.n) == 1:
            (m, c), = o.n.items()
            n = p_mulmono(n, mono_pow(m, -1), Fraction(1) / c) if m else p_scale(n, Fraction(1) / c)
            if d is None:
                return Sym(n, None, 'f')
            return mkrat(n, d, 'f')
        d = o.n if d is None else p_mul(d, o.n)
        return mkrat(n, d, 'f')

    def __rtruediv__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__rtruediv__')
        return o.__truediv__(self)

    def __floordiv__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__floordiv__')
        a, b = self.const(), o.const()
        k = 'i' if self.k == 'i' and o.k == 'i' else 'f'
        if a is not None and b is not None:
            if b == 0:
                raise ZeroDivisionError
            return Sym.of(math.floor(Fraction(a) / b)) if k == 'i' else Sym.of(math.floor(Fraction(a) / b)).asfloat()
        q = self / o
        r = sym_floor(q)
        return Sym(r.n, r.d, k)

    def __rfloordiv__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__rfloordiv__')
        return o.__floordiv__(self)

    def __mod__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__mod__')
        return self - (self // o) * o

    def __rmod__(self, o):
        a, o = o, self._bin(o)
        if o is NotImplemented:
            return self._arr(a, '__rmod__')
        return o.__mod__(self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, o, mod=None):
        if isinstance(o, Sym):
            e = o.const()
            if e is None:
                raise Unsupported('symbolic exponent')
            ek = o.k
        else:
            l = _lift(o)
            if l is None:
                return NotImplemented
            e = l[0].get((), 0)
            ek = l[1]
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if not isinstance(e, int):
            raise Unsupported('fractional exponent')
        k = 'i' if self.k == 'i' and ek == 'i' and e >= 0 else 'f'
        if e < 0:
            return 1.0 / (self ** (-e))
        r = Sym(ONE, None, k)
        b = self
        while e:
            if e & 1:
                r = r * b
            e >>= 1
            if e:
                b = b * b
        return Sym(r.n, r.d, k)

    def __rpow__(self, o):
        e = self.const()
        if e is None:
            raise Unsupported('symbolic exponent')
        return Sym.of(o) ** (int(e) if e == int(e) else e)

    def __abs__(self):
        c = self.const()
        if c is not None:
            return Sym.of(abs(c)) if self.k == 'i' else Sym.of(abs(c)).asfloat()
        return self if bool(self >= 0) else -self

    # -- conversions
    def __floor__(self):
        return sym_floor(self, 'i')

    def __ceil__(self):
        return -sym_floor(-self, 'i')

    def __trunc__(self):
        return sym_int(self)

    def __round__(self, nd=None):
        c = self.const()
        if c is None or nd is not None:
            raise Unsupported('round')
        return Sym.of(round(c))

    def __index__(self):
        c = self.const()
        if self.k == 'i' and c is not None:
            return int(c)
        if self.k != 'i':
            raise TypeError('float used as index')
        raise Unsupported('symbolic value used as a machine index')

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        raise Unsupported('int() of a symbolic value in native code')

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        raise Unsupported('float() of a symbolic value in native code')

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        return bool(self != 0)

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, HF):
            return NotImplemented
        r = Sym.of(o)
        if r is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        return compare(self, r, op)

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')


def ctx_str(p):
    if not p:
        return '0'
    c = _CUR
    out = []
    for m, co in list(p.items())[:12]:
        s = '*'.join(('%s' % (c.vars[v].name if c else 'v%d' % v)) + ('' if e == 1 else '**%d' % e) for v, e in m)
        out.append('%s%s' % ('' if co == 1 and s else str(co) + ('*' if s else ''), s))
    return ' + '.join(out) + (' + ...(%d terms)' % len(p) if len(p) > 12 else '')


def mkrat(n, d, k):
    if d is None or not n:
        return Sym(n, None, k)
    mono, d = p_content(d)
    if mono:
        n = p_mulmono(n, mono_pow(mono, -1))
    if len(d) == 1 and () in d:
        return Sym(p_scale(n, Fraction(1) / d[()]), None, k)
    q = p_divexact(n, d)
    if q is not None:
        return Sym(q, None, k)
    # make the denominator monic for comparability
    lead = d[max(d)]
    if lead != 1:
        d = p_scale(d, Fraction(1) / lead)
        n = p_scale(n, Fraction(1) / lead)
    return Sym(n, d, k)


def _ratadd(a, b, s, k):
    if a.d is not None and b.d is not None and a.d == b.d:
        return mkrat(p_add(a.n, b.n, s), a.d, k)
    da = a.d or ONE
    db = b.d or ONE
    if a.d is not None and b.d is not None:
        q = p_divexact(da, db)
        if q is not None:
            return mkrat(p_add(a.n, p_mul(b.n, q), s), da, k)
        q = p_divexact(db, da)
        if q is not None:
            return mkrat(p_add(p_mul(a.n, q), b.n, s), db, k)
    n = p_add(p_mul(a.n, db), p_mul(b.n, da), s)
    return mkrat(n, p_mul(da, db), k)


def nonzero(o):
    """Fork on o == 0; that path raises ZeroDivisionError."""
    c = ctx()
    # product of positive variables: known nonzero
    if len(o.n) == 1:
        (m, _), = o.n.items()
        if all(c.vars[v].pos for v, _ in m):
            return
    if bool(o == 0):
        raise ZeroDivisionError('division by zero')


# ------------------------------------------------------------- comparisons
def compare(a, b, op):
    d = a - b
    c = d.const()
    if c is not None:
        return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
    n = d.n
    if d.d is not None:
        if op in ('eq', 'ne'):
            pass
        else:
            n = p_mul(n, d.d)     # sign(n/d) == sign(n*d)
    return SymBool(ctx().rel(n, op))


def wrapped(r):
    """The product of two 64-bit integers, modulo 2**64."""
    c = _CUR
    if r.const() is not None:
        return r
    lo, hi = SymBool.of(r >= INT_MIN), SymBool.of(r <= 2 ** 63 - 1)
    if c.recorded(lambda: c.entails(z3.And(lo, hi))):
        return r
    if c.decide(z3.And(lo, hi)):
        return r
    q = c.fresh_int('wrap', -2 ** 64, 2 ** 64)
    c.add(q.__ne__(0).z if hasattr(q.__ne__(0), 'z') else SymBool.of(q != 0))
    w = r - q * 2 ** 64
    c.add(z3.And(SymBool.of(w >= INT_MIN), SymBool.of(w <= 2 ** 63 - 1)))
    return w


class SymBool:
    __slots__ = ('z',)
    __array_ufunc__ = None
    def __hash__(self):
        return hash(bool(self))

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().decide(self.z)

    @staticmethod
    def of(x):
        if isinstance(x, SymBool):
            return x.z
        return z3.BoolVal(bool(x))

    def __and__(self, o):
        return SymBool(z3.And(self.z, SymBool.of(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.z, SymBool.of(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.z, SymBool.of(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.z))

    def __eq__(self, o):
        return SymBool(self.z == SymBool.of(o))

    def __ne__(self, o):
        return SymBool(self.z != SymBool.of(o))

    def __mul__(self, o):
        if isinstance(o, (SymBool, bool)):
            return self & o
        return Sym.of(1 if bool(self) else 0) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return Sym.of(1 if bool(self) else 0) + o
    __radd__ = __add__

    def __int__(self):
        return 1 if bool(self) else 0
    __index__ = __int__


# ------------------------------------------------------------ floor and int
def integer_valued(s):
    """Polynomial with integer coefficients in integer variables only."""
    if s.d is not None:
        return False
    V = ctx().vars
    for m, c in s.n.items():
        if type(c) is not int:
            return False
        for v, e in m:
            if V[v].sort != 'i' or e < 0:
                return False
    return True


def sym_floor(s, kind='f'):
    if s.k == 'i':
        return Sym(s.n, s.d, kind)
    c = s.const()
    if c is not None:
        return Sym({(): math.floor(c)} if math.floor(c) else {}, None, kind)
    if integer_valued(s):
        return Sym(s.n, None, kind)
    cx = ctx()
    # split off the integer part
    if s.d is None:
        V = cx.vars
        ip, rp = {}, {}
        for m, co in s.n.items():
            if type(co) is int and all(V[v].sort == 'i' and e > 0 for v, e in m):
                ip[m] = co
            else:
                rp[m] = co
        rest = Sym(rp, None, 'f')
        for k in (0, -1, 1):
            if cx.entails(z3.And(cx.rel(p_add(rp, {(): k}, -1) if k else rp, 'ge'),
                                 cx.rel(p_add(rp, {(): k + 1}, -1) if k != -1 else rp, 'lt'))):
                return Sym(p_add(ip, {(): k}) if k else ip, None, kind)
        base = Sym(ip, None, kind)
        r = cx.fresh_floor(rest)
        return Sym(p_add(ip, r.n), None, kind)
    r = cx.fresh_floor(s)
    return Sym(r.n, None, kind)


def sym_int(s):
    """int() with the 64-bit conversion of compiled code."""
    if isinstance(s, HF):
        return ctx().havoc_int()
    if s.k == 'i':
        return s
    c = s.const()
    if c is not None:
        v = math.trunc(c)
    else:
        if integer_valued(s):
            v = Sym(s.n, None, 'i')
        elif bool(s >= 0):
            v = sym_floor(s, 'i')
        else:
            v = -sym_floor(-s, 'i')
        v = Sym(v.n, v.d, 'i')
        if bool(v >= 2 ** 63):
            return Sym.of(INT_MIN)
        if bool(v < -2 ** 63):
            return Sym.of(INT_MIN)
        return v
    if not (-2 ** 63 <= v < 2 ** 63):
        v = INT_MIN
    return Sym.of(v)


# --------------------------------------------------------------- havoc float
class HF:
    """An arbitrary double (NaN and infinities included).  Results of arithmetic
    are again arbitrary; comparisons are false for NaN and otherwise consistent
    for one value; conversion to integer gives any 64-bit value."""
    __slots__ = ('v', 'nan')
    __array_ufunc__ = None
    def __hash__(self):
        return 7919
    shape = ()
    ndim = 0
    k = 'f'

    def __init__(self):
        self.v = None

    def _z(self):
        if self.v is None:
            c = ctx()
            c.nbool += 1
            self.v = z3.Real('hf%d' % c.nbool)
            self.nan = z3.Bool('nan%d' % c.nbool)
        return self.v

    def _f(self, *a):
        return HF()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __pow__ = __rpow__ = _f
    __neg__ = __pos__ = __abs__ = __mod__ = __rmod__ = __floordiv__ = __rfloordiv__ = _f
    __truediv__ = __rtruediv__ = _f

    def _c(self, o, op, neg=False):
        x = self._z()
        ok = [z3.Not(self.nan)]
        if isinstance(o, HF):
            y = o._z()
            ok.append(z3.Not(o.nan))
        else:
            s = Sym.of(o)
            if s is None:
                return NotImplemented
            c = s.const()
            if c is not None:
                y = z3.RealVal(str(c))
            elif s.d is None and all(e > 0 for m in s.n for _, e in m):
                y = ctx().zterm(s.n)
                if y.is_int():
                    y = z3.ToReal(y)
            else:
                return SymBool(ctx().fresh_bool())
        z = z3.And(*ok, op(x, y))
        return SymBool(z3.Not(z) if neg else z)

    def __lt__(self, o):
        return self._c(o, lambda x, y: x < y)

    def __le__(self, o):
        return self._c(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self._c(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self._c(o, lambda x, y: x >= y)

    def __eq__(self, o):
        return self._c(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self._c(o, lambda x, y: x == y, True)

    def __bool__(self):
        return bool(self != 0)

    def __floor__(self):
        return ctx().havoc_int()
    __ceil__ = __floor__
    __trunc__ = __floor__

    def __float__(self):
        raise Unsupported('float() of an arbitrary double in native code')

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    @property
    def dtype(self):
        import numpy as np
        return np.dtype('float64')

    def __repr__(self):
        return '<any double>'


class NF(HF):
    """nan, inf or -inf."""
    __slots__ = ('w',)

    __hash__ = HF.__hash__

    def __init__(self, w):
        self.v = None
        self.w = float(w)

    def _n(self, o, f):
        if isinstance(o, NF):
            return NF(f(self.w, o.w))
        if isinstance(o, HF):
            return HF()
        x = f(self.w, 1.0)
        return NF(x) if not math.isfinite(x) else HF()

    def __add__(self, o):
        return self._n(o, lambda x, y: x + y)

    def __sub__(self, o):
        return self._n(o, lambda x, y: x - y)
    __radd__ = __add__

    def __rsub__(self, o):
        return NF(-self.w) if not isinstance(o, HF) else HF()

    def __neg__(self):
        return NF(-self.w)

    def __abs__(self):
        return NF(abs(self.w))

    def _m(self, o):
        if self.w != self.w:
            return self
        return HF()
    __mul__ = __rmul__ = __truediv__ = _m

    def _c(self, o, op, neg=False):
        if isinstance(o, HF) and not isinstance(o, NF):
            return SymBool(ctx().fresh_bool())
        y = o.w if isinstance(o, NF) else 0.0
        r = bool(op(self.w, y)) if self.w == self.w and y == y else False
        return (not r) if neg else r

    def __repr__(self):
        return repr(self.w)


class FT(HF):
    """A finite double with its rounding: arithmetic builds the exact IEEE term,
    so that claims about exact equality are decided bit by bit."""
    __slots__ = ('t',)
    S = z3.Float64()

    __hash__ = HF.__hash__

    def __init__(self, t):
        self.v = None
        self.t = t

    @staticmethod
    def of(x):
        if isinstance(x, FT):
            return x.t
        s = Sym.of(x)
        c = s.const() if s is not None else None
        if c is None:
            raise Unsupported('a rounded number combined with %s' % type(x).__name__)
        return z3.FPVal(float(c), FT.S)

    def _f(self, *a):
        raise Unsupported('operation on a rounded number')
    __pow__ = __rpow__ = __mod__ = __rmod__ = __floordiv__ = __rfloordiv__ = __floor__ = __ceil__ = __trunc__ = _f

    def __add__(self, o):
        return FT(z3.fpAdd(z3.RNE(), self.t, FT.of(o)))

    def __radd__(self, o):
        return FT(z3.fpAdd(z3.RNE(), FT.of(o), self.t))

    def __sub__(self, o):
        return FT(z3.fpSub(z3.RNE(), self.t, FT.of(o)))

    def __rsub__(self, o):
        return FT(z3.fpSub(z3.RNE(), FT.of(o), self.t))

    def __mul__(self, o):
        return FT(z3.fpMul(z3.RNE(), self.t, FT.of(o)))

    def __rmul__(self, o):
        return FT(z3.fpMul(z3.RNE(), FT.of(o), self.t))

    def __truediv__(self, o):
        return FT(z3.fpDiv(z3.RNE(), self.t, FT.of(o)))

    def __rtruediv__(self, o):
        return FT(z3.fpDiv(z3.RNE(), FT.of(o), self.t))

    def __neg__(self):
        return FT(z3.fpNeg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return FT(z3.fpAbs(self.t))

    def __lt__(self, o):
        return SymBool(z3.fpLT(self.t, FT.of(o)))

    def __le__(self, o):
        return SymBool(z3.fpLEQ(self.t, FT.of(o)))

    def __gt__(self, o):
        return SymBool(z3.fpGT(self.t, FT.of(o)))

    def __ge__(self, o):
        return SymBool(z3.fpGEQ(self.t, FT.of(o)))

    def __eq__(self, o):
        return SymBool(z3.fpEQ(self.t, FT.of(o)))

    def __ne__(self, o):
        return SymBool(z3.Not(z3.fpEQ(self.t, FT.of(o))))

    def __repr__(self):
        return '<rounded %s>' % self.t


# ------------------------------------------------------------------- context
class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Ctx:
    """One symbolic execution (one path) of a harness."""

    def __init__(self, ex):
        self.ex = ex
        self.stats = ex.stats
        self.vars = []
        self.names = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.timeout_ms)
        self.pc = []
        self.pos = 0            # position in decision prefix
        self.trace = []         # decisions of this path
        self.model = None       # cached model of pc
        self.nfresh = 0
        self.nbool = 0
        self.atoms = {}         # (array, index key) -> Var
        self.arrays = {}        # name -> array description for replay
        self.choices = {}
        self.inputs = {}
        self.failures = []
        self.inconclusive = []
        self.writes = []
        self.unknown = False
        self.congr = 0
        self._relcache = {}
        self.inb = {}
        self.havoc = ex.havoc
        self.machine = False     # products of integers wrap at 64 bits

    # -- variables
    def new_var(self, name, sort, pos=False, role='input', info=None):
        if name in self.names:
            base = name
            k = 1
            while name in self.names:
                k += 1
                name = '%s@%d' % (base, k)
        v = Var(len(self.vars), name, sort, pos, role, info)
        self.vars.append(v)
        self.names[name] = v
        if pos:
            self.add(v.z > 0)
        return v

    def sym(self, v):
        return Sym({((v.id, 1),): 1}, None, v.sort if v.sort == 'i' else 'f')

    def fresh_floor(self, s):
        v = self.new_var('fl%d' % self.nfresh, 'i', role='aux')
        self.nfresh += 1
        k = self.sym(v)
        kf = k.asfloat()
        self.add(SymBool.of(kf <= s))
        self.add(SymBool.of(s < kf + 1))
        return k

    def fresh_int(self, name, lo=None, hi=None):
        v = self.new_var('%s%d' % (name, self.nfresh), 'i', role='aux')
        self.nfresh += 1
        s = self.sym(v)
        if lo is not None:
            self.add(SymBool.of(s >= lo))
        if hi is not None:
            self.add(SymBool.of(s <= hi))
        return s

    def fresh_extreme(self, items, ismin):
        """The smallest or largest of many numbers, without a fork."""
        v = self.new_var('ex%d' % self.nfresh, 'r', role='aux')
        self.nfresh += 1
        m = self.sym(v)
        for e in items:
            self.add(SymBool.of((m <= e) if ismin else (m >= e)))
        self.add(z3.Or(*[SymBool.of(m == e) for e in items]))
        return m

    def fresh_abs(self, s):
        v = self.new_var('ab%d' % self.nfresh, 'r', role='aux')
        self.nfresh += 1
        m = self.sym(v)
        self.add(SymBool.of(m >= 0))
        self.add(z3.Or(SymBool.of(m == s), SymBool.of(m == -s)))
        return m

    def havoc_int(self):
        v = self.new_var('hv%d' % self.nfresh, 'i', role='aux')
        self.nfresh += 1
        self.add(z3.And(v.z >= INT_MIN, v.z <= 2 ** 63 - 1))
        return self.sym(v)

    def fresh_bool(self):
        self.nbool += 1
        return z3.Bool('hb%d' % self.nbool)

    def atom(self, arr, key, idx):
        """Uninterpreted coefficient arr[idx]."""
        k = (arr, key)
        v = self.atoms.get(k)
        if v is None:
            v = self.new_var('%s[%s]' % (arr, ','.join(map(repr, idx))), 'r', role='atom', info=(arr, idx))
            self.atoms[k] = v
        return self.sym(v)

    # -- z3 conversion
    def zterm(self, p):
        """z3 term of a polynomial without negative exponents."""
        if not p:
            return z3.RealVal(0)
        V = self.vars
        allint = all(type(c) is int for c in p.values()) and all(V[v].sort == 'i' for m in p for v, _ in m)
        ts = []
        for m, c in p.items():
            fs = []
            for v, e in m:
                z = V[v].z
                if V[v].sort == 'i' and not allint:
                    z = z3.ToReal(z)
                fs.extend([z] * e)
            if allint:
                cv = z3.IntVal(c)
            else:
                cv = z3.RealVal(str(c))
            if not fs:
                ts.append(cv)
            else:
                t = fs[0] if len(fs) == 1 else z3.Product(*fs)
                ts.append(t if c == 1 else cv * t)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def clear_den(self, p, op):
        """Multiply by monomials so that exponents are >= 0 and positive common
        factors disappear; keeps the relation `p op 0`."""
        V = self.vars
        mn = {}
        first = True
        allv = {v for m in p for v, _ in m}
        for v in allv:
            e = min(dict(m).get(v, 0) for m in p)
            if V[v].pos:
                if e:
                    mn[v] = -e
            elif e < 0:
                k = -e
                if op not in ('eq', 'ne') and k % 2:
                    k += 1
                mn[v] = k
        if mn:
            p = p_mulmono(p, tuple(sorted(mn.items())))
        return p

    def rel(self, p, op):
        if not p:
            return z3.BoolVal(op in ('le', 'ge', 'eq'))
        if len(p) == 1 and () in p:
            c = p[()]
            return z3.BoolVal({'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op])
        if all(self.vars[v].pos for m in p for v, _ in m):
            # positive variables and coefficients of one sign
            if all(c > 0 for c in p.values()):
                return z3.BoolVal(op in ('gt', 'ge', 'ne'))
            if all(c < 0 for c in p.values()):
                return z3.BoolVal(op in ('lt', 'le', 'ne'))
        p = self.clear_den(p, op)
        t = self.zterm(p)
        z = 0
        return {'lt': lambda: t < z, 'le': lambda: t <= z, 'gt': lambda: t > z, 'ge': lambda: t >= z,
                'eq': lambda: t == z, 'ne': lambda: t != z}[op]()

    # -- solver
    def add(self, z):
        if z is True or z3.is_true(z):
            return
        if isinstance(z, bool):
            z = z3.BoolVal(z)
        self.pc.append(z)
        self.solver.add(z)
        if self.model is not None:
            if not z3.is_true(self.model.eval(z, model_completion=True)):
                self.model = None

    def check(self, *zs):
        t = time.time()
        if t > self.ex.deadline:
            raise Budget('time')
        r = self.solver.check(*zs)
        dt = time.time() - t
        self.stats.inc('solver_s', dt)
        self.stats.inc('queries')
        self.stats.inc(str(r))
        return r

    def entails(self, z):
        if z3.is_true(z):
            return True
        if self.model is not None and z3.is_false(self.model.eval(z, model_completion=True)):
            return False
        r = self.check(z3.Not(z))
        if r == z3.sat:
            self.model = self.solver.model()
        return r == z3.unsat

    def assume(self, z):
        z = SymBool.of(z)
        self.add(z)

    def feasible(self):
        if self.model is not None:
            return True
        r = self.check()
        if r == z3.sat:
            self.model = self.solver.model()
        if r == z3.unknown:
            self.unknown = True
        return r != z3.unsat

    def decide(self, z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.pos < len(self.ex.prefix):
            kind, v, alt = self.ex.prefix[self.pos]
            assert kind == 'b', 'non-deterministic replay'
            self.pos += 1
            self.trace.append(('b', v, alt))
            self.add(z if v else z3.Not(z))
            return v
        self.pos += 1
        t = f = None
        if self.model is not None:
            e = self.model.eval(z, model_completion=True)
            if z3.is_true(e):
                t = True
            elif z3.is_false(e):
                f = True
        mt = mf = None
        if t is None:
            r = self.check(z)
            t = r != z3.unsat
            if r == z3.unknown:
                self.stats.inc('branch_unknown')
            if r == z3.sat:
                mt = self.solver.model()
        else:
            mt = self.model
        if f is None:
            r = self.check(z3.Not(z))
            f = r != z3.unsat
            if r == z3.unknown:
                self.stats.inc('branch_unknown')
            if r == z3.sat:
                mf = self.solver.model()
        else:
            mf = self.model
        if not t and not f:
            raise PathInfeasible()
        v = bool(t)
        if t and f:
            self.stats.inc('forks')
        self.trace.append(('b', v, (not v) if (t and f) else None))
        self.model = mt if v else mf
        self.add(z if v else z3.Not(z))
        self.stats.inc('decisions')
        return v

    def recorded(self, fn):
        """A boolean found once and kept when the path is run again."""
        if self.pos < len(self.ex.prefix):
            kind, v, _ = self.ex.prefix[self.pos]
            assert kind == 'e', 'non-deterministic replay'
        else:
            v = fn()
        self.pos += 1
        self.trace.append(('e', v, None))
        return v

    def choice(self, name, options):
        options = list(options)
        if self.pos < len(self.ex.prefix):
            kind, v, _ = self.ex.prefix[self.pos]
            assert kind == 'c', 'non-deterministic replay'
        else:
            v = 0
        self.pos += 1
        self.trace.append(('c', v, v + 1 if v + 1 < len(options) else None))
        self.choices[name] = v
        self.stats.inc('decisions')
        return options[v]

    def concretize(self, s, lo, hi):
        """Fork over the integer values lo..hi of s (assumed to cover it)."""
        c = s.const()
        if c is not None:
            return int(c)
        for k in range(lo, hi + 1):
            if bool(s == k):
                return k
        raise PathInfeasible()

    # -- obligations
    def substitute_equal_atoms(self, p):
        """Merge coefficient atoms whose indices the path condition makes equal."""
        V = self.vars
        ids = sorted({v for m in p for v, _ in m if V[v].role == 'atom'})
        rep = {}
        groups = {}
        for v in ids:
            arr, idx = V[v].info
            for w in groups.setdefault(arr, []):
                idx2 = V[w].info[1]
                conds = []
                ok = True
                for i, j in zip(idx, idx2):
                    d = i - j
                    c = d.const() if isinstance(d, Sym) else d
                    if c is None:
                        conds.append(self.rel(d.n, 'eq'))
                    elif c != 0:
                        ok = False
                        break
                if ok and self.entails(z3.And(*conds) if conds else z3.BoolVal(True)):
                    rep[v] = w
                    break
            else:
                groups[arr].append(v)
        if not rep:
            return p
        r = {}
        for m, c in p.items():
            d = {}
            for v, e in m:
                w = rep.get(v, v)
                d[w] = d.get(w, 0) + e
            mm = tuple(sorted((v, e) for v, e in d.items() if e))
            r[mm] = r.get(mm, 0) + c
        return {m: _norm(c) for m, c in r.items() if c != 0}

    def substitute_forced(self, p):
        """Replace the variables to which the path condition leaves one value."""
        V = self.vars
        ids = sorted({v for m in p for v, _ in m if V[v].role not in ('atom', 'elem')})
        if not ids or len(ids) > 40 or not self.feasible() or self.model is None:
            return p
        rep = {}
        for v in ids:
            if self.model is None and not self.feasible():
                return p
            if self.model is None:
                break
            x = self.model.eval(V[v].z, model_completion=True)
            if z3.is_int_value(x):
                val = x.as_long()
            elif z3.is_rational_value(x):
                val = _norm(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            else:
                continue
            if abs(val) > 2 ** 40 or (type(val) is not int and val.denominator > 64):
                continue
            if self.entails(V[v].z == (z3.IntVal(val) if V[v].sort == 'i' else z3.RealVal(str(val)))):
                rep[v] = val
        for v in [v for v, x in rep.items() if x == 0]:
            if any(e < 0 for m in p for w, e in m if w == v):
                del rep[v]
        if rep:
            r = {}
            for m, c in p.items():
                mm = []
                for v, e in m:
                    if v in rep:
                        c = c * Fraction(rep[v]) ** e
                    else:
                        mm.append((v, e))
                mm = tuple(mm)
                r[mm] = r.get(mm, 0) + c
            p = {m: _norm(c) for m, c in r.items() if c != 0}
        # pairs of variables a constant apart
        ids = sorted({v for m in p for v, _ in m if V[v].role not in ('atom', 'elem')})
        if len(ids) < 2 or len(ids) > 16 or not self.feasible() or self.model is None:
            return p
        neg = {v for m in p for v, e in m if e < 0}
        cands = []
        for i, w in enumerate(ids):
            for v in ids[i + 1:]:
                if V[v].sort != V[w].sort or v in neg:
                    continue
                c = self.model.eval(V[v].z - V[w].z, model_completion=True)
                if z3.is_int_value(c) and abs(c.as_long()) <= 4:
                    cands.append((v, w, c.as_long()))
                elif z3.is_rational_value(c) and c.numerator_as_long() == 0:
                    cands.append((v, w, 0))
        done = set()
        for v, w, c in cands:
            if v in done or not p:
                continue
            if self.entails(V[v].z - V[w].z == c):
                done.add(v)
                p = p_subst(p, v, w, c)
        return p

    def prove_zero(self, s, label):
        """Obligation s == 0.  Returns 'ok', 'fail' or 'unknown'."""
        self.stats.inc('obligations')
        n = s.n
        if n and len(n) <= 4000:
            n = self.substitute_equal_atoms(n)
            if n:
                n = self.substitute_forced(n)
        if not n:
            # normal form is 0: the negated goal is 0 != 0
            self.stats.inc('obligations_normal_form')
        if len(n) > 400:
            return self.fail_or_unknown(n, label, big=True)
        g = self.rel(n, 'ne')
        r = self.check(g)
        if r == z3.unsat:
            return 'ok'
        return self.fail_or_unknown(n, label)

    def fail_or_unknown(self, n, label, big=False):
        self.failures.append(dict(label=label, poly=n, kind='eq'))
        return 'fail'

    def prove_independent(self, s, bad):
        """s does not vary with the variables in bad: every coefficient of a
        monomial in them is zero on this path."""
        if s.d is not None and any(v in bad for m in s.d for v, _ in m):
            return False
        n = self.substitute_forced(s.n) if len(s.n) <= 4000 else s.n
        co = {}
        for m, c in n.items():
            k = tuple((v, e) for v, e in m if v in bad)
            if k:
                co.setdefault(k, {})[tuple((v, e) for v, e in m if v not in bad)] = c
        for q in co.values():
            if self.check(self.rel(q, 'ne')) != z3.unsat:
                return False
        return True

    def prove(self, cond, label):
        """Obligation: boolean condition holds on this path."""
        self.stats.inc('obligations')
        z = SymBool.of(cond)
        r = self.check(z3.Not(z))
        if r == z3.unsat:
            return 'ok'
        self.failures.append(dict(label=label, z=z, kind='bool'))
        return 'fail'


def pick(a, b, ismin):
    """min or max of two numbers, without a fork where ties are possible."""
    x, y = (a, b) if ismin else (b, a)
    if isinstance(a, HF) or isinstance(b, HF):
        return a if bool(x <= y) else b
    d = Sym.of(x) - Sym.of(y)
    k = d.const()
    if k is not None:
        return a if k <= 0 else b
    c = ctx()
    if not c.havoc:
        if c.recorded(lambda: c.entails(SymBool.of(d <= 0))):
            return a
        if c.recorded(lambda: c.entails(SymBool.of(d >= 0))):
            return b
    return a if bool(x <= y) else b


class Explorer:
    def __init__(self, timeout_ms=5000, budget_s=120, max_paths=20000, havoc=False):
        self.havoc = havoc
        self.timeout_ms = timeout_ms
        self.deadline = time.time() + budget_s
        self.max_paths = max_paths
        self.stats = Stats()
        self.prefix = []

    def paths(self, fn, on_path):
        """Run fn(ctx) on every path; on_path(ctx, exception or None)."""
        self.prefix = []
        n = 0
        while True:
            c = Ctx(self)
            set_ctx(c)
            exc = None
            ok = True
            try:
                fn(c)
            except PathInfeasible:
                ok = False
            except Budget:
                self.stats['budget'] = 1
                return False
            except RecursionError as e:
                exc = Unsupported('recursion depth')
            except Exception as e:
                exc = e
            n += 1
            self.stats.inc('paths' if ok else 'infeasible_paths')
            if ok:
                try:
                    if on_path(c, exc) is False:
                        return True
                except Budget:
                    self.stats['budget'] = 1
                    return False
            # next prefix
            tr = c.trace
            while tr and tr[-1][2] is None:
                tr.pop()
            if not tr:
                return True
            k, v, alt = tr[-1]
            tr[-1] = (k, alt, None) if k == 'b' else (k, alt, None)
            self.prefix = list(tr)
            if k == 'c':
                # keep enumerating remaining options
                self.prefix[-1] = ('c', alt, None)
            if n >= self.max_paths:
                self.stats['budget'] = 1
                return False
            if time.time() > self.deadline:
                self.stats['budget'] = 1
                return False

"""Harness objects.  A harness is a function fn(H, **params) written once and run
in two modes: symbolically (SymH) and on the real compiled code (RealH)."""
import os, sys, json, math, random, itertools, hashlib, types, functools
import numpy as np
from fractions import Fraction


class Failed(Exception):
    pass


def flatten(x):
    """Nested result -> (structure, list of leaves)."""
    if isinstance(x, (tuple, list)):
        st, lv = [], []
        for e in x:
            s, l = flatten(e)
            st.append(s)
            lv.extend(l)
        return ('t', tuple(st)), lv
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return 's', [x[()]]
        return ('a', x.shape), [x[j] for j in np.ndindex(x.shape)]
    return 's', [x]


# ----------------------------------------------------------------- sequences
class Step:
    """A harness object for one step of a sequence: its inputs have their own
    names, and the arrays its calls return are kept."""
    NAMING = ('real int double anyfloat nonfinite choice array absarray havoc_array rows increasing '
              'rowarray colarray rowout').split()

    def __init__(self, H, prefix, pool=()):
        self._H, self._p, self._kept, self._returned = H, prefix, [], []
        self._pool, self._made, self._given, self._again = list(pool), [], {}, False

    def __getattr__(self, name):
        v = getattr(self._H, name)
        if name in self.NAMING:
            if not self._H.sym:
                f = lambda n, *a, **k: v(self._p + n, *a, **k)
            else:
                f = lambda n, *a, **k: self._input(name, v, n, a, k)
            return f if name != 'array' else lambda *a, **k: self._same(f(*a, **k))
        if name in ('vec', 'const', 'ints'):
            return lambda *a: self._same(v(*a))
        return v

    def _input(self, kind, v, n, a, k):
        c = self._H.c
        if self._again and (kind, n) in self._given:
            r, content, focus = self._given[kind, n]
            if content is not None:
                r = content.copy(order='K').view(type(r))
                r.kind = 'f'
            if focus is not None:
                c.focus = focus
            return r
        r = v(self._p + n, *a, **k)
        arr = isinstance(r, np.ndarray)
        self._given[kind, n] = r, np.array(np.asarray(r), copy=True, order='K') if arr else None, c.focus if kind == 'rows' else None
        return r

    def again(self):
        """the same inputs once more"""
        self._again, self._pool, self._made = True, [], []
        return self

    def _same(self, a):
        """the array object of the step before, with the content of this one"""
        if not isinstance(a, np.ndarray):
            return a
        n = len(self._made)
        if n < len(self._pool):
            b = self._pool[n]
            if type(b) is type(a) and b.shape == a.shape and b.dtype == a.dtype and b.strides == a.strides and b.flags.writeable and a.flags.writeable \
                    and getattr(a, 'kind', None) == getattr(b, 'kind', None):
                np.asarray(b)[...] = np.asarray(a)
                a = b
        self._made.append(a)
        return a

    def scribble(self):
        """the caller writes into the arrays it was given as results"""
        for a in self._returned:
            a = np.asarray(a)
            if a.flags.writeable and a.dtype != bool:
                for j in np.ndindex(a.shape):
                    a[j] = 1234 + len(j) + sum(j)

    def settled(self, fn, label):
        return self._H.settled(lambda junk: fn(lambda n, s: junk(self._p + n, s)), label)

    def keep(self, x):
        """x is a result the caller goes on using"""
        for a in arrays_in(x):
            self._kept.append((a, np.array(np.asarray(a), copy=True)))
        return x

    def get(self, dotted):
        f = self._H.get(dotted)
        if isinstance(f, type):
            watch(f)
        if isinstance(f, type) or not (isinstance(f, types.FunctionType) or hasattr(f, 'py_func')):
            return f

        def call(*args, **kw):
            return self._result(f(*args, **kw), args, kw)
        return call

    def _result(self, r, args, kw, held=()):
        given = list(arrays_in((args, tuple(kw.values()))))
        for a in arrays_in(r):
            if not shared(a, given):
                self.keep(a)
                if not shared(a, held):
                    self._returned.append(a)
        return r


CURRENT = [None]


def shared(a, others):
    return any(np.may_share_memory(np.asarray(a), np.asarray(g)) for g in others)


def watch(cls):
    """the results of the public methods of a class are kept by the current step"""
    for name, f in list(vars(cls).items()):
        if isinstance(f, types.FunctionType) and (name == '__call__' or not name.startswith('_')) and not hasattr(f, '_watched'):
            setattr(cls, name, watched(f))


def watched(f):
    @functools.wraps(f)
    def method(self, *args, **kw):
        r = f(self, *args, **kw)
        h = CURRENT[0]
        if h is not None:
            own = [x for o in (self, *vars(self).values()) if hasattr(o, '__dict__') and not isinstance(o, np.ndarray) for x in vars(o).values()]
            h._result(r, args, kw, list(arrays_in(own)))
        return r
    method._watched = True
    return method


def arrays_in(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (tuple, list)):
        for e in x:
            yield from arrays_in(e)


def sequence(H, mod, steps, reuse=False, pure=False, rerun=False):
    """Several harnesses one after another in one process: each must hold after
    the others, and what earlier calls returned must stay as it was.  reuse: the
    later steps are given the same array objects, with new content.  pure: only
    what depends on the other steps counts: a step that fails on these inputs
    also when it is the first one says nothing.  rerun: in the end the caller
    writes into the results it got last and makes the same call once more."""
    import importlib

    def run(fn, h, params):
        m, _, f = fn.rpartition('.')
        CURRENT[0] = h
        try:
            getattr(importlib.import_module('props.' + (m or mod)), f)(h, **params)
        finally:
            CURRENT[0] = None
    if H.sym:
        H.L.forget_code()
    hs = []
    for i, (fn, params) in enumerate(steps):
        h = Step(H, 's%d_' % i, hs[-1]._made if reuse and hs else ())
        hs.append(h)
        H.fresh_step()
        if not (pure and H.sym):
            run(fn, h, params)
            continue
        c, err = H.c, None
        try:
            run(fn, h, params)
        except (H.core.Unsupported, H.core.PathInfeasible, H.core.Budget):
            raise
        except Exception as e:
            err = e
        if err is None and not c.failures:
            continue
        old, c.failures = c.failures, []
        H.L.reset()
        H.L.forget_code()
        H.fresh_step()
        try:
            run(fn, h.again(), params)
        except (H.core.Unsupported, H.core.PathInfeasible, H.core.Budget):
            raise
        except Exception:
            raise H.core.PathInfeasible()
        if c.failures:
            raise H.core.PathInfeasible()
        c.failures = old
        if err is not None:
            raise err
        return
    for i, h in enumerate(hs[:-1]):
        for a, old in h._kept:
            H.unchanged(a, old, 'result of call %d after later calls' % i)
    if rerun:
        h.scribble()
        H.fresh_step()
        run(fn, h.again(), params)


# --------------------------------------------------------------------- real
def pattern(name, idx):
    """Deterministic background value of an unspecified array element."""
    h = int(hashlib.md5(('%s|%r' % (name, tuple(int(i) for i in idx))).encode()).hexdigest()[:8], 16)
    return ((h % 2001) - 1000) / 125.0


SPECIALS = [float('nan'), float('inf'), float('-inf'), 1e300, -1e300, 1e19, -1e19, 9.3e18, 4e9, -4e9, 0.0, 0.5, 1.0, 2.0, -0.5, 3.0]


class RealH:
    sym = False

    def __init__(self, rec):
        self.rec = rec
        self.values = {k: Fraction(v) for k, v in rec.get('values', {}).items()}
        self.atoms = {k: {tuple(int(i) for i in a.split(',')): Fraction(v) for a, v in d.items()} for k, d in rec.get('atoms', {}).items()}
        self.choices = rec.get('choices', {})
        self.special = rec.get('special')
        self.nspecial = 0
        self.fails = []
        self.tol = rec.get('tol', 1e-7)
        self.np = np
        self.eqs = 0
        self.inputs = {}

    def _default(self, name):
        return pattern(name, ())

    def real(self, name, pos=False, lo=None, hi=None, open=False):
        if name in self.values:
            v = float(self.values[name])
        else:
            v = self._default(name)
            if pos:
                v = abs(v) + 0.125
            if lo is not None and hi is not None:
                v = float(lo) + (float(hi) - float(lo)) * ((abs(v) * 0.13) % 1)
            elif lo is not None:
                v = float(lo) + abs(v) + 0.125
            elif hi is not None:
                v = float(hi) - abs(v) - 0.125
        self.inputs[name] = v
        return v

    def keep(self, x):
        return x

    def fresh_step(self):
        pass

    def machine_ints(self):
        pass

    def exact_ints(self):
        pass

    def tofloat(self, x):
        return float(x)

    def double(self, name, lo, hi):
        """a double between lo and hi, followed with its rounding"""
        return self.real(name, lo=lo, hi=hi)

    def exact(self, got, want, label):
        self.eqs += 1
        if not (float(got) == float(want)):
            self.fails.append('%s: is %r, expected exactly %r' % (label, float(got), float(want)))

    def int(self, name, lo=None, hi=None):
        v = int(self.values[name]) if name in self.values else int(lo if lo is not None else 0)
        if abs(v) > 10 ** 7:
            raise Failed('model too large to replay')
        self.inputs[name] = v
        return v

    def anyfloat(self, name, hints=()):
        if self.special is None:
            return self.real(name)
        i = self.nspecial
        self.nspecial += 1
        v = self.special[i % len(self.special)]
        if callable(hints):
            hints = hints()
        if isinstance(v, str):
            v = float(hints[int(v[1:]) % len(hints)]) if hints else 0.25
        self.inputs[name] = v
        return v

    def nonfinite(self, name):
        v = float(self.choice(name, ['nan', 'inf', '-inf']))
        self.inputs[name] = repr(v)
        return v

    def choice(self, name, options):
        options = list(options)
        return options[self.choices.get(name, 0)]

    def array(self, name, shape, order='C', readonly=False, stride=False, pos=False):
        shape = tuple(int(s) for s in shape)
        a = np.zeros(shape, order=order)
        if stride:
            a = np.zeros(shape[:-1] + (2 * shape[-1],))[..., ::2]
        at = self.atoms.get(name, {})
        for j in np.ndindex(shape):
            nm = '%s[%s]' % (name, ','.join(map(str, j)))
            if nm in self.values:
                a[j] = float(self.values[nm])
            elif j in at:
                a[j] = float(at[j])
            else:
                a[j] = pattern(name, j)
                if pos:
                    a[j] = abs(a[j]) + 0.125
        if readonly:
            a.setflags(write=False)
        self.inputs[name] = a.tolist() if a.size <= 64 else '%d values' % a.size
        return a

    absarray = array

    def ref(self, C, *idx):
        return C[tuple(int(i) for i in idx)]

    def havoc_array(self, name, shape):
        return self.array(name, shape)

    def const(self, data):
        return np.array(data, dtype=float)

    def vec(self, data):
        return np.array(data, dtype=float)

    def ints(self, data):
        return np.array(data, dtype=np.int64)

    def layout(self, a, kind):
        if kind == 'F':
            return np.asfortranarray(a)
        if kind == 'A':
            b = np.zeros(tuple(2 * s for s in a.shape))
            v = b[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = a
            return v
        if kind == 'RO':
            b = a.copy()
            b.setflags(write=False)
            return b
        return np.ascontiguousarray(a)

    def assume(self, cond):
        if not bool(cond):
            raise Failed('assumption not met in replay')

    def get(self, dotted):
        import importlib
        parts = dotted.split('.')
        m = importlib.import_module(parts[0])
        for i in range(1, len(parts)):
            v = getattr(m, parts[i], None)
            if v is None or (i < len(parts) - 1 and not isinstance(v, type) and not isinstance(v, types.ModuleType)):
                v = importlib.import_module('.'.join(parts[:i + 1]))
            m = v
        return m

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def eq(self, got, want, label, tol=None, scale=0.0):
        self.eqs += 1
        sg, lg = flatten(got)
        sw, lw = flatten(want)
        if sg != sw:
            self.fails.append('%s: structure %r, expected %r' % (label, sg, sw))
            return
        for i, (g, w) in enumerate(zip(lg, lw)):
            g, w = float(g), float(w)
            t = (tol or self.tol) * (1 + max(abs(g), abs(w), scale))
            if not (abs(g - w) <= t) and not (math.isinf(g) and g == w):
                self.fails.append('%s: element %d is %r, expected %r' % (label, i, g, w))
                return

    def close(self, got, want, label, tol):
        self.eq(got, want, label, tol=max(tol, 1e-9))

    def true(self, cond, label):
        self.eqs += 1
        if not bool(cond):
            self.fails.append('%s: condition is false' % label)

    def entailed(self, cond, label):
        self.true(cond, label)

    def lt(self, a, b):
        return a < b

    def raises(self, fn, label):
        self.eqs += 1
        try:
            fn()
        except Exception:
            return
        self.fails.append('%s: no exception raised' % label)

    def attempt(self, fn):
        """(True, result) or (False, None) if fn raises"""
        try:
            return True, fn()
        except Exception:
            return False, None

    def fail(self, label):
        self.fails.append(label)

    def snapshot(self, a):
        return np.array(a, copy=True)

    def unchanged(self, a, snap, label):
        self.eqs += 1
        if a.shape != snap.shape or not np.array_equal(a, snap, equal_nan=True):
            self.fails.append('%s: input array was modified' % label)

    def settled(self, fn, label):
        """fn(junk) does not depend on the previous content of the arrays made by
        junk(name, shape), nor on uninitialised memory.  Returns its result."""
        import ctypes
        self.eqs += 1
        res = []
        for byte, val in ((0x5a, 777.25), (0x33, -31.0625)):
            try:
                ctypes.CDLL(None).mallopt(-6, byte)
            except Exception:
                pass
            keep = [np.full(k, val) for k in range(1, 129) for _ in range(8)]
            del keep
            n = [0]

            def junk(name, shape):
                n[0] += 1
                a = np.empty(tuple(int(s) for s in shape))
                a[...] = val + n[0]
                return a
            res.append(fn(junk))
        (s1, l1), (s2, l2) = [flatten(r) for r in res]
        if s1 != s2 or not all(x == y or (x != x and y != y) for x, y in zip(l1, l2)):
            self.fails.append('%s: result depends on the previous content of the output or on uninitialised memory' % label)
        return res[-1]

    def focus(self, on=True):
        pass

    def bexpr_and(self, *cs):
        return all(bool(c) for c in cs)

    def bexpr_or(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not bool(c)

    def numfrac(self, num, den=1):
        return num / den

    def rows(self, name, lo=1):
        """number of rows for the row-generic variant"""
        N, r = int(self.values.get(name, 3)), int(self.values.get(name + '_r', 1))
        if N > 10 ** 6:
            raise Failed('model too large to replay')
        return N, r

    def increasing(self, name, n):
        """strictly increasing nodes, any number of them; see bind"""
        n = int(n)
        if n > 10 ** 6:
            raise Failed('model too large to replay')
        a = np.arange(n, dtype=float)
        self.known = getattr(self, 'known', {})
        self.known[id(a)] = {i[0]: float(v) for i, v in self.atoms.get(name, {}).items() if 0 <= i[0] < n}
        self.held = getattr(self, 'held', []) + [a]
        self._fill(a)
        self.inputs[name] = a
        return a

    def _fill(self, a):
        k = self.known[id(a)]
        ks = sorted(k)
        if not ks:
            return
        n = len(a)
        v = [k[i] for i in ks]
        a[:] = np.interp(np.arange(n), ks, v)
        i = np.arange(n)
        a[i < ks[0]] = v[0] - (ks[0] - i[i < ks[0]])
        a[i > ks[-1]] = v[-1] + (i[i > ks[-1]] - ks[-1])
        for j, x in k.items():
            a[j] = x

    def bind(self, a, i, v):
        self.known[id(a)][int(i)] = float(v)
        self._fill(a)
        return a

    def node(self, a, i):
        return a[int(i)]

    def settle_nodes(self, a):
        if not np.all(np.diff(a) > 0):
            raise Failed('assumption not met in replay')

    def rowarray(self, name, N, r, row):
        a = np.empty((N, len(row)))
        for i in range(N):
            for j in range(len(row)):
                a[i, j] = pattern(name, (i, j)) if N < 1000 else 0.1 * i
        for j, x in enumerate(row):
            a[r, j] = x
        self.inputs[name] = a.tolist() if N < 10 else '%d rows' % N
        return a

    def colarray(self, name, N, r, col):
        return np.ascontiguousarray(self.rowarray(name, N, r, col).T)

    def rowout(self, name, N, tail):
        return np.full((N,) + tuple(tail), 777.25)


# ----------------------------------------------------------------- symbolic
class SymH:
    sym = True

    def __init__(self, c, loader):
        from . import core, arrays, shim
        self.core, self.arrays, self.shim = core, arrays, shim
        self.c = c
        self.L = loader
        self.np = shim.np_proxy

    def real(self, name, pos=False, lo=None, hi=None, open=False):
        v = self.c.new_var(name, 'r', pos=pos)
        s = self.c.sym(v)
        if lo is not None:
            self.assume(s > lo if open else s >= lo)
        if hi is not None:
            self.assume(s < hi if open else s <= hi)
        return s

    def keep(self, x):
        return x

    def fresh_step(self):
        c = self.c
        c.focuses, c.focus, c.machine, c.writes = [], None, False, []

    def machine_ints(self):
        """from here on, products of integers wrap at 64 bits, as in compiled code"""
        self.c.machine = True

    def exact_ints(self):
        self.c.machine = False

    def tofloat(self, x):
        return self.core.Sym.of(x).asfloat()

    def double(self, name, lo, hi):
        import z3
        v = self.c.new_var(name, 'r', role='fp')
        v.sort, v.z = 'fp', z3.FP(name, z3.Float64())
        x = self.core.FT(v.z)
        self.c.add(z3.And(z3.fpGEQ(v.z, z3.FPVal(lo, z3.Float64())), z3.fpLEQ(v.z, z3.FPVal(hi, z3.Float64()))))
        return x

    def exact(self, got, want, label):
        """equal as doubles, not only up to rounding"""
        import z3
        self.c.prove(self.core.SymBool(z3.fpEQ(self.core.FT.of(got), self.core.FT.of(want))), label)

    def int(self, name, lo=None, hi=None):
        v = self.c.new_var(name, 'i', pos=(lo is not None and not isinstance(lo, self.core.Sym) and lo > 0))
        s = self.c.sym(v)
        if lo is not None:
            self.assume(s >= lo)
        if hi is not None:
            self.assume(s <= hi)
        return s

    def anyfloat(self, name, hints=()):
        return self.core.HF()

    def nonfinite(self, name):
        return self.core.NF(self.choice(name, ['nan', 'inf', '-inf']))

    def choice(self, name, options):
        return self.c.choice(name, options)

    def array(self, name, shape, order='C', readonly=False, stride=False, pos=False):
        shape = tuple(int(s) for s in shape)
        full = np.empty(shape if not stride else shape[:-1] + (2 * shape[-1],), dtype=object, order=order)
        a = full if not stride else full[..., ::2]
        for j in np.ndindex(shape):
            v = self.c.new_var('%s[%s]' % (name, ','.join(map(str, j))), 'r', pos=pos, role='elem', info=(name, j))
            a[j] = self.c.sym(v)
        r = a.view(self.arrays.SymArray)
        r.kind = 'f'
        if readonly:
            r.setflags(write=False)
        return r

    def absarray(self, name, shape):
        if all(not isinstance(s, self.core.Sym) or s.const() is not None for s in shape):
            return self.array(name, [int(s) for s in shape])
        return self.arrays.AbsArray(name, shape)

    def ref(self, C, *idx):
        if isinstance(C, self.arrays.AbsArray):
            return C.at(*idx)
        return C[tuple(self.c.concretize(i, 0, n - 1) if isinstance(i, self.core.Sym) else int(i) for i, n in zip(idx, C.shape))]

    def havoc_array(self, name, shape):
        if any(isinstance(s, self.core.Sym) and s.const() is None for s in shape):
            return self.arrays.AbsArray(name, shape, havoc=True)
        return self.arrays.filled([int(s) for s in shape], self.core.HF())

    def const(self, data):
        return self.arrays.mk(data, 'f')

    def vec(self, data):
        return self.arrays.mk(data, 'f')

    def ints(self, data):
        if any(isinstance(e, self.core.Sym) for r in data for e in (r if isinstance(r, (list, tuple)) else [r])):
            return self.arrays.mk(list(data), 'i')
        return np.array(data, dtype=np.int64)

    def layout(self, a, kind):
        SA = self.arrays.SymArray
        if kind == 'F':
            r = np.array(np.asarray(a), dtype=object, order='F').view(SA)
        elif kind == 'A':
            b = np.empty(tuple(2 * s for s in a.shape), dtype=object)
            v = b[tuple(slice(None, None, 2) for _ in a.shape)]
            v[...] = np.asarray(a)
            r = v.view(SA)
        else:
            r = np.array(np.asarray(a), dtype=object, order='C').view(SA)
            if kind == 'RO':
                r.setflags(write=False)
        r.kind = a.kind
        return r

    def assume(self, cond):
        self.c.assume(cond)

    def get(self, dotted):
        return self.L.get(dotted)

    def mod(self, name):
        return self.L.load(name)

    def _diff(self, g, w):
        S = self.core.Sym
        a, b = S.of(g), S.of(w)
        if a is None or b is None:
            return None
        return a - b

    def eq(self, got, want, label, tol=None, scale=None):
        sg, lg = flatten(got)
        sw, lw = flatten(want)
        if sg != sw:
            self.c.stats.inc('obligations')
            self.c.failures.append(dict(label='%s: structure %r, expected %r' % (label, sg, sw), kind='fact'))
            return
        for i, (g, w) in enumerate(zip(lg, lw)):
            d = self._diff(g, w)
            if d is None:
                self.c.failures.append(dict(label='%s: element %d has type %s' % (label, i, type(g).__name__), kind='fact'))
                return
            r = self.c.prove_zero(d, '%s (element %d)' % (label, i) if len(lg) > 1 else label)
            if r != 'ok':
                return

    def close(self, got, want, label, tol):
        """|got - want| <= tol, decided by the solver over the symbolic inputs."""
        sg, lg = flatten(got)
        sw, lw = flatten(want)
        if sg != sw:
            self.c.failures.append(dict(label='%s: structure %r, expected %r' % (label, sg, sw), kind='fact'))
            return
        t = Fraction(tol)
        for i, (g, w) in enumerate(zip(lg, lw)):
            d = self._diff(g, w)
            ok = self.core.SymBool.of(d <= t) if True else None
            import z3
            r = self.c.prove(self.core.SymBool(z3.And(self.core.SymBool.of(d <= t), self.core.SymBool.of(d >= -t))), '%s (element %d)' % (label, i))
            if r != 'ok':
                return

    def true(self, cond, label):
        self.c.prove(cond, label)

    def raises(self, fn, label):
        self.c.stats.inc('obligations')
        ok, _ = self.attempt(fn)
        if not ok:
            return
        self.c.failures.append(dict(label='%s: no exception raised' % label, kind='fact'))

    def attempt(self, fn):
        try:
            return True, fn()
        except (self.core.Unsupported, self.core.PathInfeasible, self.core.Budget):
            raise
        except Exception:
            return False, None

    def fail(self, label):
        self.c.failures.append(dict(label=label, kind='fact'))

    def snapshot(self, a):
        if isinstance(a, self.arrays.AbsArray):
            return None
        return np.array(np.asarray(a), copy=True)

    def unchanged(self, a, snap, label):
        self.c.stats.inc('obligations')
        if snap is None:
            if self.c.writes:
                self.c.failures.append(dict(label='%s: input array was modified' % label, kind='fact'))
            return
        if a.shape != snap.shape:
            self.c.failures.append(dict(label='%s: input array changed shape' % label, kind='fact'))
            return
        for j in np.ndindex(a.shape):
            x, y = np.asarray(a)[j], snap[j]
            if x is y:
                continue
            d = self._diff(x, y)
            if d is None or self.c.prove_zero(d, label + ': input array was modified') != 'ok':
                return

    def settled(self, fn, label):
        self.c.stats.inc('obligations')
        bad = set()

        def junk(name, shape):
            a = self.array(name, shape)
            for e in np.asarray(a).ravel():
                bad.update(e.vars())
            return a
        r = fn(junk)
        bad.update(v.id for v in self.c.vars if v.role == 'uninit')
        names = {self.c.vars[b].name for b in bad}
        _, leaves = flatten(r)
        for i, e in enumerate(leaves):
            S = self.core.Sym.of(e)
            if S is not None and any(v in bad for v in S.vars()):
                d = S
                if self.c.prove_independent(S, bad):
                    continue
                self.c.failures.append(dict(label='%s: element %d of the result keeps previous or uninitialised content' % (label, i), kind='fact'))
                return r
        if names:
            seen = set()
            stack = list(self.c.pc)
            while stack:
                z = stack.pop()
                if not hasattr(z, 'get_id') or z.get_id() in seen:
                    continue
                seen.add(z.get_id())
                if z.num_args() == 0:
                    if z.decl().name() in names:
                        self.c.failures.append(dict(label='%s: a decision depends on previous or uninitialised content' % label, kind='fact'))
                        break
                else:
                    stack.extend(z.children())
        return r

    def bexpr_and(self, *cs):
        import z3
        return self.core.SymBool(z3.And(*[self.core.SymBool.of(c) for c in cs]))

    def bexpr_or(self, *cs):
        import z3
        return self.core.SymBool(z3.Or(*[self.core.SymBool.of(c) for c in cs]))

    def not_(self, c):
        import z3
        return self.core.SymBool(z3.Not(self.core.SymBool.of(c)))

    def numfrac(self, num, den=1):
        return self.core.Sym.of(Fraction(num, den))

    def rows(self, name, lo=1):
        """Symbolic number of rows and an arbitrary row index; loops over that
        number run their body for that index."""
        N = self.int(name, lo)
        r = self.int(name + '_r', 0)
        self.assume(r < N)
        known = self.c.focuses = getattr(self.c, 'focuses', []) + [(N, r)]

        def focus(n):
            for M, q in known:
                if (M - n).const() == 0:
                    return iter([q])
            if len(known) > 1:
                raise self.core.Unsupported('loop over an unknown symbolic range')
            return iter([r]) if bool(r < n) else iter([])
        self.c.focus = focus
        return N, r

    def increasing(self, name, n):
        return self.arrays.MonoArray(name, n)

    def bind(self, a, i, v):
        a.bind(i, v)
        return a

    def node(self, a, i):
        return a.at(i)

    def settle_nodes(self, a):
        pass

    def rowarray(self, name, N, r, row):
        """N x d array whose row r is given; the others are arbitrary."""
        a = self.arrays.RowArray(name, (N, len(row)), 'atom')
        S = self.core.Sym
        a.log = [((S.of(r), S.of(j)), S.of(x)) for j, x in enumerate(row)]
        a.input = True
        return a

    def colarray(self, name, N, r, col):
        """len(col) x N array whose column r is given; the others are arbitrary."""
        a = self.arrays.RowArray(name, (len(col), N), 'atom')
        S = self.core.Sym
        a.log = [((S.of(j), S.of(r)), S.of(x)) for j, x in enumerate(col)]
        a.input = True
        return a

    def rowout(self, name, N, tail):
        return self.arrays.RowArray(name, (N,) + tuple(tail), 'atom')

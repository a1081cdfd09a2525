"""Spline objects."""
import itertools
from .common import *

PRELOAD = PRE_SPLINES + ['interpolation.splines.filter_cubic', 'interpolation.splines.multilinear_numba']
BOUNDS = {
    'quick': 'all real values, bounds and points (inside and outside); grids 3, 5, 3x2, 2x3, 2x3x2; 1 to 8 components, also as many as nodes, dimensions or nodes of a dimension; every history of up to three set_values calls (flat or shaped) interleaved with evaluations and reads of grid, two objects alive; values in C and Fortran order and with strides; nan, inf and -inf at every position of values and points; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick on larger grids (up to 6, 4x3, 3x2x3) and with lists of more points',
}
OUTSIDE = 'rounding; data types other than double; changing the array passed to set_values afterwards without setting it again'
CLS = ('LinearSpline', 'LinearSplines', 'CubicSpline', 'CubicSplines')
Z = ('in', 'last', 'low', 'high')


class Case:
    def __init__(self, H, cls, shape, nv=2):
        self.H, self.cls = H, cls
        self.shape = tuple(shape)
        self.nv = nv if cls.endswith('s') else None
        self.D = [udim(H, j, n - 1) for j, n in enumerate(shape)]
        self.grid = tuple(x.g for x in self.D)
        self.d = len(shape)

    def values(self, name):
        return self.H.array(name, self.shape + ((self.nv,) if self.nv else ()))

    def given(self, V, how):
        """flat or shaped; in C or Fortran order or with strides"""
        how, _, lay = how.partition('/')
        if how == 'flat':
            V = V.reshape((-1, self.nv)) if self.nv else V.reshape(-1)
        return self.H.layout(V, lay) if lay else V

    def args(self, kind='list'):
        a, b, n = [x.a for x in self.D], [x.b for x in self.D], list(self.shape)
        if kind == 'array':
            return self.H.vec(a), self.H.vec(b), self.H.ints(n)
        if kind == 'tuple':
            return tuple(a), tuple(b), tuple(n)
        return a, b, n

    def new(self, *v, kind='list'):
        return self.H.get(S + self.cls)(*(self.args(kind) + v))

    def want(self, V, pts):
        H = self.H
        if self.cls.startswith('Linear'):
            return H.get(S + 'eval_splines.eval_linear')(self.grid, V, pts)
        C = H.get(S + 'prefilter_cubic.filter_cubic')(self.grid, V)
        return H.get(S + 'eval_splines.eval_cubic')(self.grid, C, pts)

    def point(self, name, zones):
        return [locate(self.H, self.D[j], '%s_%d' % (name, j), zones).x for j in range(self.d)]

    def inner(self, k=0):
        """a point inside of the grid, different for each k"""
        H = self.H
        return [x.a + x.h * H.numfrac(1 + 2 * ((k + j) % 3), 4) for j, x in enumerate(self.D)]


def once(H, cls, shape, how='shaped', rows=2, single=False, zones=Z, kind='list', late=False, nv=2):
    """construct with values (or set them afterwards) and evaluate"""
    c = Case(H, cls, shape, nv)
    V = c.values('V')
    if late:
        s = c.new(kind=kind)
        s.set_values(c.given(V, how))
    else:
        s = c.new(c.given(V, how), kind=kind)
    P = [c.point('%d' % r, zones) for r in range(1 if single else rows)]
    if single:
        H.eq(s(H.vec(P[0])), c.want(V, H.vec(P))[0], 'one point')
    else:
        H.eq(H.keep(s(H.vec(P))), c.want(V, H.vec(P)), 'list of points')
        H.eq(H.keep(s.interpolate(H.vec(P))), c.want(V, H.vec(P)), 'interpolate')


def reference_value(H, cls, shape, zones=Z):
    """linear objects against the definition of the interpolant"""
    c = Case(H, cls, shape)
    V = c.values('V')
    s = c.new(V)
    co = [locate(H, c.D[j], '0_%d' % j, zones) for j in range(c.d)]
    r = s(H.vec([x.x for x in co]))
    want = [reference(H, V, co, 1, None, 'linear', comp=i) for i in range(c.nv)] if c.nv else reference(H, V, co, 1)
    H.eq(r, H.vec(want) if c.nv else want, 'value')


def history(H, cls, shape, ops):
    """ops: new, new0 (without values), set:flat, set:shaped, same:..., eval, eval1, grid, other"""
    c = Case(H, cls, shape)
    old = []

    def check(r, want, label):
        H.eq(r, want, label)
        old.append((r, want, label))

    given = None
    cur, s, k = None, None, 0
    other, oV = None, None
    for i, op in enumerate(ops):
        if op == 'new0':
            s = c.new()
        elif op == 'new':
            cur = given = c.values('V%d' % i)
            s = c.new(given)
        elif op.startswith('set'):
            V = c.values('V%d' % i)
            given = c.given(V, op[4:])
            s.set_values(given)
            cur = V
        elif op == 'same':
            # the array given before, with another content
            V = c.values('V%d' % i)
            given[...] = V.reshape(tuple(given.shape))
            s.set_values(given)
            cur = V
        elif op == 'other':
            oV = c.values('O%d' % i)
            other = c.new(oV)
        elif op == 'evalother':
            p = H.vec([c.inner(k)])
            check(other(p), c.want(oV, p), 'other object, step %d' % i)
        elif op == 'eval':
            p = H.vec([c.inner(k), c.inner(k + 1)])
            check(s(p), c.want(cur, p), 'list of points, step %d' % i)
        elif op == 'eval1':
            p = c.inner(k)
            check(s(H.vec(p)), c.want(cur, H.vec([p]))[0], 'one point, step %d' % i)
        elif op == 'diff':
            p = H.vec([c.inner(k), c.inner(k + 1)])
            r = s.interpolate(p, diff=True)
            H.eq(r[0], c.want(cur, p), 'value with derivatives, step %d' % i)
        elif op == 'grid':
            check_grid(H, c, s)
        k += 1
    for r, want, label in old[:-1]:
        H.eq(r, want, label + ' (looked at again at the end)')


def check_grid(H, c, s):
    idx = list(itertools.product(*[range(n) for n in c.shape]))
    rows = [[c.D[j].a + i[j] * c.D[j].h for j in range(c.d)] for i in idx]
    if c.cls.startswith('Linear'):
        rows = [list(r) for r in zip(*rows)]
    H.eq(s.grid, H.vec(rows), 'grid')


def grids(H, cls, shape, nodes=True, nv=2):
    """grid lists the nodes in the order of flat values: the spline takes value k at node k"""
    c = Case(H, cls, shape, nv)
    N = 1
    for n in shape:
        N *= n
    V = H.array('V', (N, c.nv) if c.nv else (N,))
    s = c.new(V)
    check_grid(H, c, s)
    G = s.grid
    pts = G.T if cls.startswith('Linear') else G
    H.eq(s(H.layout(pts, 'C')), V, 'values at the nodes listed by grid')


def inplace(H, shape, rows=2, olay='C'):
    """CubicSpline.interpolate with a container"""
    c = Case(H, 'CubicSpline', shape)
    V = c.values('V')
    s = c.new(V)
    P = H.vec([c.inner(r) for r in range(rows)])
    o = H.layout(H.array('old', (rows,)), olay)
    s.interpolate(P, o)
    H.eq(o, c.want(V, P), 'container')
    p = H.vec(c.inner(1))
    H.eq(s.interpolate(p), c.want(V, H.vec([c.inner(1)]))[0], 'interpolate at one point')


def badvalues(H, cls, shape, pos, how='shaped', late=False):
    """a non-finite value anywhere is refused, and the previous values stay"""
    c = Case(H, cls, shape)
    ok = c.values('V')
    V = c.values('B')
    flat = [V[i] for i in itertools.product(*[range(n) for n in V.shape])]
    flat[pos] = H.nonfinite('bad')
    B = H.vec(flat).reshape(tuple(V.shape))
    if late:
        s = c.new(ok)
        H.raises(lambda: s.set_values(c.given(B, how)), 'non-finite value accepted')
        p = H.vec([c.inner(0)])
        H.eq(s(p), c.want(ok, p), 'value after a refused call')
    else:
        H.raises(lambda: c.new(c.given(B, how)), 'non-finite value accepted')


def badpoints(H, cls, shape, rows, pos, single=False):
    c = Case(H, cls, shape)
    s = c.new(c.values('V'))
    P = [c.inner(r) for r in range(rows)]
    P[pos // c.d][pos % c.d] = H.nonfinite('bad')
    H.raises(lambda: s(H.vec(P[0]) if single else H.vec(P)), 'non-finite point accepted')


def alive(H, cls, shape):
    """two objects of one size with their own bounds and values, used in turns"""
    c, e = Case(H, cls, shape), Case(Step(H, 'o_'), cls, shape)
    V, W = c.values('V'), e.values('V')
    p, q = H.vec([c.inner(0)]), H.vec([e.inner(1)])
    wc, we = c.want(V, p), e.want(W, q)
    s = c.new(V)
    r1 = s(p)
    t = e.new(W)
    r2 = t(q)
    r3 = s(p)
    U = e.values('U')
    t.set_values(U)
    r4, r5, r6 = t(q), s(p), s.interpolate(p)
    for lab, r, w in (('first', r1, wc), ('second', r2, we), ('first after the second', r3, wc), ('second with other values', r4, e.want(U, q)), ('first at the end', r5, wc), ('first at the end, interpolate', r6, wc)):
        H.eq(r, w, lab)
    check_grid(H, c, s)
    check_grid(H, e, t)


def sequences(th):
    out = []
    for cls in CLS:
        out += twice('once', dict(cls=cls, shape=[3], rows=1, zones=['in'], kind='array'), cost=5) + twice('once', dict(cls=cls, shape=[3, 2], rows=1, zones=['in'], kind='array'), dict(cls=cls, shape=[2, 3], rows=1, zones=['in'], kind='array'), cost=5)
        out += twice('grids', dict(cls=cls, shape=[3]), cost=3) + twice('grids', dict(cls=cls, shape=[3, 2]), cost=3) + twice('alive', dict(cls=cls, shape=[3]), cost=5)
        out.append(then([('grids', dict(cls=cls, shape=[3, 2])), ('grids', dict(cls=cls, shape=[2, 3]))], cost=3))
        for sh in ([3], [3, 2]):
            out.append(T('two %s alive %s' % (cls, 'x'.join(map(str, sh))), 'alive', cls=cls, shape=sh, cost=5))
    for p, q in itertools.permutations(CLS, 2):
        out.append(then([('once', dict(cls=p, shape=[3], rows=1, zones=['in'])), ('once', dict(cls=q, shape=[3], rows=1, zones=['in']))], cost=5))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    shapes = [[3], [5], [3, 2], [2, 3], [2, 3, 2]] + ([[6], [4, 3], [3, 2, 3]] if th else [])
    for cls in CLS:
        for sh in shapes:
            d = len(sh)
            nm = '%s %s' % (cls, 'x'.join(map(str, sh)))
            z = list(Z) if d < 3 else ['in', 'high']
            ck = 4 ** d * (3 if cls.startswith('Cubic') else 1)
            if d == 3 and not th:
                out.append(T('%s point shaped' % nm, 'once', cls=cls, shape=sh, how='shaped', single=True, zones=z, cost=ck))
                out.append(T('%s list flat' % nm, 'once', cls=cls, shape=sh, how='flat', rows=2, zones=['in'], cost=ck))
                out.append(T('%s grid' % nm, 'grids', cls=cls, shape=sh, cost=ck))
                continue
            for how in ('shaped', 'flat'):
                out.append(T('%s point %s' % (nm, how), 'once', cls=cls, shape=sh, how=how, single=True, zones=z, cost=ck))
                out.append(T('%s list %s' % (nm, how), 'once', cls=cls, shape=sh, how=how, rows=2, zones=z if d == 1 else ['in'], cost=ck))
            for lay in 'FA':
                for how in ('shaped', 'flat'):
                    out.append(T('%s %s layout %s' % (nm, how, lay), 'once', cls=cls, shape=sh, how=how + '/' + lay, rows=1, zones=['in', 'high'], cost=ck, late=lay == 'A'))
            out.append(T('%s set afterwards' % nm, 'once', cls=cls, shape=sh, late=True, how='flat', rows=1, zones=['in', 'low'], cost=ck))
            out.append(T('%s array arguments' % nm, 'once', cls=cls, shape=sh, kind='array', rows=1, zones=['in', 'high'], cost=ck))
            out.append(T('%s grid' % nm, 'grids', cls=cls, shape=sh, cost=ck))
            if cls.startswith('Linear'):
                out.append(T('%s definition' % nm, 'reference_value', cls=cls, shape=sh, zones=z, cost=ck))
        for sh in ([[3], [3, 2]] if not th else [[4], [3, 2], [2, 3, 2]]):
            nm = '%s %s' % (cls, 'x'.join(map(str, sh)))
            hist = [['new'], ['new0', 'set:flat'], ['new0', 'set:shaped']]
            hs = []
            for h in hist:
                for n in (0, 1, 2):
                    if n + (len(h) - 1) > 3 - (len(h) == 1):
                        continue
                    for q in itertools.product(('set:flat', 'set:shaped'), repeat=n):
                        for ev in itertools.product((True, False), repeat=n):
                            o = list(h)
                            for x, e in zip(q, ev):
                                if e:
                                    o.append('eval1')
                                o.append(x)
                            hs.append(o + ['eval'])
            hs += [['new', 'eval', 'set:flat', 'eval', 'set:shaped', 'eval1', 'set:flat', 'eval'],
                   ['new0', 'set:flat', 'eval', 'set:shaped', 'eval', 'set:flat', 'eval1'],
                   ['new', 'grid', 'set:flat', 'grid', 'eval'], ['new0', 'grid', 'set:shaped', 'eval1', 'grid'],
                   ['new', 'other', 'eval', 'evalother', 'set:flat', 'evalother', 'eval'],
                   ['new0', 'other', 'evalother', 'set:flat', 'eval', 'evalother', 'grid'],
                   ['new', 'same', 'eval'], ['new', 'eval', 'same', 'eval', 'eval1'], ['new0', 'set:flat', 'same', 'eval1', 'same', 'eval'],
                   ['new', 'eval', 'set:shaped', 'same', 'eval', 'grid'], ['new0', 'set:flat', 'eval1', 'same', 'eval1', 'eval'],
                   ['new', 'eval', 'eval', 'eval1', 'eval1']]
            if cls == 'CubicSplines':
                hs += [['new', 'diff', 'set:flat', 'diff', 'eval'], ['new0', 'set:shaped', 'eval', 'diff', 'eval1']]
            for o in hs:
                out.append(T('%s history %s' % (nm, ' '.join(o)), 'history', cls=cls, shape=sh, ops=o, cost=5, witness=1))
    # as many splines as nodes, dimensions or nodes of a dimension
    for cls in ('LinearSplines', 'CubicSplines'):
        for sh, nvs in (([2], (1, 2, 3)), ([3], (1, 3)), ([4], (3, 4)), ([2, 2], (1, 4)), ([2, 3], (1, 3, 6)), ([3, 2], (1, 3, 6)), ([2, 2, 2], (1, 3, 8))):
            for nv in nvs:
                for how in ('flat', 'shaped'):
                    out.append(T('%s %s, %d splines %s' % (cls, sh, nv, how), 'once', cls=cls, shape=sh, nv=nv, how=how, rows=1 + (nv == 2), zones=['in'] if len(sh) == 3 else ['in', 'high'], cost=8, late=how == 'flat'))
                if len(sh) < 3:
                    out.append(T('%s %s, %d splines grid' % (cls, sh, nv), 'grids', cls=cls, shape=sh, nv=nv, cost=8))
    for sh in ([3], [3, 2], [2, 2, 2]):
        out.append(T('CubicSpline %s container' % sh, 'inplace', shape=sh, cost=5))
        out.append(T('CubicSpline %s container strided' % sh, 'inplace', shape=sh, olay='A', rows=3, cost=5))
    for cls in ('CubicSpline', 'CubicSplines'):
        for sh in ([3], [2, 2]):
            n = 1
            for x in sh:
                n *= x
            n *= 2 if cls.endswith('s') else 1
            for pos in range(n):
                for late in (False, True):
                    out.append(T('%s %s bad value %d %s' % (cls, sh, pos, 'set' if late else 'new'), 'badvalues', cls=cls, shape=sh, pos=pos, late=late, how='flat' if pos % 2 else 'shaped'))
            for rows in (1, 3):
                for pos in range(rows * len(sh)):
                    out.append(T('%s %s bad point %d of %d' % (cls, sh, pos, rows), 'badpoints', cls=cls, shape=sh, rows=rows, pos=pos))
            for pos in range(len(sh)):
                out.append(T('%s %s bad single point %d' % (cls, sh, pos), 'badpoints', cls=cls, shape=sh, rows=1, pos=pos, single=True))
    return out + sequences(th)

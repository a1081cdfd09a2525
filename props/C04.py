"""Prefiltering makes the cubic spline interpolate."""
import itertools
from .common import *

PRELOAD = PRE_SPLINES + ['interpolation.splines.filter_cubic', 'interpolation.splines.prefilter_cubic']
BOUNDS = {
    'quick': 'all real node values and bounds; 1 dimension: 2..9, 17, 33, 65 and 130 nodes; 2 dimensions: up to 5x4, and 12x2 and 2x20; 3 dimensions: up to 2x3x4; 4 dimensions: up to 3x2x4x2 nodes, unequal sizes in several orders; 2 components, and 1 and 5..9 on small grids; output arrays of any previous content; C, Fortran, strided and read-only data; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': '1 dimension: up to 20, and 257 nodes; 2 dimensions: up to 7x7; 3 and 4 dimensions up to 4 nodes each, 3 components',
}
OUTSIDE = 'rounding; larger grids; more than four dimensions'
FORMS = ('prefilter', 'prefilter_out', 'filter_cubic', 'filter_cubic_out', 'filter_coeffs', 'filter_mcoeffs')


def grid_of(H, shape):
    D = [udim(H, j, n - 1) for j, n in enumerate(shape)]
    return D, tuple(x.g for x in D)


def compute(H, form, D, grid, V, shape, nv, lay='C'):
    cs = [n + 2 for n in shape] + ([nv] if nv else [])
    if form == 'prefilter':
        return H.get(S + 'prefilter')(grid, V, None, 3)
    if form == 'filter_cubic':
        return H.get(S + 'filter_cubic')(grid, V)
    if form in ('prefilter_out', 'filter_cubic_out'):
        C = H.layout(H.array('old', cs), lay if lay != 'RO' else 'C')
        if form == 'prefilter_out':
            H.get(S + 'prefilter')(grid, V, C, 3)
        else:
            H.get(S + 'filter_cubic')(grid, V, C)
        return C
    a, b = [x.a for x in D], [x.b for x in D]
    if form == 'filter_coeffs':
        return H.get(S + 'filter_cubic.filter_coeffs')(H.vec(a), H.vec(b), H.ints(shape), V)
    if form == 'filter_mcoeffs':
        return H.get(S + 'filter_cubic.filter_mcoeffs')(H.vec(a), H.vec(b), H.ints(shape), V)
    raise ValueError(form)


def bs(i):
    return [(i, 1 / 6.0), (i + 1, 4 / 6.0), (i + 2, 1 / 6.0)]


def comb(C, ws, comp=None):
    r = None
    for idx in itertools.product(*ws):
        w = 1
        for _, x in idx:
            w = w * x
        k = tuple(i for i, _ in idx)
        t = w * C[k + ((comp,) if comp is not None else ())]
        r = t if r is None else r + t
    return r


def interpolates(H, form, shape, nv=None, lay='C', which='all'):
    D, grid = grid_of(H, shape)
    d = len(shape)
    V = H.array('V', list(shape) + ([nv] if nv else []))
    if lay != 'C':
        V = H.layout(V, lay)
    C = compute(H, form, D, grid, V, shape, nv, lay)
    H.eq(tuple(C.shape), tuple(n + 2 for n in shape) + ((nv,) if nv else ()), 'shape of the coefficients')
    for comp in (range(nv) if nv else [None]):
        ex = (comp,) if comp is not None else ()
        for i in itertools.product(*[range(n) for n in shape]):
            H.eq(comb(C, [bs(q) for q in i], comp), V[i + ex], 'value at node %s' % (i,))
        # second derivative zero at both ends of each dimension
        for j in range(d):
            others = [range(n + 2) for q, n in enumerate(shape) if q != j]
            for o in itertools.product(*others):
                for e in (0, shape[j] - 1):
                    ids = [tuple(o[:j]) + (e + s,) + tuple(o[j:]) + ex for s in range(3)]
                    H.eq(C[ids[0]] - 2 * C[ids[1]] + C[ids[2]], 0.0, 'second derivative at an end of dimension %d' % j)


def affine(H, form, shape, nv=None):
    """data affine in each coordinate is reproduced at any point"""
    D, grid = grid_of(H, shape)
    d = len(shape)
    c = H.array('c', [2] * d + ([nv] if nv else []))

    def f(x, comp):
        r = 0.0
        for e in itertools.product((0, 1), repeat=d):
            t = c[e + ((comp,) if comp is not None else ())]
            for q, y in zip(e, x):
                if q:
                    t = t * y
            r = r + t
        return r
    idx = list(itertools.product(*[range(n) for n in shape]))

    def nest(pos):
        if len(pos) == d:
            x = [D[j].a + pos[j] * D[j].h for j in range(d)]
            return [f(x, i) for i in range(nv)] if nv else f(x, None)
        return [nest(pos + [i]) for i in range(shape[len(pos)])]
    V = H.vec(nest([]))
    C = compute(H, form, D, grid, V, shape, nv)
    co = [locate(H, D[j], '%d' % j, ('in', 'last', 'low', 'high') if d < 3 else ('in', 'last')) for j in range(d)]
    pt = [q.x for q in co]
    r = H.get(S + 'eval_cubic')(grid, C, H.vec([pt]))
    want = [f(pt, i) for i in range(nv)] if nv else f(pt, None)
    H.eq(r, H.vec([want]), 'affine function')


def atnodes(H, form, shape, nv=None):
    """evaluation at every node and at the ends of the grid"""
    D, grid = grid_of(H, shape)
    d = len(shape)
    V = H.array('V', list(shape) + ([nv] if nv else []))
    C = compute(H, form, D, grid, V, shape, nv)
    idx = list(itertools.product(*[range(n) for n in shape]))
    pts = H.vec([[D[j].a + i[j] * D[j].h for j in range(d)] for i in idx])
    r = H.get(S + 'eval_cubic')(grid, C, pts)
    H.eq(r, H.vec([[V[i + (q,)] for q in range(nv)] if nv else V[i] for i in idx]), 'values at the nodes')


def objects(H, shape, nv=None, flat=False):
    D, grid = grid_of(H, shape)
    d = len(shape)
    V = H.array('V', list(shape) + ([nv] if nv else []))
    a, b = [x.a for x in D], [x.b for x in D]
    cls = H.get(S + ('CubicSplines' if nv else 'CubicSpline'))
    s = cls(a, b, list(shape), V.reshape((-1, nv)) if (flat and nv) else (V.reshape(-1) if flat else V))
    idx = list(itertools.product(*[range(n) for n in shape]))
    pts = H.vec([[D[j].a + i[j] * D[j].h for j in range(d)] for i in idx])
    H.eq(s(pts), H.vec([[V[i + (q,)] for q in range(nv)] if nv else V[i] for i in idx]), 'values at the nodes')
    if d == 1:
        # the package functions keep working after objects were used
        C = H.get(S + 'filter_cubic')(grid, V)
        H.eq(H.get(S + 'eval_cubic')(grid, C, pts), s(pts), 'functions of the package after using objects')
    # second derivative zero at the ends: in the first cell along each coordinate
    for j in range(d):
        for e, sg in ((0, 1), (shape[j] - 1, -1)):
            x = [y.a + y.h / 2 for y in D]

            def at(s_):
                p = list(x)
                p[j] = D[j].a + (e + sg * s_) * D[j].h
                return p
            v = s(H.vec([at(0), at(H.numfrac(1, 4)), at(H.numfrac(1, 2)), at(H.numfrac(3, 4))]))
            for comp in (range(nv) if nv else [None]):
                w = [v[q] if comp is None else v[q, comp] for q in range(4)]
                # f(t) = c0 + c1 t + c2 t^2 + c3 t^3 on the cell; c2 from 4 values
                c2 = 2 * w[0] - 5 * w[1] + 4 * w[2] - w[3]
                H.eq(c2, 0.0, 'second derivative at an end of dimension %d' % j)


def identity(H, nv=None):
    """k=1: the values are the coefficients"""
    D, grid = grid_of(H, (3, 2))
    V = H.array('V', (3, 2) + ((nv,) if nv else ()))
    C = H.get(S + 'prefilter')(grid, V, None, 1)
    H.eq(C, V, 'coefficients of a linear spline')


def sequences(th):
    out = []
    for form in ('prefilter', 'filter_coeffs', 'filter_mcoeffs'):
        for sh in ([3], [2, 3]):
            nv = 2 if form == 'filter_mcoeffs' else None
            out += twice('interpolates', dict(form=form, shape=sh, nv=nv), cost=3)
        out.append(then([('interpolates', dict(form=form, shape=sh, nv=nv)) for sh in ([3], [4], [2, 3], [3, 2])], cost=3))
    out.append(then([('interpolates', dict(form='prefilter', shape=[3], nv=nv)) for nv in (1, 2, 3, 2)], cost=3))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for n in list(range(2, 10)) + [17, 33, 65, 130] + (list(range(10, 21)) + [257] if th else []):
        for form in FORMS if n < 6 or th else ('prefilter', 'filter_cubic_out', 'filter_coeffs'):
            nv = 2 if form == 'filter_mcoeffs' else None
            out.append(T('%s %d' % (form, n), 'interpolates', form=form, shape=[n], nv=nv, cost=1 + n // 8, witness=1 if n < 20 else 0))
    sh2 = [(2, 2), (2, 3), (3, 2), (5, 4), (2, 5), (12, 2), (2, 20)] + ([(7, 7), (6, 3), (3, 8)] if th else [])
    sh3 = [(2, 3, 4), (3, 2, 2), (4, 2, 3)] + ([(4, 4, 4), (2, 2, 5)] if th else [])
    sh4 = [(2, 3, 2, 3), (3, 2, 4, 2), (2, 2, 3, 4)] + ([(3, 3, 3, 3), (4, 2, 3, 2)] if th else [])
    for sh in sh2 + sh3 + sh4:
        d = len(sh)
        forms = FORMS if sh in (sh2[1], sh2[2], sh3[0], sh4[0]) or th else ('prefilter', 'filter_cubic_out', 'filter_coeffs', 'filter_mcoeffs')
        for form in forms:
            out.append(T('%s %s' % (form, 'x'.join(map(str, sh))), 'interpolates', form=form, shape=list(sh), nv=2 if form == 'filter_mcoeffs' else None, cost=d * d, budget=300))
            if form in ('prefilter', 'prefilter_out', 'filter_cubic', 'filter_cubic_out') and (d < 4 or sh == sh4[0]):
                out.append(T('%s %s vv' % (form, 'x'.join(map(str, sh))), 'interpolates', form=form, shape=list(sh), nv=2, cost=d * d * 2, budget=300))
    # more components than nodes or dimensions
    for sh, nv in (([2], 5), ([3], 9), ([2, 3], 7), ([3, 2], 1), ([2], 1)) + ((([2, 2, 2], 6), ([2, 2, 2, 2], 8)) if th else (([2, 2, 2], 6),)):
        for form in ('prefilter', 'prefilter_out', 'filter_cubic_out', 'filter_mcoeffs'):
            out.append(T('%s %s %d components' % (form, 'x'.join(map(str, sh)), nv), 'interpolates', form=form, shape=sh, nv=nv, cost=6))
    for lay in ('F', 'A', 'RO'):
        for form in ('prefilter', 'filter_cubic_out'):
            out.append(T('%s layout %s' % (form, lay), 'interpolates', form=form, shape=[3, 2], lay=lay))
            out.append(T('%s layout %s vv' % (form, lay), 'interpolates', form=form, shape=[2, 3], nv=2, lay=lay))
    for sh in [(2,), (3,), (6,), (2, 3), (3, 2), (4, 3), (2, 3, 2)]:
        for form in ('prefilter', 'filter_coeffs'):
            out.append(T('affine %s %s' % (form, 'x'.join(map(str, sh))), 'affine', form=form, shape=list(sh), cost=3 * len(sh) ** 2, budget=200))
    out.append(T('affine vv 3x2', 'affine', form='filter_cubic_out', shape=[3, 2], nv=2, cost=6))
    for sh in [(2,), (5,), (3, 2), (2, 4), (2, 3, 2)]:
        for form in ('prefilter', 'filter_cubic_out', 'filter_coeffs'):
            out.append(T('nodes %s %s' % (form, 'x'.join(map(str, sh))), 'atnodes', form=form, shape=list(sh), cost=2 * len(sh) ** 2))
        out.append(T('nodes vv %s' % 'x'.join(map(str, sh)), 'atnodes', form='prefilter_out', shape=list(sh), nv=2, cost=3 * len(sh) ** 2))
    for sh in [(2,), (4,), (3, 2), (2, 4), (2, 3, 2)]:
        for nv in (None, 2) + ((4,) if len(sh) == 1 else ()):
            out.append(T('object %s%s' % ('x'.join(map(str, sh)), ' %d components' % nv if nv else ''), 'objects', shape=list(sh), nv=nv, flat=len(sh) == 2, cost=4 * len(sh) ** 2))
    out.append(T('order 1', 'identity'))
    out.append(T('order 1 vv', 'identity', nv=2))
    return out + sequences(th)

"""interp and mlinterp."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.multilinear.mlinterp', 'interpolation.splines']
BOUNDS = {
    'quick': 'all real bounds, nodes, values and points; regular dimensions of any size 2..2^31+1, irregular ones with 2..4 nodes and with any number of nodes; 1..4 dimensions in every mixture up to 3; lists and products of 1..3 points, and an arbitrary row of any number of rows; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with every mixture in 4 dimensions, irregular dimensions of up to 7 nodes, longer lists',
}
OUTSIDE = 'rounding; vector-valued data (not supported by these functions); products in more than two dimensions (not supported)'
Z = ('in', 'last', 'low', 'high')
M = 'interpolation.'


def mode_of(func):
    return 'nearest' if func == 'interp' else 'linear'


def setup(H, dims):
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    return D, tuple(x.g for x in D), coefs(H, D, 1)


def call(H, func, grid, C, args):
    if func == 'mlinterp':
        return H.get(M + 'mlinterp')(grid, C, *args)
    return H.get(M + 'interp')(*(tuple(grid) + (C,) + tuple(args)))


def one(H, dims, func='interp', form='tuple', zones=Z):
    """a single point"""
    D, grid, C = setup(H, dims)
    co = [locate(H, D[j], '%d' % j, zones) for j in range(len(D))]
    x = [c.x for c in co]
    args = {'tuple': (tuple(x),), 'array': (H.vec(x),), 'scalars': tuple(x)}[form]
    r = call(H, func, grid, C, args)
    H.eq(r, reference(H, C, co, 1, None, mode_of(func)), 'value', scale=1.0)


def many(H, dims, func='interp', rows=2, zones=Z, lay='C'):
    """a list of points"""
    D, grid, C = setup(H, dims)
    P = [[locate(H, D[j], '%d_%d' % (r, j), zones) for j in range(len(D))] for r in range(rows)]
    pts = H.vec([[c.x for c in co] for co in P])
    if lay != 'C':
        pts = H.layout(pts, lay)
    r = call(H, func, grid, C, (pts,))
    H.eq(r, H.vec([reference(H, C, co, 1, None, mode_of(func)) for co in P]), 'values', scale=1.0)


def product(H, dims, sizes, zones=Z):
    """product of coordinate arrays"""
    D, grid, C = setup(H, dims)
    P = [[locate(H, D[j], '%d_%d' % (j, r), zones) for r in range(n)] for j, n in enumerate(sizes)]
    r = call(H, 'interp', grid, C, tuple(H.vec([c.x for c in q]) for q in P))
    if len(dims) == 1:
        want = [reference(H, C, [c], 1, None, 'nearest') for c in P[0]]
    else:
        want = [[reference(H, C, [c, e], 1, None, 'nearest') for e in P[1]] for c in P[0]]
    H.eq(r, H.vec(want), 'values', scale=1.0)


def rowgen(H, dims, func='interp', zones=Z, form='list'):
    """an arbitrary row of any number of rows"""
    D, grid, C = setup(H, dims)
    N, r = H.rows('N')
    co = [locate(H, D[j], '%d' % j, zones) for j in range(len(D))]
    pts = H.rowarray('P', N, r, [c.x for c in co])
    res = call(H, func, grid, C, (pts,))
    H.eq(H.ref(res, r), reference(H, C, co, 1, None, mode_of(func)), 'row r of any number of rows', scale=1.0)


def forms(H, dims, zones=Z):
    """the call shapes agree, on a fixed number of nodes, with data given in any layout"""
    D, grid, C = setup(H, dims)
    lay = H.choice('layout', ['C', 'F', 'A', 'RO'])
    C = H.layout(C, lay)
    d = len(D)
    co = [locate(H, D[j], '%d' % j, zones) for j in range(d)]
    x = [c.x for c in co]
    f = H.get(M + 'interp')
    v = f(*(grid + (C,) + tuple(x)))
    H.eq(f(*(grid + (C, tuple(x)))), v, 'scalars and tuple')
    w = f(*(grid + (C, H.vec(x))))
    H.eq(w if d > 1 else w[0], v, 'scalars and array')
    H.eq(f(*(grid + (C, H.vec([x]))))[0], v, 'scalars and list')
    if d == 2:
        H.eq(f(*(grid + (C, H.vec(x[:1]), H.vec(x[1:]))))[0, 0], v, 'scalars and product')


def sequences(th):
    out = []
    for func in ('interp', 'mlinterp'):
        out += twice('many', dict(dims=['u'], func=func, rows=2, zones=['in']), cost=3) + twice('many', dict(dims=['n3', 'u'], func=func, rows=1, zones=['in']), dict(dims=['u', 'n3'], func=func, rows=1, zones=['in']), cost=4)
    out += twice('one', dict(dims=['u'], form='tuple', zones=['in']), dict(dims=['u'], form='scalars', zones=['low']), cost=3) + twice('product', dict(dims=['u', 'u'], sizes=[1, 2], zones=['in']), dict(dims=['u', 'u'], sizes=[2, 1], zones=['in']), cost=4)
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    mixes = [['u'], ['n2'], ['n4']] + [list(m) for m in itertools.product(['u', 'n3'], repeat=2)] + [list(m) for m in itertools.product(['u', 'n2'], repeat=3)]
    if th:
        mixes += [['n7'], ['n5', 'n4']] + [['u', 'n4', 'n3'], ['n4', 'n3', 'u']]
    for ds in mixes:
        d = len(ds)
        nm = '+'.join(ds)
        for func in ('interp', 'mlinterp'):
            for form in ('tuple', 'array', 'scalars') if func == 'interp' else ('tuple',):
                if form == 'array' and d == 1:
                    continue
                out.append(T('%s %s %s' % (func, nm, form), 'one', dims=ds, func=func, form=form, cost=3 ** d))
            if d < 3 or th:
                out.append(T('%s %s list' % (func, nm), 'many', dims=ds, func=func, rows=2 if d == 1 else 1, cost=4 ** d))
            out.append(T('%s %s any rows' % (func, nm), 'rowgen', dims=ds, func=func, cost=3 ** d))
    for ds in [['N'], ['N', 'u'], ['u', 'N'], ['N', 'N'], ['u', 'N', 'u'], ['n2', 'u', 'N']]:
        for func in ('interp', 'mlinterp'):
            for form in ('tuple', 'scalars') if func == 'interp' else ('tuple',):
                out.append(T('%s %s %s' % (func, '+'.join(ds), form), 'one', dims=ds, func=func, form=form, cost=3 ** len(ds), zones=Z if len(ds) < 3 else ['in', 'low', 'high']))
            out.append(T('%s %s list' % (func, '+'.join(ds)), 'many', dims=ds, func=func, rows=1, cost=3 ** len(ds), zones=Z if len(ds) < 3 else ['in', 'high']))
            out.append(T('%s %s any rows' % (func, '+'.join(ds)), 'rowgen', dims=ds, func=func, cost=3 ** len(ds), zones=Z if len(ds) < 3 else ['in', 'high']))
    for ds in ([['u'] * 4, ['n2', 'u', 'u', 'u']] + ([list(m) for m in itertools.product(['u', 'n2'], repeat=4)] if th else [])):
        for func in ('interp', 'mlinterp'):
            out.append(T('%s %s tuple' % (func, '+'.join(ds)), 'one', dims=ds, func=func, form='tuple', zones=['in', 'low', 'high'], cost=40))
    out.append(T('interp u+u list 2', 'many', dims=['u', 'u'], func='interp', rows=2, zones=['in', 'low', 'high'], cost=20))
    out.append(T('mlinterp u+n3 list 2', 'many', dims=['u', 'n3'], func='mlinterp', rows=2, zones=['in', 'high'], cost=20))
    for lay in ('F', 'A', 'RO'):
        for func in ('interp', 'mlinterp'):
            out.append(T('%s u+u list layout %s' % (func, lay), 'many', dims=['u', 'u'], func=func, rows=2, zones=['in'], lay=lay, cost=4))
    for ds, sz in [(['u'], [1]), (['u'], [2]), (['n3'], [2]), (['u', 'u'], [1, 2]), (['u', 'u'], [2, 1]), (['n3', 'u'], [1, 2]), (['u', 'n2'], [2, 1]), (['n2', 'n3'], [1, 1])]:
        out.append(T('product %s %s' % ('+'.join(ds), sz), 'product', dims=ds, sizes=sz, cost=4 ** sum(sz), zones=list(Z)))
    out.append(T('product u+u [3, 2]', 'product', dims=['u', 'u'], sizes=[3, 2], zones=['in'], cost=10))
    out.append(T('product u+u [2, 3]', 'product', dims=['u', 'u'], sizes=[2, 3], zones=['high'], cost=10))
    for ds in (['u3'], ['n3'], ['u3', 'n2'], ['n2', 'u3'], ['u2', 'u3', 'u2']):
        out.append(T('call shapes %s' % '+'.join(ds), 'forms', dims=ds, zones=['in', 'low', 'high'], cost=4 ** len(ds)))
    return out + sequences(th)

"""Agreement of the call forms."""
from .common import *

PRELOAD = PRE_SPLINES
BOUNDS = {
    'quick': '1..3 dimensions; regular dimensions of any size 2..2^31+1, irregular ones with 2..3 nodes and with any number of nodes; points anywhere; lists of 1..3 points (9 and 18 inside the grid) and an arbitrary row of any number of rows; 2, 5 and 9 components and an arbitrary component of any number; every extrapolation mode; with and without derivatives; array layouts C, F, strided and read-only; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with more dimensions, orders and layouts combined',
}
OUTSIDE = 'rounding; data types other than double; non-array containers'
Z = ('in', 'last', 'low', 'high')


def setup(H, dims, k, nv):
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    return D, tuple(x.g for x in D), coefs(H, D, k, nv)


def run(H, api, k, grid, C, pts, mode, orders, o=None):
    if api == 'spline':
        f = H.get(S + 'eval_spline')
        r = f(grid, C, pts, o, k, 'None' if orders is None else repr(tuple(tuple(x) for x in orders)), mode)
    else:
        f = H.get(S + ('eval_linear' if k == 1 else 'eval_cubic'))
        a = [grid, C, pts] + ([o] if o is not None else [])
        if api == 'mode':
            a.append(getattr(H.get(S + 'extrap_options'), mode.upper()))
        r = f(*a)
    return r if o is None else o


def points(H, D, rows, zones, strict):
    return [[locate(H, D[j], '%d_%d' % (r, j), zones, strict) for j in range(len(D))] for r in range(rows)]


def rows_alone(H, dims, k=1, nv=None, rows=2, mode='linear', orders=None, api='spline', zones=Z, strict=False, single='array', out=False):
    """row r of a list == the same point alone"""
    D, grid, C = setup(H, dims, k, nv)
    P = points(H, D, rows, zones, strict)
    pts = H.vec([[c.x for c in co] for co in P])
    shape = (rows,) + ((nv,) if nv else ()) + ((len(orders),) if orders else ())
    o = H.array('old', shape) if out else None
    V = run(H, api, k, grid, C, pts, mode, orders, o)
    H.eq(tuple(V.shape), shape, 'shape of the result')
    for r in range(rows):
        x = [c.x for c in P[r]]
        one = run(H, api, k, grid, C, tuple(x) if single == 'tuple' else H.vec(x), mode, orders)
        if nv is None and orders:
            one = H.vec(list(one))
        if nv is None and not orders:
            H.eq(V[r], one, 'row %d and the point alone' % r)
        else:
            H.eq(V[r], one, 'row %d and the point alone' % r)


def components(H, dims, k=1, call='vec', rows=1, mode='linear', orders=None, api='spline', zones=Z, strict=False, nv=2):
    """component i == scalar evaluation of component i"""
    D, grid, C = setup(H, dims, k, nv)
    P = points(H, D, rows, zones, strict)
    if call == 'vec':
        pts = H.vec([[c.x for c in co] for co in P])
    elif call == 'array':
        pts = H.vec([c.x for c in P[0]])
    else:
        pts = tuple(c.x for c in P[0])
    V = run(H, api, k, grid, C, pts, mode, orders)
    for i in range(nv):
        one = run(H, api, k, grid, C[..., i], pts, mode, orders)
        if call == 'vec':
            H.eq(V[:, i], one, 'component %d' % i)
        else:
            H.eq(V[i], H.vec(list(one)) if orders else one, 'component %d' % i)


def inplace(H, dims, k=1, call='vec', rows=2, nv=None, mode='linear', orders=None, api='spline', zones=Z, strict=False):
    """writing into an array with arbitrary content == allocating"""
    D, grid, C = setup(H, dims, k, nv)
    R = rows if call == 'vec' else 1
    P = points(H, D, R, zones, strict)
    if call == 'vec':
        pts = H.vec([[c.x for c in co] for co in P])
    elif call == 'array':
        pts = H.vec([c.x for c in P[0]])
    else:
        pts = tuple(c.x for c in P[0])
    shape = ((rows,) if call == 'vec' else ()) + ((nv,) if nv else ()) + ((len(orders),) if orders else ())
    o = H.array('old', shape)
    run(H, api, k, grid, C, pts, mode, orders, o)
    V = run(H, api, k, grid, C, pts, mode, orders)
    if isinstance(V, tuple):
        V = H.vec(list(V))
    H.eq(o, V, 'in place and allocating')


def tuple_array(H, dims, k=1, nv=None, mode='linear', orders=None, api='spline', zones=Z, strict=False):
    D, grid, C = setup(H, dims, k, nv)
    P = points(H, D, 1, zones, strict)[0]
    x = [c.x for c in P]
    a = run(H, api, k, grid, C, tuple(x), mode, orders)
    b = run(H, api, k, grid, C, H.vec(x), mode, orders)
    H.eq(a, b, 'tuple and array')


def layouts(H, dims, k=1, call='vec', rows=2, nv=None, mode='linear', orders=None, api='spline', zones=('in', 'high'), kinds=('C', 'F', 'A', 'RO')):
    """result does not depend on the layout of coefficients, points, nodes, output"""
    D, grid, C = setup(H, dims, k, nv)
    R = rows if call == 'vec' else 1
    P = points(H, D, R, zones, True)
    base = H.vec([[c.x for c in co] for co in P]) if call == 'vec' else H.vec([c.x for c in P[0]])
    V = run(H, api, k, grid, C, base, mode, orders)
    which = H.choice('which', ['C', 'points', 'grid', 'out', 'all'])
    kind = H.choice('layout', list(kinds))
    if which == 'out' and kind == 'RO':
        kind = 'A'
    c2 = H.layout(C, kind) if which in ('C', 'all') else C
    p2 = H.layout(base, kind) if which in ('points', 'all') else base
    g2 = tuple(H.layout(g, kind) if (which in ('grid', 'all') and not isinstance(g, tuple)) else g for g in grid)
    o = None
    if which == 'out' and (call == 'vec' or nv):
        shape = ((rows,) if call == 'vec' else ()) + ((nv,) if nv else ()) + ((len(orders),) if orders else ())
        o = H.layout(H.array('old', shape), kind)
    W = run(H, api, k, g2, c2, p2, mode, orders, o)
    if orders and o is not None and call != 'vec' and nv is None:
        V = H.vec(list(V))
    H.eq(W, V, 'layout %s of %s' % (kind, which))


def anyrow(H, **p):
    rows_case(H, **p)


def anycomp(H, **p):
    comps_case(H, **p)


def sequences(th):
    b = dict(k=1, rows=2, zones=['in'])
    out = []
    for k in (1, 3):
        out += twice('rows_alone', dict(b, dims=['u'], k=k), cost=4) + twice('components', dict(b, dims=['u'], k=k, nv=3), dict(b, dims=['u'], k=k, nv=2), cost=4)
        out += twice('inplace', dict(b, dims=['u'], k=k), dict(b, dims=['u'], k=k, nv=2), cost=4) + twice('tuple_array', dict(dims=['u'], k=k, zones=['in']), cost=4)
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def add(fn, **p):
        extra = {k: p.pop(k) for k in ('cost', 'witness', 'budget') if k in p}
        out.append(T(fn + ' ' + case_name(p) + (' single tuple' if p.get('single') == 'tuple' else ''), fn, **extra, **p))
    O1, O2 = [[0], [1]], [[1, 0], [0, 0], [0, 1]]
    for k in (1, 3):
        dsets = [['u'], ['u', 'u']] + ([['n3'], ['n2', 'u']] if k == 1 else [])
        if th:
            dsets += [['u', 'u', 'u']] if k == 3 else [['u', 'u', 'u'], ['n2', 'u', 'n2'], ['n4']]
        for ds in dsets:
            d = len(ds)
            z2 = Z if d == 1 else (('in', 'high') if d == 2 else ('in',))
            c = 2 * d * k
            oo = O1 if d == 1 else (O2 if d == 2 else [[1, 0, 0], [0, 0, 1]])
            zs = tuple(z for z in z2 if z != 'last')
            for mode in ('linear', 'nearest', 'constant'):
                api = {'linear': 'default', 'nearest': 'mode', 'constant': 'mode'}[mode]
                if mode == 'linear' or d == 1 or th:
                    add('rows_alone', dims=ds, k=k, mode=mode, api=api, zones=z2, cost=c, single='tuple' if d == 1 else 'array')
                    add('rows_alone', dims=ds, k=k, nv=2, mode=mode, api='spline', zones=z2, cost=c, out=True, single='array' if d == 1 else 'tuple')
                add('components', dims=ds, k=k, mode=mode, api=api, zones=z2, cost=c)
                add('components', dims=ds, k=k, mode=mode, api='spline', zones=z2, cost=c, call='array')
                add('inplace', dims=ds, k=k, mode=mode, api=api, zones=z2, cost=c, rows=2 if d == 1 else 1)
                add('inplace', dims=ds, k=k, mode=mode, api=api, nv=2, zones=z2, cost=c, rows=1)
                add('inplace', dims=ds, k=k, mode=mode, api='spline', nv=2, call='tuple', zones=z2, cost=c)
                add('tuple_array', dims=ds, k=k, mode=mode, api=api, zones=z2, cost=d)
                add('tuple_array', dims=ds, k=k, mode=mode, nv=2, api=api, zones=z2, cost=d)
            for mode in ('linear', 'constant'):
                add('rows_alone', dims=ds, k=k, mode=mode, orders=oo, zones=zs, strict=True, cost=c * 2)
                add('rows_alone', dims=ds, k=k, mode=mode, orders=oo, nv=2, zones=zs if d == 1 else ('in',), strict=True, cost=c * 2, single='tuple')
                add('components', dims=ds, k=k, mode=mode, orders=oo, zones=zs, strict=True, cost=c)
                add('components', dims=ds, k=k, mode=mode, orders=oo, call='tuple', zones=zs, strict=True, cost=c)
                add('inplace', dims=ds, k=k, mode=mode, orders=oo, zones=zs, strict=True, cost=c, rows=1)
                add('inplace', dims=ds, k=k, mode=mode, orders=oo, nv=2, zones=zs, strict=True, cost=c, rows=1)
                add('inplace', dims=ds, k=k, mode=mode, orders=oo, call='array', zones=zs, strict=True, cost=c)
                add('inplace', dims=ds, k=k, mode=mode, orders=oo, call='tuple', nv=2, zones=zs, strict=True, cost=c)
            add('rows_alone', dims=ds, k=k, rows=3, mode='linear', api='spline', zones=('in',), cost=c)
            add('anyrow', dims=ds, k=k, nv=2, out=True, api='default', zones=z2, cost=2)
            add('anycomp', dims=ds, k=k, call='vec', rows=None, out=True, api='default', zones=z2, cost=2 * d)
            add('anycomp', dims=ds, k=k, call='tuple', api='default', zones=z2, cost=2 * d)
            add('anycomp', dims=ds, k=k, call='array', out=True, orders=oo, zones=('in',), strict=True, cost=2 * d * k)
        # layouts
        for ds in ([['u3'], ['n3'], ['u2', 'n3']] if k == 1 else [['u3'], ['u2', 'u3']]):
            oo = O1 if len(ds) == 1 else O2
            w = 6 if th else 3
            add('layouts', dims=ds, k=k, rows=2 if len(ds) == 1 else 1, zones=('in',), cost=6, witness=w)
            add('layouts', dims=ds, k=k, nv=2, rows=1, zones=('in', 'high'), cost=6, witness=w, api='default')
            add('layouts', dims=ds, k=k, call='array', zones=('in', 'high'), cost=4, witness=w)
            add('layouts', dims=ds, k=k, call='array', nv=2, zones=('in',), cost=4, witness=w, api='mode')
            add('layouts', dims=ds, k=k, rows=1, nv=2, orders=oo, zones=('in',), cost=6, witness=w)
    # grids with any number of irregular nodes (one row: the nodes are met by one point)
    for ds in (['N'], ['N', 'u'], ['u', 'N']):
        oo = O1 if len(ds) == 1 else O2
        for mode in ('linear', 'nearest', 'constant'):
            z2 = Z if len(ds) == 1 else ('in', 'high')
            add('rows_alone', dims=ds, k=1, rows=1, mode=mode, api='mode', zones=z2, cost=3)
            add('rows_alone', dims=ds, k=1, nv=2, rows=1, mode=mode, zones=z2, out=True, single='tuple', cost=3)
            add('components', dims=ds, k=1, mode=mode, api='mode', zones=z2, cost=3)
            add('tuple_array', dims=ds, k=1, nv=2, mode=mode, zones=z2, cost=3)
            add('inplace', dims=ds, k=1, nv=2, rows=1, mode=mode, api='mode', zones=z2, cost=3)
        add('rows_alone', dims=ds, k=1, rows=1, orders=oo, zones=('in', 'high'), strict=True, cost=3)
        add('components', dims=ds, k=1, orders=oo, call='array', zones=('in', 'high'), strict=True, cost=3)
        add('anyrow', dims=ds, k=1, nv=2, api='default', zones=('in', 'high'), cost=3)
    # many components, many rows
    for k in (1, 3):
        for nv in (5, 9):
            add('components', dims=['u'], k=k, nv=nv, zones=('in', 'high'), api='default', cost=nv)
            add('components', dims=['u'], k=k, nv=nv, call='tuple', zones=('in',), orders=O1, strict=True, cost=nv)
            add('inplace', dims=['u'], k=k, nv=nv, rows=1, zones=('in', 'high'), cost=nv)
        for mode in ('linear', 'nearest', 'constant'):
            add('rows_alone', dims=['u2'], k=k, rows=18, mode=mode, api='mode', zones=('in',), cost=18)
        add('rows_alone', dims=['u'], k=k, rows=9, zones=('in',), api='default', cost=18)
        add('inplace', dims=['u'], k=k, rows=9, zones=('in',), cost=18)
    return out + sequences(th)

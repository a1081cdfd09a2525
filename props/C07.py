"""Memory safety for every double."""
from .common import *

PRELOAD = PRE_SPLINES + ['interpolation.multilinear.mlinterp', 'interpolation.splines.eval_cubic_numba', 'interpolation.splines.hermite', 'interpolation.splines.eval_cubic']
BOUNDS = {
    'quick': 'coordinates: any double (NaN, infinities, beyond int64); regular dimensions of any size 2..2^31+1, irregular ones with 2..4 nodes and with any number of nodes; 1..4 dimensions; 2 rows (1 above two dimensions); 1..2 components; arrays of the documented shape and of any content',
    'thorough': 'as quick with irregular dimensions of up to 6 nodes, 3 rows, more mixtures',
}
OUTSIDE = 'arrays whose shape does not match the grid; grids with fewer than two nodes; single precision'
ASSUMPTIONS = ['conversion of an out-of-range double to int64 may give any int64', 'comparisons involving an arbitrary double may go either way (over-approximation of IEEE comparisons)']


def hints(D):
    if D.kind == 'u':
        return [D.a, D.b, D.a - D.h, D.b + D.h, D.a + D.h / 2, D.b - D.h / 2, D.a - 1e-3 * D.h, D.b + 1e-3 * D.h]
    if D.kind == 'N':
        g = D.g
        return lambda: [g[0], g[-1], g[0] - 1, g[-1] + 1, (g[0] + g[1]) / 2, (g[-1] + g[-2]) / 2, g[len(g) // 2], g[-2]]
    return [D.a, D.b, D.a - D.w[0], D.b + D.w[-1], D.a + D.w[0] / 2, D.b - D.w[-1] / 2] + list(D.nodes[1:-1])


def coordset(H, D, name, rows):
    return [[H.anyfloat('%s_%d_%d' % (name, r, j), hints(D[j])) if True else None for j in range(len(D))] for r in range(rows)]


def spline(H, dims, k=1, call='vec', rows=2, nv=None, out=False, mode='linear', orders=None, api='spline'):
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    grid = tuple(x.g for x in D)
    sh = [x.n + (2 if k == 3 else 0) for x in D] + ([nv] if nv else [])
    C = H.havoc_array('C', sh)
    R = rows if call == 'vec' else 1
    P = coordset(H, D, 'x', R)
    pts = H.vec(P) if call == 'vec' else (H.vec(P[0]) if call == 'array' else tuple(P[0]))
    oshape = ((R,) if call == 'vec' else ()) + ((nv,) if nv else ()) + ((len(orders),) if orders else ())
    orders = [tuple(o) for o in orders] if orders else None
    evaluate(H, api, k, grid, C, pts, oshape if out else None, mode, orders)
    H.true(True, 'all accesses in bounds')


def ml(H, dims, form='tuple', func='mlinterp', rows=2):
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    grid = tuple(x.g for x in D)
    C = H.havoc_array('C', [x.n for x in D])
    if form in ('list', 'vec'):
        P = H.vec(coordset(H, D, 'x', rows))
        args = (P,)
    elif form == 'product':
        args = tuple(H.vec([H.anyfloat('x%d_%d' % (j, r), hints(x)) for r in range(rows)]) for j, x in enumerate(D))
    else:
        p = coordset(H, D, 'x', 1)[0]
        args = {'tuple': (tuple(p),), 'array': (H.vec(p),), 'scalars': tuple(p)}[form]
    if func == 'mlinterp':
        H.get('interpolation.mlinterp')(grid, C, *args)
    else:
        H.get('interpolation.interp')(*(grid + (C,) + args))
    H.true(True, 'all accesses in bounds')


def kernel(H, d, name, rows=1):
    D = [mkdim(H, j, 'u') for j in range(d)]
    a, b = H.vec([x.a for x in D]), H.vec([x.b for x in D])
    n = H.ints([x.n for x in D])
    multi = 'splines' in name
    C = H.havoc_array('C', [x.n + 2 for x in D] + ([2] if multi else []))
    vec = name.startswith('vec')
    P = coordset(H, D, 'x', rows if vec else 1)
    pts = H.vec(P) if vec else H.vec(P[0])
    f = H.get(S + 'eval_cubic_numba.%s_%d' % (name, d))
    args = [a, b, n, C, pts]
    R = rows if vec else 1
    if name == 'eval_cubic_splines':
        args.append(H.array('vals', (2,)))
    elif vec:
        args.append(H.array('vals', (R, 2) if multi else (R,)))
        if name.endswith('_G'):
            args.append(H.array('dvals', (R, d, 2)))
    f(*args)
    H.true(True, 'all accesses in bounds')


def herm(H, N, form='scalar'):
    D = ndim_(H, 0, N) if N else anydim(H, 0)
    y = H.havoc_array('y', [D.n])
    yp = H.havoc_array('yp', [D.n])
    if form == 'scalar':
        H.get(S + 'hermite.HermiteInterpolation')(H.anyfloat('x', hints(D)), D.g, y, yp)
    else:
        H.get(S + 'hermite.HermiteInterpolationVect')(H.vec([H.anyfloat('x%d' % i, hints(D)) for i in range(2)]), D.g, y, yp)
    H.true(True, 'all accesses in bounds')


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def add(**p):
        extra = {k: p.pop(k) for k in ('cost',) if k in p}
        out.append(T(case_name(p), 'spline', havoc=True, **extra, **p))
    for mode in ('linear', 'nearest', 'constant'):
        for k in (1, 3):
            dsets = [['u'], ['u', 'u']] + ([['n2'], ['n4'], ['n3', 'u'], ['N'], ['N', 'u'], ['u', 'N']] if k == 1 else [])
            if th:
                dsets += [['u'] * 3] + ([['n6'], ['u', 'n3', 'n2'], ['n3', 'n3']] if k == 1 else [])
            for ds in dsets:
                d = len(ds)
                rows = 2 if d == 1 else 1
                oo = [[0], [1]] if d == 1 else [[0] * d, [1] + [0] * (d - 1), [0] * (d - 1) + [1]]
                for call in ('tuple', 'array', 'vec'):
                    add(dims=ds, k=k, call=call, rows=rows, mode=mode, api='mode', cost=d * k)
                    add(dims=ds, k=k, call=call, rows=rows, nv=2, out=call != 'tuple', mode=mode, api='spline', cost=d * k)
                add(dims=ds, k=k, call='vec', rows=1, mode=mode, orders=oo, cost=d * k)
                add(dims=ds, k=k, call='array', nv=2, mode=mode, orders=oo, cost=d * k)
            add(dims=['u'] * 3, k=k, call='vec', rows=1, mode=mode, api='mode', cost=6 * k)
            if th:
                add(dims=['u'], k=k, call='vec', rows=3, mode=mode, api='mode', cost=6 * k)
    add(dims=['u'] * 4, k=1, call='vec', rows=1, api='default', cost=9)
    add(dims=['u'] * 4, k=3, call='array', api='default', cost=20)
    for ds in [['u'], ['n3'], ['N'], ['u', 'n3'], ['u', 'u'], ['N', 'u'], ['u', 'N'], ['n2', 'u', 'u']]:
        d = len(ds)
        for form in ('tuple', 'list'):
            out.append(T('mlinterp %s %s' % ('+'.join(ds), form), 'ml', havoc=True, cost=d * 2, dims=ds, form=form, rows=2 if d < 2 else 1))
        for form in ('tuple', 'array', 'scalars', 'vec') + (('product',) if d == 2 else ()):
            out.append(T('interp %s %s' % ('+'.join(ds), form), 'ml', havoc=True, cost=d * 2, dims=ds, form=form, func='interp', rows=2 if d < 2 or form == 'product' else 1))
    for d in (1, 2, 3, 4):
        for name in ('eval_cubic_spline', 'vec_eval_cubic_spline', 'eval_cubic_splines', 'vec_eval_cubic_splines', 'vec_eval_cubic_splines_G'):
            out.append(T('%s_%d' % (name, d), 'kernel', havoc=True, budget=400, cost=(3 * d * d) * (3 if name.endswith('_G') else 1), d=d, name=name, rows=2 if d == 1 else 1))
    for N in (2, 3, 5, None) + ((8,) if th else ()):
        for form in ('scalar', 'vector'):
            out.append(T('hermite %s nodes %s' % (N or 'any number of', form), 'herm', havoc=True, N=N, form=form))
    return out

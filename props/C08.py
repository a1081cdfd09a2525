"""Inputs are never modified, outputs are completely written."""
import itertools
from .common import *

PRELOAD = PRE_SPLINES + ['interpolation.multilinear.mlinterp', 'interpolation.splines.eval_cubic', 'interpolation.splines.eval_cubic_numba', 'interpolation.splines.filter_cubic',
                         'interpolation.splines.multilinear_numba', 'interpolation.complete_poly', 'interpolation.cartesian', 'interpolation.splines.hermite', 'interpolation.smolyak']
BOUNDS = {
    'quick': 'all real inputs and all previous contents of output arrays and of allocated memory; evaluation on 1..3 dimensions (regular ones of any size, irregular ones of 2..3 and of any number of nodes), every extrapolation mode, value and derivative calls, one point or lists of 2 (9 inside the grid) or any number of rows, 2, 9 or any number of components, points inside and outside; gradient and legacy kernels in 1..4 dimensions; filters on grids 2..6, 3x2, 2x3x2, 2x2x2x2; spline objects; complete polynomials of 1..4 variables up to degree 5; cartesian grids in both orders; Hermite; interp and mlinterp; Smolyak grids and interpolation',
    'thorough': 'as quick with every zone of the coordinates in 2 and 3 dimensions and larger grids',
}
OUTSIDE = 'data types other than double; arrays that overlap each other'
Z = ('in', 'last', 'low', 'high')


class Watch:
    def __init__(self, H):
        self.H, self.a = H, []

    def add(self, name, *arrs):
        for a in arrs:
            if isinstance(a, (tuple, list)) and a and not hasattr(a[0], 'shape'):
                continue
            if isinstance(a, (tuple, list)):
                for e in a:
                    if hasattr(e, 'shape') and e.shape != ():
                        self.a.append((name, e, self.H.snapshot(e)))
            elif hasattr(a, 'shape') and a.shape != ():
                self.a.append((name, a, self.H.snapshot(a)))
        return self

    def check(self, label=''):
        for n, a, s in self.a:
            self.H.unchanged(a, s, label + n)


def spline(H, dims, k=1, call='vec', rows=2, nv=None, out=False, mode='linear', orders=None, api='spline', zones=Z, strict=False):
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    grid = tuple(x.g for x in D)
    C = coefs(H, D, k, nv)
    R = rows if call == 'vec' else 1
    P = [[locate(H, D[j], '%d_%d' % (r, j), zones, strict).x for j in range(len(D))] for r in range(R)]
    pts = H.vec(P) if call == 'vec' else (H.vec(P[0]) if call == 'array' else tuple(P[0]))
    shape = ((R,) if call == 'vec' else ()) + ((nv,) if nv else ()) + ((len(orders),) if orders else ())
    w = Watch(H).add('coefficients', C).add('nodes', list(grid)).add('points', pts)

    def go(junk):
        o = junk('old', shape) if out else None
        if api == 'spline':
            r = H.get(S + 'eval_spline')(grid, C, pts, o, k, 'None' if orders is None else repr(tuple(tuple(x) for x in orders)), mode)
        else:
            a = [grid, C, pts] + ([o] if out else [])
            if api == 'mode':
                a.append(getattr(H.get(S + 'extrap_options'), mode.upper()))
            r = H.get(S + ('eval_linear' if k == 1 else 'eval_cubic'))(*a)
        return o if out else r
    H.settled(go, 'result')
    w.check()


def anyrow(H, dims, k=1, nv=None, mode='linear', orders=None, zones=Z, strict=False, out=False):
    """an arbitrary row of any number of rows is written"""
    rows_case(H, dims, k=k, nv=nv, out=out, mode=mode, orders=orders, zones=zones, strict=strict)


def anycomp(H, **p):
    comps_case(H, **p)


def legacy(H, name, d, zones, rows=2, module='eval_cubic_numba', out=True):
    D = [udim(H, j) for j in range(d)]
    lin = module == 'multilinear_numba'
    G = '_G' in name
    nv = 2 if 'splines' in name or name.startswith('vec_multi') else None
    vec = name.startswith('vec') or lin
    C = coefs(H, D, 1 if lin else 3, nv)
    a, b, n = bounds_arrays(H, D)
    R = rows if vec else 1
    pts = H.vec([[c.x for c in located(H, D, r, zones)] for r in range(R)])
    if not vec:
        pts = pts[0]
    f = H.get(S + module + '.' + name + ('_%d' % d if module == 'eval_cubic_numba' else ''))
    w = Watch(H).add('coefficients', C).add('bounds', a, b, n).add('points', pts)
    sh = ((R,) if vec else ()) + ((nv,) if nv else ())

    def go(junk):
        if G:
            if out:
                v, g = junk('vals', sh), junk('dvals', (R, d, nv))
                f(a, b, n, C, pts, v, g)
                return v, g
            return f(a, b, n, C, pts)
        if out and sh:
            o = junk('old', sh)
            f(a, b, n, C, pts, o)
            return o
        return f(a, b, n, C, pts)
    H.settled(go, 'result')
    w.check()


def filters(H, form, shape, nv=None, lay='C'):
    D = [udim(H, j, n - 1) for j, n in enumerate(shape)]
    grid = tuple(x.g for x in D)
    V = H.array('V', list(shape) + ([nv] if nv else []))
    if lay != 'C':
        V = H.layout(V, lay)
    a, b, n = H.vec([x.a for x in D]), H.vec([x.b for x in D]), H.ints(list(shape))
    cs = [m + 2 for m in shape] + ([nv] if nv else [])
    w = Watch(H).add('data', V).add('bounds', a, b, n)

    def go(junk):
        if form == 'prefilter':
            return H.get(S + 'prefilter')(grid, V, None, 3)
        if form == 'prefilter1':
            return H.get(S + 'prefilter')(grid, V, None, 1)
        if form == 'filter_cubic':
            return H.get(S + 'prefilter_cubic.filter_cubic')(grid, V)
        if form == 'prefilter_out':
            C = junk('old', cs)
            H.get(S + 'prefilter')(grid, V, C, 3)
            return C
        if form == 'filter_cubic_out':
            C = junk('old', cs)
            H.get(S + 'prefilter_cubic.filter_cubic')(grid, V, C)
            return C
        return H.get(S + 'filter_cubic.' + form)(a, b, n, V)
    H.settled(go, 'coefficients')
    w.check()


def filter_direct(H, d, nv=None):
    """filter_data / filter_coeffs_*d on their own"""
    shape = [3, 2, 2, 2][:d]
    dinv = H.array('dinv', (d,), pos=True)
    V = H.array('V', shape)
    w = Watch(H).add('data', V).add('inverse steps', dinv)
    H.settled(lambda junk: H.get(S + 'filter_cubic.filter_data')(dinv, V), 'coefficients')
    H.settled(lambda junk: H.get(S + 'filter_cubic.filter_coeffs_%dd' % d)(dinv, V), 'coefficients')
    w.check()


def objects(H, cls, shape, how='shaped'):
    D = [udim(H, j, n - 1) for j, n in enumerate(shape)]
    nv = 2 if cls.endswith('s') else None
    V = H.array('V', list(shape) + ([nv] if nv else []))
    U = H.array('U', list(shape) + ([nv] if nv else []))
    flat = (lambda A: (A.reshape((-1, nv)) if nv else A.reshape(-1))) if how == 'flat' else (lambda A: A)
    a, b, n = H.vec([x.a for x in D]), H.vec([x.b for x in D]), H.ints(list(shape))
    pts = H.vec([[x.a + x.h * H.numfrac(1 + 2 * r, 8) for x in D] for r in range(2)])
    gV, gU = flat(V), flat(U)
    w = Watch(H).add('values', V, U, gV, gU).add('bounds', a, b, n).add('points', pts)

    def go(junk):
        s = H.get(S + cls)(a, b, n, gV)
        r = [s(pts), s(pts[0])]
        if cls == 'CubicSpline':
            o = junk('old', (2,))
            s.interpolate(pts, o)
            r.append(o)
        if cls == 'CubicSplines':
            r.extend(s.interpolate(pts, diff=True))
        r.append(s.grid)
        s.set_values(gU)
        r += [s(pts), s.grid]
        s.set_values(gV)
        r.append(s(pts))
        return r
    H.settled(go, 'results')
    w.check()


def ml(H, dims, func, form, zones=Z, rows=2):
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    grid = tuple(x.g for x in D)
    C = coefs(H, D, 1)
    d = len(D)
    P = [[locate(H, D[j], '%d_%d' % (r, j), zones).x for j in range(d)] for r in range(rows if form in ('list', 'product') else 1)]
    if form == 'list':
        args = (H.vec(P),)
    elif form == 'array':
        args = (H.vec(P[0]),)
    elif form == 'tuple':
        args = (tuple(P[0]),)
    elif form == 'scalars':
        args = tuple(P[0])
    else:
        args = tuple(H.vec([p[j] for p in P]) for j in range(d))
    w = Watch(H).add('values', C).add('nodes', list(grid)).add('points', list(args))
    if func == 'mlinterp':
        H.settled(lambda junk: H.get('interpolation.mlinterp')(grid, C, *args), 'result')
    else:
        H.settled(lambda junk: H.get('interpolation.interp')(*(grid + (C,) + args)), 'result')
    w.check()


def hermite(H, N, form):
    D = ndim_(H, 0, N)
    y, yp = H.array('y', (N,)), H.array('yp', (N,))
    x = [locate(H, D, '%d' % r, Z).x for r in range(2 if form == 'vector' else 1)]
    w = Watch(H).add('nodes', D.g).add('values', y, yp)
    if form == 'vector':
        xv = H.vec(x)
        w.add('points', xv)
        H.settled(lambda junk: H.get(S + 'hermite.HermiteInterpolationVect')(xv, D.g, y, yp), 'result')
    else:
        H.settled(lambda junk: H.get(S + 'hermite.HermiteInterpolation')(x[0], D.g, y, yp), 'result')
    w.check()


def poly(H, n, d, nobs=None, der=None):
    M = 'interpolation.complete_poly.'
    z = H.array('z', (n, nobs) if nobs else (n,))
    w = Watch(H).add('variables', z)
    if der is None:
        H.settled(lambda junk: H.get(M + 'complete_polynomial')(z, d), 'basis')
    else:
        H.settled(lambda junk: H.get(M + 'complete_polynomial_der')(z, d, der), 'derivatives')
    w.check()


def poly_inplace(H, n, d, nobs=None, der=None):
    M = 'interpolation.complete_poly.'
    z = H.array('z', (n, nobs) if nobs else (n,))
    N = 1
    for i in range(d):
        N = N * (n + 1 + i) // (i + 1)
    w = Watch(H).add('variables', z)

    def go(junk):
        o = junk('old', (N, nobs) if nobs else (N,))
        f = H.get(M + ('_complete_poly%s_impl%s' % ('_der' if der is not None else '', '' if nobs else '_vec')))
        f(*((z, d) + ((der,) if der is not None else ()) + (o,)))
        return o
    H.settled(go, 'basis written in place')
    w.check()


def fit(H, n, d, nx=None):
    from . import C16
    E = C16.exps(n, d)
    P = H.const(C16.points(n, d, 1))
    X = H.array('X', (len(E) + 1, nx) if nx else (len(E) + 1,))
    s = H.array('s', (2, n))
    w = Watch(H).add('points', P, s).add('values', X)

    def go(junk):
        f = H.get('interpolation.complete_poly.CompletePolynomial')(n, d)
        f.fit_values(P, X)
        f.fit_values(P, X, damp=H.numfrac(1, 4))
        return f(s), f(s[0]), f.der(s, n - 1)
    H.settled(go, 'fitted values')
    w.check()


def cart(H, shape, order, what):
    if what == 'cartesian':
        nodes = [H.array('x%d' % j, (n,)) for j, n in enumerate(shape)]
        w = Watch(H).add('nodes', nodes)
        H.settled(lambda junk: H.get('interpolation.cartesian.cartesian')(nodes, order), 'rows')
    elif what == 'mlinspace':
        a, b, n = H.array('a', (len(shape),)), H.array('b', (len(shape),)), H.ints(list(shape))
        w = Watch(H).add('bounds', a, b, n)
        H.settled(lambda junk: H.get('interpolation.cartesian.mlinspace')(a, b, n, order), 'rows')
    else:
        a, b, n = H.array('a', (len(shape),)), H.array('b', (len(shape),)), H.ints(list(shape))
        w = Watch(H).add('bounds', a, b, n)
        H.settled(lambda junk: H.get(S + 'multilinear.mlinspace')(a, b, n), 'rows')
    w.check()


def smolyak(H, d, mu):
    M = 'interpolation.smolyak.'
    lb, wd = H.array('a', (d,)), H.array('w', (d,), pos=True)
    ub = lb + wd
    pts = lb + wd * H.const([[(1 + i + 2 * k) / 8.0 for i in range(d)] for k in range(2)])
    w = Watch(H).add('bounds', lb, ub).add('points', pts)

    def go(junk):
        sg = H.get(M + 'grid.SmolyakGrid')(d, mu, lb, ub)
        f = H.array('f', (sg.grid.shape[0],))
        g = H.array('g', (sg.grid.shape[0],))
        v = Watch(H).add('node values', f, g).add('grid', sg.grid, sg.cube_grid, sg.B)
        si = H.get(M + 'interp.SmolyakInterp')(sg, f)
        r = list(si.interpolate(pts, deriv=True, deriv_th=True, deriv_X=True))
        si.update_theta(g)
        r += [si.interpolate(pts), sg.dom2cube(pts), sg.cube2dom(pts), sg.grid]
        v.check()
        return r
    H.settled(go, 'results')
    w.check()


def cubes(H, d, npt):
    """the maps between the box and the cube on their own"""
    lb, wd = H.array('a', (d,)), H.array('w', (d,), pos=True)
    ub = lb + wd
    sg = H.get('interpolation.smolyak.grid.SmolyakGrid')(d, 1, lb, ub)
    x = H.array('x', (npt, d) if npt else (d,))
    w = Watch(H).add('bounds', lb, ub, sg.lb, sg.ub).add('points', x).add('grid', sg.grid, sg.cube_grid, sg.B)
    keep = []

    def go(junk):
        y = sg.dom2cube(x)
        keep.append((y, H.snapshot(y)))
        z = sg.cube2dom(x)
        u = sg.cube2dom(y)
        v = sg.dom2cube(z)
        return y, z, u, v
    H.settled(go, 'results')
    for y, s in keep:
        H.unchanged(y, s, 'earlier result')
    w.check()


KER = ('eval_cubic_spline', 'vec_eval_cubic_spline', 'eval_cubic_splines', 'vec_eval_cubic_splines', 'vec_eval_cubic_splines_G')


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def add(fn, **p):
        extra = {k: p.pop(k) for k in ('cost', 'witness', 'budget') if k in p}
        out.append(T(fn + ' ' + case_name(p), fn, **extra, **p))
    for k in (1, 3):
        for ds in [['u'], ['u', 'u'], ['u', 'u', 'u']] + ([['n3'], ['n2', 'u'], ['u', 'n3'], ['n2', 'u', 'n2']] if k == 1 else []):
            d = len(ds)
            oo = {1: [[0], [1]], 2: [[1, 0], [0, 0], [0, 1]], 3: [[1, 0, 0], [0, 0, 1]]}[d]
            z = Z if d == 1 else (('in', 'low', 'high') if d == 2 else (('in', 'high') if not th else ('in', 'low', 'high')))
            zd = tuple(x for x in z if x != 'last')
            for mode in ('linear', 'nearest', 'constant'):
                for call in ('vec', 'array', 'tuple'):
                    for nv in (None, 2):
                        if d == 3 and (mode == 'nearest' or call == 'array') and not th:
                            continue
                        R = 2 if d == 1 else 1
                        for o in (False, True):
                            if d > 1 and mode == 'nearest' and o and not th:
                                continue
                            if not (o and call != 'vec' and nv is None):
                                add('spline', dims=ds, k=k, call=call, rows=R, nv=nv, out=o, mode=mode, api='spline', zones=z if d < 3 else ('in', 'high'), cost=k * d * d)
                            if mode != 'nearest' and d < 3:
                                add('spline', dims=ds, k=k, call=call, rows=R, nv=nv, out=o, mode=mode, orders=oo, api='spline', zones=zd, strict=True, cost=2 * k * d * d)
                        if call == 'vec' and d < 3:
                            add('spline', dims=ds, k=k, call=call, rows=R, nv=nv, out=True, mode=mode, api='mode', zones=z, cost=k * d)
                            add('spline', dims=ds, k=k, call=call, rows=R, nv=nv, out=False, mode=mode, api='mode', zones=z, cost=k * d)
            for nv in (None, 2):
                if d < 3:
                    add('spline', dims=ds, k=k, nv=nv, rows=1, out=True, api='default', zones=z, cost=k * d)
                add('anyrow', dims=ds, k=k, nv=nv, out=True, mode='constant', zones=z if d < 3 else ('in',), cost=k * d)
                add('anyrow', dims=ds, k=k, nv=nv, out=False, mode='linear', zones=z if d < 3 else ('in',), cost=k * d)
    # any number of components, any number of irregular nodes
    for k in (1, 3):
        for o in (False, True):
            for rows in (1, None):
                add('anycomp', dims=['u'], k=k, call='vec', out=o, rows=rows, mode='constant', zones=Z, cost=k)
                add('anycomp', dims=['u', 'u'], k=k, call='vec', out=o, rows=rows, orders=[[1, 0], [0, 1]], zones=('in', 'high'), strict=True, cost=2 * k)
            add('anycomp', dims=['u'], k=k, call='array', out=o, mode='constant', orders=[[1], [0]], zones=('in', 'high'), strict=True, cost=k)
    for ds in (['N'], ['u', 'N'], ['N', 'u']):
        z = Z if len(ds) == 1 else ('in', 'low', 'high')
        for mode in ('linear', 'nearest', 'constant'):
            for nv in (None, 2):
                for o in (False, True):
                    add('spline', dims=ds, k=1, call='vec', rows=1, nv=nv, out=o, mode=mode, api='spline', zones=z, cost=2)
                add('spline', dims=ds, k=1, call='tuple', rows=1, nv=nv, mode=mode, api='spline', zones=z, cost=2)
    for k in (1, 3):
        for nv in (None, 2, 9):
            for o in (False, True):
                add('spline', dims=['u'], k=k, call='vec', rows=9, nv=nv, out=o, zones=('in',), cost=9)
        for mode in ('constant', 'nearest'):
            add('spline', dims=['u'], k=k, call='vec', rows=1, nv=9, out=True, mode=mode, zones=Z, cost=9)
            add('spline', dims=['u'], k=k, call='array', nv=9, out=True, mode=mode, zones=Z, cost=9)
    for name in KER:
        for d in (1, 2, 3, 4):
            z = list(Z) if d == 1 else (['in', 'low', 'high'] if d == 2 else ['mid0', 'high'] if d == 3 else ['mid0'])
            out.append(T('%s_%d' % (name, d), 'legacy', name=name, d=d, zones=z, rows=2 if d == 1 else 1, cost=5 * d, witness=1 if d < 4 else 0))
            for o in (True, False):
                if d < 4 or name != 'vec_eval_cubic_splines_G':
                    out.append(T('%s %dd out=%s' % (name, d, o), 'legacy', name=name, d=d, zones=z if d < 3 else ['mid0'], rows=2 if d == 1 else 1, module='eval_cubic', out=o, cost=5 * d, witness=1 if d < 4 else 0))
    for name in ('multilinear_interpolation', 'vec_multilinear_interpolation'):
        for d in (1, 2, 3):
            for o in (True, False):
                out.append(T('%s %dd out=%s' % (name, d, o), 'legacy', name=name, d=d, zones=list(Z) if d == 1 else ['in', 'high'], rows=2 if d == 1 else 1, module='multilinear_numba', out=o, cost=3))
    for sh in [[2], [3], [6], [3, 2], [2, 3], [2, 3, 2], [2, 2, 2, 2]] + ([[9], [4, 5], [3, 3, 3], [2, 3, 2, 3]] if th else []):
        nm = 'x'.join(map(str, sh))
        for form in ('prefilter', 'prefilter_out', 'filter_cubic', 'filter_cubic_out', 'filter_coeffs', 'filter_mcoeffs', 'prefilter1'):
            nvs = (2,) if form == 'filter_mcoeffs' else ((None,) if form == 'filter_coeffs' else (None, 2))
            for nv in nvs:
                for lay in ('C',) + (('F', 'A', 'RO') if len(sh) == 2 and form != 'prefilter1' else ()):
                    out.append(T('%s %s%s %s' % (form, nm, ' vv' if nv else '', lay), 'filters', form=form, shape=sh, nv=nv, lay=lay, cost=2 * len(sh) ** 2))
        for cls in ('LinearSpline', 'LinearSplines', 'CubicSpline', 'CubicSplines'):
            if len(sh) < 4:
                for how in ('shaped', 'flat'):
                    out.append(T('%s %s %s' % (cls, nm, how), 'objects', cls=cls, shape=sh, how=how, cost=4 * len(sh) ** 2))
    for d in (1, 2, 3, 4):
        out.append(T('filter_data %dd' % d, 'filter_direct', d=d, cost=5))
    for ds in [['u'], ['n3'], ['u', 'u'], ['n2', 'u'], ['u', 'n2', 'u']]:
        z = Z if len(ds) < 3 else ('in', 'high')
        for func in ('mlinterp', 'interp'):
            for form in ('list', 'tuple') + (('array', 'scalars', 'product') if func == 'interp' else ()):
                if form == 'product' and len(ds) > 2:
                    continue
                out.append(T('%s %s %s' % (func, '+'.join(ds), form), 'ml', dims=ds, func=func, form=form, zones=z if form not in ('list', 'product') or len(ds) == 1 else ('in', 'high'), rows=2 if len(ds) == 1 or form == 'product' else 1, cost=2 * len(ds)))
    for N in (2, 3, 5):
        for form in ('scalar', 'vector'):
            out.append(T('hermite %s %d' % (form, N), 'hermite', N=N, form=form, cost=N))
    for n in range(1, 5):
        for d in range(6):
            for nobs in (None, 2):
                out.append(T('basis n=%d d=%d obs=%s' % (n, d, nobs), 'poly', n=n, d=d, nobs=nobs))
                out.append(T('basis in place n=%d d=%d obs=%s' % (n, d, nobs), 'poly_inplace', n=n, d=d, nobs=nobs))
                for der in sorted({0, n - 1}):
                    out.append(T('basis n=%d d=%d obs=%s der=%d' % (n, d, nobs, der), 'poly', n=n, d=d, nobs=nobs, der=der))
                    out.append(T('basis in place n=%d d=%d obs=%s der=%d' % (n, d, nobs, der), 'poly_inplace', n=n, d=d, nobs=nobs, der=der))
    for n, d in ((1, 2), (2, 2), (2, 1)):
        for nx in (None, 2):
            out.append(T('fit n=%d d=%d %s' % (n, d, nx), 'fit', n=n, d=d, nx=nx, cost=3))
    for sh in [[3], [2, 3], [2, 3, 2], [1, 4]]:
        for order in 'CF':
            for what in ('cartesian', 'mlinspace', 'multilinear'):
                if what != 'multilinear' or order == 'C':
                    out.append(T('%s %s %s' % (what, sh, order), 'cart', shape=sh, order=order, what=what))
    for npt in (0, 1, 3, 130):
        out.append(T('cube maps %d points' % npt, 'cubes', d=2, npt=npt, cost=1 + npt / 20))
    for d, mu in ((2, 1), (2, 2), (3, 1)):
        out.append(T('smolyak d=%d mu=%d' % (d, mu), 'smolyak', d=d, mu=mu, cost=4))
    return out

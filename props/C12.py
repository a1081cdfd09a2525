"""Gradients of cubic multi-splines."""
import itertools
from .common import *

PRELOAD = PRE_SPLINES + ['interpolation.splines.eval_cubic', 'interpolation.splines.eval_cubic_numba', 'interpolation.splines.filter_cubic']
BOUNDS = {
    'quick': 'all real coefficients, bounds and points; regular dimensions of any size 2..2^31+1; 1..4 dimensions; points in the grid, on nodes, at the last node, below and above in every combination up to 3 dimensions (4 dimensions: every side of every coordinate, the other coordinates at fixed positions of any cell, and all coordinates free inside); 1..2 splines and an arbitrary spline of any number; an arbitrary row of any number of rows; arrays allocated or given; objects on grids 4, 3x2, 2x2x2; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with two splines in every combination, two rows, and pairs of free coordinates outside in 4 dimensions',
}
OUTSIDE = 'rounding; data types other than double'
Z = ['in', 'last', 'low', 'high']


def want(H, C, co, nv, d):
    v = [reference(H, C, co, 3, None, 'linear', comp=i) for i in range(nv)]
    g = [[reference(H, C, co, 3, unit(d, j), 'linear', comp=i) for i in range(nv)] for j in range(d)]
    return v, g


def kernel(H, d, zones, nv=1, rows=1, api='kernel', out='both', kind='array'):
    D = [udim(H, j) for j in range(d)]
    C = coefs(H, D, 3, nv)
    P = [located(H, D, r, zones) for r in range(rows)]
    pts = H.vec([[c.x for c in co] for co in P])
    a, b, n = bounds_arrays(H, D, kind)
    vals = H.array('vals', (rows, nv)) if out in ('both', 'values') else None
    dvals = H.array('dvals', (rows, d, nv)) if out in ('both', 'dvalues') else None
    if api == 'kernel':
        H.get(S + 'eval_cubic_numba.vec_eval_cubic_splines_G_%d' % d)(a, b, n, C, pts, vals, dvals)
    else:
        r = H.get(S + 'eval_cubic.vec_eval_cubic_splines_G')(a, b, n, C, pts, vals, dvals)
        if vals is not None:
            H.eq(vals, r[0], 'returned values')
        if dvals is not None:
            H.eq(dvals, r[1], 'returned derivatives')
        vals, dvals = r
    W = [want(H, C, co, nv, d) for co in P]
    H.eq(vals, H.vec([w[0] for w in W]), 'values', scale=1.0)
    H.eq(dvals, H.vec([w[1] for w in W]), 'derivatives', scale=1.0)


def anyrow(H, d, zones, nv=2, api='kernel'):
    D = [udim(H, j) for j in range(d)]
    C = coefs(H, D, 3, nv)
    N, r = H.rows('N')
    co = located(H, D, 0, zones)
    pts = H.rowarray('P', N, r, [c.x for c in co])
    vals, dvals = H.rowout('vals', N, (nv,)), H.rowout('dvals', N, (d, nv))
    a, b, n = bounds_arrays(H, D)
    if api == 'kernel':
        H.get(S + 'eval_cubic_numba.vec_eval_cubic_splines_G_%d' % d)(a, b, n, C, pts, vals, dvals)
    else:
        H.get(S + 'eval_cubic.vec_eval_cubic_splines_G')(a, b, n, C, pts, vals, dvals)
    v, g = want(H, C, co, nv, d)
    for i in range(nv):
        H.eq(H.ref(vals, r, i), v[i], 'value in row r of any number of rows', scale=1.0)
        for j in range(d):
            H.eq(H.ref(dvals, r, j, i), g[j][i], 'derivative in row r of any number of rows', scale=1.0)


def anyspline(H, d, zones, api='kernel', rows=None, out='both'):
    """an arbitrary spline out of any number of splines (rows None: and an
    arbitrary row of any number of rows)"""
    D = [udim(H, j) for j in range(d)]
    K, q = H.rows('K')
    C = H.absarray('C', [x.n + 2 for x in D] + [K])
    co = located(H, D, 0, zones)
    xs = [c.x for c in co]
    if rows is None:
        N, r = H.rows('N')
        pts = H.rowarray('P', N, r, xs)
    else:
        N, r = 1, 0
        pts = H.vec([xs])
    a, b, n = bounds_arrays(H, D)
    vals = H.rowout('vals', N, (K,)) if out in ('both', 'values') else None
    dvals = H.rowout('dvals', N, (d, K)) if out in ('both', 'dvalues') else None
    if api == 'kernel':
        H.get(S + 'eval_cubic_numba.vec_eval_cubic_splines_G_%d' % d)(a, b, n, C, pts, vals, dvals)
    else:
        vals, dvals = H.get(S + 'eval_cubic.vec_eval_cubic_splines_G')(a, b, n, C, pts, vals, dvals)
    H.eq(H.ref(vals, r, q), reference(H, C, co, 3, None, 'linear', comp=q), 'value of spline q of any number of splines', scale=1.0)
    for j in range(d):
        H.eq(H.ref(dvals, r, j, q), reference(H, C, co, 3, unit(d, j), 'linear', comp=q), 'derivative of spline q of any number of splines', scale=1.0)


def objects(H, shape, zones, rows=1, nv=2):
    D = [udim(H, j, n - 1) for j, n in enumerate(shape)]
    d = len(D)
    V = H.array('V', list(shape) + [nv])
    s = H.get(S + 'CubicSplines')([x.a for x in D], [x.b for x in D], list(shape), V)
    C = H.get(S + 'prefilter_cubic.filter_cubic')(tuple(x.g for x in D), V)
    P = [located(H, D, r, zones) for r in range(rows)]
    pts = H.vec([[c.x for c in co] for co in P])
    r = H.keep(s.interpolate(pts, diff=True))
    H.eq(len(r), 2, 'number of results')
    W = [want(H, C, co, nv, d) for co in P]
    H.eq(r[0], H.vec([w[0] for w in W]), 'values', scale=1.0)
    H.eq(r[1], H.vec([w[1] for w in W]), 'derivatives', scale=1.0)
    H.eq(r[0], s.interpolate(pts), 'values with and without derivatives')


def sequences(th):
    out = []
    for o in ('both', 'values', 'dvalues', 'none'):
        out += twice('kernel', dict(d=1, zones=['in'], nv=2, rows=1, api='G', out=o), cost=3) + twice('kernel', dict(d=2, zones=['in'], nv=1, rows=1, api='G', out=o), dict(d=2, zones=['in'], nv=2, rows=1, api='G', out=o), cost=4)
    out += twice('objects', dict(shape=[3], zones=['in'], rows=1), cost=4) + twice('objects', dict(shape=[3, 2], zones=['in'], rows=1), dict(shape=[2, 3], zones=['in'], rows=1), cost=4)
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for api in ('kernel', 'G'):
        out.append(T('%s 1d' % api, 'kernel', d=1, zones=Z, nv=2, rows=2, api=api, cost=5))
        out.append(T('%s 2d' % api, 'kernel', d=2, zones=Z, nv=2, rows=1, api=api, cost=10))
        out.append(T('%s 1d any rows' % api, 'anyrow', d=1, zones=Z, api=api, cost=5))
        out.append(T('%s 2d any rows' % api, 'anyrow', d=2, zones=['in', 'high'], api=api, cost=10))
        out.append(T('%s 2d two rows' % api, 'kernel', d=2, zones=['in'], nv=2, rows=2, api=api, cost=10))
    for o in ('none', 'values', 'dvalues'):
        for kind in ('array', 'list'):
            out.append(T('G 1d %s given %s' % (o, kind), 'kernel', d=1, zones=['in', 'high'], nv=2, rows=1, api='G', out=o, kind=kind))
            out.append(T('G 2d %s given %s' % (o, kind), 'kernel', d=2, zones=['in'], nv=2, rows=1, api='G', out=o, kind=kind, cost=4))
        for rows in (1, None):
            nm = 'any number of splines' + (' and rows' if rows is None else '')
            for o in ('both', 'none', 'values', 'dvalues') if api == 'G' else ('both',):
                out.append(T('%s 1d %s %s' % (api, nm, o), 'anyspline', d=1, zones=Z, api=api, rows=rows, out=o, cost=5))
            out.append(T('%s 2d %s' % (api, nm), 'anyspline', d=2, zones=['in', 'low', 'high'] if rows is None else Z, api=api, rows=rows, out='both' if api == 'kernel' else 'none', cost=10))
            out.append(T('%s 3d %s' % (api, nm), 'anyspline', d=3, zones=['mid0', 'high'], api=api, rows=rows, out='both' if api == 'kernel' else 'none', cost=10))
        out.append(T('%s 4d any number of splines and rows' % api, 'anyspline', d=4, zones=['mid1'], api=api, out='both' if api == 'kernel' else 'none', cost=60, budget=400, witness=0))
    # all coordinates free inside
    out.append(T('kernel 3d inside', 'kernel', d=3, zones=['in', 'last'], nv=2 if th else 1, cost=60))
    out.append(T('kernel 3d any rows', 'anyrow', d=3, zones=['mid0'], nv=2, cost=10))
    out.append(T('G 3d inside', 'kernel', d=3, zones=['mid1'], nv=2, api='G', cost=10))
    out.append(T('G 4d inside', 'kernel', d=4, zones=['mid1'], nv=1, api='G', out='none', cost=40))
    out.append(T('kernel 4d any rows', 'anyrow', d=4, zones=['mid0'], nv=2, cost=60, budget=400, witness=0))
    for j in range(3):
        for z in ('low', 'high'):
            per = [['in'] if i != j else [z] for i in range(3)]
            out.append(T('kernel 3d coordinate %d %s' % (j, z), 'kernel', d=3, zones=per, nv=2 if th else 1, cost=30))
    for zs in itertools.product(('low', 'high'), repeat=3):
        out.append(T('kernel 3d %s' % '/'.join(zs), 'kernel', d=3, zones=[[z] for z in zs], nv=1, cost=10))
    out.append(T('kernel 4d inside', 'kernel', d=4, zones=['in'], nv=1, cost=500, budget=600, witness=1))
    for j in range(4):
        for z in ('in', 'last', 'low', 'high'):
            per = [['mid%d' % (i % 2)] if i != j else [z] for i in range(4)]
            out.append(T('kernel 4d coordinate %d %s' % (j, z), 'kernel', d=4, zones=per, nv=1, cost=40, witness=0))
    for zs in [('low', 'high', 'low', 'high'), ('high', 'low', 'high', 'low'), ('low', 'low', 'high', 'high')]:
        out.append(T('kernel 4d %s' % '/'.join(zs), 'kernel', d=4, zones=[[z] for z in zs], nv=1, cost=100, budget=400, witness=0))
    if th:
        for j, k in itertools.combinations(range(4), 2):
            for z, y in itertools.product(('in', 'low', 'high'), repeat=2):
                per = [['mid0']] * 4
                per[j], per[k] = [z], [y]
                out.append(T('kernel 4d coordinates %d %s %d %s' % (j, z, k, y), 'kernel', d=4, zones=per, nv=2, cost=80, budget=600, witness=0))
    for sh, z, rows in [([4], Z, 2), ([2], Z, 1), ([3, 2], ['in', 'low', 'high'], 1), ([2, 3], ['in'], 2), ([2, 2, 2], ['mid0'], 1)]:
        out.append(T('object %s' % 'x'.join(map(str, sh)), 'objects', shape=sh, zones=z, rows=rows, cost=20))
    return out + sequences(th)

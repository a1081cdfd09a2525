"""Compatibility calls and legacy kernels."""
import itertools
from .common import *

PRELOAD = PRE_SPLINES + ['interpolation.splines.eval_cubic', 'interpolation.splines.eval_cubic_numba', 'interpolation.splines.multilinear_numba']
BOUNDS = {
    'quick': 'all real coefficients, bounds and points; regular dimensions of any size 2..2^31+1; 1..4 dimensions; points inside, at nodes, at the last node, below and above in every combination up to 3 dimensions for the kernels (4 dimensions: all coordinates free inside, every side of every coordinate, some corners); 2 splines and an arbitrary spline of any number; an arbitrary row of any number of rows; allocating and in place; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with more rows and every pair of free coordinates outside in 4 dimensions',
}
OUTSIDE = 'rounding; data types other than double'
Z = ['in', 'last', 'low', 'high']
KER = ('eval_cubic_spline', 'vec_eval_cubic_spline', 'eval_cubic_splines', 'vec_eval_cubic_splines')


def wants(H, C, co, k, nv):
    if nv:
        return [reference(H, C, co, k, None, 'linear', comp=i) for i in range(nv)]
    return reference(H, C, co, k, None, 'linear')


def kernel(H, name, d, zones, rows=1, olay='C'):
    D = [udim(H, j) for j in range(d)]
    nv = 2 if name.endswith('splines') else None
    vec = name.startswith('vec')
    C = coefs(H, D, 3, nv)
    P = [located(H, D, r, zones) for r in range(rows if vec else 1)]
    a, b, n = bounds_arrays(H, D)
    f = H.get(S + 'eval_cubic_numba.%s_%d' % (name, d))
    W = [wants(H, C, co, 3, nv) for co in P]
    pts = H.vec([[c.x for c in co] for co in P])
    if vec:
        o = H.layout(H.array('old', (len(P),) + ((nv,) if nv else ())), olay)
        f(a, b, n, C, pts, o)
        H.eq(o, H.vec(W), 'values', scale=1.0)
    elif nv:
        o = H.layout(H.array('old', (nv,)), olay)
        f(a, b, n, C, pts[0], o)
        H.eq(o, H.vec(W[0]), 'values', scale=1.0)
    else:
        H.eq(f(a, b, n, C, pts[0]), W[0], 'value', scale=1.0)


def anyrow(H, name, d, zones):
    D = [udim(H, j) for j in range(d)]
    nv = 2 if name.endswith('splines') else None
    C = coefs(H, D, 3, nv)
    N, r = H.rows('N')
    co = located(H, D, 0, zones)
    pts = H.rowarray('P', N, r, [c.x for c in co])
    o = H.rowout('old', N, (nv,) if nv else ())
    a, b, n = bounds_arrays(H, D)
    H.get(S + 'eval_cubic_numba.%s_%d' % (name, d))(a, b, n, C, pts, o)
    W = wants(H, C, co, 3, nv)
    if nv:
        for i in range(nv):
            H.eq(H.ref(o, r, i), W[i], 'row r of any number of rows', scale=1.0)
    else:
        H.eq(H.ref(o, r), W, 'row r of any number of rows', scale=1.0)


def anyspline(H, name, d, zones, rows=None, api='kernel', out=True):
    """an arbitrary spline out of any number of splines (rows None: and an
    arbitrary row of any number of rows)"""
    D = [udim(H, j) for j in range(d)]
    K, q = H.rows('K')
    lin = 'multilinear' in name
    k = 1 if lin else 3
    C = H.absarray('C', [x.n + (0 if lin else 2) for x in D] + [K])
    co = located(H, D, 0, zones)
    xs = [c.x for c in co]
    if rows is None:
        N, r = H.rows('N')
        pts, lead, idx = H.rowarray('P', N, r, xs), (N,), [r]
    elif rows:
        pts, lead, idx = H.vec([xs]), (1,), [0]
    else:
        pts, lead, idx = H.vec(xs), (), []
    a, b, n = bounds_arrays(H, D)
    o = H.rowout('old', (lead + (K,))[0], (lead + (K,))[1:]) if out else None
    if api == 'kernel':
        H.get(S + 'eval_cubic_numba.%s_%d' % (name, d))(a, b, n, C, pts, o)
    else:
        f = H.get(S + ('multilinear_numba.' if lin else 'eval_cubic.') + name)
        if out:
            f(a, b, n, C, pts, o)
        else:
            o = f(a, b, n, C, pts)
    H.eq(H.ref(o, *(idx + [q])), reference(H, C, co, k, None, 'linear', comp=q), 'spline q of any number of splines', scale=1.0)


def anycompat(H, name, d, zones, out=True):
    """compatibility calls on an arbitrary row of any number of rows"""
    D = [udim(H, j) for j in range(d)]
    lin = 'multilinear' in name
    k = 1 if lin else 3
    nv = 2 if name.endswith('splines') or name == 'vec_multilinear_interpolation' else None
    C = coefs(H, D, k, nv)
    N, r = H.rows('N')
    co = located(H, D, 0, zones)
    pts = H.rowarray('P', N, r, [c.x for c in co])
    a, b, n = bounds_arrays(H, D)
    f = H.get(S + ('multilinear_numba.' if lin else 'eval_cubic.') + name)
    o = H.rowout('old', N, (nv,) if nv else ()) if out else None
    if out:
        f(a, b, n, C, pts, o)
    else:
        o = f(a, b, n, C, pts)
    W = wants(H, C, co, k, nv)
    if nv:
        for i in range(nv):
            H.eq(H.ref(o, r, i), W[i], 'row r of any number of rows', scale=1.0)
    else:
        H.eq(H.ref(o, r), W, 'row r of any number of rows', scale=1.0)


def compat(H, name, d, zones, rows=2, out=False, call='vec', lay='C', olay='C'):
    D = [udim(H, j) for j in range(d)]
    lin = 'multilinear' in name
    k = 1 if lin else 3
    nv = 2 if name.endswith('splines') or name == 'vec_multilinear_interpolation' else None
    C = coefs(H, D, k, nv)
    vec = name.startswith('vec') if not lin else call == 'vec'
    P = [located(H, D, r, zones) for r in range(rows if vec else 1)]
    a, b, n = bounds_arrays(H, D)
    f = H.get(S + ('multilinear_numba.' if lin else 'eval_cubic.') + name)
    W = [wants(H, C, co, k, nv) for co in P]
    pts = H.vec([[c.x for c in co] for co in P])
    if lay != 'C':
        pts = H.layout(pts, lay)
    if not vec:
        pts, W = pts[0], W[0]
    if out:
        o = H.array('old', ((len(P),) if vec else ()) + ((nv,) if nv else ()))
        o = H.layout(o, olay)
        f(a, b, n, C, pts, o)
        res = o
    else:
        res = f(a, b, n, C, pts)
    H.eq(res, H.vec(W) if vec or nv else W, 'values', scale=1.0)


def sequences(th):
    out = []
    for name in ('eval_cubic_spline', 'vec_eval_cubic_spline', 'eval_cubic_splines', 'vec_eval_cubic_splines', 'multilinear_interpolation', 'vec_multilinear_interpolation'):
        for d in (1, 2):
            p = dict(name=name, d=d, zones=['in'], rows=1, call='vec' if 'vec' in name or 'multi' in name else 'point')
            out += twice('compat', p, cost=4)
        out.append(then([('compat', dict(name=name, d=d, zones=['in'], rows=1, call='vec' if 'vec' in name or 'multi' in name else 'point')) for d in (1, 2, 1)], cost=4))
    for p, q in itertools.permutations(('vec_eval_cubic_spline', 'vec_eval_cubic_splines', 'eval_cubic_spline'), 2):
        out.append(then([('compat', dict(name=n, d=1, zones=['in'], rows=1, call='vec' if 'vec' in n else 'point')) for n in (p, q)], cost=4))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for name in KER:
        vec = name.startswith('vec')
        out.append(T('%s_1' % name, 'kernel', name=name, d=1, zones=Z, rows=2, cost=5))
        out.append(T('%s_2' % name, 'kernel', name=name, d=2, zones=Z, cost=10))
        if vec:
            out.append(T('%s_2 two rows' % name, 'kernel', name=name, d=2, zones=['in', 'high'], rows=2, cost=10))
            for d in (1, 2, 3, 4):
                out.append(T('%s_%d any rows' % (name, d), 'anyrow', name=name, d=d, zones=Z if d == 1 else (['in', 'low'] if d == 2 else ['mid0']), cost=5 * d, witness=1 if d < 4 else 0))
        out.append(T('%s_3 inside' % name, 'kernel', name=name, d=3, zones=['in', 'last'], cost=20))
        out.append(T('%s_4 inside' % name, 'kernel', name=name, d=4, zones=['in'], cost=100, budget=400))
        for zs in itertools.product(('low', 'high', 'mid1'), repeat=3):
            if 'low' in zs or 'high' in zs:
                out.append(T('%s_3 %s' % (name, '/'.join(zs)), 'kernel', name=name, d=3, zones=[[z] for z in zs], cost=5, witness=1 if zs[0] == 'low' else 0))
        for j in range(4):
            for z in Z:
                per = [['mid%d' % (i % 2)] if i != j else [z] for i in range(4)]
                out.append(T('%s_4 coordinate %d %s' % (name, j, z), 'kernel', name=name, d=4, zones=per, cost=5, witness=0))
        for zs in [('low', 'high', 'low', 'high'), ('high', 'low', 'high', 'low')]:
            out.append(T('%s_4 %s' % (name, '/'.join(zs)), 'kernel', name=name, d=4, zones=[[z] for z in zs], cost=20, witness=0))
        if th:
            for j, k in itertools.combinations(range(4), 2):
                for z, y in itertools.product(('in', 'low', 'high'), repeat=2):
                    per = [['mid0']] * 4
                    per[j], per[k] = [z], [y]
                    out.append(T('%s_4 coordinates %d %s %d %s' % (name, j, z, k, y), 'kernel', name=name, d=4, zones=per, cost=20, budget=400, witness=0))
    for name in KER:
        for o in (False, True):
            if o and name == 'eval_cubic_spline':
                continue
            for d, z, r in [(1, Z, 2), (2, Z, 1), (2, ['in'], 2), (3, ['in'], 1)] + ([(3, ['low', 'high'], 1), (4, ['mid0'], 1)] if th else []):
                out.append(T('%s %dd %d%s%s' % (name, d, r, ' out' if o else '', '' if z == Z else ' ' + '/'.join(z)), 'compat', name=name, d=d, zones=z, rows=r, out=o, cost=4 ** d))
    for name in ('multilinear_interpolation', 'vec_multilinear_interpolation'):
        for o in (False, True):
            for call in ('vec', 'array'):
                if call == 'array' and o and name == 'multilinear_interpolation':
                    continue
                for d, z, r in [(1, Z, 2), (2, Z, 1), (2, ['in'], 2), (3, ['in', 'low', 'high'], 1), (4, ['in'], 1)]:
                    out.append(T('%s %s %dd %d%s' % (name, call, d, r, ' out' if o else ''), 'compat', name=name, d=d, zones=z, rows=r, out=o, call=call, cost=3 ** d))
    for name in ('eval_cubic_splines', 'vec_eval_cubic_splines', 'vec_multilinear_interpolation'):
        for rows in ((0,) if name == 'eval_cubic_splines' else (1, None)):
            nm = 'any number of splines' + (' and rows' if rows is None else '')
            for api in ('kernel', 'compat'):
                if api == 'kernel' and 'multi' in name:
                    continue
                for o in (True, False) if api == 'compat' else (True,):
                    for d, z in [(1, Z), (2, ['in', 'low', 'high']), (3, ['mid0', 'high'])] + ([(4, ['mid1'])] if rows is None or not rows else []):
                        out.append(T('%s %s %dd %s%s' % (api, name, d, nm, ' out' if o else ''), 'anyspline', name=name, d=d, zones=z if 'multi' not in name or d < 3 else ['in', 'high'] if d == 3 else ['in'], rows=rows, api=api, out=o, cost=4 * d, witness=1 if d < 4 else 0))
    for name in ('vec_eval_cubic_spline', 'vec_eval_cubic_splines', 'multilinear_interpolation', 'vec_multilinear_interpolation'):
        for o in (True, False):
            for d, z in [(1, Z), (2, ['in', 'low', 'high'])]:
                out.append(T('%s %dd any rows%s' % (name, d, ' out' if o else ''), 'anycompat', name=name, d=d, zones=z, out=o, cost=4 * d))
    for name in KER + ('vec_multilinear_interpolation',):
        for olay in ('F', 'A'):
            if name == 'eval_cubic_spline' or (olay == 'F' and name != 'vec_eval_cubic_splines' and 'multi' not in name):
                continue
            for d, z in [(1, Z), (2, ['in'])]:
                out.append(T('%s %dd container layout %s' % (name, d, olay), 'compat', name=name, d=d, zones=z, rows=2, out=True, olay=olay, cost=4 * d))
                if 'multi' not in name:
                    out.append(T('%s_%d container layout %s' % (name, d, olay), 'kernel', name=name, d=d, zones=z, rows=1 + (d == 1), olay=olay, cost=4 * d))
    for name in ('vec_eval_cubic_splines', 'vec_multilinear_interpolation', 'vec_eval_cubic_spline'):
        for lay in ('F', 'A', 'RO'):
            out.append(T('%s layout %s' % (name, lay), 'compat', name=name, d=2, zones=['in'], rows=2, out=True, lay=lay, cost=4))
    return out + sequences(th)

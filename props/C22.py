"""Regular dimensions and arrays of equally spaced nodes."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.multilinear.mlinterp', 'interpolation.splines']
BOUNDS = {
    'quick': 'all real bounds, values and points; sizes 2..6 in 1 dimension, 2x3, 3x2, 4x2 and 2x3x2 above, and any number of nodes in up to 3 dimensions; every subset of replaced dimensions; values in every extrapolation mode, single points and lists; derivatives strictly inside cells; 2 components; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'sizes up to 10 in 1 dimension, 5x4, 3x3x3',
}
OUTSIDE = 'rounding; derivatives exactly at nodes, where they are one-sided'
Z = ['in', 'last', 'low', 'high']


def setup(H, shape, subset, nv=None):
    if shape[0] is None:
        # any number of nodes (see spaced)
        D = [udim(H, j) for j in range(len(shape))]
        for j, x in enumerate(D):
            x.nodes_ = H.increasing('g%d' % j, x.n) if j in subset else None
        return D, tuple(x.g for x in D), tuple(x.nodes_ if j in subset else x.g for j, x in enumerate(D)), coefs(H, D, 1, nv)
    D = [udim(H, j, n - 1) for j, n in enumerate(shape)]
    grid = tuple(x.g for x in D)
    alt = tuple(H.vec([x.a + i * x.h for i in range(x.n)]) if j in subset else x.g for j, x in enumerate(D))
    V = H.array('V', list(shape) + ([nv] if nv else []))
    return D, grid, alt, V


def place(H, D, j, name, zones, strict=False):
    """a coordinate; the nodes around it are where equal spacing puts them"""
    c = locate(H, D[j], name, zones, strict)
    g = getattr(D[j], 'nodes_', None)
    if g is not None:
        x = D[j]
        done = []
        for i, v in ((c.p, x.a + c.p * x.h), (c.p + 1, x.a + (c.p + 1) * x.h), (0, x.a), (x.m, x.b)):
            if not any(e is i or (isinstance(e, int) and isinstance(i, int) and e == i) for e in done):
                H.bind(g, i, v)
                done.append(i)
        H.settle_nodes(g)
    return c


def evaluation(H, shape, subset, mode='linear', call='vec', orders=None, nv=None, zones=Z, rows=1):
    D, grid, alt, V = setup(H, shape, subset, nv)
    P = [[place(H, D, j, '%d_%d' % (r, j), zones, orders is not None).x for j in range(len(D))] for r in range(rows)]
    pts = H.vec(P) if call == 'vec' else (H.vec(P[0]) if call == 'array' else tuple(P[0]))
    f = H.get(S + 'eval_spline')
    df = 'None' if orders is None else repr(tuple(tuple(o) for o in orders))
    H.eq(f(alt, V, pts, None, 1, df, mode), f(grid, V, pts, None, 1, df, mode), 'both descriptions', scale=1.0)


def linear(H, shape, subset, zones=Z):
    """eval_linear, mlinterp and interp on both descriptions"""
    D, grid, alt, V = setup(H, shape, subset)
    P = [place(H, D, j, '%d' % j, zones) for j in range(len(D))]
    x = tuple(c.x for c in P)
    ev = H.get(S + 'eval_linear')
    opt = H.get(S + 'extrap_options')
    ml, it = H.get('interpolation.mlinterp'), H.get('interpolation.interp')
    v = ev(grid, V, H.vec([x]))[0]
    H.eq(ev(alt, V, H.vec([x]))[0], v, 'eval_linear on both descriptions', scale=1.0)
    H.eq(ml(grid, V, x), v, 'mlinterp and eval_linear', scale=1.0)
    H.eq(ml(alt, V, x), v, 'mlinterp on nodes and eval_linear', scale=1.0)
    w = ev(grid, V, H.vec([x]), opt.NEAREST)[0]
    H.eq(it(*(grid + (V, x))), w, 'interp and eval_linear (nearest)', scale=1.0)
    H.eq(it(*(alt + (V, x))), w, 'interp on nodes and eval_linear (nearest)', scale=1.0)
    if all(c.zone in ('in', 'last') for c in P):
        H.eq(w, v, 'extrapolation modes inside of the grid', scale=1.0)


def sequences(th):
    b = dict(mode='linear', call='vec', zones=['in'], rows=1)
    out = twice('evaluation', dict(b, shape=[3], subset=[0]), cost=3) + twice('evaluation', dict(b, shape=[3, 2], subset=[0]), dict(b, shape=[3, 2], subset=[1]), cost=4) + twice('linear', dict(shape=[3], subset=[0], zones=['in']), cost=3)
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    shapes = [[n] for n in ([2, 3, 4, 6] + ([5, 8, 10] if th else []))] + [[2, 3], [3, 2], [4, 2]] + [[2, 3, 2]] + ([[5, 4], [3, 3, 3]] if th else [])
    for sh in shapes:
        d = len(sh)
        nm = 'x'.join(map(str, sh))
        for r in range(1, d + 1):
            for sub in itertools.combinations(range(d), r):
                sn = '%s %s' % (nm, ''.join(map(str, sub)))
                z = Z if d < 3 else ['in', 'low', 'high']
                out.append(T('functions %s' % sn, 'linear', shape=sh, subset=list(sub), zones=z, cost=6 ** d))
                for mode in ('linear', 'nearest', 'constant'):
                    out.append(T('%s %s' % (mode, sn), 'evaluation', shape=sh, subset=list(sub), mode=mode, zones=z, cost=4 ** d))
                    if d < 3:
                        out.append(T('%s %s point' % (mode, sn), 'evaluation', shape=sh, subset=list(sub), mode=mode, call='array' if mode == 'linear' else 'tuple', zones=z, cost=3 ** d))
                    oo = all_orders(d) if d < 3 else [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1]]
                    out.append(T('%s %s derivatives' % (mode, sn), 'evaluation', shape=sh, subset=list(sub), mode=mode, orders=oo, zones=['in', 'low', 'high'] if d < 3 else ['in'], cost=6 ** d))
                if d < 3:
                    out.append(T('%s vv' % sn, 'evaluation', shape=sh, subset=list(sub), nv=2, zones=z, cost=4 ** d))
        if d == 1:
            out.append(T('%s two rows' % nm, 'evaluation', shape=sh, subset=[0], rows=2, cost=16))
    # any number of nodes
    for d in (1, 2, 3):
        for r in range(1, d + 1):
            for sub in itertools.combinations(range(d), r):
                sn = 'any size %dd %s' % (d, ''.join(map(str, sub)))
                z = Z if d == 1 else (['in', 'low', 'high'] if d == 2 else ['in'])
                out.append(T('functions %s' % sn, 'linear', shape=[None] * d, subset=list(sub), zones=z, cost=3 ** d))
                if d < 3:
                    for mode in ('linear', 'nearest', 'constant'):
                        for call, nv in (('vec', None), ('tuple', 2), ('array', None), ('vec', 2)):
                            out.append(T('%s %s %s %s' % (mode, sn, call, nv), 'evaluation', shape=[None] * d, subset=list(sub), mode=mode, call=call, nv=nv, zones=z, cost=3 ** d))
                        out.append(T('%s %s derivatives' % (mode, sn), 'evaluation', shape=[None] * d, subset=list(sub), mode=mode, orders=all_orders(d), zones=['in', 'low', 'high'] if d == 1 else ['in', 'high'], cost=4 ** d))
    return out + sequences(th)

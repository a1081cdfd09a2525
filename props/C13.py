"""Hermite interpolation."""
from .common import *

PRELOAD = PRE_SPLINES + ['interpolation.splines.hermite']
BOUNDS = {
    'quick': 'all real increasing nodes, values, slopes and points; 2..8, 12 and any number of nodes; vectors of 1..2 points (10 inside the grid), one-column matrices, an arbitrary element of a vector of any length; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'up to 20 nodes; vectors of 3 points',
}
OUTSIDE = 'rounding; nodes that are not increasing'
Z = ('in', 'last', 'low', 'high')
M = S + 'hermite.'


def cubic(H, y0, y1, m0, m1, w, s):
    """the cubic with values y0, y1 and slopes m0, m1 at the ends of an interval
    of width w, at distance s from its left end, by divided differences"""
    q = (y1 - y0) / w
    c2 = (q - m0) / w
    c3 = (m0 + m1 - 2 * q) / (w * w)
    return y0 + m0 * s + c2 * s * s + c3 * s * s * (s - w)


def data(H, N):
    D = ndim_(H, 0, N)
    return D, H.array('y', (N,)), H.array('yp', (N,))


def want(H, D, y, yp, c):
    if c.zone == 'low':
        return y[0]
    if c.zone in ('high', 'last'):
        return y[D.n - 1]
    p = c.p
    return cubic(H, y[p], y[p + 1], yp[p], yp[p + 1], D.w[p], c.x - D.nodes[p])


def scalar(H, N, form='scalar'):
    D, y, yp = data(H, N)
    c = locate(H, D, '0', Z)
    W = want(H, D, y, yp, c)
    x = c.x
    if form == 'scalar':
        r = H.get(M + 'HermiteInterpolation')(x, D.g, y, yp)
    elif form == 'vector':
        r = H.get(M + 'HermiteInterpolationVect')(H.vec([x]), D.g, y, yp)
        W = H.vec([W])
    H.eq(r, W, 'value')


def caller(H):
    """hermite works inside of compiled code only"""
    if H.sym:
        return H.get(M + 'hermite')
    import numba
    f = getattr(H, '_H', H).get(M + 'hermite')

    @numba.njit
    def g(x0, x, y, yp):
        return f(x0, x, y, yp)

    def call(*args):
        return H.keep(g(*args))
    return call


def overloaded(H, N, form, rows=1, zones=Z):
    D, y, yp = data(H, N)
    P = [locate(H, D, '%d' % r, zones) for r in range(rows)]
    W = [want(H, D, y, yp, c) for c in P]
    f = caller(H)
    if form == 'scalar':
        H.eq(f(P[0].x, D.g, y, yp), W[0], 'scalar')
    elif form == 'vector':
        H.eq(f(H.vec([c.x for c in P]), D.g, y, yp), H.vec(W), 'vector')
    else:
        H.eq(f(H.vec([[c.x] for c in P]), D.g, y, yp), H.vec(W), 'one-column matrix')


def vector(H, N, rows, zones=Z, strict=False):
    D, y, yp = data(H, N)
    P = [locate(H, D, '%d' % r, zones, strict) for r in range(rows)]
    r = H.get(M + 'HermiteInterpolationVect')(H.vec([c.x for c in P]), D.g, y, yp)
    H.eq(r, H.vec([want(H, D, y, yp, c) for c in P]), 'vector')
    for i, c in enumerate(P):
        H.eq(r[i], H.get(M + 'HermiteInterpolation')(c.x, D.g, y, yp), 'element %d and the point alone' % i)


def nodes(H, N):
    D, y, yp = data(H, N)
    r = H.get(M + 'HermiteInterpolationVect')(D.g, D.g, y, yp)
    H.eq(r, y, 'values at the nodes')


def ends(H, N):
    """values and slopes at both ends of every interval, from four values of the piece"""
    D, y, yp = data(H, N)
    f = H.get(M + 'HermiteInterpolation')
    for p in range(N - 1):
        w = D.w[p]
        v = [f(D.nodes[p] + w * H.numfrac(i, 5), D.g, y, yp) for i in (1, 2, 3, 4)]
        # extrapolate the cubic through the four values (Lagrange) to both ends
        H.eq(4 * v[0] - 6 * v[1] + 4 * v[2] - v[3], y[p], 'left value of interval %d' % p)
        H.eq(4 * v[3] - 6 * v[2] + 4 * v[1] - v[0], y[p + 1], 'right value of interval %d' % p)
        q = H.numfrac(5, 6)
        H.eq((-26 * v[0] + 57 * v[1] - 42 * v[2] + 11 * v[3]) * q / w, yp[p], 'left slope of interval %d' % p)
        H.eq((26 * v[3] - 57 * v[2] + 42 * v[1] - 11 * v[0]) * q / w, yp[p + 1], 'right slope of interval %d' % p)


def piece(H):
    """the pieces on their own"""
    xk, w = H.real('xk'), H.real('w', pos=True)
    s = H.real('s')
    y0, y1, m0, m1 = [H.real(n) for n in ('y0', 'y1', 'm0', 'm1')]
    r = H.get(M + 'hermite_interp')(xk + s, xk, xk + w, y0, y1, m0, m1)
    H.eq(r, cubic(H, y0, y1, m0, m1, w, s), 'piece')


def basis(H):
    t = H.real('t')
    h = H.get(M + 'hermite_splines')(t)
    for k, args in enumerate([(1, 0, 0, 0), (0, 0, 1, 0), (0, 1, 0, 0), (0, 0, 0, 1)]):
        H.eq(h[k], cubic(H, *[1.0 * x for x in args], 1.0, t), 'basis function %d' % k)


def anyrow(H, N):
    D, y, yp = data(H, N)
    n, r = H.rows('N')
    c = locate(H, D, '0', Z)
    pts = H.rowarray('P', n, r, [c.x])
    res = H.get(M + 'HermiteInterpolationVect')(pts[:, 0], D.g, y, yp)
    H.eq(H.ref(res, r), want(H, D, y, yp, c), 'element r of a vector of any length')


def anysize(H, form='scalar'):
    """any number of nodes"""
    D = anydim(H, 0)
    y, yp = H.absarray('y', [D.n]), H.absarray('yp', [D.n])
    c = locate(H, D, '0', Z)
    if c.zone == 'low':
        W = H.ref(y, 0)
    elif c.zone in ('high', 'last'):
        W = H.ref(y, D.m)
    else:
        p = c.p
        W = cubic(H, H.ref(y, p), H.ref(y, p + 1), H.ref(yp, p), H.ref(yp, p + 1), 1 / c.inv, c.t / c.inv)
    if form == 'scalar':
        r = H.get(M + 'HermiteInterpolation')(c.x, D.g, y, yp)
    elif form == 'vector':
        r = H.get(M + 'HermiteInterpolationVect')(H.vec([c.x]), D.g, y, yp)
        W = H.vec([W])
    elif form == 'any':
        n, q = H.rows('N')
        pts = H.rowarray('P', n, q, [c.x])
        r = H.ref(H.get(M + 'HermiteInterpolationVect')(pts[:, 0], D.g, y, yp), q)
    elif form == 'hermite':
        r = caller(H)(c.x, D.g, y, yp)
    H.eq(r, W, 'value')


def sequences(th):
    out = []
    for form in ('scalar', 'vector'):
        out += twice('overloaded', dict(N=3, form=form, rows=1, zones=['in']), cost=3)
    out += twice('scalar', dict(N=3, form='scalar'), cost=4) + twice('vector', dict(N=3, rows=2, zones=['in']), cost=4) + twice('vector', dict(N=3, rows=2, zones=['in']), dict(N=2, rows=2, zones=['in']), cost=4)
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = [T('piece', 'piece'), T('basis', 'basis')]
    for N in [2, 3, 4, 5, 6, 7, 8, 12] + ([10, 15, 20] if th else []):
        for form in ('scalar', 'vector'):
            out.append(T('%s %d nodes' % (form, N), 'scalar', N=N, form=form, cost=N))
        out.append(T('nodes %d' % N, 'nodes', N=N, cost=N))
        if N < 9:
            out.append(T('ends %d' % N, 'ends', N=N, cost=N))
    for N in (2, 3, 4):
        out.append(T('vector of 2, %d nodes' % N, 'vector', N=N, rows=2, cost=N * N))
        for form in ('scalar', 'vector', 'matrix'):
            out.append(T('hermite %s %d nodes' % (form, N), 'overloaded', N=N, form=form, rows=2 if form != 'scalar' else 1, cost=N * N))
        out.append(T('any length, %d nodes' % N, 'anyrow', N=N, cost=N))
    for form in ('scalar', 'vector', 'any', 'hermite'):
        out.append(T('any number of nodes, %s' % form, 'anysize', form=form, cost=3))
    out.append(T('vector of 10, 2 nodes', 'vector', N=2, rows=10, zones=('in',), strict=True, cost=10))
    if th:
        out.append(T('vector of 3', 'vector', N=3, rows=3, cost=60))
    return out + sequences(th)

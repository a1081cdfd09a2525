"""Cox-de Boor basis functions."""
from .common import *

PRELOAD = ['interpolation', 'interpolation.splines', 'interpolation.splines.basis_splines']
BOUNDS = {
    'quick': 'all increasing real knot vectors of up to 9 knots, all points, degrees 0..3 (degree 4 for the recursion), every index',
    'thorough': 'up to 12 knots, degrees up to 5 for the sum',
}
OUTSIDE = 'repeated knots; rounding'
M = S + 'basis_splines.'


def setup(H, n, spans):
    """increasing knots u and a point x in span q (-1: below the first knot,
    n-1: at or above the last); every configuration of the two"""
    q = H.choice('q', spans)
    at = H.choice('at', [True, False]) if q >= 0 else False
    u = [H.real('u0')]
    x = u[0] - H.real('s', pos=True) if q < 0 else None
    for k in range(n):
        if k == q and at:
            x = u[k]
        if k == q and not at:
            x = u[k] + H.real('s', pos=True)
        if k < n - 1:
            u.append((x if k == q and not at else u[k]) + H.real('w%d' % k, pos=True))
    return q, x, u


def pieces(p, i, q, x, u):
    """value of B_{i,p} on span q by the recursion, unrolled on the span"""
    if p == 0:
        return 1 if i == q else 0
    r = 0
    if i <= q <= i + p - 1:
        r = r + (x - u[i]) / (u[i + p] - u[i]) * pieces(p - 1, i, q, x, u)
    if i + 1 <= q <= i + p:
        r = r + (u[i + p + 1] - x) / (u[i + p + 1] - u[i + 1]) * pieces(p - 1, i + 1, q, x, u)
    return r


def recursion(H, p, i, n):
    q, x, u = setup(H, n, range(-1, n))
    B = H.get(M + 'B')
    v = B(p, H.vec(u), i, x)
    if q < i or q > i + p:
        H.eq(v, 0.0, 'zero outside of its span')
        return
    H.eq(v, pieces(p, i, q, x, u), 'piecewise polynomial')
    if p <= 3:
        H.true(v >= 0, 'non-negative')


def step(H, n, i):
    q, x, u = setup(H, n, range(-1, n))
    H.eq(H.get(M + 'B0')(H.vec(u), i, x), 1.0 if q == i else 0.0, 'indicator')


def unity(H, p, n):
    """the active functions sum to one at every interior point"""
    q, x, u = setup(H, n, range(p, n - 1 - p))
    B = H.get(M + 'B')
    r = 0
    for i in range(n - 1 - p):
        r = r + B(p, H.vec(u), i, x)
    H.eq(r, 1.0, 'sum of the basis functions')


def uniform(H):
    """equally spaced knots: the weights of cubic evaluation"""
    a, h = H.real('a'), H.real('h', pos=True)
    u = [a + i * h for i in range(8)]
    t = H.real('t', lo=0)
    H.assume(t < 1)
    B = H.get(M + 'B')
    x = u[3] + t * h
    w = bspline(t)
    for i in range(4):
        H.eq(B(3, H.vec(u), i, x), w[i], 'cubic basis function %d' % i)
    # and the weights the evaluation uses: basis coefficient i alone
    for i in range(4):
        C = H.vec([1.0 if j == i else 0.0 for j in range(4)])
        v = H.get(S + 'eval_splines.eval_cubic')(((0.0, 1.0, 2),), C, H.vec([t]))
        H.eq(v, B(3, H.vec(u), i, x), 'weight %d of cubic evaluation' % i)


def tasks(tier):
    th = tier == 'thorough'
    out = [T('equally spaced', 'uniform')]
    for n in (2, 3, 5):
        for i in range(n - 1):
            out.append(T('degree 0, %d knots, index %d' % (n, i), 'step', n=n, i=i))
    top = 12 if th else 9
    for p in (1, 2, 3):
        for n in range(p + 2, top if p < 3 or th else 8):
            for i in range(n - 1 - p):
                out.append(T('degree %d, %d knots, index %d' % (p, n, i), 'recursion', p=p, n=n, i=i, cost=p * p * 2))
    for p in (4,):
        out.append(T('degree %d' % p, 'recursion', p=p, n=p + 2, i=0, cost=20))
    for p in (0, 1, 2, 3) + ((4,) if th else ()):
        for n in range(2 * p + 2, min(2 * p + 5, 10)):
            out.append(T('sum, degree %d, %d knots' % (p, n), 'unity', p=p, n=n, cost=10 * p))
    return out

"""Fitting complete polynomials."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.complete_poly']
BOUNDS = {
    'quick': 'all coefficients of the polynomial, all evaluation points, all damping factors; 1 variable degrees 0..5, 2 variables degrees 0..4, 3 variables degrees 1..2; fixed point sets that determine the polynomial, as many points as terms or three more, sets of points 1/10 to 1/1000 apart, and all sets of points up to degree 2 (one variable) or 1 (two variables) at least one apart; 1 to 3 outputs; histories of up to three fits, the arrays changing their content in between; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with 2 variables degree 5, 3 variables degree 3 and 4 variables degree 2',
}
OUTSIDE = 'rounding and conditioning of the least-squares solution; point sets that do not determine the polynomial'
ASSUMPTIONS = ['scipy.linalg.lstsq returns the exact least-squares solution on full-rank problems (or the one of the stated cut-off, when one is passed)']
M = 'interpolation.complete_poly.'


def exps(n, d):
    return [e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d]


def points(n, d, extra):
    """principal lattice of order d, shifted and stretched, and a few more points"""
    sc = [2, 3, 1, 2]
    sh = [-1, 1, 0, 2]
    P = [[sc[j] * x + sh[j] for j, x in enumerate(e)] for e in exps(n, d)]
    for k in range(extra):
        P.append([sc[j] * (k + 1 + j) - 2 * k * j - 3 for j in range(n)])
    return P


def poly(H, c, E, x, j=None):
    r = 0.0
    for k, e in enumerate(E):
        t = c[k] if j is None else c[k, j]
        for y, q in zip(x, e):
            for _ in range(q):
                t = t * y
        r = r + t
    return r


def dpoly(H, c, E, x, der, j=None):
    r = 0.0
    for k, e in enumerate(E):
        if e[der] == 0:
            continue
        t = e[der] * (c[k] if j is None else c[k, j])
        for i, (y, q) in enumerate(zip(x, e)):
            for _ in range(q - (1 if i == der else 0)):
                t = t * y
        r = r + t
    return r


def values(H, name, E, P, nx):
    c = H.array(name, (len(E), nx) if nx else (len(E),))
    X = H.vec([[poly(H, c, E, p, j) for j in range(nx)] if nx else poly(H, c, E, p) for p in P])
    return c, X


def check(H, f, parts, E, n, nx, label):
    """f represents the combination sum w*poly(c)"""
    s = H.array('s', (2, n))

    def comb(g):
        r = 0.0
        for w, c in parts:
            r = r + w * g(c)
        return r
    for k in range(2):
        x = [s[k, i] for i in range(n)]
        W = [comb(lambda c: poly(H, c, E, x, j)) for j in range(nx)] if nx else comb(lambda c: poly(H, c, E, x))
        W = H.vec(W) if nx else W
        v = f(s)
        H.eq(v[k], W, '%s: value at point %d' % (label, k), scale=1e3)
        if k == 0:
            H.eq(f(s[0]), W, '%s: value at one point' % label, scale=1e3)
        for der in range(n):
            W = [comb(lambda c: dpoly(H, c, E, x, der, j)) for j in range(nx)] if nx else comb(lambda c: dpoly(H, c, E, x, der))
            W = H.vec(W) if nx else W
            H.eq(f.der(s, der)[k], W, '%s: derivative %d at point %d' % (label, der, k), scale=1e4)
            if k == 0:
                H.eq(f.der(s[0], der), W, '%s: derivative %d at one point' % (label, der), scale=1e4)


def fit(H, n, d, extra=0, nx=None, low=0):
    """reproduces polynomials of degree at most d"""
    E = exps(n, d)
    P = points(n, d, extra)
    F = exps(n, d - low)
    c, X = values(H, 'c', F, P, nx)
    f = H.get(M + 'CompletePolynomial')(n, d)
    f.fit_values(H.const(P), X)
    check(H, f, [(1, c)], F, n, nx, 'fit')


def anypoints(H, n, d, m, nx=None):
    """symbolic points: all sets of m points that determine the polynomial"""
    E = exps(n, d)
    S = H.array('p', (m, n))
    P = [[S[k, i] for i in range(n)] for k in range(m)]
    if n == 1:
        for k in range(1, m):
            H.assume(P[k - 1][0] + 1 <= P[k][0]) if k <= len(E) else None
    else:
        a, b, c = P[:3]
        H.assume((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) >= 1)
    c, X = values(H, 'c', E, P, nx)
    f = H.get(M + 'CompletePolynomial')(n, d)
    f.fit_values(S, X)
    check(H, f, [(1, c)], E, n, nx, 'fit at any points')


def scaled(H, n, d, num, den, nx=None, damp=False):
    """points close to each other (every step num/den): the fit is not cut off"""
    E = exps(n, d)
    q = H.numfrac(num, den)
    P = [[q * x for x in e] for e in exps(n, d)] + [[q * (d + 1 + j) for j in range(n)]]
    # values of monomials in the number of steps, so that all terms have the same size
    c = H.array('c', (len(E), nx) if nx else (len(E),))
    K = [e for e in exps(n, d)] + [tuple(d + 1 + j for j in range(n))]
    X = H.vec([[poly(H, c, E, p, j) for j in range(nx)] if nx else poly(H, c, E, p) for p in K])
    f = H.get(M + 'CompletePolynomial')(n, d)
    f.fit_values(H.const(P), X)
    if damp:
        f.fit_values(H.const(P), 3 * X, damp=0.5)
        X = 2 * X
    H.eq(f(H.const(P)), X, 'values at the points', scale=10.0 ** (d + 1), tol=1e-6)


def content(H, n, d, nx=None, which='values'):
    """fits of the same array objects with changed content"""
    E = exps(n, d)
    P = points(n, d, 1)
    f = H.get(M + 'CompletePolynomial')(n, d)
    c0, X = values(H, 'c0', E, P, nx)
    S = H.const(P)
    f.fit_values(S, X)
    s = H.array('t', (2, n))
    f(s)
    f(S)
    if which == 'points':
        P = [[2 * x + 1 for x in p] for p in P]
        S[:] = H.const(P)
    c1, Y = values(H, 'c1', E, P, nx)
    X[...] = Y
    f.fit_values(S, X)
    check(H, f, [(1, c1)], E, n, nx, 'same arrays with other content')
    # evaluation at the same array object with other content
    u = H.array('u', (2, n))
    s[:] = u
    H.eq(f(s), f(u), 'same points array with other content', scale=1e3)
    H.eq(f.der(s, n - 1), f.der(u, n - 1), 'same points array with other content, derivative', scale=1e3)


def refit(H, n, d, nx=None, fits=2, order=0):
    """damping: (1-damp) new + damp old"""
    E = exps(n, d)
    P = points(n, d, 1)
    f = H.get(M + 'CompletePolynomial')(n, d)
    parts = []
    for k in range(fits):
        c, X = values(H, 'c%d' % k, E, P, nx)
        if k == 0 or order == k:
            f.fit_values(H.const(P), X)
            parts = [(1, c)]
        else:
            w = H.real('damp%d' % k)
            f.fit_values(H.const(P), X, damp=w)
            parts = [(q * w, b) for q, b in parts] + [(1 - w, c)]
    check(H, f, parts, E, n, nx, 'after %d fits' % fits)


def alive(H, n, d, d2=None, nx=None, extra2=0):
    """two objects used in turns"""
    d2 = d if d2 is None else d2
    E1, E2 = exps(n, d), exps(n, d2)
    P1, P2 = points(n, d, 0), points(n, d2, extra2)
    if extra2:
        P2 = [[x + H.numfrac(1, 2) for x in p] for p in P2]
    c1, X1 = values(H, 'c1', E1, P1, nx)
    c2, X2 = values(H, 'c2', E2, P2, nx)
    CP = H.get(M + 'CompletePolynomial')
    f, g = CP(n, d), CP(n, d2)
    f.fit_values(H.const(P1), X1)
    check(H, f, [(1, c1)], E1, n, nx, 'first')
    g.fit_values(H.const(P2), X2)
    check(H, f, [(1, c1)], E1, n, nx, 'first after the fit of the second')
    check(H, g, [(1, c2)], E2, n, nx, 'second')
    c3, X3 = values(H, 'c3', E1, P1, nx)
    w = H.real('damp')
    f.fit_values(H.const(P1), X3, damp=w)
    check(H, g, [(1, c2)], E2, n, nx, 'second after another fit of the first')
    check(H, f, [(w, c1), (1 - w, c3)], E1, n, nx, 'first after another fit')


def sequences(th):
    out = []
    for n, d in [(1, 2), (2, 1), (2, 2)]:
        for nx in (None, 1, 2):
            out.append(T('two objects alive %d variables degree %d outputs %s' % (n, d, nx), 'alive', n=n, d=d, nx=nx, cost=8))
            out.append(T('two objects alive %d variables degree %d and 1 outputs %s' % (n, d, nx), 'alive', n=n, d=d, d2=1, nx=nx, cost=8))
            out.append(T('two objects alive %d variables degree %d other points outputs %s' % (n, d, nx), 'alive', n=n, d=d, nx=nx, extra2=2, cost=8))
    out += twice('fit', dict(n=1, d=2, extra=1), dict(n=2, d=1, extra=0), cost=5) + twice('fit', dict(n=2, d=2, extra=1, nx=2), cost=8)
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    cases = [(1, d) for d in range(6)] + [(2, d) for d in range(5)] + [(3, 1), (3, 2)] + ([(2, 5), (3, 3), (4, 2)] if th else [])
    for n, d in cases:
        for extra in (0, 3):
            for nx in (None, 1, 2) + ((3,) if n == 1 else ()):
                out.append(T('%d variables degree %d extra %d outputs %s' % (n, d, extra, nx), 'fit', n=n, d=d, extra=extra, nx=nx, cost=1 + n * d * d))
        if d >= 2:
            out.append(T('%d variables degree %d lower degree data' % (n, d), 'fit', n=n, d=d, extra=2, nx=2, low=1, cost=1 + n * d * d))
    for n, d, m in [(1, 0, 1), (1, 0, 3), (1, 1, 2), (1, 1, 3), (1, 2, 3), (2, 1, 3)]:
        for nx in (None, 2):
            out.append(T('any %d points, %d variables degree %d outputs %s' % (m, n, d, nx), 'anypoints', n=n, d=d, m=m, nx=nx, cost=20))
    for n, d in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2)]:
        for k in (10, 100) + ((1000,) if d < 3 else ()):
            for nx in (None, 2):
                out.append(T('%d variables degree %d points 1/%d apart outputs %s' % (n, d, k, nx), 'scaled', n=n, d=d, num=1, den=k, nx=nx, damp=nx is None, cost=5))
        for nx in (None, 2):
            for w in ('values', 'points'):
                out.append(T('%d variables degree %d outputs %s changed content %s' % (n, d, nx, w), 'content', n=n, d=d, nx=nx, which=w, cost=10))
    for n, d in [(1, 2), (1, 3), (2, 1), (2, 2)]:
        for nx in (None, 2):
            for fits in (2, 3):
                out.append(T('%d variables degree %d, %d fits, outputs %s' % (n, d, fits, nx), 'refit', n=n, d=d, nx=nx, fits=fits, cost=5 * n * d))
            out.append(T('%d variables degree %d, full refit, outputs %s' % (n, d, nx), 'refit', n=n, d=d, nx=nx, fits=3, order=1, cost=5 * n * d))
    return out + sequences(th)

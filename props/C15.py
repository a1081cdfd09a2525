"""Derivative basis of complete polynomials."""
from .common import *

PRELOAD = ['interpolation', 'interpolation.complete_poly']
BOUNDS = {
    'quick': 'all real values of the variables; every variable index, 1..4 variables at every degree 0..5, 5..6 variables up to degree 3; vectors, and matrices of 1..3 observations in C, Fortran and strided layout, and an arbitrary observation of any number of them; variable indices from -3 to 8 and degrees up to 12; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with up to 6 variables at every degree and 5 observations',
}
OUTSIDE = 'rounding; more variables'
M = 'interpolation.complete_poly.'
STENCIL = [(1, -1, 60), (2, 3, 20), (3, -3, 4), (5, 3, 4), (6, -3, 20), (7, 1, 60)]


def reference(H, z, d, der):
    """derivative of the basis the package returns: seven point formula, exact up to degree six"""
    f = H.get(M + 'complete_polynomial')
    r = None
    for k, num, den in STENCIL:
        y = list(z)
        y[der] = y[der] + (k - 4)
        t = f(H.vec(y), d) * H.numfrac(num, den)
        r = t if r is None else r + t
    return r


def basis(H, n, d, der, nobs=None, lay='C', zero=False):
    g = H.get(M + 'complete_polynomial_der')
    Zm = H.array('z', (n, nobs or 1))
    if zero:
        Zm = H.vec([[0.0 if i == der else Zm[i, k] for k in range(nobs or 1)] for i in range(n)])
    if lay != 'C':
        Zm = H.layout(Zm, lay)
    sc = 1e3
    if nobs is None:
        z = [Zm[i, 0] for i in range(n)]
        H.eq(g(H.vec(z), d, der), reference(H, z, d, der), 'derivative of the basis', scale=sc)
        return
    out = g(Zm, d, der)
    for k in range(nobs):
        H.eq(out[:, k], reference(H, [Zm[i, k] for i in range(n)], d, der), 'observation %d' % k, scale=sc)


def anyobs(H, n, d, der):
    """an arbitrary observation of any number of observations"""
    z = [H.real('z%d' % i) for i in range(n)]
    N, r = H.rows('N')
    out = H.get(M + 'complete_polynomial_der')(H.colarray('Z', N, r, z), d, der)
    w = reference(H, z, d, der)
    for i in range(len(w)):
        H.eq(H.ref(out, i, r), w[i], 'term %d of observation r of any number' % i, scale=1e3)


def agree(H, n, d, der, nobs):
    g = H.get(M + 'complete_polynomial_der')
    Zm = H.array('z', (n, nobs))
    out = g(Zm, d, der)
    for k in range(nobs):
        H.eq(out[:, k], g(Zm[:, k], d, der), 'observation %d alone' % k)
    H.eq(g([[Zm[i, k] for k in range(nobs)] for i in range(n)], d, der), out, 'nested list and array')


def integers(H, n, d, der, nobs=None, big=10 ** 6):
    """integer data: products beyond 64 bits do not wrap"""
    g = H.get(M + 'complete_polynomial_der')
    H.machine_ints()
    z = [[H.int('z%d_%d' % (i, k), 2, big) for k in range(nobs or 1)] for i in range(n)]
    out = g(H.ints([r[0] for r in z]) if nobs is None else H.ints(z), d, der)
    H.exact_ints()
    for k in range(nobs or 1):
        w = reference(H, [H.tofloat(z[i][k]) for i in range(n)], d, der)
        H.eq(out if nobs is None else out[:, k], w, 'integer data', tol=1e-5)


def refused(H, d, der, shape):
    g = H.get(M + 'complete_polynomial_der')
    H.raises(lambda: g(H.array('z', shape), d, der), 'degree %d, variable %d accepted' % (d, der))


def sequences(th):
    out = []
    for n, d in [(1, 3), (2, 2), (3, 1), (2, 4)]:
        for nobs in (None, 2):
            out += twice('basis', dict(n=n, d=d, der=n - 1, nobs=nobs)) + twice('basis', dict(n=n, d=d, der=n - 1, nobs=nobs), dict(n=n, d=d, der=0, nobs=nobs))
            out.append(then([('basis', dict(n=n, d=d, der=0, nobs=nobs)), ('basis', dict(n=n, d=d - 1, der=0, nobs=nobs)), ('basis', dict(n=d, d=n, der=0, nobs=nobs)), ('basis', dict(n=n, d=d, der=0, nobs=None if nobs else 1)), ('basis', dict(n=n, d=d, der=n - 1, nobs=nobs))]))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for n in range(1, 7):
        for d in range(6):
            if n > 4 and d > 3 and not th:
                continue
            for der in range(n):
                nm = '%d variables degree %d, variable %d' % (n, d, der)
                c = 1 + (n * d) // 2
                out.append(T('vector ' + nm, 'basis', n=n, d=d, der=der, cost=c))
                out.append(T('matrix ' + nm, 'basis', n=n, d=d, der=der, nobs=2 if n > 2 else 3, cost=2 * c))
                if n <= 3:
                    out.append(T('any number of observations, ' + nm, 'anyobs', n=n, d=d, der=der, cost=2 * c))
                    out.append(T('zero ' + nm, 'basis', n=n, d=d, der=der, nobs=1, zero=True, cost=c))
                    out.append(T('zero vector ' + nm, 'basis', n=n, d=d, der=der, zero=True, cost=c))
                    out.append(T('agree ' + nm, 'agree', n=n, d=d, der=der, nobs=2, cost=c))
    for n, d, der in [(1, 4, 0), (1, 5, 0), (2, 4, 1), (2, 5, 0), (2, 5, 1), (3, 3, 2)]:
        for nobs in (None, 2):
            out.append(T('integers %d variables degree %d variable %d observations %s' % (n, d, der, nobs), 'integers', n=n, d=d, der=der, nobs=nobs))
    for lay in ('F', 'A', 'RO'):
        for d in range(6):
            out.append(T('layout %s degree %d' % (lay, d), 'basis', n=2, d=d, der=1, nobs=2, lay=lay))
    for sh in ([2], [3], [2, 2], [2, 5], [3, 1]):
        for der in [-3, -2, -1] + list(range(sh[0], 9)):
            for d in (0, 2, 5):
                out.append(T('variable %d of %s refused, degree %d' % (der, sh, d), 'refused', d=d, der=der, shape=sh))
        for d in list(range(6, 13)) + [-1]:
            out.append(T('degree %d refused %s' % (d, sh), 'refused', d=d, der=0, shape=sh))
    return out + sequences(th)

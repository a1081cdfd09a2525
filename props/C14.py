"""Complete polynomial basis."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.complete_poly']
BOUNDS = {
    'quick': 'all real values of the variables; 1..4 variables at every degree 0..5, 5..6 variables up to degree 3; vectors, and matrices of 1..3 observations in C, Fortran and strided layout, and an arbitrary observation of any number of them; all degrees above five up to 12 and negative ones refused; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with up to 6 variables at every degree and 5 observations',
}
OUTSIDE = 'rounding; more variables'
M = 'interpolation.complete_poly.'


def exponents(n, d):
    return sorted((e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d), key=lambda e: (sum(e), [-x for x in e]))


def mono(z, e):
    r = 1.0
    for x, k in zip(z, e):
        for _ in range(k):
            r = r * x
    return r


def compare(H, terms, z, n, d):
    """terms: the basis values at z; each monomial once, in any order after the variables"""
    E = exponents(n, d)
    H.eq(len(terms), len(E), 'number of terms')
    if len(terms) != len(E):
        return
    H.eq(terms[0], 1.0, 'constant first')
    if d >= 1:
        for i in range(n):
            H.eq(terms[1 + i], z[i], 'variable %d next' % i)
    k = 1 + (n if d >= 1 else 0)
    rest = [mono(z, e) for e in E if sum(e) > 1]
    if not H.sym:
        H.eq(H.vec(sorted(terms[k:])) if rest else 0.0, H.vec(sorted(rest)) if rest else 0.0, 'monomials')
        return
    # identify each term by its normal form, then let the solver confirm it
    left = {H.core.p_key(r.n): r for r in rest}
    for i, t in enumerate(terms[k:]):
        t = H.core.Sym.of(t)
        key = H.core.p_key(t.n) if t.d is None else None
        w = left.pop(key, None)
        if w is None:
            H.eq(t, next(iter(left.values())) if left else 0.0, 'monomial (term %d)' % (k + i))
            return
        H.eq(t, w, 'monomial (term %d)' % (k + i))


def basis(H, n, d, nobs=None, lay='C'):
    f = H.get(M + 'complete_polynomial')
    if nobs is None:
        z = [H.real('z%d' % i) for i in range(n)]
        out = f(H.vec(z), d)
        H.eq(tuple(out.shape), (len(exponents(n, d)),), 'shape')
        compare(H, list(out), z, n, d)
        return
    Zm = H.array('z', (n, nobs))
    if lay != 'C':
        Zm = H.layout(Zm, lay)
    out = f(Zm, d)
    H.eq(tuple(out.shape), (len(exponents(n, d)), nobs), 'shape')
    for k in range(nobs):
        compare(H, [out[i, k] for i in range(out.shape[0])], [Zm[i, k] for i in range(n)], n, d)


def agree(H, n, d, nobs):
    """vector and matrix inputs, and nested lists, give the same terms"""
    f = H.get(M + 'complete_polynomial')
    Zm = H.array('z', (n, nobs))
    out = f(Zm, d)
    for k in range(nobs):
        H.eq(out[:, k], f(Zm[:, k], d), 'observation %d alone' % k)


def lists(H, n, d):
    f = H.get(M + 'complete_polynomial')
    z = [H.real('z%d' % i) for i in range(n)]
    H.eq(f(list(z), d), f(H.vec(z), d), 'list and array')
    H.eq(f([[x, 2 * x] for x in z], d), f(H.vec([[x, 2 * x] for x in z]), d), 'nested list and array')


def anyobs(H, n, d):
    """an arbitrary observation of any number of observations"""
    z = [H.real('z%d' % i) for i in range(n)]
    N, r = H.rows('N')
    out = H.get(M + 'complete_polynomial')(H.colarray('Z', N, r, z), d)
    H.eq(out.shape[0], len(exponents(n, d)), 'number of terms')
    compare(H, [H.ref(out, i, r) for i in range(len(exponents(n, d)))], z, n, d)


def integers(H, n, d, nobs=None, big=10 ** 6):
    """integer data: products beyond 64 bits do not wrap"""
    f = H.get(M + 'complete_polynomial')
    H.machine_ints()
    z = [[H.int('z%d_%d' % (i, k), 2, big) for k in range(nobs or 1)] for i in range(n)]
    out = f(H.ints([r[0] for r in z]) if nobs is None else H.ints(z), d)
    H.exact_ints()
    for k in range(nobs or 1):
        compare(H, [out[i] if nobs is None else out[i, k] for i in range(out.shape[0])], [H.tofloat(z[i][k]) for i in range(n)], n, d)


def count(H, n, d):
    H.eq(H.get(M + 'n_complete')(n, d), len(exponents(n, d)), 'n_complete')


def countsym(H, d, odd=0):
    """n_complete for any number of variables"""
    if d == 2:
        m = H.int('m', 1, 25)       # even and odd numbers of variables
        n = 2 * m - odd
    else:
        n = H.int('n', 1, 50)
    v = H.get(M + 'n_complete')(n, d)
    w = 1
    for i in range(d):
        w = w * (n + 1 + i)
    for i in range(d):
        w = w / H.numfrac(i + 1)
    H.eq(v, w, 'n_complete for any number of variables')


def refused(H, d, shape):
    f = H.get(M + 'complete_polynomial')
    H.raises(lambda: f(H.array('z', shape), d), 'degree %d accepted' % d)


def sequences(th):
    out = []
    for n, d in [(1, 3), (2, 2), (3, 1), (2, 4)]:
        for nobs in (None, 2):
            out += twice('basis', dict(n=n, d=d, nobs=nobs))
            out.append(then([('basis', dict(n=n, d=d, nobs=nobs)), ('basis', dict(n=n, d=d - 1, nobs=nobs)), ('basis', dict(n=d, d=n, nobs=nobs)), ('basis', dict(n=n, d=d, nobs=None if nobs else 1)), ('basis', dict(n=n, d=d, nobs=nobs))]))
    out.append(then([('basis', dict(n=2, d=d, nobs=2)) for d in (0, 1, 2, 3, 4, 5, 3, 0)]))
    out.append(then([('count', dict(n=n, d=d)) for n, d in [(1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (5, 4), (4, 5)]]))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for n in range(1, 7):
        for d in range(6):
            if n > 4 and d > 3 and not th:
                continue
            out.append(T('vector %d variables degree %d' % (n, d), 'basis', n=n, d=d, cost=1 + n * d // 4))
            out.append(T('n_complete %d %d' % (n, d), 'count', n=n, d=d))
            for nobs in ((1, 2, 3) if n < 4 else (2,)) + ((5,) if th else ()):
                out.append(T('matrix %d variables %d observations degree %d' % (n, nobs, d), 'basis', n=n, d=d, nobs=nobs, cost=1 + n * d // 2))
            if n <= 3 or (n, d) == (4, 5):
                out.append(T('any number of observations, %d variables degree %d' % (n, d), 'anyobs', n=n, d=d, cost=1 + n * d // 2))
            if n <= 3:
                out.append(T('agree %d variables degree %d' % (n, d), 'agree', n=n, d=d, nobs=3, cost=1 + n * d // 3))
                out.append(T('lists %d variables degree %d' % (n, d), 'lists', n=n, d=d))
    for n, d in [(1, 3), (1, 4), (1, 5), (2, 2), (2, 4), (2, 5)]:
        for nobs in (None, 2):
            out.append(T('integers %d variables degree %d observations %s' % (n, d, nobs), 'integers', n=n, d=d, nobs=nobs))
    for lay in ('F', 'A', 'RO'):
        for d in range(6):
            out.append(T('layout %s degree %d' % (lay, d), 'basis', n=2, d=d, nobs=2, lay=lay))
    for d in range(6):
        for odd in ((0, 1) if d == 2 else (0,)):
            out.append(T('n_complete any %d %d' % (d, odd), 'countsym', d=d, odd=odd))
    for d in list(range(6, 13)) + [-1, -2]:
        for sh in ([2], [2, 2]):
            out.append(T('degree %d refused %s' % (d, sh), 'refused', d=d, shape=sh))
    return out + sequences(th)

"""Cartesian grids."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.cartesian', 'interpolation.splines']
BOUNDS = {
    'quick': 'all real node values and bounds; 1 dimension: 1..12, 40, 129 and 300 nodes; 2 dimensions: all sizes 1..5 and some up to 70, and sizes up to 200 whose inverse rounds; 3 dimensions: all sizes 1..3 and some up to 20; 4 dimensions: sizes 1..2 and some up to 4; orders C, F and default; bounds given as integers, floats and mixtures, in lists, tuples and arrays; the first and last nodes bit by bit for all doubles between -1000 and 1000; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': '1 dimension: up to 200 nodes; 2 dimensions: all sizes 1..9; 3 dimensions: all sizes 1..5; 4 dimensions: all sizes 1..3',
}
OUTSIDE = 'rounding of the nodes between the first and the last; larger grids'


def expected(nodes, order):
    d = len(nodes)
    idx = list(itertools.product(*[range(len(v)) for v in nodes])) if order == 'C' else [i[::-1] for i in itertools.product(*[range(len(v)) for v in nodes[::-1]])]
    return [[nodes[j][i[j]] for j in range(d)] for i in idx]


def cart(H, shape, order='C', given=True, container='array'):
    """every combination once, in order: distinct symbols for all nodes"""
    nodes = [[H.real('x%d_%d' % (j, i)) for i in range(n)] for j, n in enumerate(shape)]
    arg = [H.vec(v) if container == 'array' else list(v) for v in nodes]
    if container == 'tuple':
        arg = tuple(tuple(v) for v in nodes)
    f = H.get('interpolation.cartesian.cartesian')
    r = f(arg, order) if given else f(arg)
    H.eq(r, H.vec(expected(nodes, order)), 'rows')


def lin(H, shape, order='C', given=True, form='mlinspace'):
    D = [(H.real('a%d' % j), H.real('b%d' % j)) for j in range(len(shape))]
    for lo, hi in D:
        H.assume(lo < hi)
    nodes = [[lo + (hi - lo) * H.numfrac(i, n - 1) for i in range(n)] for (lo, hi), n in zip(D, shape)]
    a, b = [x for x, _ in D], [x for _, x in D]
    if form == 'nodes':
        r = H.get('interpolation.splines.nodes')(tuple((lo, hi, n) for (lo, hi), n in zip(D, shape)))
    else:
        f = H.get('interpolation.cartesian.mlinspace')
        if form == 'arrays':
            a, b, n = H.vec(a), H.vec(b), H.ints(list(shape))
        else:
            n = list(shape)
        r = f(a, b, n, order) if given else f(a, b, n)
    H.eq(r, H.vec(expected(nodes, order)), 'rows')


def linints(H, lo, hi, order='C', shape=(3, 2), container='list'):
    """bounds of every numeric type: lo, hi in {i: Python integers, I: integer
    array, f: list of floats, F: float array, m: one integer and one float}"""
    d = len(shape)

    def side(k, nm):
        v = [H.int('%s%d' % (nm, j), -20, 20) if k in 'iI' or (k == 'm' and j == 0) else H.real('%s%d' % (nm, j)) for j in range(d)]
        return v, (H.ints(v) if k == 'I' else H.vec(v) if k == 'F' else tuple(v) if container == 'tuple' else list(v))
    a, A = side(lo, 'a')
    b, B = side(hi, 'b')
    for x, y in zip(a, b):
        H.assume(x < y)
    nodes = [[x + (y - x) * H.numfrac(i, n - 1) for i in range(n)] for x, y, n in zip(a, b, shape)]
    r = H.get('interpolation.cartesian.mlinspace')(A, B, H.ints(list(shape)) if lo == 'I' else list(shape), order)
    H.eq(r, H.vec(expected(nodes, order)), 'rows')


def mixed(H, shape, order, ints):
    """integer nodes in some dimensions"""
    nodes = [[H.int('k%d_%d' % (j, i), -50, 50) if j in ints else H.real('x%d_%d' % (j, i)) for i in range(n)] for j, n in enumerate(shape)]
    arg = [H.ints(v) if j in ints else H.vec(v) for j, v in enumerate(nodes)]
    r = H.get('interpolation.cartesian.cartesian')(arg, order)
    H.eq(r, H.vec(expected(nodes, order)), 'rows')


def reshape(H, shape, nv=None):
    """row order agrees with reshaping the value array"""
    nodes = [[H.real('x%d_%d' % (j, i)) for i in range(n)] for j, n in enumerate(shape)]
    r = H.get('interpolation.cartesian.cartesian')([H.vec(v) for v in nodes])
    for j in range(len(shape)):
        A = r[:, j].reshape(tuple(shape))
        for i in itertools.product(*[range(n) for n in shape]):
            H.eq(A[i], nodes[j][i[j]], 'coordinate %d at index %s' % (j, i))


def ends(H, shape, form='mlinspace', order='C'):
    """the first and last nodes are exactly the bounds, rounding included"""
    D = [(H.double('a%d' % j, -1e3, 1e3), H.double('b%d' % j, -1e3, 1e3)) for j in range(len(shape))]
    for lo, hi in D:
        H.assume(lo < hi)
    a, b = [x for x, _ in D], [x for _, x in D]
    if form == 'nodes':
        r = H.get('interpolation.splines.nodes')(tuple((lo, hi, n) for (lo, hi), n in zip(D, shape)))
    elif form == 'arrays':
        r = H.get('interpolation.cartesian.mlinspace')(H.vec(a), H.vec(b), H.ints(list(shape)), order)
    else:
        r = H.get('interpolation.cartesian.mlinspace')(a, b, list(shape), order)
    for j, (lo, hi) in enumerate(D):
        H.exact(r[0, j], lo, 'first node of dimension %d' % j)
        H.exact(r[r.shape[0] - 1, j], hi, 'last node of dimension %d' % j)


def sequences(th):
    out = []
    for sh in ([3], [2, 3], [3, 3], [2, 2, 2]):
        for o, q in (('C', 'C'), ('C', 'F'), ('F', 'C')):
            out += twice('cart', dict(shape=sh, order=o), dict(shape=sh, order=q)) + twice('lin', dict(shape=sh, order=o, form='arrays'), dict(shape=sh, order=q, form='arrays'))
            out.append(then([('lin', dict(shape=sh, order=o)), ('lin', dict(shape=sh, order=q))]))
        out += twice('lin', dict(shape=sh, form='nodes')) + twice('lin', dict(shape=sh), dict(shape=sh[::-1]))
    out += twice('linints', dict(lo='I', hi='F', order='C')) + twice('mixed', dict(shape=[2, 3], order='C', ints=[0]), dict(shape=[2, 3], order='F', ints=[1]))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    s1 = list(range(1, 13)) + [40, 129, 300] + ([1100] if th else [])
    shapes = [(n,) for n in s1]
    shapes += list(itertools.product(range(1, 10 if th else 6), repeat=2))
    shapes += [(2, 40), (40, 3), (20, 20), (1, 70), (70, 1)]
    shapes += list(itertools.product(range(1, 6 if th else 4), repeat=3)) + [(2, 5, 3), (4, 3, 2), (3, 4, 5), (1, 20, 2), (20, 2, 1), (6, 7, 8)]
    shapes += list(itertools.product(range(1, 4 if th else 3), repeat=4)) + [(2, 3, 4, 2), (3, 2, 2, 3), (4, 1, 3, 2)]
    for sh in shapes:
        nm = 'x'.join(map(str, sh))
        for order in ('C', 'F'):
            out.append(T('cartesian %s %s' % (nm, order), 'cart', shape=list(sh), order=order, witness=1 if sum(sh) % 3 == 0 else 0))
            if all(n > 1 for n in sh):
                out.append(T('mlinspace %s %s' % (nm, order), 'lin', shape=list(sh), order=order, witness=1 if sum(sh) % 2 == 0 else 0))
        if all(n > 1 for n in sh) and len(sh) <= 3:
            out.append(T('nodes %s' % nm, 'lin', shape=list(sh), form='nodes', witness=1 if sum(sh) % 2 == 0 else 0))
    for sh in [(3,), (2, 3), (4, 2), (2, 3, 4), (3, 2, 2), (2, 3, 2, 2)]:
        nm = 'x'.join(map(str, sh))
        out.append(T('cartesian %s default' % nm, 'cart', shape=list(sh), given=False))
        for c in ('list', 'tuple'):
            for order in ('C', 'F'):
                out.append(T('cartesian %s %s %s' % (nm, order, c), 'cart', shape=list(sh), order=order, container=c))
        out.append(T('mlinspace %s default' % nm, 'lin', shape=list(sh), given=False))
        for order in ('C', 'F'):
            out.append(T('mlinspace %s %s arrays' % (nm, order), 'lin', shape=list(sh), order=order, form='arrays'))
        out.append(T('reshape %s' % nm, 'reshape', shape=list(sh)))
    for sh in [(2,), (3,), (4,), (8,), (12,), (50,), (2, 3), (8, 3), (4, 8, 2), (2, 3, 2, 8)]:
        nm = 'x'.join(map(str, sh))
        for form in ('mlinspace', 'arrays', 'nodes'):
            for order in 'CF':
                if order == 'C' or form != 'nodes':
                    out.append(T('ends %s %s %s' % (nm, form, order), 'ends', shape=list(sh), form=form, order=order, timeout_ms=40000))
    # sizes at which n * (1/n) is not 1 in floating point
    odd = [n for n in range(2, 800 if th else 200) if n * (1.0 / n) != 1.0]
    for n in odd:
        for sh in ([n], [n, 2], [2, n], [3, 1, n], [n // 7, 7] if n % 7 == 0 else [1, n]):
            for order in 'CF':
                out.append(T('cartesian %s %s' % ('x'.join(map(str, sh)), order), 'cart', shape=sh, order=order, witness=0))
    for lo in 'iIfFm':
        for hi in 'iIfFm':
            for order in 'CF':
                out.append(T('mlinspace bounds of types %s %s %s' % (lo, hi, order), 'linints', lo=lo, hi=hi, order=order))
            out.append(T('mlinspace bounds of types %s %s tuple' % (lo, hi), 'linints', lo=lo, hi=hi, shape=[2, 3, 2], container='tuple'))
    for order in ('C', 'F'):
        for ints in ([0], [1], [0, 1]):
            out.append(T('integer nodes %s %s' % (ints, order), 'mixed', shape=[2, 3], order=order, ints=ints))
    return out + sequences(th)

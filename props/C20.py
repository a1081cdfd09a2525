"""Grid constructors."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.splines']
BOUNDS = {
    'quick': 'all real bounds and all integer sizes, valid or not, in every position; irregular dimensions of 0..4 nodes and 0..3 axes; lists, strings, numbers, pairs, quadruples and triples of other types as dimensions; 1..3 dimensions in every mixture',
    'thorough': 'as quick with 4 dimensions',
}
OUTSIDE = 'non-finite bounds; irregular nodes that are not increasing (accepted by the constructor)'


def same(H, r, dims):
    H.eq(len(r), len(dims), 'number of dimensions')
    H.eq(isinstance(r, tuple), True, 'a tuple is returned')
    for i, (x, y) in enumerate(zip(r, dims)):
        if isinstance(y, tuple):
            H.eq(tuple(x), y, 'dimension %d' % i)
        else:
            H.eq(x is y or tuple(x.shape) == tuple(y.shape), True, 'shape of dimension %d' % i)
            H.eq(x, y, 'dimension %d' % i)


def any_triples(H, d, cls, mix=None):
    """every dimension arbitrary: accepted exactly when all are valid"""
    dims, valid = [], []
    for j in range(d):
        if mix and mix[j] == 'n':
            n = H.choice('len%d' % j, [0, 1, 2, 3])
            ax = H.choice('axes%d' % j, [1, 2] if n else [1])
            dims.append(H.array('g%d' % j, (n,) if ax == 1 else (n, 2)))
            valid.append(H.bexpr_and(n >= 2 and ax == 1))
        else:
            a, b, n = H.real('a%d' % j), H.real('b%d' % j), H.int('n%d' % j, -10 ** 6, 10 ** 6)
            dims.append((a, b, n))
            valid.append(H.bexpr_and(a < b, n > 1))
    f = H.get(S + cls)
    ok, r = H.attempt(lambda: f(*dims))
    if ok:
        H.true(H.bexpr_and(*valid), 'an invalid grid is accepted')
        same(H, r, dims)
    else:
        H.true(H.not_(H.bexpr_and(*valid)), 'a valid grid is refused')


def accepted(H, cls, mix):
    dims = []
    for j, k in enumerate(mix):
        D = udim(H, j) if k == 'u' else ndim_(H, j, int(k[1:]))
        dims.append(D.g)
    same(H, H.get(S + cls)(*dims), dims)


BAD = ('list', 'string', 'number', 'pair', 'quad', 'ints', 'floats', 'none', 'matrix', 'scalararray')


def refused(H, cls, d, pos, bad, other='u'):
    """one dimension that is no dimension at all"""
    dims = []
    for j in range(d):
        if j != pos:
            dims.append((udim(H, j) if other == 'u' else ndim_(H, j, 3)).g)
            continue
        a = H.real('a')
        b = a + H.real('w', pos=True)
        n = H.int('n', 2, 10 ** 6)
        dims.append({'list': [a, b, n], 'string': 'grid', 'number': a, 'pair': (a, b), 'quad': (a, b, n, n), 'ints': (0, 1, n), 'floats': (a, b, b),
                     'none': None, 'matrix': H.array('M', (2, 3)), 'scalararray': H.array('M', (1,)), 'array': H.array('M', (3,))}[bad])
    H.raises(lambda: H.get(S + cls)(*dims), 'accepted as a dimension: %s' % bad)


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for d in (1, 2, 3) + ((4,) if th else ()):
        for cls in ('UCGrid', 'CGrid'):
            out.append(T('%s any triples %dd' % (cls, d), 'any_triples', d=d, cls=cls, cost=d))
        for mix in itertools.product('un', repeat=d):
            if 'n' in mix:
                out.append(T('CGrid any %s' % ''.join(mix), 'any_triples', d=d, cls='CGrid', mix=''.join(mix), cost=2 * d))
            out.append(T('CGrid valid %s' % ''.join(mix), 'accepted', cls='CGrid', mix=['u' if k == 'u' else 'n%d' % (2 + j) for j, k in enumerate(mix)]))
        out.append(T('UCGrid valid %dd' % d, 'accepted', cls='UCGrid', mix=['u'] * d))
        for pos in range(d):
            for bad in BAD:
                out.append(T('CGrid %dd %s at %d' % (d, bad, pos), 'refused', cls='CGrid', d=d, pos=pos, bad=bad, other='u' if pos % 2 else 'n'))
                out.append(T('UCGrid %dd %s at %d' % (d, bad, pos), 'refused', cls='UCGrid', d=d, pos=pos, bad=bad))
            out.append(T('UCGrid %dd array at %d' % (d, pos), 'refused', cls='UCGrid', d=d, pos=pos, bad='array'))
    return out

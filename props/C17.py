"""Smolyak multi-indices, basis indices and nodes."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.smolyak', 'interpolation.smolyak.grid', 'interpolation.smolyak.util']
BOUNDS = {
    'quick': 'every integer vector (unbounded) as candidate index, isotropic densities 1..5 in 2 dimensions, 1..4 in 3, 1..3 in 4, 1..2 in 5; anisotropic densities in 1..4 (2 dimensions), 1..3 (3 dimensions), 1..2 (4 dimensions), also as symbolic densities; permute on any 2, 3 or 4 integers; m_i up to 20; num_grid_points for every number of dimensions; nodes up to level 9; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with isotropic densities up to 7, 5, 4, 3, 2 in 2, 3, 4, 5, 6 dimensions and permute on 5 integers',
}
OUTSIDE = 'higher dimensions and densities; rounding of the nodes beyond 1e-12'
ASSUMPTIONS = ['numpy.cos returns the cosine']
M = 'interpolation.smolyak.grid.'


def iff(H, a, b):
    return H.bexpr_or(H.bexpr_and(a, b), H.bexpr_and(H.not_(a), H.not_(b)))


def member(H, v, rows):
    if not rows:
        return False
    return H.bexpr_or(*[H.bexpr_and(*[x == int(e) for x, e in zip(v, r)]) for r in rows])


def ints(r):
    return tuple(int(e) for e in r)


def spec_inds(H, v, mu, vec):
    s = v[0]
    for x in v[1:]:
        s = s + x
    mx = max(mu) if vec else mu
    cs = [x >= 1 for x in v] + [s <= len(v) + mx]
    if vec:
        cs += [x <= m + 1 for x, m in zip(v, mu)]
    return H.bexpr_and(*cs)


def level_of(k):
    """level of the k-th basis polynomial (1-based)"""
    if k == 1:
        return 1
    i = 2
    while k > 2 ** (i - 1) + 1:
        i += 1
    return i


def level_is(H, x, l):
    lo, hi = (1, 1) if l == 1 else ((2, 3) if l == 2 else (2 ** (l - 2) + 2, 2 ** (l - 1) + 1))
    return H.bexpr_and(x >= lo, x <= hi)


def levels(d, mu):
    """admissible level vectors"""
    vec = not isinstance(mu, int)
    mx = max(mu) if vec else mu
    for l in itertools.product(range(1, mx + 2), repeat=d):
        if sum(l) <= d + mx and (not vec or all(a <= b + 1 for a, b in zip(l, mu))):
            yield l


def arg(H, mu):
    return mu if isinstance(mu, int) else H.ints(mu)


def distinct(H, rows, label):
    rows = [ints(r) for r in rows]
    H.true(len(set(rows)) == len(rows), label + ': each listed once')
    return rows


def inds(H, d, mu):
    R = distinct(H, H.get(M + 'smol_inds')(d, arg(H, mu)), 'smol_inds')
    v = [H.int('v%d' % i) for i in range(d)]
    H.true(iff(H, member(H, v, R), spec_inds(H, v, mu, not isinstance(mu, int))), 'smol_inds lists exactly the admissible indices')


def inds_symbolic(H, d, top):
    """densities symbolic"""
    mu = [H.int('mu%d' % i, 1, top) for i in range(d)]
    R = distinct(H, H.get(M + 'smol_inds')(d, H.ints(mu)), 'smol_inds')
    v = [H.int('v%d' % i) for i in range(d)]
    s = v[0]
    for x in v[1:]:
        s = s + x
    sp = H.bexpr_and(H.bexpr_or(*[s <= d + m for m in mu]), *[H.bexpr_and(x >= 1, x <= m + 1) for x, m in zip(v, mu)])
    H.true(iff(H, member(H, v, R), sp), 'smol_inds lists exactly the admissible indices')


def polys(H, d, mu, given=False):
    if given:
        R = H.get(M + 'poly_inds')(d, arg(H, mu), H.get(M + 'smol_inds')(d, arg(H, mu)))
    else:
        R = H.get(M + 'poly_inds')(d, arg(H, mu))
    R = distinct(H, R, 'poly_inds')
    v = [H.int('v%d' % i) for i in range(d)]
    sp = H.bexpr_or(*[H.bexpr_and(*[level_is(H, x, a) for x, a in zip(v, l)]) for l in levels(d, mu)])
    H.true(iff(H, member(H, v, R), sp), 'poly_inds lists exactly the admissible products')


def cheb_nodes(n):
    """extrema of T_(2^(n-1)), by halving angles: exact to rounding and without cos"""
    import math
    if n == 1:
        return [0.0]
    N = 2 ** (n - 1)
    # cos of multiples of pi/N through repeated half-angle formulas
    c = {0: 1.0, N: -1.0}
    step = N
    while step > 1:
        h = step // 2
        for k in range(h, N, step):
            if 2 * k == N:
                c[k] = 0.0
            else:
                x = c[2 * k] if 2 * k <= N else c[2 * N - 2 * k]
                c[k] = math.sqrt((1 + x) / 2) * (1 if 2 * k < N else -1)
        step = h
    return [-c[k] for k in range(N + 1)]


def find(H, fine, x, label):
    """index of the node equal to x (to 1e-12) in the finest set"""
    x = float(x)
    k = [i for i, y in enumerate(fine) if abs(y - x) <= 1e-12]
    H.true(len(k) == 1, label)
    return k[0] if k else -1


def grid(H, d, mu, how='fn'):
    mx = mu if isinstance(mu, int) else max(mu)
    if how == 'fn':
        G = H.get(M + 'build_grid')(d, arg(H, mu))
    elif how == 'given':
        G = H.get(M + 'build_grid')(d, arg(H, mu), H.get(M + 'smol_inds')(d, arg(H, mu)))
    else:
        g = H.get(M + 'SmolyakGrid')(d, mu if isinstance(mu, int) else list(mu))
        G = g.cube_grid
        H.eq(len(g.pinds), G.shape[0], 'as many basis polynomials as points')
        H.true(tuple(g.B.shape) == (G.shape[0], G.shape[0]), 'shape of B')
        R = distinct(H, g.inds, 'inds')
        v = [H.int('w%d' % i) for i in range(d)]
        H.true(iff(H, member(H, v, R), spec_inds(H, v, mu, not isinstance(mu, int))), 'inds are the admissible indices')
        H.eq(tuple(g.grid.shape), tuple(G.shape), 'shape of grid')
    H.true(G.ndim == 2 and G.shape[1] == d, 'one column per dimension')
    fine = cheb_nodes(mx + 1)
    rows = [[find(H, fine, G[i, j], 'coordinates are Chebyshev extrema') for j in range(d)] for i in range(G.shape[0])]
    distinct(H, rows, 'grid')
    N = 2 ** mx
    v = [H.int('v%d' % i) for i in range(d)]

    def nodes_of(l):
        if l == 1:
            return [N // 2]
        if l == 2:
            return [0, N]
        st = N // 2 ** (l - 1)
        return list(range(st, N, 2 * st))
    sp = H.bexpr_or(*[H.bexpr_and(*[H.bexpr_or(*[x == k for k in nodes_of(a)]) for x, a in zip(v, l)]) for l in levels(d, mu)])
    H.true(iff(H, member(H, v, rows), sp), 'the grid has exactly the prescribed nodes')
    if isinstance(mu, int) and mu <= 3:
        H.eq(H.get(M + 'num_grid_points')(d, mu), G.shape[0], 'num_grid_points')
    H.eq(len(H.get(M + 'poly_inds')(d, arg(H, mu))), G.shape[0], 'as many basis polynomials as points')


def numpoints(H, mu):
    """for any number of dimensions"""
    d = H.int('d', 1)
    v = H.get(M + 'num_grid_points')(d, mu)
    pairs = d * (d - 1) / H.numfrac(2)
    tri = d * (d - 1) * (d - 2) / H.numfrac(6)
    new = {2: 2, 3: 2, 4: 4}      # new nodes of each level
    w = 1 + new[2] * d
    if mu >= 2:
        w = w + new[3] * d + new[2] ** 2 * pairs
    if mu >= 3:
        w = w + new[4] * d + 2 * new[2] * new[3] * pairs + new[2] ** 3 * tri
    H.eq(v, w, 'num_grid_points')


def mi(H):
    f = H.get(M + 'm_i')
    H.eq(f(0), 0, 'm_0')
    H.eq(f(1), 1, 'm_1')
    i = H.int('i', 2, 20)
    for k in range(2, 21):
        H.eq(f(k), 2 ** (k - 1) + 1, 'm_%d' % k)
    H.raises(lambda: f(-i), 'negative index')


def phichain(H, n):
    c = H.get(M + 'phi_chain')(n)
    v = H.int('v')
    for l in range(1, max(n, 2) + 1):
        R = distinct(H, [(e,) for e in c[l]], 'phi_chain')
        H.true(iff(H, member(H, [v], R), level_is(H, v, l)), 'phi_chain level %d' % l)


def nodes(H, n):
    S = H.get(M + 's_n')(n)
    W = cheb_nodes(n)
    H.eq(tuple(S.shape), (len(W),), 'number of nodes')
    H.close(S, H.const(W), 'nodes are the Chebyshev extrema in increasing order', 1e-12)
    A = H.get(M + 'a_chain')(n)
    fine = cheb_nodes(max(n, 2))
    N = len(fine) - 1
    for l in range(1, max(n, 2) + 1):
        k = [find(H, fine, x, 'a_chain node') for x in A[l]]
        st = N // 2 ** (l - 1) if l > 1 else 0
        w = [N // 2] if l == 1 else ([0, N] if l == 2 else list(range(st, N, 2 * st)))
        H.true(sorted(k) == w, 'level %d has the nodes not in the previous levels' % l)


def perm(H, n):
    a = [H.int('a%d' % i) for i in range(n)]
    out = list(H.get('interpolation.smolyak.util.permute')(list(a)))
    same = lambda r, s: H.bexpr_and(*[x == y for x, y in zip(r, s)])
    P = [[a[i] for i in p] for p in itertools.permutations(range(n))]
    for r in out:
        H.true(len(r) == n, 'length')
        H.true(H.bexpr_or(*[same(r, p) for p in P]), 'every item is a rearrangement of the input')
    for p in P:
        H.true(H.bexpr_or(*[same(r, p) for r in out]), 'every rearrangement appears')
    for r, s in itertools.combinations(out, 2):
        H.true(H.not_(same(r, s)), 'no rearrangement appears twice')


def sequences(th):
    out = []
    for mu, nu in [([1, 2], [2, 1]), ([2, 1], [1, 2]), ([1, 3], [3, 1]), (2, [1, 2]), (1, 2), ([1, 1], [2, 2]), (2, [2, 2]), ([2, 2], [1, 3])]:
        out += [then([(f, dict(d=2, mu=mu)), (f, dict(d=2, mu=nu))], cost=4) for f in ('inds', 'polys', 'grid')] + [then([('polys', dict(d=2, mu=mu, given=True)), ('polys', dict(d=2, mu=nu, given=True))], cost=4)]
        out.append(then([('grid', dict(d=2, mu=mu, how='class')), ('grid', dict(d=2, mu=nu, how='class')), ('grid', dict(d=2, mu=mu, how='class'))], cost=6))
    for mu, nu in [([1, 1, 2], [2, 1, 1]), ([1, 2, 1], [1, 1, 2]), (1, 2), (2, [2, 1, 1])]:
        out += [then([(f, dict(d=3, mu=mu)), (f, dict(d=3, mu=nu))], cost=4) for f in ('inds', 'polys', 'grid')]
    out += [then([(f, dict(d=2, mu=1)), (f, dict(d=3, mu=1)), (f, dict(d=2, mu=2))], cost=4) for f in ('inds', 'polys', 'grid')]
    out.append(then([('phichain', dict(n=n)) for n in (3, 5, 1, 4, 3)], cost=2))
    out.append(then([('nodes', dict(n=n)) for n in (3, 5, 1, 4, 3)], cost=2))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    iso = {2: 7, 3: 5, 4: 4, 5: 3, 6: 2} if th else {2: 5, 3: 4, 4: 3, 5: 2}
    for d, top in iso.items():
        for mu in range(1, top + 1):
            out.append(T('indices d=%d mu=%d' % (d, mu), 'inds', d=d, mu=mu))
            for g in (False, True):
                out.append(T('basis d=%d mu=%d given=%s' % (d, mu, g), 'polys', d=d, mu=mu, given=g, cost=d * mu))
            for how in ('fn', 'given') + (('obj',) if d * mu <= 9 else ()):
                out.append(T('grid d=%d mu=%d %s' % (d, mu, how), 'grid', d=d, mu=mu, how=how, cost=2 * d * mu))
    ani = list(itertools.product(range(1, 5), repeat=2)) + list(itertools.product(range(1, 4), repeat=3)) + list(itertools.product((1, 2), repeat=4))
    for mu in ani:
        d = len(mu)
        out.append(T('indices mu=%s' % list(mu), 'inds', d=d, mu=list(mu)))
        out.append(T('basis mu=%s' % list(mu), 'polys', d=d, mu=list(mu), cost=3))
        out.append(T('grid mu=%s' % list(mu), 'grid', d=d, mu=list(mu), cost=3))
        if d * max(mu) <= 9:
            out.append(T('grid object mu=%s' % list(mu), 'grid', d=d, mu=list(mu), how='obj', cost=3))
    for d, top in ((2, 4), (3, 3)) + (((4, 2),) if th else ()):
        out.append(T('indices, symbolic densities d=%d' % d, 'inds_symbolic', d=d, top=top, cost=20))
    for mu in (1, 2, 3):
        out.append(T('number of points mu=%d' % mu, 'numpoints', mu=mu))
    out.append(T('m_i', 'mi'))
    for n in range(1, 10):
        out.append(T('phi_chain %d' % n, 'phichain', n=n))
        out.append(T('nodes %d' % n, 'nodes', n=n))
    for n in (2, 3, 4) + ((5,) if th else ()):
        out.append(T('permute %d' % n, 'perm', n=n, cost=5 * n))
    return out + sequences(th)

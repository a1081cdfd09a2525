"""Smolyak domain transforms."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.smolyak', 'interpolation.smolyak.grid']
BOUNDS = {
    'quick': 'all bounds (also lower above upper bound), all points; 2 to 5 dimensions; one point or 1, 2, 3, 20, 130 or 1030 rows; every way of giving the bounds, independently for both; densities 1 and 2, isotropic and anisotropic, for the grid; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with densities up to 3 and 6 dimensions',
}
OUTSIDE = 'rounding'
ASSUMPTIONS = []
M = 'interpolation.smolyak.grid.'
WAYS = ['default', 'int', 'scalar', 'list', 'array', 'intlist']


def give(H, name, d, way, default):
    """(argument, value of each coordinate)"""
    if way == 'default':
        return None, [default] * d
    if way == 'int':
        v = H.int(name, -50, 50)
        return v, [v] * d
    if way == 'scalar':
        v = H.real(name)
        return v, [v] * d
    if way == 'intlist':
        v = [H.int('%s%d' % (name, i), -50, 50) for i in range(d)]
        return v, v
    v = [H.real('%s%d' % (name, i)) for i in range(d)]
    return (v if way == 'list' else H.vec(v)), v


def make(H, d, mu, lway, uway, order):
    lb, a = give(H, 'a', d, lway, -1.0)
    ub, b = give(H, 'b', d, uway, 1.0)
    for x, y in zip(a, b):
        if order == 'lt':
            H.assume(x < y)
        else:
            H.assume(x > y)
    sg = H.get(M + 'SmolyakGrid')(d, mu if isinstance(mu, int) else list(mu), lb, ub)
    return sg, [x * H.numfrac(1) for x in a], [y * H.numfrac(1) for y in b]


def transforms(H, d, lway='array', uway='array', npt=2, order='lt', mu=1):
    sg, a, b = make(H, d, mu, lway, uway, order)
    x = H.array('x', (npt, d) if npt else (d,))
    two = H.numfrac(2)

    def cube(r):
        return [(2 * v - p - q) / (q - p) for v, p, q in zip(r, a, b)]

    def dom(r):
        return [p + (v + 1) * (q - p) / two for v, p, q in zip(r, a, b)]
    rows = [[x[k, i] for i in range(d)] for k in range(npt)] if npt else [[x[i] for i in range(d)]]
    C, D = H.keep(sg.dom2cube(x)), H.keep(sg.cube2dom(x))
    wc, wd = [cube(r) for r in rows], [dom(r) for r in rows]
    if not npt:
        wc, wd = wc[0], wd[0]
    H.eq(C, H.vec(wc), 'dom2cube', scale=50.0)
    H.eq(D, H.vec(wd), 'cube2dom', scale=50.0)
    H.eq(sg.cube2dom(C), x, 'cube2dom(dom2cube(x))', scale=1e3)
    H.eq(sg.dom2cube(D), x, 'dom2cube(cube2dom(x))', scale=1e3)
    lo, hi = H.vec(a), H.vec(b)
    H.eq(sg.dom2cube(lo), H.vec([-1.0] * d), 'lower bounds go to -1', scale=10.0)
    H.eq(sg.dom2cube(hi), H.vec([1.0] * d), 'upper bounds go to 1', scale=10.0)
    H.eq(sg.cube2dom(H.vec([-1.0] * d)), lo, '-1 goes to the lower bounds', scale=10.0)
    H.eq(sg.cube2dom(H.vec([1.0] * d)), hi, '1 goes to the upper bounds', scale=10.0)
    H.eq(sg.lb * H.numfrac(1), lo, 'lb')
    H.eq(sg.ub * H.numfrac(1), hi, 'ub')


def grid(H, d, mu, lway='array', uway='array'):
    sg, a, b = make(H, d, mu, lway, uway, 'lt')
    n = sg.cube_grid.shape[0]
    two = H.numfrac(2)
    W = [[a[i] + (sg.cube_grid[k, i] + 1) * (b[i] - a[i]) / two for i in range(d)] for k in range(n)]
    H.eq(sg.grid, H.vec(W), 'the grid is the image of the cube grid', scale=50.0)
    for k in range(n):
        for i in range(d):
            e = 1e-9 * (1 + abs(a[i]) + abs(b[i])) if not H.sym else 0
            H.true(H.bexpr_and(sg.grid[k, i] >= a[i] - e, sg.grid[k, i] <= b[i] + e), 'grid points lie in the box')
            H.true(H.bexpr_and(sg.cube_grid[k, i] >= -1, sg.cube_grid[k, i] <= 1), 'cube grid points lie in the cube')


def refused(H, what, d=2, kind='list'):
    G = H.get(M + 'SmolyakGrid')
    v = H.array('v', (6,))
    r = H.real('r')
    mk = (lambda n: [v[i] for i in range(n)]) if kind == 'list' else (lambda n: H.vec([v[i] for i in range(n)]))
    if what in ('lb', 'ub'):
        for n in range(0, 6):
            if n != d:
                kw = {what: mk(n)}
                H.raises(lambda: G(d, 1, **kw), '%s with %d elements in %d dimensions' % (what, n, d))
    elif what == 'dims':
        n = H.int('n', None, 1)
        H.assume(n >= -20)
        for k in (1, 0, -1):
            H.raises(lambda: G(k, 1), '%d dimensions' % k)
            H.raises(lambda: G(k, 2, r, r), '%d dimensions' % k)
    elif what == 'mu':
        n = H.int('n', -1000, 0)
        H.raises(lambda: G(d, n), 'density not positive')
    elif what == 'muvec':
        m = [H.int('m%d' % i, -3, 2) for i in range(d)]
        H.assume(H.bexpr_or(*[x < 1 for x in m]))
        H.raises(lambda: G(d, H.ints(m) if kind != 'list' else list(m)), 'a density not positive')
    elif what == 'mulen':
        for n in range(1, 6):
            if n != d:
                H.raises(lambda: G(d, [1] * n), '%d densities in %d dimensions' % (n, d))


def alive(H, d, tie=False):
    """two boxes used in turns; tie: with the same first lower bound and the same total width"""
    sg, a, b = make(H, d, 1, 'array', 'array', 'lt')
    a2, b2 = H.array('a2', (d,)), H.array('b2', (d,))
    if tie:
        # the same lower bounds; the widths of the first two dimensions are exchanged
        p = [x for x in a]
        q = [p[0] + (b[1] - a[1]), p[1] + (b[0] - a[0])] + [x for x in b[2:]]
    else:
        p, q = [a2[i] for i in range(d)], [b2[i] for i in range(d)]
        for x, y in zip(p, q):
            H.assume(x < y)
    sh = H.get(M + 'SmolyakGrid')(d, 1, H.vec(p), H.vec(q))
    x = H.array('x', (1, d))
    z = H.array('z', (1, d))
    two = H.numfrac(2)
    got = []
    for k in range(2):
        for g, lo, hi, lab in ((sg, a, b, 'first'), (sh, p, q, 'second')):
            got.append((g.dom2cube(x), H.vec([[(2 * x[0, i] - u - v) / (v - u) for i, (u, v) in enumerate(zip(lo, hi))]]), 'dom2cube of the %s box' % lab))
            got.append((g.cube2dom(z), H.vec([[u + (z[0, i] + 1) * (v - u) / two for i, (u, v) in enumerate(zip(lo, hi))]]), 'cube2dom of the %s box' % lab))
            got.append((g.grid, H.vec([[u + (g.cube_grid[r, i] + 1) * (v - u) / two for i, (u, v) in enumerate(zip(lo, hi))] for r in range(g.cube_grid.shape[0])]), 'grid of the %s box' % lab))
    for r, w, lab in got:
        H.eq(r, w, lab, scale=50.0)


def sequences(th):
    out = []
    for d in (2, 3):
        for lw, uw in (('array', 'array'), ('list', 'list'), ('scalar', 'scalar'), ('default', 'array'), ('array', 'scalar')):
            out += twice('transforms', dict(d=d, lway=lw, uway=uw, npt=1, order='lt'), cost=3)
            out += twice('grid', dict(d=d, mu=1, lway=lw, uway=uw), cost=3)
        for p, q in itertools.permutations((('array', 'array'), ('default', 'default'), ('scalar', 'scalar')), 2):
            out.append(then([('transforms', dict(d=d, lway=p[0], uway=p[1], npt=1)), ('transforms', dict(d=d, lway=q[0], uway=q[1], npt=1))], cost=3))
        out.append(T('two boxes alive %dd' % d, 'alive', d=d, cost=4))
        out.append(T('two boxes alive %dd, same total width' % d, 'alive', d=d, tie=True, cost=4))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for d in range(2, 7 if th else 6):
        for lw, uw in itertools.product(WAYS, WAYS):
            if d > 2 and lw != uw and not th:
                continue
            for order in ('lt', 'gt'):
                if order == 'gt' and lw == uw == 'default':
                    continue
                out.append(T('transforms d=%d %s/%s %s' % (d, lw, uw, order), 'transforms', d=d, lway=lw, uway=uw, npt=2, order=order))
        for npt in (0, 1, 3):
            out.append(T('transforms d=%d, %d points' % (d, npt), 'transforms', d=d, npt=npt))
    for npt in (20, 130, 1030):
        out.append(T('transforms d=2, %d points' % npt, 'transforms', d=2, npt=npt, cost=npt / 20))
    for d, mu in [(2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (5, 1), (2, [1, 2]), (2, [2, 1]), (3, [1, 2, 1])] + ([(2, 3), (3, 3), (4, 2), (2, [1, 3])] if th else []):
        for w in WAYS:
            out.append(T('grid d=%d mu=%s %s' % (d, mu, w), 'grid', d=d, mu=mu, lway=w, uway=w, cost=3))
        out.append(T('transforms d=%d mu=%s' % (d, mu), 'transforms', d=d, mu=mu))
    for d in (2, 3, 4):
        for kind in ('list', 'array'):
            for w in ('lb', 'ub'):
                out.append(T('refused %s d=%d %s' % (w, d, kind), 'refused', what=w, d=d, kind=kind))
            out.append(T('refused densities d=%d %s' % (d, kind), 'refused', what='muvec', d=d, kind=kind))
        out.append(T('refused density d=%d' % d, 'refused', what='mu', d=d))
        out.append(T('refused number of densities d=%d' % d, 'refused', what='mulen', d=d))
    out.append(T('refused dimensions', 'refused', what='dims'))
    return out + sequences(th)

"""Smolyak interpolation."""
import itertools
from .common import *

PRELOAD = ['interpolation', 'interpolation.smolyak', 'interpolation.smolyak.grid', 'interpolation.smolyak.interp']
BOUNDS = {
    'quick': 'all node values, all coefficients, all boxes, all evaluation points (two at a time; up to 70 with all but one at fixed positions); 1 to 3 outputs at once; two grids and three interpolants alive; isotropic densities 1..3 in 2 dimensions, 1..3 in 3, 1..2 in 4; anisotropic (1,2), (2,1), (3,1), (1,3), (2,3), (1,1,2), (2,1,1), (1,2,1); every combination of outputs; histories of up to two updates of the values; basis matrices and their derivatives also for densities 4, (1,4) and (5,2) in 2 dimensions; Chebyshev polynomials up to degree 33; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with density 4, (1,4) and (4,1) in 2 dimensions, 2 in 5 dimensions; basis matrices up to density 5, (6,1), 4 in 3 dimensions, 2 in 5',
}
OUTSIDE = 'rounding and conditioning of the linear systems (nodes are the floating-point nodes, all other arithmetic exact); the Chebyshev recurrence is compared in exact arithmetic'
ASSUMPTIONS = ['numpy.linalg.solve and scipy.linalg.lu are exact', 'numpy.cos returns the cosine']
M = 'interpolation.smolyak.grid.'
I = 'interpolation.smolyak.interp.'


def T_(n, x):
    """T_n and its derivative"""
    a, b = 1.0, x
    da, db = 0.0, 1.0
    if n == 0:
        return a, da
    for _ in range(n - 1):
        a, b, da, db = b, 2 * x * b - a, db, 2 * b + 2 * x * db - da
    return b, db


def box(H, d, how='array'):
    if how == 'default':
        return None, None, [-1.0] * d, [2.0] * d
    if how == 'scalar':
        a, w = H.real('a'), H.real('w', pos=True)
        return a, a + w, [a] * d, [w] * d
    a = [H.real('a%d' % i) for i in range(d)]
    w = [H.real('w%d' % i, pos=True) for i in range(d)]
    b = [x + y for x, y in zip(a, w)]
    if how == 'list':
        return a, b, a, w
    return H.vec(a), H.vec(b), a, w


def setup(H, d, mu, how):
    lb, ub, a, w = box(H, d, how)
    sg = H.get(M + 'SmolyakGrid')(d, mu if isinstance(mu, int) else list(mu), lb, ub)
    return sg, a, w


def points(H, a, w, npt):
    """evaluation points given by their position in the cube"""
    z = [[H.real('z%d_%d' % (k, i), lo=-2, hi=2) for i in range(len(a))] for k in range(npt)]
    return z, H.vec([[x + u * (c + 1) / H.numfrac(2) for x, u, c in zip(a, w, r)] for r in z])


def basis(sg, z):
    """basis polynomials and their derivatives in the cube at z"""
    P, D = [], []
    mx = max(int(e) for r in sg.pinds for e in r)
    tt = [[T_(n, x) for n in range(mx)] for x in z]
    for r in sg.pinds:
        p = 1.0
        for i, e in enumerate(r):
            p = p * tt[i][int(e) - 1][0]
        P.append(p)
        g = []
        for j in range(len(z)):
            q = 1.0
            for i, e in enumerate(r):
                q = q * tt[i][int(e) - 1][1 if i == j else 0]
            g.append(q)
        D.append(g)
    return P, D


def dot(c, p):
    r = 0.0
    for x, y in zip(c, p):
        r = r + x * y
    return r


def nodes(H, d, mu, how='array', nx=None):
    """values at the nodes are reproduced, also after updates"""
    sg, a, w = setup(H, d, mu, how)
    n = sg.grid.shape[0]
    f = H.array('f', (n, nx) if nx else (n,))
    si = H.get(I + 'SmolyakInterp')(sg, f)
    H.eq(si.interpolate(sg.grid), f, 'value at the nodes', scale=20.0)
    for k in range(2):
        g = H.array('g%d' % k, (n, nx) if nx else (n,))
        si.update_theta(g)
        H.eq(si.interpolate(sg.grid), g, 'value at the nodes after an update', scale=20.0)
    H.eq(H.get(I + 'find_theta')(sg, g), si.theta, 'find_theta')


COMBOS = [c for c in itertools.product((0, 1), repeat=4) if any(c)]


def outputs(H, d, mu, how='array', combos=COMBOS, npt=2, exact=True):
    """the interpolant is the polynomial with the coefficients of the data, and
    every combination of outputs is the documented one"""
    sg, a, w = setup(H, d, mu, how)
    n = sg.grid.shape[0]
    c = H.array('c', (n,))
    B = [basis(sg, [sg.cube_grid[k, i] for i in range(d)])[0] for k in range(n)]
    f = H.vec([dot(c, B[k]) for k in range(n)])
    si = H.get(I + 'SmolyakInterp')(sg, f)
    H.eq(si.theta, c, 'coefficients of the data', scale=20.0)
    z, pts = points(H, a, w, npt)
    bas = [basis(sg, r) for r in z]
    vals = H.vec([dot(c, b[0]) for b in bas])
    grad = H.vec([[dot(c, [e[i] for e in b[1]]) * 2 / w[i] for i in range(d)] for b in bas])
    th = H.vec([b[0] for b in bas])
    for cb in combos:
        i_, d_, t_, x_ = [bool(e) for e in cb]
        r = H.keep(si.interpolate(pts, interp=i_, deriv=d_, deriv_th=t_, deriv_X=x_))
        names = [nm for nm, on in zip(('values', 'gradient', 'deriv_th', 'deriv_X'), cb) if on]
        lab = 'outputs %s' % ','.join(names)
        if len(names) == 1:
            r = [r]
        H.true(len(r) == len(names), lab + ': number of outputs')
        for nm, got in zip(names, r):
            if nm == 'values':
                H.eq(got, vals, lab + ': values', scale=1e3)
            elif nm == 'gradient':
                H.eq(got, grad, lab + ': gradient', scale=1e4)
            elif nm == 'deriv_th':
                H.eq(got, th, lab + ': derivative in the coefficients', scale=1e3)
            else:
                # derivative in the node values: applied to the values of every
                # basis polynomial at the nodes it gives that polynomial
                H.true(tuple(got.shape) == (npt, n), lab + ': shape of the derivative in the node values')
                H.eq(H.vec([dot([got[k, m] for m in range(n)], f) for k in range(npt)]), vals, lab + ': derivative in the node values', scale=1e4)
    H.eq(si.interpolate(pts), vals, 'default output', scale=1e3)


def deriv2(H, d, mu, npt=1):
    """gradient after an update uses the new values"""
    sg, a, w = setup(H, d, mu, 'array')
    n = sg.grid.shape[0]
    B = [basis(sg, [sg.cube_grid[k, i] for i in range(d)])[0] for k in range(n)]
    c, e = H.array('c', (n,)), H.array('e', (n,))
    si = H.get(I + 'SmolyakInterp')(sg, H.vec([dot(c, B[k]) for k in range(n)]))
    si.update_theta(H.vec([dot(e, B[k]) for k in range(n)]))
    z, pts = points(H, a, w, npt)
    bas = [basis(sg, r) for r in z]
    v, g = si.interpolate(pts, deriv=True)
    H.eq(v, H.vec([dot(e, b[0]) for b in bas]), 'value after an update', scale=1e3)
    H.eq(g, H.vec([[dot(e, [q[i] for q in b[1]]) * 2 / w[i] for i in range(d)] for b in bas]), 'gradient after an update', scale=1e4)


def again(H, d, mu, nx=None, npt=1, seq='f'):
    """the arrays given before, with another content"""
    sg, a, w = setup(H, d, mu, 'array')
    n = sg.grid.shape[0]
    B = [basis(sg, [sg.cube_grid[k, i] for i in range(d)])[0] for k in range(n)]

    def data(nm):
        c = H.array(nm, (n, nx) if nx else (n,))
        if nx:
            return c, H.vec([[dot([c[m, q] for m in range(n)], B[k]) for q in range(nx)] for k in range(n)])
        return c, H.vec([dot(c, B[k]) for k in range(n)])

    def check(si, c, pts, bas, lab):
        r = si.interpolate(pts, deriv=True)
        if nx:
            v = H.vec([[dot([c[m, q] for m in range(n)], b[0]) for q in range(nx)] for b in bas])
            g = H.vec([[[dot([c[m, q] for m in range(n)], [e[i] for e in b[1]]) * 2 / w[i] for q in range(nx)] for i in range(d)] for b in bas])
        else:
            v = H.vec([dot(c, b[0]) for b in bas])
            g = H.vec([[dot(c, [e[i] for e in b[1]]) * 2 / w[i] for i in range(d)] for b in bas])
        H.eq(r[0], v, lab + ': value', scale=1e3)
        H.eq(r[1], g, lab + ': gradient', scale=1e4)
        return r[0], v
    c, f = data('c')
    z, pts = points(H, a, w, npt)
    bas = [basis(sg, r) for r in z]
    given = f.copy()
    si = H.get(I + 'SmolyakInterp')(sg, given)
    kept = [check(si, c, pts, bas, 'at first')]
    for k, op in enumerate(seq):
        if op == 'f':           # other values in the same array
            c, f = data('c%d' % k)
            given[...] = f
            si.update_theta(given)
        elif op == 'F':         # another array of values
            c, f = data('c%d' % k)
            si.update_theta(f.copy())
        elif op == 'p':         # other points in the same array
            z = [[H.numfrac((7 * k + 3 * i + 5 * j) % 17 - 8, 8) for i in range(d)] for j in range(npt)]
            pts[...] = H.vec([[x + u * (v + 1) / H.numfrac(2) for x, u, v in zip(a, w, r)] for r in z])
            bas = [basis(sg, r) for r in z]
        elif op == 'n':         # another interpolant on the same grid from the same array
            si = H.get(I + 'SmolyakInterp')(sg, given)
        kept.append(check(si, c, pts, bas, 'step %d' % k))
    for got, v in kept:
        H.eq(got, v, 'earlier values kept', scale=1e3)


def vector(H, d, mu, nx, npt=2, combos=((1, 1, 1, 1), (0, 1, 0, 0), (1, 0, 0, 0))):
    """several outputs at once: output q is what its own values give"""
    sg, a, w = setup(H, d, mu, 'array')
    n = sg.grid.shape[0]
    c = H.array('c', (n, nx))
    B = [basis(sg, [sg.cube_grid[k, i] for i in range(d)])[0] for k in range(n)]
    f = H.vec([[dot([c[m, q] for m in range(n)], B[k]) for q in range(nx)] for k in range(n)])
    si = H.get(I + 'SmolyakInterp')(sg, f)
    H.eq(si.theta, c, 'coefficients of the data', scale=20.0)
    z, pts = points(H, a, w, npt)
    bas = [basis(sg, r) for r in z]
    vals = H.vec([[dot([c[m, q] for m in range(n)], b[0]) for q in range(nx)] for b in bas])
    grad = H.vec([[[dot([c[m, q] for m in range(n)], [e[i] for e in b[1]]) * 2 / w[i] for q in range(nx)] for i in range(d)] for b in bas])
    for cb in combos:
        r = si.interpolate(pts, interp=bool(cb[0]), deriv=bool(cb[1]), deriv_th=bool(cb[2]), deriv_X=bool(cb[3]))
        if sum(cb) == 1:
            r = [r]
        r = list(r)
        if cb[0]:
            H.eq(r.pop(0), vals, 'values of several outputs', scale=1e3)
        if cb[1]:
            H.eq(r.pop(0), grad, 'gradient of several outputs', scale=1e4)


def two(H, d, mu, mu2):
    """two grids and three interpolants alive: none disturbs the others"""
    sg, a, w = setup(H, d, mu, 'array')
    lb2, wd2 = H.array('a2', (d,)), H.array('w2', (d,), pos=True)
    sh = H.get(M + 'SmolyakGrid')(d, mu2 if isinstance(mu2, int) else list(mu2), lb2, lb2 + wd2)
    n, m = sg.grid.shape[0], sh.grid.shape[0]

    def coef(g, nm):
        N = g.grid.shape[0]
        c = H.array(nm, (N,))
        B = [basis(g, [g.cube_grid[k, i] for i in range(d)])[0] for k in range(N)]
        return c, H.vec([dot(c, B[k]) for k in range(N)])
    (c1, f1), (c2, f2), (c3, f3), (c4, f4) = coef(sg, 'c1'), coef(sg, 'c2'), coef(sh, 'c3'), coef(sg, 'c4')
    SI = H.get(I + 'SmolyakInterp')
    s1, s2, s3 = SI(sg, f1), SI(sg, f2), SI(sh, f3)
    z, pts = points(H, a, w, 2)
    bas = [basis(sg, r) for r in z]
    bas2 = [basis(sh, r) for r in z]
    pts2 = H.vec([[lb2[i] + wd2[i] * (r[i] + 1) / H.numfrac(2) for i in range(d)] for r in z])
    want = lambda c, bs: H.vec([dot(c, b[0]) for b in bs])
    grad = lambda c, bs, ww: H.vec([[dot(c, [e[i] for e in b[1]]) * 2 / ww[i] for i in range(d)] for b in bs])
    r1 = s1.interpolate(pts, deriv=True)
    r3 = s3.interpolate(pts2, deriv=True)
    r2 = s2.interpolate(pts, deriv=True)
    s2.update_theta(f4)
    r4 = s2.interpolate(pts, deriv=True)
    r5 = s1.interpolate(pts)
    r6 = s3.interpolate(pts2)
    w2 = [wd2[i] for i in range(d)]
    for lab, r, c, bs, ww in (('first', r1, c1, bas, w), ('on the other grid', r3, c3, bas2, w2), ('second', r2, c2, bas, w), ('second after an update', r4, c4, bas, w)):
        H.eq(r[0], want(c, bs), 'value of the interpolant %s' % lab, scale=1e3)
        H.eq(r[1], grad(c, bs, ww), 'gradient of the interpolant %s' % lab, scale=1e4)
    H.eq(r5, want(c1, bas), 'value of the first interpolant after an update of the second', scale=1e3)
    H.eq(r6, want(c3, bas2), 'value on the other grid after an update of the second', scale=1e3)
    H.eq(r1[0], want(c1, bas), 'earlier result kept', scale=1e3)
    H.eq(r2[1], grad(c2, bas, w), 'earlier gradient kept', scale=1e4)


def many(H, d, mu, npt, combo=(1, 1, 1, 0)):
    """many points; one of them anywhere, the others at fixed positions"""
    sg, a, w = setup(H, d, mu, 'array')
    n = sg.grid.shape[0]
    c = H.array('c', (n,))
    B = [basis(sg, [sg.cube_grid[k, i] for i in range(d)])[0] for k in range(n)]
    si = H.get(I + 'SmolyakInterp')(sg, H.vec([dot(c, B[k]) for k in range(n)]))
    z0, _ = points(H, a, w, 1)
    z = [[H.numfrac((7 * k + 3 * i) % 17 - 8, 8) for i in range(d)] for k in range(npt)]
    at = npt // 2
    z[at] = z0[0]
    pts = H.vec([[x + u * (v + 1) / H.numfrac(2) for x, u, v in zip(a, w, r)] for r in z])
    r = list(si.interpolate(pts, interp=True, deriv=True, deriv_th=True))
    bas = [basis(sg, q) for q in z]
    H.eq(r[0], H.vec([dot(c, b[0]) for b in bas]), 'values', scale=1e3)
    H.eq(r[1], H.vec([[dot(c, [e[i] for e in b[1]]) * 2 / w[i] for i in range(d)] for b in bas]), 'gradient', scale=1e4)
    H.eq(r[2], H.vec([b[0] for b in bas]), 'derivative in the coefficients', scale=1e3)
    H.eq(si.interpolate(pts), H.vec([dot(c, b[0]) for b in bas]), 'values alone', scale=1e3)


def cheb(H, n, shape, kind=1.0):
    """cheby2n: T_0..T_n (kind 1) or U_0..U_n (kind 2)"""
    x = H.array('x', shape)
    R = H.get(M + 'cheby2n')(x, n, kind=kind)
    H.eq(tuple(R.shape), (n + 1,) + tuple(shape), 'shape')
    import numpy as np
    for j in np.ndindex(*shape):
        for k in range(n + 1):
            if kind == 1.0:
                w = T_(k, x[j])[0]
            else:
                w = T_(k + 1, x[j])[1] / H.numfrac(k + 1)
            H.eq(R[(k,) + j], w, 'Chebyshev polynomial %d' % k, scale=1e2)


def matrix(H, d, mu, deriv, given=True):
    """build_B at any points"""
    arg = mu if isinstance(mu, int) else H.ints(mu)
    p = H.get(M + 'poly_inds')(d, arg)
    z = H.array('z', (2, d))

    class G:
        pinds = p
    bas = [basis(G, [z[k, i] for i in range(d)]) for k in range(2)]
    f = H.get(M + 'build_B')
    r = f(d, arg, z, p, deriv) if given else f(d, arg, z, deriv=deriv)
    if deriv:
        r, dr = r
        n = len(p)
        H.eq(dr, H.vec([[[bas[k][1][m][i] for k in range(2)] for i in range(d)] for m in range(n)]), 'derivative of the basis', scale=1e4)
    H.eq(r, H.vec([b[0] for b in bas]), 'basis', scale=1e3)


def sameplace(H, d, mu, mu2):
    """the same points evaluated on two grids with different boxes (and densities)"""
    sg, a, w = setup(H, d, mu, 'array')
    h = Step(H, 'o_')
    sh, a2, w2 = setup(h, d, mu2, 'array')
    x = H.array('x', (1, d))
    SI = H.get(I + 'SmolyakInterp')
    S = []
    for g, lo, wd, nm in ((sg, a, w, 'c'), (sh, a2, w2, 'e')):
        n = g.grid.shape[0]
        c = H.array(nm, (n,))
        B = [basis(g, [g.cube_grid[k, i] for i in range(d)])[0] for k in range(n)]
        S.append((SI(g, H.vec([dot(c, B[k]) for k in range(n)])), c, basis(g, [(x[0, i] - lo[i]) * 2 / wd[i] - 1 for i in range(d)])[0]))
    got = []
    for k in range(2):
        for si, c, b in S:
            r = si.interpolate(x, deriv_th=True)
            got.append((r, c, b))
    for (v, t), c, b in got:
        H.eq(v, H.vec([dot(c, b)]), 'value', scale=1e3)
        H.eq(t, H.vec([b]), 'derivative in the coefficients', scale=1e3)


def sequences(th):
    out = []
    for d, mu, nu in [(2, 1, 1), (2, [1, 2], [2, 1]), (2, 2, 1), (2, 1, [1, 2]), (3, 1, 1), (2, [1, 3], [3, 1]), (2, [2, 1], [1, 2])]:
        for combos in (COMBOS, [[1, 0, 0, 0]], [[0, 1, 0, 0]], [[0, 0, 0, 1]]):
            out.append(then([('outputs', dict(d=d, mu=m, combos=combos, npt=1)) for m in (mu, nu)], cost=10))
        out += twice('again', dict(d=d, mu=mu, seq='f'), dict(d=d, mu=nu, seq='f'), cost=10)
        out.append(T('two boxes, same points %dd %s %s' % (d, mu, nu), 'sameplace', d=d, mu=mu, mu2=nu, cost=8))
        out.append(then([('matrix', dict(d=d, mu=m, deriv=e)) for m in (mu, nu, mu) for e in (False, True)], cost=5))
    out.append(then([('cheb', dict(n=n, shape=[2], kind=k)) for n in (3, 6) for k in (1.0, 2.0)], cost=2))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []
    cfg = [(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (3, 3), (4, 2)] + [(len(m), list(m)) for m in ((1, 2), (2, 1), (3, 1), (1, 3), (2, 3), (1, 1, 2), (2, 1, 1), (1, 2, 1))]
    if th:
        cfg += [(2, 4), (5, 2), (2, [1, 4]), (2, [4, 1])]
    for d, mu in cfg:
        big = d * (mu if isinstance(mu, int) else max(mu))
        for how in ('default', 'scalar', 'list', 'array') if big <= 4 else ('array',):
            out.append(T('nodes d=%d mu=%s %s' % (d, mu, how), 'nodes', d=d, mu=mu, how=how, cost=big ** 2))
        if big <= 4:
            out.append(T('nodes d=%d mu=%s two outputs' % (d, mu), 'nodes', d=d, mu=mu, nx=2, cost=big ** 2))
        for how in ('default', 'scalar', 'list', 'array') if big <= 2 else ('array',):
            for k, cb in enumerate(COMBOS if big <= 4 else [(1, 0, 0, 0), (1, 1, 0, 0), (0, 1, 0, 0), (1, 1, 1, 1)]):
                out.append(T('outputs d=%d mu=%s %s %s' % (d, mu, how, ''.join(map(str, cb))), 'outputs', d=d, mu=mu, how=how, combos=[list(cb)], npt=2 if big <= 4 else 1, cost=2 * big ** 2))
        out.append(T('update d=%d mu=%s' % (d, mu), 'deriv2', d=d, mu=mu, cost=2 * big ** 2))
        for de in (False, True):
            for g in (True, False):
                out.append(T('matrix d=%d mu=%s deriv=%s given=%s' % (d, mu, de, g), 'matrix', d=d, mu=mu, deriv=de, given=g, cost=big))
    for d, mu in [(2, 4), (2, [1, 4]), (2, [5, 2])] + ([(2, 5), (3, 4), (2, [6, 1]), (5, 2)] if th else []):
        for de in (False, True):
            for g in (True, False):
                out.append(T('matrix d=%d mu=%s deriv=%s given=%s' % (d, mu, de, g), 'matrix', d=d, mu=mu, deriv=de, given=g, cost=8))
    for d, mu, nx in [(2, 1, 1), (2, 1, 2), (2, 1, 3), (2, 2, 2), (3, 1, 3), (3, 1, 2), (2, [1, 2], 2)]:
        out.append(T('several outputs d=%d mu=%s %d' % (d, mu, nx), 'vector', d=d, mu=mu, nx=nx, cost=10))
    for d, mu, mu2 in [(2, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1), (2, [1, 2], [2, 1])]:
        out.append(T('two grids d=%d mu=%s,%s' % (d, mu, mu2), 'two', d=d, mu=mu, mu2=mu2, cost=20))
    for d, mu in [(2, 1), (2, 2), (2, [1, 2]), (3, 1)]:
        for seq in ('f', 'p', 'ff', 'fp', 'pf', 'Ff', 'fn'):
            for nx in ((None, 2) if (d, mu) == (2, 1) else (None,)):
                out.append(T('same arrays again %s d=%d mu=%s nx=%s' % (seq, d, mu, nx), 'again', d=d, mu=mu, nx=nx, seq=seq, cost=8))
    for d, mu, npt in [(2, 1, 12), (2, 2, 12), (2, 1, 70), (3, 1, 30)]:
        out.append(T('%d points d=%d mu=%s' % (npt, d, mu), 'many', d=d, mu=mu, npt=npt, cost=npt))
    for n in list(range(1, 10)) + [17, 33] + ([65] if th else []):
        for kind in (1.0, 2.0):
            for sh in ([2], [2, 2], []):
                out.append(T('cheby2n %d kind %d %s' % (n, kind, sh), 'cheb', n=n, shape=sh, kind=kind))
    return out + sequences(th)

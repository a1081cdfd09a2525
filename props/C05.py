"""Derivatives of the interpolants."""
from .common import *

PRELOAD = PRE_SPLINES
BOUNDS = {
    'quick': '1..4 dimensions (5 for linear splines; from 4 on one coordinate on every side, the others inside, for cubic splines at fixed positions of any cell); regular dimensions of any size 2..2^31+1, irregular ones with 2..4 nodes and with any number of nodes; all orders 0/1 per coordinate for cubic, 0..3 per coordinate for linear splines, requested alone, all together in scrambled order and repeated; 1 or 2 rows and an arbitrary row of any number of rows; 2 components and an arbitrary component of any number; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with more mixtures of dimensions, 3 rows and every set of orders in every call form',
}
OUTSIDE = 'rounding; derivatives of linear splines exactly at the nodes (not defined); nearest and constant extrapolation outside the grid; more than four dimensions for cubic splines and five for linear ones'
ZS = ('in', 'low', 'high')


def case(H, **p):
    spline_case(H, **p)


def anyrow(H, **p):
    rows_case(H, **p)


def anycomp(H, **p):
    comps_case(H, **p)


def diffquot(H, dims, k, j, nv=None, call='vec'):
    """Without reference formulas: along coordinate j inside a cell the returned
    derivative is the slope of the returned value (a polynomial of degree k)."""
    D = [mkdim(H, i, kd) for i, kd in enumerate(dims)]
    d = len(D)
    grid = tuple(x.g for x in D)
    C = coefs(H, D, k, nv)
    co = [locate(H, D[i], '%d' % i, ZS, True) for i in range(d)]
    f = H.get(S + 'eval_spline')
    o = [0] * d
    o[j] = 1
    c = co[j]
    # a second point in the same cell / on the same side
    if c.zone == 'in':
        s = H.real('s', pos=True)
        H.assume(s < 1)
    elif c.zone == 'low':
        s = -H.real('s', pos=True)
    else:
        s = 1 + H.real('s', pos=True)
    t0 = c.t
    left = (c.x - t0 / c.inv)
    x1 = left + s / c.inv
    H.assume(s != t0) if H.sym else None
    mid = left + (s + t0) / 2 / c.inv

    def ev(x, diff):
        pt = [q.x for q in co]
        pt[j] = x
        df = 'None' if not diff else repr((tuple(o),))
        if call == 'vec':
            r = f(grid, C, H.vec([pt]), None, k, df, 'linear')
            return r[0] if not diff else r[0, 0]
        r = f(grid, C, tuple(pt), None, k, df, 'linear')
        return r if not diff else r[0]
    # Simpson is exact for derivatives of degree <= 3
    lhs = ev(x1, False) - ev(c.x, False)
    rhs = (x1 - c.x) / 6 * (ev(x1, True) + 4 * ev(mid, True) + ev(c.x, True))
    H.eq(lhs, rhs, 'integral of the derivative')


def sequences(th):
    b = dict(call='vec', nv=None, rows=1, out=False, zones=['in'], strict=True)
    out = []
    lists = [[[[0], [1]], [[1], [0]]], [[[1]], [[0]], [[1]]], [[[0, 1], [1, 0]], [[1, 0], [0, 1]]], [[[0, 0], [1, 0], [0, 1]], [[0, 1], [0, 0], [1, 0]], [[1, 0], [0, 1]]], [[[1, 1]], [[0, 1]], [[1, 0]]]]
    for k in (1, 3):
        for seq in lists:
            d = len(seq[0][0])
            for call in ('vec', 'tuple') if d == 1 else ('vec',):
                for nv in (None, 2):
                    out.append(then([('case', dict(b, dims=['u'] * d, k=k, call=call, nv=nv, orders=o)) for o in seq], cost=4))
    out.append(then([('case', dict(b, dims=['u'], k=k, orders=[[0], [1]])) for k in (1, 3, 1)], cost=4))
    out += twice('case', dict(b, dims=['u'], k=1, orders=[[0], [1]]), cost=4)
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def add(fn='case', **p):
        extra = {k: p.pop(k) for k in ('cost', 'witness', 'budget') if k in p}
        tag = p.pop('tag', '')
        out.append(T({'anyrow': 'any number of rows ', 'anycomp': 'any number of components '}.get(fn, '') + case_name(p) + (' ' + tag if tag else ''), fn, **extra, **p))
    forms = [('tuple', None, False), ('array', None, False), ('array', None, True), ('tuple', 2, False), ('array', 2, True), ('vec', None, False), ('vec', None, True), ('vec', 2, False), ('vec', 2, True)]
    for k in (1, 3):
        d1 = [['u']] + ([['n2'], ['n4']] if k == 1 else [])
        d2 = [['u', 'u']] + ([['u', 'n3'], ['n3', 'u']] if k == 1 else [])
        d3 = [['u', 'u', 'u']] + ([['u', 'n2', 'u']] if k == 1 else [])
        for ds in d1:
            sets = [[[1]], [[1], [0]], [[0], [1]]] + ([[[2]], [[3], [1], [2], [0]]] if k == 1 else [])
            for oo in sets:
                for f in (forms if oo in ([[1], [0]], [[3], [1], [2], [0]]) or th else forms[::3]):
                    add(dims=ds, k=k, call=f[0], nv=f[1], out=f[2], orders=oo, zones=ZS, strict=True)
        for ds in d2:
            full = [[0, 1], [1, 1], [0, 0], [1, 0]]
            for f in forms:
                if k == 1 or th or f[1] is None or f[0] == 'vec':
                    add(dims=ds, k=k, call=f[0], nv=f[1], out=f[2], orders=full, zones=ZS, strict=True, cost=3 * k)
            for oo in [[[1, 0]], [[0, 1]], [[1, 1]]]:
                add(dims=ds, k=k, call='vec', orders=oo, zones=ZS, strict=True, cost=k)
            if k == 1:
                add(dims=ds, k=k, call='vec', nv=2, orders=[[2, 0], [1, 2], [0, 1], [3, 1], [1, 1]], zones=('in',), strict=True, cost=2)
                add(dims=ds, k=k, call='tuple', orders=[[0, 2], [1, 1], [1, 0]], zones=ZS, strict=True, cost=2)
        for ds in d3:
            zz = ZS if k == 1 else ('in', 'high')
            add(dims=ds, k=k, call='vec', orders=[[0, 0, 1], [1, 0, 0], [0, 1, 0]], zones=zz, strict=True, cost=9 * k)
            add(dims=ds, k=k, call='array', orders=[[1, 1, 0], [0, 1, 1], [1, 0, 1]], zones=('in',), strict=True, cost=6 * k)
            add(dims=ds, k=k, call='vec', nv=2, out=True, orders=[[1, 1, 1], [0, 0, 0]], zones=('in',), strict=True, cost=6 * k)
        for ds in ([['u']] + ([['n2'], ['u', 'n2']] if k == 1 else [['u', 'u']])):
            oo = [[0], [1]] if len(ds) == 1 else [[0, 1], [1, 0], [1, 1]]
            for nv in (None, 2):
                add(dims=ds, k=k, call='vec', rows=2, nv=nv, out=nv is None, orders=oo, zones=('in', 'high') if len(ds) > 1 else ZS, strict=True, cost=4 * k)
                add('anyrow', dims=ds, k=k, nv=nv, out=nv is not None, orders=oo, zones=ZS, strict=True, cost=k)
            if th:
                add(dims=ds, k=k, call='vec', rows=3, orders=oo, zones=('in', 'high'), strict=True, cost=8 * k)
        for ds in ([['u'], ['u', 'u']] + ([['N'], ['N', 'u']] if k == 1 else [])):
            oo = [[0], [1]] if len(ds) == 1 else [[0, 1], [1, 0], [1, 1]]
            for call, o, rows in [('tuple', False, 1), ('array', True, 1), ('vec', False, 1), ('vec', True, None)]:
                add('anycomp', dims=ds, k=k, call=call, out=o, rows=rows, orders=oo, zones=ZS, strict=True, cost=2 * k)
        if k == 1:
            for ds in [['N'], ['u', 'N'], ['N', 'u'], ['N', 'N']]:
                oo = [[0], [1], [2]] if len(ds) == 1 else [[1, 0], [0, 1], [1, 1]]
                for call, nv, o in [('tuple', None, False), ('array', 2, True), ('vec', None, True), ('vec', 2, False)]:
                    add(dims=ds, k=1, call=call, nv=nv, out=o, orders=oo, zones=ZS, strict=True, cost=3)
                add('anyrow', dims=ds, k=1, orders=oo, zones=ZS, strict=True, cost=3)
        # four dimensions: one coordinate anywhere, the others at a fixed position of any cell
        U = ['u'] * 4
        for ds in [U] + ([['u', 'u', 'u', 'n3'], ['u', 'u', 'n3', 'u'], ['u', 'n3', 'u', 'u'], ['n3', 'u', 'u', 'u'], ['n2', 'u', 'N', 'u'], ['u', 'N', 'u', 'n2'], ['N', 'N', 'N', 'N'], ['u', 'u', 'u', 'u', 'n3'], ['u', 'u', 'u', 'N', 'u']] if k == 1 else []):
            d = len(ds)
            units = [list(unit(d, i)) for i in range(d)]
            for j in range(d):
                if k == 1:
                    call, nv, o = [('tuple', None, False), ('array', 2, False), ('vec', None, True), ('array', None, True), ('vec', 2, False)][j]
                    zz = [['in'] if i != j else list(ZS) for i in range(d)]
                    add(dims=ds, k=1, call=call, nv=nv, out=o, orders=units[::-1] + [[0] * d], zones=zz, strict=True, cost=6, tag='coordinate %d' % j)
                    if d == 4:
                        oo = [[1 if i in (j, (j + 1) % d) else 0 for i in range(d)], [1] * d, [2 if i == j else 0 for i in range(d)], units[j]]
                        add(dims=ds, k=1, call='vec' if o else 'tuple', orders=oo, zones=[['in']] * d, strict=True, cost=6, tag='mixed %d' % j)
                else:
                    zz = [['mid%d' % (i % 2)] if i != j else list(ZS) for i in range(d)]
                    add(dims=ds, k=3, call=('tuple', 'array', 'vec', 'vec')[j], orders=[units[j], units[(j + 1) % d]], zones=zz, strict=True, cost=30, budget=300, witness=0, tag='coordinate %d' % j)
        # orders listed more than once
        for ds, oo in [(['u'], [[1], [0], [1]]), (['u'], [[1], [1]]), (['u', 'u'], [[1, 0], [0, 1], [1, 0], [0, 0], [0, 1]])]:
            for f in forms[::2]:
                add(dims=ds, k=k, call=f[0], nv=f[1], out=f[2], orders=oo, zones=('in', 'high'), strict=True, cost=len(ds) * k)
        if k == 3:
            # at the nodes too (the cubic spline is differentiable there)
            for f in forms[::2]:
                add(dims=['u'], k=3, call=f[0], nv=f[1], out=f[2], orders=[[1], [0]], zones=('in', 'last'))
            add(dims=['u', 'u'], k=3, call='vec', orders=[[0, 1], [1, 0], [1, 1]], zones=('in', 'last'), cost=5)
        for ds in [['u'], ['u', 'u']] + ([['n3'], ['n2', 'u']] if k == 1 else []):
            for j in range(len(ds)):
                for call in ('vec', 'tuple'):
                    out.append(T('difference quotient %s k%d coordinate %d %s' % ('+'.join(ds), k, j, call), 'diffquot', cost=3 * k, dims=ds, k=k, j=j, call=call))
    return out + sequences(th)

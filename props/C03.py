"""Cubic evaluation inside the grid."""
from .common import *

PRELOAD = PRE_SPLINES
BOUNDS = {
    'quick': '1..3 dimensions (4 for a single point), regular dimensions of any size 2..2^31+1; 1 or 2 rows and an arbitrary row of any number of rows; 2 components and an arbitrary component of any number; all real bounds, coefficients and points inside the grid; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with 4 dimensions in more call forms, 3 rows, 3 components',
}
OUTSIDE = 'rounding; more than four dimensions'


def case(H, **p):
    spline_case(H, k=3, **p)


def anyrow(H, **p):
    rows_case(H, k=3, **p)


def anycomp(H, **p):
    comps_case(H, k=3, **p)


def smooth(H, dims, nv=None, j=0):
    """Two neighbouring cells agree at their common face in value and slope, and
    so do second differences: the pieces joined at interior nodes are C2."""
    D = [mkdim(H, i, kd) for i, kd in enumerate(dims)]
    d = len(D)
    grid = tuple(x.g for x in D)
    C = coefs(H, D, 3, nv)
    co = [locate(H, D[i], '%d' % i, ('in',)) for i in range(d)]
    f = H.get(S + 'eval_spline')
    # node m, points m - e, m + e, in units of the step, 0 < e < 1
    m = H.int('node', 1)
    H.assume(m <= D[j].m - 1)
    e = H.real('e', pos=True)
    H.assume(e < 1)

    def val(s):
        pt = [c.x for c in co]
        pt[j] = D[j].a + (m + s) * D[j].h
        return f(grid, C, H.vec([pt]), None, 3, 'None', 'linear')[0]
    # for a C2 piecewise cubic with a node at 0:
    # f(e) - f(-e) - 2 e f'(0) and f(e) + f(-e) - 2 f(0) - e^2 f''(0) are both O(e^3)
    up, dn, z = val(e), val(-e), val(0)
    up2, dn2 = val(e / 2), val(-e / 2)
    up4, dn4 = val(e / 4), val(-e / 4)
    # each side is a cubic: extract its Taylor coefficients at the node exactly
    def taylor(a, a2, a4, h):
        g1, g2, g4 = (a - z) / h, (a2 - z) / (h / 2), (a4 - z) / (h / 4)
        # g = c1 + c2 x + c3 x^2 at x = h, h/2, h/4
        d1, d2 = (g1 - g2) / (h / 2), (g2 - g4) / (h / 4)
        c3 = (d1 - d2) / (3 * h / 4)
        c2 = d1 - c3 * (3 * h / 2)
        c1 = g1 - c2 * h - c3 * h * h
        return c1, c2
    a1, a2 = taylor(up, up2, up4, e)
    b1, b2 = taylor(dn, dn2, dn4, -e)
    H.eq(a1, b1, 'first derivative at an interior node', tol=1e-5)
    H.eq(a2, b2, 'second derivative at an interior node', tol=1e-3)


def sequences(th):
    b = dict(call='vec', nv=None, rows=2, api='default', zones=['in'])
    out = twice('case', dict(b, dims=['u']), cost=2) + twice('case', dict(b, dims=['u', 'u'], rows=1), cost=4) + twice('case', dict(b, dims=['u'], call='array'), dict(b, dims=['u'], call='array', nv=2), cost=4)
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def add(fn='case', **p):
        extra = {k: p.pop(k) for k in ('cost', 'witness', 'budget') if k in p}
        out.append(T({'anyrow': 'any number of rows ', 'anycomp': 'any number of components '}.get(fn, '') + case_name(dict(p, k=3)), fn, **extra, **p))
    for d in (1, 2, 3):
        for call in ('tuple', 'array', 'vec'):
            for nv in (None, 2):
                add(dims=['u'] * d, call=call, nv=nv, api='default', cost=d * d)
                if call == 'vec' or nv:
                    add(dims=['u'] * d, call=call, nv=nv, out=True, api='spline' if call == 'vec' else 'default', cost=d * d)
                if d < 3:
                    add(dims=['u'] * d, call=call, nv=nv, api='spline', cost=d)
    for d in (1, 2):
        for nv in (None, 2):
            add(dims=['u'] * d, call='vec', rows=2, nv=nv, api='default', out=nv is None, cost=3 * d)
            add('anyrow', dims=['u'] * d, nv=nv, api='default', out=nv is not None)
            add('anyrow', dims=['u'] * d, nv=nv, api='spline', out=nv is None)
    add('anyrow', dims=['u'] * 3, api='default', cost=5)
    for d in (1, 2):
        for call, o, rows in [('tuple', False, 1), ('array', True, 1), ('array', False, 1), ('vec', False, 1), ('vec', True, 1), ('vec', False, None), ('vec', True, None)]:
            for api in ('spline', 'default'):
                if d == 1 or rows is None or th:
                    add('anycomp', dims=['u'] * d, call=call, out=o, rows=rows, api=api, cost=d * d)
    add(dims=['u'] * 4, call='array', api='default', cost=30)
    add(dims=['u'] * 4, call='vec', api='spline', cost=30)
    if th:
        add(dims=['u'] * 4, call='vec', nv=2, out=True, api='default', cost=40)
        add(dims=['u'] * 4, call='tuple', nv=2, api='default', cost=40)
        for d in (1, 2):
            add(dims=['u'] * d, call='vec', rows=3, api='default', cost=6)
            add(dims=['u'] * d, call='vec', rows=2, nv=3, api='spline', cost=6)
    out.append(T('twice continuously differentiable 1d', 'smooth', cost=4, dims=['u']))
    return out + sequences(th)

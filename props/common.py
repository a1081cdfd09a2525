"""Shared pieces of the harnesses: symbolic grids and points, and reference
definitions of the interpolants written independently of the package."""
import itertools
from sx.harness import sequence, Step

S = 'interpolation.splines.'
PRE_SPLINES = ['interpolation', 'interpolation.splines']


class Dim:
    pass


def udim(H, j, m=None):
    """Regular dimension: bounds a, b = a + m*h, n = m + 1 nodes; a, h > 0 and m
    symbolic (m fixed if given)."""
    D = Dim()
    D.j, D.kind = j, 'u'
    D.a = H.real('a%d' % j)
    D.h = H.real('h%d' % j, pos=True)
    D.m = m if m is not None else H.int('m%d' % j, 1, 2 ** 31)
    D.b = D.a + D.m * D.h
    D.n = D.m + 1
    D.g = (D.a, D.b, D.n)
    return D


def ndim_(H, j, N):
    """Irregular dimension with N nodes: symbolic first node and gaps > 0."""
    D = Dim()
    D.j, D.kind = j, 'n'
    D.a = H.real('a%d' % j)
    D.w = [H.real('w%d_%d' % (j, i), pos=True) for i in range(N - 1)]
    nodes = [D.a]
    for w in D.w:
        nodes.append(nodes[-1] + w)
    D.nodes = nodes
    D.b = nodes[-1]
    D.n = N
    D.m = N - 1
    D.g = H.vec(nodes)
    return D


def mkdim(H, j, kind):
    """kind: 'u' regular of any size, 'u3' regular with 3 nodes, 'n3' irregular."""
    if kind == 'u':
        return udim(H, j)
    if kind == 'N':
        return anydim(H, j)
    if kind[0] == 'u':
        return udim(H, j, int(kind[1:]) - 1)
    return ndim_(H, j, int(kind[1:]))


def anydim(H, j):
    """Irregular dimension with any number of nodes (one point is placed on it)."""
    D = Dim()
    D.j, D.kind = j, 'N'
    D.m = H.int('m%d' % j, 1, 2 ** 31)
    D.n = D.m + 1
    D.g = H.increasing('g%d' % j, D.n)
    return D


def locate_any(H, D, c, name, z, strict):
    w = H.real('w_' + name, pos=True)
    q = H.real('q_' + name)
    if z in ('in', 'node'):
        c.p = H.int('p_' + name, 0)
        H.assume(c.p <= D.m - 1)
        y = 0
        if z == 'in':
            y = H.real('y_' + name, lo=0)
            H.assume(y < w)
            if strict:
                H.assume(y > 0)
    elif z == 'last':
        c.p, y = D.m - 1, w
    elif z == 'low':
        c.p, y = 0, -H.real('y_' + name, pos=True)
    elif z == 'high':
        c.p, y = D.m - 1, w + H.real('y_' + name, pos=True)
    H.bind(D.g, c.p, q)
    H.bind(D.g, c.p + 1, q + w)
    H.settle_nodes(D.g)
    c.x = q + y
    c.t = y / w
    c.inv = 1 / w
    return c


class Coord:
    """A coordinate: cell index p, local coordinate t, and 1/width of the cell."""


def locate(H, D, name, zones, strict=False):
    """Place a coordinate on D.  Zones (together all real numbers):
    in: cell p, 0 <= t < 1; last: the last node; low / high: outside."""
    c = Coord()
    z = H.choice('z_' + name, zones) if len(zones) > 1 else zones[0]
    c.zone = z
    c.D = D
    if D.kind == 'N':
        return locate_any(H, D, c, name, z, strict)
    if D.kind == 'u':
        if z == 'in':
            if isinstance(D.m, int) and D.m == 1 and not H.sym:
                c.p = 0
            c.p = H.int('p_' + name, 0)
            H.assume(c.p <= D.m - 1)
            c.t = H.real('t_' + name, lo=0)
            H.assume(c.t < 1)
            if strict:
                H.assume(c.t > 0)
        elif z == 'last':
            c.p = D.m - 1
            c.t = 1
        elif z == 'low':
            c.p = 0
            c.t = -H.real('t_' + name, pos=True)
        elif z == 'high':
            c.p = D.m - 1
            c.t = 1 + H.real('t_' + name, pos=True)
        elif z.startswith('mid'):
            # anywhere in the list of cells, at a fixed position inside of the cell
            c.p = H.int('p_' + name, 0)
            H.assume(c.p <= D.m - 1)
            c.t = H.numfrac(*{'mid0': (5, 16), 'mid1': (11, 16)}[z])
        elif z == 'node':
            c.p = H.int('p_' + name, 0)
            H.assume(c.p <= D.m - 1)
            c.t = 0
        c.x = D.a + (c.p + c.t) * D.h
        c.inv = 1 / D.h
    else:
        N = D.n
        if z in ('in', 'node'):
            c.p = H.choice('p_' + name, range(N - 1))
            w = D.w[c.p]
            if z == 'node':
                y = 0
            else:
                y = H.real('y_' + name, lo=0)
                H.assume(y < w)
                if strict:
                    H.assume(y > 0)
            c.x = D.nodes[c.p] + y
            c.t = y / w
        elif z == 'last':
            c.p = N - 2
            w = D.w[c.p]
            c.x = D.nodes[-1]
            c.t = 1
        elif z == 'low':
            c.p = 0
            w = D.w[0]
            y = H.real('y_' + name, pos=True)
            c.x = D.a - y
            c.t = -y / w
        elif z == 'high':
            c.p = N - 2
            w = D.w[c.p]
            y = H.real('y_' + name, pos=True)
            c.x = D.b + y
            c.t = 1 + y / w
        c.inv = 1 / w
    return c


def clampt(c, mode):
    if mode == 'nearest':
        if c.zone == 'low':
            return 0
        if c.zone == 'high':
            return 1
    return c.t


def bspline(t):
    s = 1 - t
    return [s * s * s / 6.0, (3 * t * t * t - 6 * t * t + 4) / 6.0, (3 * s * s * s - 6 * s * s + 4) / 6.0, t * t * t / 6.0]


def dbspline(t):
    s = 1 - t
    return [-s * s / 2.0, (9 * t * t - 12 * t) / 6.0, -(9 * s * s - 12 * s) / 6.0, t * t / 2.0]


def weights(c, k, order, mode):
    """[(index, weight)] of a one-dimensional basis, derivative of given order."""
    t = clampt(c, mode)
    if k == 1:
        if order == 0:
            w = [1 - t, t]
        elif order == 1:
            w = [-c.inv, c.inv]
        else:
            w = [0, 0]
    else:
        if c.zone == 'low' and mode == 'linear':
            v, d = bspline(0), dbspline(0)
            w = [x + t * y for x, y in zip(v, d)] if order == 0 else [y * c.inv for y in d]
        elif c.zone == 'high' and mode == 'linear':
            v, d = bspline(1), dbspline(1)
            w = [x + (t - 1) * y for x, y in zip(v, d)] if order == 0 else [y * c.inv for y in d]
        else:
            w = bspline(t) if order == 0 else [y * c.inv for y in dbspline(t)]
    return [(c.p + i, x) for i, x in enumerate(w)]


def reference(H, C, coords, k, order=None, mode='linear', comp=None):
    """Tensor-product interpolant at the coordinates."""
    d = len(coords)
    order = order or (0,) * d
    if mode == 'constant' and any(c.zone in ('low', 'high') for c in coords):
        return 0.0
    ws = [weights(c, k, o, mode) for c, o in zip(coords, order)]

    def rec(i, idx):
        if i == d:
            return H.ref(C, *(idx + ([comp] if comp is not None else [])))
        r = None
        for ind, w in ws[i]:
            if not H.sym and w == 0:
                continue
            if isinstance(w, (int, float)) and w == 0:
                continue
            t = w * rec(i + 1, idx + [ind])
            r = t if r is None else r + t
        return 0.0 if r is None else r
    return rec(0, [])


def coefs(H, dims, k, nv=None, name='C'):
    sh = [D.n + (2 if k == 3 else 0) for D in dims]
    if nv:
        sh.append(nv)
    return H.absarray(name, sh)


def spline_case(H, dims, k=1, call='vec', rows=1, nv=None, out=False, mode='linear', orders=None, api='spline', zones=('in', 'last'), strict=False, firstonly=True, layout=None, checkinputs=False):
    """Evaluate one call form and compare with the reference interpolant."""
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    d = len(D)
    grid = tuple(x.g for x in D)
    C = coefs(H, D, k, nv)
    orders = [tuple(o) for o in orders] if orders else None
    R = rows if call == 'vec' else 1
    P = []
    per = zones if isinstance(zones[0], (list, tuple)) else [zones] * d
    for r in range(R):
        P.append([locate(H, D[j], '%d_%d' % (r, j), per[j], strict) for j in range(d)])

    def want1(co):
        if nv is None:
            if orders is None:
                return reference(H, C, co, k, None, mode)
            return [reference(H, C, co, k, o, mode) for o in orders]
        if orders is None:
            return [reference(H, C, co, k, None, mode, comp=i) for i in range(nv)]
        return [[reference(H, C, co, k, o, mode, comp=i) for o in orders] for i in range(nv)]
    W = [want1(co) for co in P]
    if call == 'vec':
        pts = H.vec([[c.x for c in co] for co in P])
        want = H.vec(W)
    elif call == 'array':
        pts = H.vec([c.x for c in P[0]])
        want = W[0]
    else:
        pts = tuple(c.x for c in P[0])
        want = W[0]
    oshape = ()
    if call == 'vec':
        oshape += (R,)
    if nv:
        oshape += (nv,)
    if orders:
        oshape += (len(orders),)
    snaps = []
    if checkinputs:
        arrs = [('coefficients', C)] + [('grid nodes', x.g) for x in D if x.kind == 'n']
        if call != 'tuple':
            arrs.append(('points', pts))
        snaps = [(n, a, H.snapshot(a)) for n, a in arrs]
    res = evaluate(H, api, k, grid, C, pts, oshape if out else None, mode, orders)
    if not out:
        if call != 'vec':
            if nv is None:
                want = tuple(want) if orders else want
            else:
                want = H.vec(want)
    else:
        want = H.vec(want)
    H.eq(res, want, 'value', scale=1.0)
    for n, a, s in snaps:
        H.unchanged(a, s, n)
    return res


def evaluate(H, api, k, grid, C, pts, oshape, mode, orders, outname='out'):
    """Call the package; returns the result or the output array."""
    o = None
    if oshape is not None:
        o = H.array(outname, oshape)
    if api == 'spline':
        f = H.get(S + 'eval_spline')
        df = 'None' if orders is None else repr(tuple(orders))
        r = f(grid, C, pts, o, k, df, mode)
    else:
        f = H.get(S + ('eval_linear' if k == 1 else 'eval_cubic'))
        opt = H.get(S + 'extrap_options')
        m = {'linear': opt.LINEAR, 'nearest': opt.NEAREST, 'constant': opt.CONSTANT}.get(mode)
        a = [grid, C, pts]
        if o is not None:
            a.append(o)
        if api == 'mode':
            a.append(m)
        r = f(*a)
    return r if o is None else o


def then(steps, name='', mod=None, reuse=False, pure=False, rerun=False, **kw):
    """task: several harnesses of one property in sequence"""
    import sys
    mod = mod or sys._getframe(1).f_globals['__name__'].split('.')[-1]
    steps = [[f, dict(p)] for f, p in steps]
    if not name:
        first = steps[0][1]
        name = '%s %s' % (steps[0][0], ' '.join('%s=%s' % e for e in first.items()))
        for f, p in steps[1:]:
            name += ' > %s %s' % (f if f != steps[0][0] else '', ' '.join('%s=%s' % e for e in p.items() if first.get(e[0]) != e[1]))
    return T('sequence %s%s' % (name.replace('  ', ' '), ' same arrays' if reuse else ' writing to the result, again' if rerun else ''),
             'sequence', mod=mod, steps=steps, reuse=reuse, pure=pure, **(dict(kw, rerun=True) if rerun else kw))


def twice(fn, p, q=None, **kw):
    """one harness after another, with new arrays and with the arrays changed in place"""
    import sys
    mod = sys._getframe(1).f_globals['__name__'].split('.')[-1]
    return [then([(fn, p), (fn, q or p)], mod=mod, reuse=r, **kw) for r in (False, True)]


def T(name, fn, /, cost=1, **kw):
    t = dict(name=name, fn=fn, cost=cost)
    for k in ('budget', 'witness', 'havoc', 'max_paths', 'timeout_ms', 'note'):
        if k in kw:
            t[k] = kw.pop(k)
    t['params'] = kw
    return t


def case_name(p):
    s = '+'.join(p['dims']) + ' k%d' % p.get('k', 1) + ' ' + p.get('call', 'vec') + ('any' if p.get('rows', 1) is None else '%d' % p['rows'] if p.get('rows', 1) > 1 else '')
    if p.get('nv'):
        s += ' vv'
    if p.get('out'):
        s += ' out'
    s += ' ' + p.get('mode', 'linear')
    if p.get('orders'):
        s += ' D' + '|'.join(''.join(map(str, o)) for o in p['orders'])
    s += ' ' + p.get('api', 'spline')
    return s


def all_orders(d, mx=1):
    return [list(o) for o in itertools.product(range(mx + 1), repeat=d)]


def rows_case(H, dims, k=1, nv=None, out=False, mode='linear', orders=None, api='spline', zones=('in', 'last'), strict=False):
    """Any number of rows: an arbitrary row of a list of any length."""
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    grid = tuple(x.g for x in D)
    C = coefs(H, D, k, nv)
    N, r = H.rows('N')
    orders = [tuple(o) for o in orders] if orders else None
    co = [locate(H, D[j], '0_%d' % j, zones, strict) for j in range(len(D))]
    pts = H.rowarray('P', N, r, [c.x for c in co])
    tail = ((nv,) if nv else ()) + ((len(orders),) if orders else ())
    o = H.rowout('out', N, tail) if out else None
    f = H.get(S + 'eval_spline')
    if api == 'spline':
        res = f(grid, C, pts, o, k, 'None' if orders is None else repr(tuple(orders)), mode)
    else:
        g = H.get(S + ('eval_linear' if k == 1 else 'eval_cubic'))
        a = [grid, C, pts] + ([o] if out else [])
        if api == 'mode':
            a.append(getattr(H.get(S + 'extrap_options'), mode.upper()))
        res = g(*a)
    if out:
        res = o
    for i in (range(nv) if nv else [None]):
        for j, od in (enumerate(orders) if orders else [(None, None)]):
            idx = [r] + ([i] if i is not None else []) + ([j] if j is not None else [])
            H.eq(H.ref(res, *idx), reference(H, C, co, k, od, mode, comp=i), 'row r of any number of rows')


def located(H, D, r, zones):
    """zones: list for all dimensions, or one list per dimension"""
    per = zones if isinstance(zones[0], (list, tuple)) else [zones] * len(D)
    return [locate(H, D[j], '%d_%d' % (r, j), list(per[j])) for j in range(len(D))]


def bounds_arrays(H, D, kind='array'):
    a, b, n = [x.a for x in D], [x.b for x in D], [x.n for x in D]
    if kind == 'list':
        return a, b, n
    return H.vec(a), H.vec(b), H.ints(n)


def unit(d, j):
    return tuple(1 if i == j else 0 for i in range(d))


def comps_case(H, dims, k=1, call='vec', out=False, mode='linear', orders=None, api='spline', zones=('in', 'last'), strict=False, rows=1):
    """Any number of components: an arbitrary component of vector values of any
    length (rows None: and an arbitrary row of a list of any length)."""
    D = [mkdim(H, j, kd) for j, kd in enumerate(dims)]
    grid = tuple(x.g for x in D)
    K, q = H.rows('K')
    C = H.absarray('C', [x.n + (2 if k == 3 else 0) for x in D] + [K])
    orders = [tuple(o) for o in orders] if orders else None
    co = [locate(H, D[j], '0_%d' % j, zones, strict) for j in range(len(D))]
    xs = [c.x for c in co]
    lead, idx = (), []
    if call == 'vec':
        if rows is None:
            N, r = H.rows('N')
            pts = H.rowarray('P', N, r, xs)
            lead, idx = (N,), [r]
        else:
            pts = H.vec([xs])
            lead, idx = (1,), [0]
    else:
        pts = tuple(xs) if call == 'tuple' else H.vec(xs)
    tail = lead + (K,) + ((len(orders),) if orders else ())
    o = H.rowout('out', tail[0], tail[1:]) if out else None
    if api == 'spline':
        res = H.get(S + 'eval_spline')(grid, C, pts, o, k, 'None' if orders is None else repr(tuple(orders)), mode)
    else:
        g = H.get(S + ('eval_linear' if k == 1 else 'eval_cubic'))
        a = [grid, C, pts] + ([o] if out else [])
        if api == 'mode':
            a.append(getattr(H.get(S + 'extrap_options'), mode.upper()))
        res = g(*a)
    if out:
        res = o
    for j, od in (enumerate(orders) if orders else [(None, None)]):
        H.eq(H.ref(res, *(idx + [q] + ([j] if j is not None else []))), reference(H, C, co, k, od, mode, comp=q), 'component q of any number of components')

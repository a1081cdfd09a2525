"""Calls do not influence each other."""
import itertools, importlib
from .common import *

PRELOAD = ['interpolation', 'interpolation.splines', 'interpolation.splines.filter_cubic', 'interpolation.splines.multilinear_numba', 'interpolation.splines.eval_cubic',
           'interpolation.splines.eval_cubic_numba', 'interpolation.splines.hermite', 'interpolation.multilinear.mlinterp', 'interpolation.cartesian', 'interpolation.complete_poly',
           'interpolation.smolyak', 'interpolation.smolyak.grid', 'interpolation.smolyak.interp']
BOUNDS = {
    'quick': 'two to eight calls in one process, all data, bounds and points of each call: every pair of 18 forms of evaluating splines (A, B, A again), pairs of polynomial bases and fits, of Smolyak grids and interpolants, of cartesian grids, of filters; the same function with other sizes, orders, modes and numbers of components, with new arrays and with the same array objects holding new content; two spline objects, two polynomials, two Smolyak boxes alive; one object given the same array object with other content; the caller writing into a result and calling again; module state, code caches and generated code start fresh in every history',
    'thorough': 'as quick, and every triple A, B, C of a selection of the forms',
}
OUTSIDE = 'longer histories; several threads or processes; the caches numba keeps on disk; rounding'

Z1 = ['in']
FORMS = [
    ('C01.case', dict(dims=['u'], call='vec', nv=None, rows=1, api='default', zones=Z1)),
    ('C01.case', dict(dims=['u', 'u'], call='tuple', nv=2, rows=1, api='default', zones=Z1)),
    ('C02.case', dict(dims=['u'], k=1, call='vec', nv=None, rows=1, mode='constant', api='spline', zones=['low'])),
    ('C02.case', dict(dims=['u'], k=3, call='vec', nv=None, rows=1, mode='nearest', api='mode', zones=['high'])),
    ('C02.case', dict(dims=['u'], k=1, call='tuple', nv=None, rows=1, mode='linear', api='mode', zones=['high'])),
    ('C03.case', dict(dims=['u'], call='vec', nv=None, rows=1, api='default', zones=Z1)),
    ('C05.case', dict(dims=['u'], k=1, call='vec', nv=None, rows=1, orders=[[0], [1]], zones=Z1, strict=True)),
    ('C05.case', dict(dims=['u'], k=3, call='vec', nv=2, rows=1, orders=[[1], [0]], zones=Z1, strict=True)),
    ('C06.inplace', dict(dims=['u'], k=1, rows=2, zones=Z1)),
    ('C04.interpolates', dict(form='prefilter', shape=[3])),
    ('C04.interpolates', dict(form='filter_mcoeffs', shape=[3], nv=2)),
    ('C09.many', dict(dims=['u'], func='mlinterp', rows=2, zones=Z1)),
    ('C09.many', dict(dims=['u'], func='interp', rows=1, zones=Z1)),
    ('C11.once', dict(cls='LinearSpline', shape=[3], rows=1, zones=Z1)),
    ('C11.once', dict(cls='CubicSplines', shape=[3], rows=1, zones=Z1)),
    ('C12.kernel', dict(d=1, zones=Z1, nv=2, rows=1, api='G', out='none')),
    ('C22.evaluation', dict(shape=[2], subset=[0], rows=1, zones=Z1)),
    ('C23.compat', dict(name='vec_eval_cubic_spline', d=1, zones=Z1, rows=1)),
]
OTHERS = [
    [('C14.basis', dict(n=2, d=3, nobs=2)), ('C15.basis', dict(n=2, d=3, der=1, nobs=2)), ('C16.fit', dict(n=2, d=2, extra=1)), ('C16.refit', dict(n=1, d=2, fits=2)), ('C14.basis', dict(n=3, d=2))],
    [('C17.grid', dict(d=2, mu=2)), ('C17.polys', dict(d=3, mu=1)), ('C18.nodes', dict(d=2, mu=1, how='array')), ('C18.outputs', dict(d=2, mu=[1, 2], how='list', combos=[[1, 1, 0, 0]], npt=1)),
     ('C19.transforms', dict(d=2, npt=1)), ('C19.grid', dict(d=2, mu=1)), ('C18.matrix', dict(d=2, mu=2, deriv=True))],
    [('C10.lin', dict(shape=[2, 3], order='C')), ('C10.lin', dict(shape=[2, 3], order='F')), ('C10.lin', dict(shape=[3], form='nodes')), ('C10.cart', dict(shape=[3, 2])), ('C11.grids', dict(cls='CubicSpline', shape=[2, 3]))],
    [('C13.scalar', dict(N=2)), ('C13.overloaded', dict(N=2, form='vector', rows=1, zones=Z1)), ('C21.unity', dict(p=1, n=4)), ('C21.unity', dict(p=2, n=6)), ('C20.accepted', dict(cls='CGrid', mix=['u'])), ('C20.accepted', dict(cls='UCGrid', mix=['u']))],
]


def refilled(H, new, uses, contents):
    """an object is given one array object again and again, each time with other
    content: every result is that of another object given arrays of its own"""
    import numpy as np
    new = [new] if callable(new) else new
    objs = [(m(), m()) for m in new]
    for use in uses:
        if isinstance(use, tuple):
            first, use = use
            for pair in objs:
                for o in pair:
                    first(o)
        b = H.vec(contents[0])
        for k, x in enumerate(list(contents) + [contents[0]]):
            np.asarray(b)[...] = np.asarray(H.vec(x))
            for i, (o, other) in enumerate(objs):
                H.eq(use(o, b), use(other, H.vec(x)), 'object %d, content %d of the array' % (i, k), scale=1e3)


def refilled_spline(H, cls, shape, what):
    from . import C11
    cs = [C11.Case(H, cls, shape), C11.Case(Step(H, 'o_'), cls, shape)]
    V = [c.values('V') for c in cs]
    if what == 'points':
        c = cs[0]
        uses = [lambda o, p: o(p), lambda o, p: o.interpolate(p)]
        if cls == 'CubicSplines':
            uses.append(lambda o, p: o.interpolate(p, diff=True)[1])
        refilled(H, lambda: c.new(V[0]), uses, [[c.inner(0), c.inner(1)], [c.inner(2), c.inner(0)]])
    elif what == 'point':
        c = cs[0]
        if cls.startswith('Cubic') or cls.startswith('Linear'):
            refilled(H, lambda: c.new(V[0]), [lambda o, p: o(p)], [c.inner(0), c.inner(2)])
    else:
        c = cs[0]
        P = H.vec([c.inner(0)])

        def use(o, v):
            o.set_values(v)
            return o(P)
        W = c.values('W')
        refilled(H, lambda: c.new(), [use], [V[0], W])
        refilled(H, lambda: c.new(V[0]), [use], [V[0], W])


def refilled_poly(H, n, d, nx=None):
    from . import C16
    E = C16.exps(n, d)
    P = C16.points(n, d, 0)
    c1, X1 = C16.values(H, 'c1', E, P, nx)
    c2, X2 = C16.values(H, 'c2', E, P, nx)
    CP = H.get(C16.M + 'CompletePolynomial')

    def new():
        f = CP(n, d)
        f.fit_values(H.const(P), X1)
        return f
    S = [[[H.real('%s%d_%d' % (k, i, j)) for j in range(n)] for i in range(2)] for k in 'st']
    refilled(H, new, [lambda f, s: f(s)] + [lambda f, s, j=j: f.der(s, j) for j in range(n)], S)

    def fit(f, x):
        f.fit_values(H.const(P), x)
        return f.coefs

    def damped(f, x):
        f.fit_values(H.const(P), x, damp=0.25)
        return f.coefs

    def nodes(f, s):
        f.fit_values(s, X2)
        return f.coefs
    Q = [[3 * x + 1 for x in p] for p in P]
    refilled(H, new, [fit, damped], [X1, X2])
    refilled(H, new, [nodes], [P, Q])


def refilled_smolyak(H, d, mu):
    from . import C18
    sg, a, w = C18.setup(H, d, mu, 'array')
    h = Step(H, 'o_')
    z1, x1 = C18.points(H, a, w, 2)
    z2, x2 = C18.points(h, a, w, 2)
    n = sg.grid.shape[0]
    c1, c2 = H.array('c', (n,)), H.array('e', (n,))
    SI = H.get(C18.I + 'SmolyakInterp')
    uses = [lambda o, p: o.interpolate(p), lambda o, p: o.interpolate(p, deriv=True), lambda o, p: o.interpolate(p, interp=False, deriv_th=True),
            lambda o, p: o.interpolate(p, interp=False, deriv_X=True), lambda o, p: o.interpolate(p, deriv=True, deriv_th=True, deriv_X=True)]
    refilled(H, [lambda: SI(sg, H.vec(c1)), lambda: SI(sg, H.vec(c2))], uses, [x1, x2])

    def update(o, v):
        o.update_theta(v)
        return o.theta
    refilled(H, lambda: SI(sg, H.vec(c1)), [update], [c1, c2])
    refilled(H, lambda: sg, [lambda g, p: g.dom2cube(p), lambda g, p: g.cube2dom(p)], [x1, x2])


def refilled_tasks(th):
    out = []
    for cls in ('LinearSpline', 'LinearSplines', 'CubicSpline', 'CubicSplines'):
        for sh in [[3], [3, 2]] + ([[2, 3, 2]] if th else []):
            for what in ('points', 'point', 'values'):
                if what != 'point' or cls != 'CubicSplines':
                    out.append(T('one array, other content: %s %s %s' % (cls, sh, what), 'refilled_spline', cls=cls, shape=sh, what=what, cost=4))
    for n, d in [(1, 2), (2, 1), (2, 2)] + ([(2, 3), (3, 1)] if th else []):
        for nx in (None, 2):
            out.append(T('one array, other content: polynomial %d variables degree %d %s' % (n, d, nx or ''), 'refilled_poly', n=n, d=d, nx=nx, cost=4))
    for d, mu in [(2, 1), (2, [1, 2])] + ([(3, 1), (2, 2)] if th else []):
        out.append(T('one array, other content: Smolyak %dd %s' % (d, mu), 'refilled_smolyak', d=d, mu=mu, cost=5))
    return out


def short(f):
    return '%s %s' % (f[0], ' '.join('%s=%s' % e for e in f[1].items() if e[0] not in ('zones', 'strict', 'rows')))


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for g in [FORMS] + OTHERS:
        for a, b in itertools.combinations(g, 2):
            out.append(then([a, b, a], '%s / %s' % (short(a), short(b)), pure=True, cost=4))
        for a in g:
            for r in (False, True):
                out.append(then([a, a], '%s twice' % short(a), reuse=r, pure=True, cost=4))
            out.append(then([a], short(a), rerun=True, pure=True, cost=4))
    for g, h in itertools.combinations([FORMS[5:6] + FORMS[9:10]] + [x[:2] for x in OTHERS], 2):
        for a in g:
            for b in h:
                out.append(then([a, b, a], '%s / %s' % (short(a), short(b)), pure=True, cost=4))
    if th:
        for g in [FORMS[::2]] + OTHERS:
            for a, b, c in itertools.permutations(g, 3):
                out.append(then([a, b, c], '%s / %s / %s' % (short(a), short(b), short(c)), pure=True, cost=5))
    out += refilled_tasks(th)
    # the histories of single functions
    seen = {t['name'] for t in out}
    for i in '01 02 03 04 05 06 09 10 11 12 13 14 15 16 17 18 19 22 23'.split():
        m = importlib.import_module('props.C' + i)
        for t in m.sequences(th):
            p = dict(t['params'])
            steps = p['steps'] if t['fn'] == 'sequence' else [[t['fn'], p]]
            t = T('C%s %s' % (i, t['name']), 'sequence', mod='C' + i, steps=steps, reuse=p.get('reuse', False), pure=True, cost=t.get('cost', 1))
            if t['name'] not in seen:
                seen.add(t['name'])
                out.append(t)
    return out

"""Multilinear interpolation inside the grid."""
from .common import *

PRELOAD = PRE_SPLINES
BOUNDS = {
    'quick': 'dimensions 1..4; regular dimensions of any size 2..2^31+1, irregular dimensions with 2..4 nodes and with any number of nodes (any spacing); 1 or 2 rows of points and an arbitrary row of any number; 1, 2 vector components and an arbitrary component of any number; all real bounds, values and points inside the grid; one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with irregular dimensions of 2..6 nodes, up to 3 rows, and more mixtures of regular and irregular dimensions',
}
OUTSIDE = 'rounding; more than six dimensions; dependence between rows of lists of more than 3 points (any number of rows is covered for the loop body of an arbitrary row)'


def case(H, **p):
    spline_case(H, k=1, **p)


def anyrow(H, **p):
    rows_case(H, k=1, **p)


def anycomp(H, **p):
    comps_case(H, k=1, **p)


def sequences(th):
    b = dict(call='vec', nv=None, rows=2, api='default', zones=['in'])
    out = twice('case', dict(b, dims=['u']), cost=2) + twice('case', dict(b, dims=['n3']), cost=4)
    out += twice('case', dict(b, dims=['u', 'n3'], rows=1), dict(b, dims=['n3', 'u'], rows=1), cost=4)
    out += [then([('case', dict(b, dims=['u'], **p)), ('case', dict(b, dims=['u'], **q)), ('case', dict(b, dims=['u'], **p))], cost=4)
            for p, q in [(dict(nv=2), dict(nv=3)), (dict(nv=None), dict(nv=2)), (dict(rows=1), dict(rows=3)), (dict(out=True), dict(call='tuple')), (dict(api='spline'), dict(dims_=0))] if 'dims_' not in q]
    out += [then([('case', dict(b, dims=['u'] * d)) for d in (1, 2, 1)], cost=4)]
    return out


def tasks(tier):
    out = []

    def add(**p):
        extra = {k: p.pop(k) for k in ('cost', 'witness', 'budget') if k in p}
        out.append(T(case_name(dict(p, k=1)), 'case', **extra, **p))
    th = tier == 'thorough'
    dimsets = [['u'], ['n2'], ['n3'], ['n4'], ['u', 'u'], ['u', 'n3'], ['n3', 'u'], ['n2', 'n3'], ['u', 'u', 'u'], ['u', 'n2', 'u'], ['n2', 'u', 'n3']]
    if th:
        dimsets += [['n5'], ['n6'], ['n3', 'n4'], ['n4', 'u'], ['u', 'n4'], ['n2', 'n2', 'n2'], ['u', 'u', 'n3'], ['n3', 'u', 'u'], ['u', 'u', 'u', 'n2'], ['n2', 'u', 'n2', 'u']]
    for ds in dimsets:
        d = len(ds)
        for call in ('tuple', 'array', 'vec'):
            for nv in (None, 2):
                add(dims=ds, call=call, nv=nv, api='spline' if call != 'vec' else 'default', rows=1, cost=d)
    for ds in [['u'], ['n3'], ['u', 'u'], ['n2', 'u']]:
        for nv in (None, 2):
            add(dims=ds, call='vec', rows=2, nv=nv, api='default', out=True, cost=3)
            add(dims=ds, call='vec', rows=2, nv=nv, api='spline', cost=3)
    for ds in [['u'], ['n3'], ['u', 'n2'], ['u', 'u']] + ([['u', 'u', 'u'], ['n4', 'u']] if th else []):
        for nv in (None, 2):
            out.append(T('any number of rows ' + '+'.join(ds) + (' vv' if nv else ''), 'anyrow', dims=ds, nv=nv, api='default', out=nv is None))
            out.append(T('any number of rows, spline ' + '+'.join(ds) + (' vv' if nv else ''), 'anyrow', dims=ds, nv=nv, api='spline', out=nv is not None))
    # irregular dimensions with any number of nodes
    for ds in [['N'], ['N', 'N'], ['u', 'N'], ['N', 'u'], ['N', 'n2', 'u']]:
        for call in ('tuple', 'array', 'vec'):
            for nv in (None, 2):
                add(dims=ds, call=call, nv=nv, api='spline' if call != 'vec' else 'default', out=call == 'vec' and nv is None, rows=1, cost=2 * len(ds))
        out.append(T('any number of rows ' + '+'.join(ds), 'anyrow', dims=ds, api='default', cost=2))
    # vector values with any number of components
    for ds in [['u'], ['N'], ['u', 'u'], ['n3', 'u'], ['u', 'N', 'u']]:
        for call in ('tuple', 'array', 'vec'):
            out.append(T('any number of components ' + '+'.join(ds) + ' ' + call, 'anycomp', dims=ds, call=call, out=call == 'array', api='default' if call == 'vec' else 'spline'))
        out.append(T('any number of rows and components ' + '+'.join(ds), 'anycomp', dims=ds, call='vec', rows=None, out=len(ds) == 1, api='spline'))
    for call in ('array', 'vec'):
        add(dims=['u'] * 4, call=call, api='default', cost=5)
    add(dims=['u'] * 4, call='vec', nv=2, api='spline', out=True, cost=5)
    # irregular dimensions at every position in four and more dimensions
    for ds in [['u', 'u', 'u', 'n3'], ['u', 'u', 'n3', 'u'], ['u', 'n3', 'u', 'u'], ['n3', 'u', 'u', 'u'], ['n2', 'u', 'n2', 'u'], ['u', 'n2', 'u', 'N'], ['N', 'u', 'N', 'u'], ['n2', 'n2', 'n2', 'N']]:
        for call, nv, o in [('tuple', None, False), ('array', 2, False), ('vec', None, True)]:
            add(dims=ds, call=call, nv=nv, out=o, api='default' if call == 'vec' else 'spline', zones=['in', 'last'] if ds[0] == 'u' else ['in'], cost=5)
    for ds in [['u'] * 5, ['u', 'n2', 'u', 'u', 'N'], ['N', 'u', 'u', 'N', 'u'], ['u'] * 6]:
        for call, nv in [('tuple', 2), ('array', None), ('vec', None)]:
            add(dims=ds, call=call, nv=nv, api='default', zones=['in'], cost=8)
    if th:
        for ds in [['u'], ['n3'], ['u', 'u']]:
            add(dims=ds, call='vec', rows=3, api='default', cost=5)
    return out + sequences(th)

"""Extrapolation modes."""
from .common import *

PRELOAD = PRE_SPLINES
BOUNDS = {
    'quick': 'every combination of coordinates inside, on the last node, below and above the grid, in 1..3 dimensions; regular dimensions of any size 2..2^31+1, irregular ones with 2..3 nodes and with any number of nodes; 1 or 2 rows and an arbitrary row of any number of rows; 2 components and an arbitrary component of any number; 3 and (linear splines) 4 dimensions with one coordinate outside at a time, and all outside; all real bounds, coefficients and distances (also beyond 2^63 steps); one call after another in one process (other sizes and options; the same array objects with new content), with the results of earlier calls kept',
    'thorough': 'as quick with irregular dimensions of up to 5 nodes, 3 rows, 4 dimensions for linear splines',
}
OUTSIDE = 'rounding; more than four dimensions for cubic and five for linear splines; derivatives outside the grid in nearest mode (not promised)'
Z = ('in', 'last', 'low', 'high')
ZS = ('in', 'low', 'high')


def case(H, **p):
    spline_case(H, **p)


def anyrow(H, **p):
    rows_case(H, **p)


def anycomp(H, **p):
    comps_case(H, **p)


def sequences(th):
    b = dict(k=1, call='vec', nv=None, rows=2, api='spline', zones=['low'])
    out = []
    for k in (1, 3):
        for p, q in itertools.permutations(('linear', 'nearest', 'constant'), 2):
            out.append(then([('case', dict(b, dims=['u'], k=k, mode=p)), ('case', dict(b, dims=['u'], k=k, mode=q))], cost=3))
            out.append(then([('case', dict(b, dims=['u'], k=k, mode=p, call='tuple', api='mode')), ('case', dict(b, dims=['u'], k=k, mode=q, call='tuple', api='mode'))], cost=3))
        out += twice('case', dict(b, dims=['u', 'u'], k=k, mode='linear', rows=1, zones=['high']), cost=3)
    out.append(then([('case', dict(b, dims=['u'], k=k, mode='linear')) for k in (1, 3, 1)], cost=3))
    return out


def tasks(tier):
    th = tier == 'thorough'
    out = []

    def add(fn='case', **p):
        extra = {k: p.pop(k) for k in ('cost', 'witness', 'budget') if k in p}
        tag = p.pop('tag', '')
        nm = {'anyrow': 'any number of rows ', 'anycomp': 'any number of components '}.get(fn, '') + case_name(p) + (' ' + tag if tag else '')
        out.append(T(nm, fn, **extra, **p))
    for mode in ('linear', 'nearest', 'constant'):
        for k in (1, 3):
            dimsets = [['u'], ['u', 'u']] + ([['n3'], ['n2', 'u']] if k == 1 else [])
            if th and k == 1:
                dimsets += [['n5'], ['u', 'n3'], ['n3', 'n3'], ['u', 'u', 'u'], ['n2', 'u', 'n2']]
            if th and k == 3:
                dimsets += [['u', 'u', 'u']]
            for ds in dimsets:
                d = len(ds)
                cost = 3 if k == 3 and d > 1 else d
                if k == 3 and d > 2:
                    cost = 9
                for call in ('tuple', 'array', 'vec'):
                    for nv in (None, 2):
                        for o in ((False, True) if (call == 'vec' or nv) else (False,)):
                            if d > 1 and not th and ((call == 'tuple' and not o and nv) or (call == 'array' and nv is None)):
                                continue
                            # each call form through one of the entry points
                            api = 'mode' if (call != 'tuple') != bool(o) else 'spline'
                            add(dims=ds, k=k, call=call, nv=nv, out=o, mode=mode, api=api, zones=Z, cost=cost)
            for ds in [['u']] + ([['n2']] if k == 1 else []):
                add(dims=ds, k=k, call='vec', rows=2, mode=mode, api='mode', zones=Z, cost=3)
                add(dims=ds, k=k, call='vec', rows=2, nv=2, out=True, mode=mode, api='spline', zones=Z, cost=3)
                if th:
                    add(dims=ds, k=k, call='vec', rows=3, mode=mode, api='spline', zones=Z, cost=6)
            add('anyrow', dims=['u'], k=k, mode=mode, api='mode', out=True, zones=Z)
            add('anyrow', dims=['u', 'u'] if k == 3 else ['u', 'n2'], k=k, mode=mode, nv=2, api='spline', zones=Z, cost=2)
            for call in ('tuple', 'array', 'vec'):
                add('anycomp', dims=['u'], k=k, mode=mode, call=call, out=call == 'vec', api='mode' if call == 'array' else 'spline', zones=Z)
            add('anycomp', dims=['u', 'u'] if k == 3 else ['u', 'n2'], k=k, mode=mode, call='vec', rows=None, api='mode', zones=Z, cost=2)
        for ds in [['N'], ['N', 'u']]:
            for call, nv, o in [('tuple', None, False), ('array', 2, True), ('vec', None, True), ('vec', 2, False)]:
                add(dims=ds, k=1, call=call, nv=nv, out=o, mode=mode, api='mode' if call == 'vec' else 'spline', zones=Z, cost=2)
            add('anyrow', dims=ds, k=1, mode=mode, api='mode', zones=Z, cost=2)
    # default mode of eval_linear / eval_cubic
    for k in (1, 3):
        for ds in [['u'], ['u', 'u']] + ([['n3'], ['n2', 'u']] if k == 1 else []):
            for call in ('tuple', 'array', 'vec'):
                add(dims=ds, k=k, call=call, api='default', zones=Z, cost=2)
            add(dims=ds, k=k, call='vec', nv=2, out=True, api='default', zones=Z, cost=2)
            add(dims=ds, k=k, call='array', nv=2, api='default', zones=Z, cost=2)
    # three dimensions
    for mode in ('linear', 'nearest', 'constant'):
        add(dims=['u', 'u', 'u'], k=1, call='vec', mode=mode, api='mode', zones=Z, cost=6)
        add(dims=['u', 'n2', 'u'], k=1, call='array', mode=mode, api='spline', zones=Z, cost=6)
        if th:
            add(dims=['u', 'u', 'u', 'u'], k=1, call='vec', mode=mode, api='mode', zones=Z, cost=20)
    # every entry point in higher dimensions: one coordinate at a time in every
    # zone, then all outside
    for k in (1, 3):
        for d in (3, 4) if k == 1 else (3,):
            for mode in ('linear', 'nearest', 'constant', 'default'):
                for j in range(d):
                    for call, nv, o in ([('vec', None, False), ('vec', 2, True), ('array', None, False), ('tuple', 2, False)] if k == 1 or th else [[('tuple', None, False)], [('array', 2, False)], [('vec', None, False)]][j]):
                        ds = ['u'] * d
                        zz = [['in'] if i != j else ['in', 'last', 'low', 'high'] for i in range(d)]
                        add(dims=ds, k=k, call=call, nv=nv, out=o, mode='linear' if mode == 'default' else mode, api='default' if mode == 'default' else ('spline' if (j + (nv or 0)) % 2 else 'mode'), zones=zz, tag='out in dimension %d' % j, cost=4 if k == 1 else 12)
                if k == 1:
                    add(dims=['u'] * d, k=k, call='vec', mode='linear' if mode == 'default' else mode, api='default' if mode == 'default' else 'spline', zones=[['low', 'high']] * d, tag='all out', cost=4)
    # irregular dimensions at every position in higher dimensions
    for mode in ('linear', 'nearest', 'constant'):
        for d in (3, 4, 5):
            for j in range(d):
                for i in sorted({j, (j + 1) % d}):
                    ds = ['u'] * d
                    ds[j] = 'n3' if (i + j) % 2 else 'N'
                    zz = [['in'] if q != i else ['last', 'low', 'high'] for q in range(d)]
                    call, nv, o = [('tuple', None, False), ('array', 2, False), ('vec', None, True)][(i + d) % 3]
                    add(dims=ds, k=1, call=call, nv=nv, out=o, mode=mode, api='spline' if i % 2 else 'mode', zones=zz, tag='out in dimension %d' % i, cost=4)
    for mode in ('linear', 'nearest', 'constant'):
        for j in range(4):
            zz = [['mid%d' % (i % 2)] if i != j else ['in', 'low', 'high'] for i in range(4)]
            add(dims=['u'] * 4, k=3, call=('tuple', 'array', 'vec', 'vec')[j], mode=mode, api='spline' if j % 2 else 'mode', zones=zz, tag='out in dimension %d' % j, cost=20, budget=300, witness=0)
    # derivatives
    for k in (1, 3):
        for ds in [['u'], ['u', 'u']] + ([['n3'], ['n2', 'u']] if k == 1 else []):
            d = len(ds)
            oo = all_orders(d) if d > 1 else [[0], [1]]
            if d > 1:
                oo = [[0, 0], [1, 0], [0, 1]]
            for mode in ('constant', 'linear'):
                for call, nv, o in [('tuple', None, False), ('array', None, True), ('array', 2, False), ('tuple', 2, True), ('vec', None, False), ('vec', 2, True)]:
                    if mode == 'linear' and d > 1 and not th and call != 'vec':
                        continue
                    add(dims=ds, k=k, call=call, nv=nv, out=o, mode=mode, orders=oo, zones=ZS, strict=True, cost=2 * d)
            add(dims=ds, k=k, call='vec', mode='nearest', orders=oo, zones=('in',), strict=True, cost=2)
            add(dims=ds, k=k, call='array', nv=2, mode='nearest', orders=oo, zones=('in',), strict=True, cost=2)
            add(dims=ds, k=k, call='tuple', mode='nearest', orders=oo, zones=('in',), strict=True, cost=2)
    return out + sequences(th)

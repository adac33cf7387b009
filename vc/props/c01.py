from .common import *


def post(E):
    nx, nu, ph, ch = [E.dim(n) for n in ('nx', 'nu', 'ph', 'ch')]
    kind = E.param('kind')
    nz = ph * nx + nu * ch
    sx = lambda j: E.inp('sx', j)
    su = lambda j: E.inp('su', j)
    for n, sgn in (('lb', -1), ('ub', 1)):
        inf = E.inf * sgn
        side = 'min' if sgn < 0 else 'max'
        E.shape(n + '0', nz + 1)
        E.shape(n, nz + 1)
        E.forall([(0, nz)], lambda i: E.same('%s never set is infinite' % n, E.out(n + '0', i), inf))
        E.same('slack pinned by default (%s)' % n, E.out(n + '0', nz), 0)
        if kind in (0, 1):
            H = ph if kind == 0 else ch
            v = 'x' if kind == 0 else 'u'
            s, e = E.int('start'), E.int('end')
            allh = E.And(E.eq(s, -1), E.eq(e, -1))
            ok = E.Or(allh, E.And(E.ge(s, 0), E.lt(s, e), E.le(e, H)))
            E.same('slice accepted exactly when valid', E.out('r2'), ok)

            def want(i, j):
                inside = E.And(ok, E.Or(allh, E.And(E.le(s, i), E.lt(i, e))))
                return E.ite(inside, lambda: E.inp(v + side + '2', j), lambda: E.inp(v + side, j))
        elif kind in (2, 3):
            v = 'x' if kind == 2 else 'u'

            def want(i, j):
                return E.inp(v + side + 'm', j, i)
        E.check('call accepted', E.out('r1'))
        if kind in (0, 2):
            E.forall([(0, ph), (0, nx)], lambda i, j: E.same('%s of state stage i+1' % n, E.out(n, i * nx + j), want(i, j) / sx(j)))
        else:
            other = E.param('hist') == 4
            E.forall([(0, ph), (0, nx)], lambda i, j: E.same('%s of state untouched' % n, E.out(n, i * nx + j), E.inp('x' + side + 'm', j, i) / sx(j) if other else inf))
        if kind in (1, 3):
            E.forall([(0, ch), (0, nu)], lambda i, j: E.same('%s of input move i' % n, E.out(n, ph * nx + i * nu + j), want(i, j) / su(j)))
        else:
            other = E.param('hist') == 4
            E.forall([(0, ch), (0, nu)], lambda i, j: E.same('%s of input untouched' % n, E.out(n, ph * nx + i * nu + j), E.inp('u' + side + 'm', j, i) / su(j) if other else inf))
        if kind == 4:   # soft
            E.same('%s of soft slack' % n, E.out(n, nz), inf)
        else:
            E.same('%s of hard slack' % n, E.out(n, nz), 0)


def ints(p, d):
    if p['kind'] in (0, 1):
        return slices(d['ph'] if p['kind'] == 0 else d['ch'])
    return [{}]


HC = [dict(kind=k, hist=h) for k in range(4) for h in (1, 2, 3, 4, 5)] + [dict(kind=0, hist=6), dict(kind=1, hist=6)] + \
    [dict(kind=k, hist=h) for k in (4, 5) for h in (1, 2, 3, 5)] + [dict(kind=5, hist=6)]
SCENARIOS = [Scenario('nl_bounds', post, [dict(kind=k) for k in range(6)], NLB, NLN, ints, static=[nl(2, 1, 1, 3, 2, 1, 1)], native=2, overrides=infs,
                      hcases=HC, ucases=[c for c in HC if c['kind'] > 1])]

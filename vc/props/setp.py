"""Settings (C13) and feasibility flag (C14)."""
from .common import *
from .traj import Traj


def post13(E):
    n = E.param('n')
    if E.param('tol'):
        for nm, sz, t in (('stols', E.dim('ph') * E.dim('nx'), 'stol'), ('itols', E.dim('ineq'), 'itol'), ('etols', E.dim('eq'), 'etol')):
            E.shape(nm, sz)
            E.forall([(0, sz)], lambda i: E.same('tolerance ' + nm, E.out(nm, i), E.preal(t)))
    if n:
        k = str(n)
        for s in ('ftr', 'xtr', 'fta', 'xta', 'tl'):
            E.same('setting %s reaches the solver' % s, E.out(s), E.real(s + k))
        E.same('evaluation limit reaches the solver', E.out('it'), E.int('it' + k))
        h = E.bool('hard' + k)
        E.same('slack lower bound', E.out('slb'), E.ite(h, lambda: 0, lambda: -E.inf))
        E.same('slack upper bound', E.out('sub'), E.ite(h, lambda: 0, lambda: E.inf))


def post14(E):
    user = E.param('user')
    free = E.param('free')
    for k, o in ((1, ('feas',)), (2, ('feas2', 'lfeas2'))):
        t = Traj(E, 'zopt%d' % k, 'x%d' % (k - 1))
        from .cons import full
        X, Y, U = [E.mat(*m) for m in full(E, t, E.param('outfn'))]
        ok = E.And()
        if user & 1:
            g = lambda i, j: E.inp('gi', i) if free else E.app('gi', i, [X, Y, U, t.slack()])
            ok = E.And(ok, E.all(t.ni, 1, lambda i, j: E.le(g(i, j), E.preal('itol'))))
        if user & 2:
            g2 = lambda i, j: E.inp('ge', i) if free else E.app('ge', i, [X, U])
            ok = E.And(ok, E.all(t.ne, 1, lambda i, j: E.And(E.le(g2(i, j), E.preal('etol')), E.ge(g2(i, j), -E.preal('etol')))))
        for n in o:
            E.same('feasible exactly when every constraint holds within its tolerance', E.out(n), ok)


def ov13(p, d, s):
    return {'tl1': [0.0, 2.5, -1.0][s % 3], 'tl2': [0.0, 1.5, -1.0][(s // 3) % 3]}


def ov14(p, d, s):
    o = {}
    if p.get('free') and s % 2:
        o['grid'] = 1 + s % 3
    if p.get('free') and s % 3 == 0:
        for i in range(d['ineq']):
            o['gi:%d:0' % i] = -0.1 * i
        for i in range(d['eq']):
            o['ge:%d:0' % i] = 0.1 * i
    if s % 4 == 1:
        o['itol'] = 50.0
        o['etol'] = 50.0
    return o


ST = [nl(2, 2, 1, 3, 2, 1, 1)]
SCENARIOS = [
    Scenario('nl_set', post13, [dict(n=1), dict(n=2), dict(n=1, tol=1), dict(n=2, run=1), dict(n=0, tol=1)], NLB, NLN,
             lambda p, d: [dict(it1=a, it2=b, hard1=h, hard2=1 - h, warm1=0, warm2=1, lastres1=1, lastres2=1) for a, b, h in ((100, -1, 0), (0, 7, 1))], static=ST, native=3, overrides=ov13),
    Scenario('nl_feas', post14, [dict(user=u, free=f, outfn=o) for u in (0, 1, 2, 3) for f in (0, 1) for o in (0, 1) if not (f and o)], NLB, NLN, lambda p, d: [dict(lastres1=1, lastres2=1)], static=ST, native=8, overrides=ov14),
]

"""The linear quadratic program: objective (C16), dynamics rows (C17), inequality rows (C18)."""
from .common import *

LPKEYS = ('nx', 'nu', 'ndu', 'ny', 'ph', 'ch')


def lp(*v):
    return dict(zip(LPKEYS, v))


class LQ:
    """layout of the program: variables [(x_i,xu_i), i=0..ph | du_0..du_{ph-1}]"""

    def __init__(self, E, k=1, P='P', q='q', A='Ac', l='l', u='u'):
        self.E = E
        for n in LPKEYS:
            setattr(self, n, E.dim(n))
        self.na = self.nx + self.nu
        self.ns = (self.ph + 1) * self.na
        self.nv = self.ns + self.ph * self.nu
        self.ro = 2 * self.ns                      # output rows
        self.rd = self.ro + (self.ph + 1) * self.ny    # increment rows
        self.rs = self.rd + self.ph * self.nu      # scalar rows
        self.nc = self.rs + self.ph + 1
        self.k = k

    def o(self, n, i=0, j=0):
        return self.E.out(n + str(self.k), i, j)

    def i(self, n, i=0, j=0):
        return self.E.inp(n + str(self.k), i, j)

    def dist(self, j, s):
        return self.i('dist', j, self.prev(s))

    def prev(self, s):
        return self.E.max(s - 1, 0)

    def w(self, n, i, s):
        """weight at stage s (given per stage 1..ph, the first one also for stage 0)"""
        return self.E.inp(n, i, s) if self.E.param('w') else 0

    def feed(self, row, s):
        """disturbance feed-through on an output at stage s"""
        if not self.E.param('dist'):
            return 0
        return self.E.sum(0, self.ndu, lambda e: self.i('Dd', row, e) * self.dist(e, s))


def ctl(E):
    return E.param('ctl')


def matrices(E):
    """the matrices are available: always from the builder, through the controller only where they were made dense"""
    return not ctl(E) or E.param('dense')


def shapes(E, q):
    if matrices(E):
        E.shape('P1', q.nv, q.nv)
        E.shape('Ac1', q.nc, q.nv)
    E.shape('q1', q.nv)
    E.shape('l1', q.nc)
    E.shape('u1', q.nc)


def post16(E):
    q = LQ(E)
    shapes(E, q)
    S, X, U = (0, q.ph + 1), (0, q.nx), (0, q.nu)
    na, ns = q.na, q.ns
    P = lambda a, b: q.o('P', a, b)
    same = lambda s, t, v: E.ite(E.eq(s, t), v, lambda: 0)
    if matrices(E):
        E.forall([S, X, S, X], lambda s, a, t, b: E.same('quadratic output cost', P(s * na + a, t * na + b),
                 same(s, t, lambda: E.sum(0, q.ny, lambda o: q.i('C', o, a) * q.w('wY', o, q.prev(s)) * q.i('C', o, b)))))
        E.forall([S, U, S, U], lambda s, a, t, b: E.same('quadratic input cost', P(s * na + q.nx + a, t * na + q.nx + b),
                 same(s, t, lambda: same(a, b, lambda: q.w('wU', a, q.prev(s))))))
        E.forall([S, X, S, U], lambda s, a, t, b: E.same('no cross cost', P(s * na + a, t * na + q.nx + b), 0))
        E.forall([S, X, S, U], lambda s, a, t, b: E.same('no cross cost', P(t * na + q.nx + b, s * na + a), 0))
    D = (0, q.ph)
    if matrices(E):
        E.forall([D, U, D, U], lambda s, a, t, b: E.same('quadratic increment cost', P(ns + s * q.nu + a, ns + t * q.nu + b),
                 same(s, t, lambda: same(a, b, lambda: q.w('wD', a, s)))))
        E.forall([(0, ns), (0, q.ph * q.nu)], lambda a, b: E.same('no cost between states and increments', P(a, ns + b), 0))
        E.forall([(0, ns), (0, q.ph * q.nu)], lambda a, b: E.same('no cost between states and increments', P(ns + b, a), 0))
    E.forall([S, X], lambda s, a: E.same('linear output cost', q.o('q', s * na + a),
             E.sum(0, q.ny, lambda o: q.i('C', o, a) * q.w('wY', o, q.prev(s)) * (q.feed(o, s) - q.i('yref', o, q.prev(s))))))
    E.forall([S, U], lambda s, a: E.same('linear input cost', q.o('q', s * na + q.nx + a), 0 - q.w('wU', a, q.prev(s)) * q.i('uref', a, q.prev(s))))
    E.forall([D, U], lambda s, a: E.same('linear increment cost', q.o('q', ns + s * q.nu + a), 0 - q.w('wD', a, s) * q.i('dref', a, s)))


def post17(E):
    q = LQ(E)
    shapes(E, q)
    S, X, U, D = (0, q.ph + 1), (0, q.nx), (0, q.nu), (0, q.ph)
    na, ns = q.na, q.ns
    A = lambda a, b: q.o('Ac', a, b)
    d = lambda c, v, w=lambda: 0: E.ite(c, v, w)
    nxt = lambda s, t: E.eq(s, t + 1)
    one = lambda: 1
    if matrices(E):
        E.forall([S, X, S, X], lambda s, a, t, b: E.same('x(k+1): state', A(s * na + a, t * na + b),
                 d(nxt(s, t), lambda: q.i('A', a, b), lambda: d(E.And(E.eq(s, t), E.eq(a, b)), lambda: -1))))
        E.forall([S, X, S, U], lambda s, a, t, b: E.same('x(k+1): previous input', A(s * na + a, t * na + q.nx + b), d(nxt(s, t), lambda: q.i('B', a, b))))
        E.forall([S, U, S, X], lambda s, a, t, b: E.same('u(k): no state', A(s * na + q.nx + a, t * na + b), 0))
        E.forall([S, U, S, U], lambda s, a, t, b: E.same('u(k): previous input', A(s * na + q.nx + a, t * na + q.nx + b),
                 d(E.eq(a, b), lambda: d(nxt(s, t), one, lambda: d(E.eq(s, t), lambda: -1)))))
        E.forall([S, X, D, U], lambda s, a, t, b: E.same('x(k+1): increment', A(s * na + a, ns + t * q.nu + b), d(nxt(s, t), lambda: q.i('B', a, b))))
        E.forall([S, U, D, U], lambda s, a, t, b: E.same('u(k): increment', A(s * na + q.nx + a, ns + t * q.nu + b), d(E.And(nxt(s, t), E.eq(a, b)), one)))
    for side in ('l', 'u'):
        E.forall([X], lambda a: E.same('measured state', q.o(side, a), 0 - q.i('x0_', a)))
        E.forall([U], lambda a: E.same('last input', q.o(side, q.nx + a), 0 - q.i('u0_', a)))
        E.forall([(1, q.ph + 1), X], lambda s, a: E.same('disturbance on the state', q.o(side, s * na + a),
                 0 - E.sum(0, q.ndu, lambda e: q.i('Bd', a, e) * q.dist(e, s)) if E.param('dist') else 0))
        E.forall([(1, q.ph + 1), U], lambda s, a: E.same('no disturbance on the input', q.o(side, s * na + q.nx + a), 0))
    if matrices(E):
        E.forall([D, U, (0, ns)], lambda s, a, c: E.same('increment rows: states', A(q.rd + s * q.nu + a, c), 0))
        E.forall([D, U, D, U], lambda s, a, t, b: E.same('increment rows: increments', A(q.rd + s * q.nu + a, ns + t * q.nu + b), d(E.And(E.eq(s, t), E.eq(a, b)), one)))
    E.forall([(0, q.ch), U], lambda s, a: E.same('increments are free on the control horizon (lower)', q.o('l', q.rd + s * q.nu + a), -E.inf))
    E.forall([(0, q.ch), U], lambda s, a: E.same('increments are free on the control horizon (upper)', q.o('u', q.rd + s * q.nu + a), E.inf))
    for side in ('l', 'u'):
        E.forall([(q.ch, q.ph), U], lambda s, a: E.same('increments are pinned after the control horizon', q.o(side, q.rd + s * q.nu + a), 0))


def post18(E):
    q = LQ(E)
    shapes(E, q)
    S, X, U, D, Y = (0, q.ph + 1), (0, q.nx), (0, q.nu), (0, q.ph), (0, q.ny)
    na, ns = q.na, q.ns
    A = lambda a, b: q.o('Ac', a, b)
    d = lambda c, v, w=lambda: 0: E.ite(c, v, w)
    b_ = E.param('b')
    if matrices(E):
        E.forall([(0, ns), (0, ns)], lambda a, b: E.same('bound rows are the states and inputs', A(ns + a, b), d(E.eq(a, b), lambda: 1)))
        E.forall([(0, ns), (0, q.ph * q.nu)], lambda a, b: E.same('bound rows do not involve increments', A(ns + a, ns + b), 0))
    for side, pre, inf in (('l', 'min', -E.inf), ('u', 'max', E.inf)):
        E.forall([S, X], lambda s, a: E.same('state limit ' + pre, q.o(side, ns + s * na + a), E.inp('x' + pre, a, q.prev(s)) if b_ else inf))
        E.forall([S, U], lambda s, a: E.same('input limit ' + pre, q.o(side, ns + s * na + q.nx + a),
                 E.inp('u' + pre, a, E.min(q.prev(s), q.ch - 1)) if b_ else inf))
        E.forall([S, Y], lambda s, a: E.same('output limit ' + pre, q.o(side, q.ro + s * q.ny + a), (E.inp('y' + pre, a, q.prev(s)) if b_ else inf) - q.feed(a, s)))
        E.forall([S], lambda s: E.same('scalar limit ' + pre, q.o(side, q.rs + s), (E.real('s' + pre) if ctl(E) else E.inp('s' + pre, q.prev(s))) if E.param('s') else inf))
    if matrices(E):
        E.forall([S, Y, S, X], lambda s, a, t, b: E.same('output rows: state', A(q.ro + s * q.ny + a, t * na + b), d(E.eq(s, t), lambda: q.i('C', a, b))))
        E.forall([S, Y, S, U], lambda s, a, t, b: E.same('output rows: input', A(q.ro + s * q.ny + a, t * na + q.nx + b), 0))
        E.forall([S, Y, (0, q.ph * q.nu)], lambda s, a, b: E.same('output rows: increments', A(q.ro + s * q.ny + a, ns + b), 0))
    sc = E.param('s')
    if matrices(E):
        E.forall([S, S, X], lambda s, t, b: E.same('scalar rows: state', A(q.rs + s, t * na + b), d(E.eq(s, t), lambda: E.inp('sX', b)) if sc else 0))
        E.forall([S, S, U], lambda s, t, b: E.same('scalar rows: input', A(q.rs + s, t * na + q.nx + b), d(E.eq(s, t), lambda: E.inp('sU', b)) if sc else 0))
        E.forall([S, (0, q.ph * q.nu)], lambda s, b: E.same('scalar rows: increments', A(q.rs + s, ns + b), 0))


LPB = [lp(2, 1, 1, 1, 3, 2), lp(1, 2, 2, 2, 2, 1)]
LPN = LPB + [lp(2, 2, 1, 3, 4, 2), lp(3, 1, 0, 2, 2, 2), lp(1, 1, 1, 1, 1, 1), lp(2, 3, 2, 1, 5, 3), lp(4, 2, 3, 3, 9, 4), lp(2, 3, 1, 4, 11, 11), lp(5, 1, 2, 1, 2, 1), lp(3, 3, 3, 3, 3, 3), lp(1, 4, 1, 5, 6, 5)]
ST = [lp(2, 2, 1, 1, 3, 2)]
C16 = [dict(w=1, dist=1), dict(w=1, dist=1, early=1), dict(w=1), dict(dist=1, b=1, s=1), dict(w=1, dist=1, first=1)]
C17 = [dict(), dict(dist=1), dict(dist=1, early=1, w=1, b=1, s=1), dict(dist=1, first=1)]
C18 = [dict(), dict(b=1, s=1, dist=1), dict(b=1, early=1, dist=1), dict(s=1, early=1), dict(b=1, s=1, dist=1, first=1)]


def through(cs):
    """the same configurations through the controller: (proved, bounded and native with dense matrices)"""
    u = [dict(c, ctl=1) for c in cs]
    return u, [dict(c, dense=1) for c in u] + [dict(u[-1], again=1, dense=1, first=1), dict(u[-1], again=1, first=1, early=1, dense=1)]


K16, H16 = through([dict(w=1, dist=1), dict(w=1, dist=1, early=1, b=1, s=1), dict(dist=1, w=1, first=1)])
K17, H17 = through([dict(dist=1), dict(dist=1, early=1, w=1, b=1, s=1), dict(dist=1, b=1, first=1)])
K18, H18 = through([dict(b=1, s=1, dist=1), dict(b=1, early=1, dist=1, w=1), dict(s=1, early=1), dict(b=1, s=1, dist=1, first=1)])
SCENARIOS = [
    Scenario('lp_pb', post16, C16, LPB, LPN, static=ST, native=3),
    Scenario('lp_pb', post17, C17, LPB, LPN, static=ST, native=3),
    Scenario('lp_pb', post18, C18, LPB, LPN, static=ST, native=4, overrides=infs),
    Scenario('lp_ctl', post16, K16, LPB[:1], LPN, static=ST, native=2, hcases=H16),
    Scenario('lp_ctl', post17, K17, LPB[:1], LPN, static=ST, native=2, hcases=H17),
    Scenario('lp_ctl', post18, K18, LPB[:1], LPN, static=ST, native=2, hcases=H18, overrides=infs),
]

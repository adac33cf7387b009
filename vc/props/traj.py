"""Trajectories described by a decision vector (C03, C04, C10): vocabulary shared by the nonlinear specifications."""
from .common import *


class Traj:
    """X, U, slack of decision vector output/input z (scaled), measured state x0"""

    def __init__(self, E, z='z', x0='x0', zf=None):
        self.E = E
        self.nx, self.nu, self.ny, self.ph, self.ch, self.ni, self.ne = [E.dim(n) for n in NLKEYS]
        self.zf = zf or (lambda i: E.inp(z, i))
        self.x0 = x0
        self.n = self.ph * self.nx + self.nu * self.ch + 1

    def sx(self, j):
        return self.E.inp('sx', j)

    def su(self, j):
        return self.E.inp('su', j)

    def X(self, i, j):
        E = self.E
        return E.ite(E.eq(i, 0), lambda: E.inp(self.x0, j), lambda: self.sx(j) * self.zf((i - 1) * self.nx + j))

    def stage(self, i):
        """stage whose input drives row i"""
        return self.E.min(i, self.ph - 1)

    def block(self, i):
        """decision move of row i"""
        return self.E.min(self.stage(i), self.ch - 1)

    def U(self, i, j):
        b = self.block(i)
        return self.su(j) * self.zf(self.ph * self.nx + b * self.nu + j)

    def slack(self):
        return self.zf(self.n - 1)

    def xrow(self, i):
        return (self.nx, 1, lambda r, c: self.X(i, r))

    def urow(self, i):
        return (self.nu, 1, lambda r, c: self.U(i, r))

    def Y(self, i, j, outfn):
        """output row i (uninterpreted output map h)"""
        if not outfn:
            return 0
        E = self.E
        return E.app('h', j, [E.mat(*self.xrow(i)), E.mat(*self.urow(i)), i])


def rows_of(E, t, pre, what):
    E.forall([(0, t.ph + 1), (0, t.nx)], lambda i, j: E.same('%s: state row i' % what, E.out(pre + 'X', i, j), t.X(i, j)))


def inputs_of(E, t, pre, what):
    E.forall([(0, t.ph + 1), (0, t.nu)], lambda i, j: E.same('%s: input row i is move min(i,ch-1)' % what, E.out(pre + 'U', i, j), t.U(i, j)))


WHO = (('o', 'objective'), ('i', 'inequality'), ('e', 'equality'))


def who(E):
    return WHO if E.param('cons') else WHO[:1]


def post03(E):
    t = Traj(E)
    for p, w in who(E):
        E.shape(p + 'U', t.ph + 1, t.nu)
        inputs_of(E, t, p, w)


def post04(E):
    t = Traj(E)
    for p, w in who(E):
        E.shape(p + 'X', t.ph + 1, t.nx)
        rows_of(E, t, p, w)
        inputs_of(E, t, p, w)
        if p != 'e':
            E.same('%s: slack is the last variable' % w, E.out(p + 'e'), t.slack())


def post10(E):
    t = Traj(E)
    for p, w in who(E):
        if p == 'e':
            continue
        E.shape(p + 'Y', t.ph + 1, t.ny)
        E.forall([(0, t.ph + 1), (0, t.ny)], lambda i, j: E.same('%s: output row i' % w, E.out(p + 'Y', i, j), t.Y(i, j, E.param('outfn'))))


class One(Traj):
    def sx(self, j):
        return 1

    def su(self, j):
        return 1


def post03m(E):
    k = ('z2', 'x2') if E.param('hist') else ('z1', 'x1')
    t = Traj(E, *k) if E.param('scaled') else One(E, *k)
    V, Z, N = (0, t.nu), (0, t.ch), (0, t.ph)
    E.shape('Iz2u', t.ph * t.nu, t.ch * t.nu)
    E.shape('Iu2z', t.ch * t.nu, t.ph * t.nu)
    zero = lambda c, f: E.ite(c, f, lambda: 0)
    E.forall([N, V, Z, V], lambda s, a, m, b: E.same('stage s is driven by move min(s,ch-1) only', E.out('Iz2u', s * t.nu + a, m * t.nu + b),
                                                    zero(E.And(E.eq(E.min(s, t.ch - 1), m), E.eq(a, b)), lambda: t.su(a))))
    E.forall([Z, V, N, V], lambda m, a, s, b: E.same('move m is returned from its own stage', E.out('Iu2z', m * t.nu + a, s * t.nu + b),
                                                    zero(E.And(E.eq(m, s), E.eq(a, b)), lambda: 1 / t.su(a))))
    E.forall([V, V], lambda a, b: E.same('input scaling matrix', E.out('Sz2u', a, b), zero(E.eq(a, b), lambda: t.su(a))))
    E.forall([V, V], lambda a, b: E.same('inverse input scaling matrix', E.out('Su2z', a, b), zero(E.eq(a, b), lambda: 1 / t.su(a))))
    E.forall([V], lambda a: E.same('input scaling', E.out('ssu', a), t.su(a)))
    E.shape('U', t.ph + 1, t.nu)
    inputs_of(E, t, '', 'unwrapped')


def post04m(E):
    k = ('z2', 'x2') if E.param('hist') else ('z1', 'x1')
    t = Traj(E, *k) if E.param('scaled') else One(E, *k)
    E.forall([(0, t.nx)], lambda a: E.same('state scaling', E.out('ssx', a), t.sx(a)))
    E.forall([(0, t.nx)], lambda a: E.same('inverse state scaling', E.out('isx', a), 1 / t.sx(a)))
    E.shape('X', t.ph + 1, t.nx)
    rows_of(E, t, '', 'unwrapped')
    inputs_of(E, t, '', 'unwrapped')
    E.same('slack is the last variable', E.out('e'), t.slack())


H = [dict(cons=1, hist=h) for h in (1, 2, 3, 5)]
HO = [dict(p, outfn=1) for p in H]
C2 = [dict(outfn=0, cons=1), dict(outfn=1, cons=1)]
SCENARIOS = [
    Scenario('nl_traj', post03, [dict(outfn=0, cons=1)], NLB, NLN, static=[nl(2, 2, 1, 3, 2, 1, 1)], native=4, hcases=H, ucases=H[2:]),
    Scenario('nl_traj', post04, [dict(outfn=0, cons=1)], NLB, NLN, static=[nl(2, 2, 1, 3, 2, 1, 1)], native=4, hcases=H, ucases=H[2:]),
    Scenario('nl_traj', post10, C2, NLB, NLN, static=[nl(2, 2, 1, 3, 2, 1, 1)], native=4, hcases=HO, ucases=HO[2:]),
    Scenario('nl_map', post03m, [dict(scaled=1), dict()], NLB, NLN, static=[nl(2, 2, 1, 3, 2, 1, 1)], native=4, hcases=[dict(scaled=1, hist=1)], ucases=[dict(scaled=1, hist=1)]),
    Scenario('nl_map', post04m, [dict(scaled=1), dict()], NLB, NLN, static=[nl(2, 2, 1, 3, 2, 1, 1)], native=4, hcases=[dict(scaled=1, hist=1)], ucases=[dict(scaled=1, hist=1)]),
]

"""Dynamics equality block: residuals (C05) and Jacobian (C06)."""
from .common import *
from .traj import Traj


def post05(E):
    t = Traj(E)
    cont = E.param('kind') == 1
    E.shape('r', t.ph * t.nx)

    def f(j, xr, ur, k):
        return E.app('f', j, [E.mat(*t.xrow(xr)), E.mat(*t.urow(ur)), k])

    def res(k, j):
        if cont:
            v = t.X(k, j) + E.preal('Ts') / 2 * (f(j, k, k, k) + f(j, k + 1, k, k)) - t.X(k + 1, j)
        else:
            v = t.X(k + 1, j) - f(j, k, k, k)
        return v / t.sx(j)
    E.forall([(0, t.ph), (0, t.nx)], lambda k, j: E.same('residual of state j at stage k', E.out('r', k * t.nx + j), res(k, j)))


def post06(E):
    t = Traj(E)
    cont = E.param('kind') == 1
    E.shape('g', t.ph * t.nx * t.n)

    def df(j, ai, a, xr, ur, k):
        return E.dq('f', j, [t.xrow(xr), t.urow(ur), ('k', k)], ai, a)

    def gx(k, j, i, a):
        """residual (k,j) by z_x(i,a); that variable is X(i+1,a)/sx(a)"""
        same = E.eq(a, j)
        one = lambda: E.ite(same, lambda: 1, lambda: 0)
        if cont:
            h = E.preal('Ts') / 2
            v = E.ite(E.eq(i + 1, k), lambda: one() + h * df(j, 0, a, k, k, k), lambda: 0) + \
                E.ite(E.eq(i, k), lambda: h * df(j, 0, a, k + 1, k, k) - one(), lambda: 0)
        else:
            v = E.ite(E.eq(i, k), one, lambda: 0) - E.ite(E.eq(i + 1, k), lambda: df(j, 0, a, k, k, k), lambda: 0)
        return v * t.sx(a) / t.sx(j)

    def gu(k, j, b, a):
        def v():
            if cont:
                return E.preal('Ts') / 2 * (df(j, 1, a, k, k, k) + df(j, 1, a, k + 1, k, k))
            return -df(j, 1, a, k, k, k)
        return E.ite(E.eq(t.block(k), b), v, lambda: 0) * t.su(a) / t.sx(j)
    rows = [(0, t.ph), (0, t.nx)]
    E.forall(rows + [(0, t.ph), (0, t.nx)], lambda k, j, i, a: E.close('residual (k,j) by state (i,a)', E.out('g', (k * t.nx + j) * t.n + i * t.nx + a), gx(k, j, i, a)))
    E.forall(rows + [(0, t.ch), (0, t.nu)], lambda k, j, b, a: E.close('residual (k,j) by move (b,a)', E.out('g', (k * t.nx + j) * t.n + t.ph * t.nx + b * t.nu + a), gu(k, j, b, a)))
    E.forall(rows, lambda k, j: E.close('residual (k,j) by slack', E.out('g', (k * t.nx + j) * t.n + t.n - 1), 0))


ST = [nl(2, 2, 1, 3, 2, 1, 1)]
SCENARIOS = [
    Scenario('nl_dyn', post05, [dict(kind=0), dict(kind=1)], NLB, NLN, static=ST, native=4,
             hcases=[dict(kind=k, hist=h) for k in (0, 1) for h in (1, 2, 3, 4, 5) if k or h != 4], ucases=[dict(kind=0, hist=h) for h in (3, 5)]),
    Scenario('nl_dyn', post06, [dict(kind=0, jac=1), dict(kind=1, jac=1)], NLB, NLN, static=ST, native=4,
             hcases=[dict(kind=k, hist=h, jac=1) for k in (0, 1) for h in (1, 2, 3, 4, 5) if k or h != 4]),
]

"""Results, failures (C11), initial guesses (C12), status translation of nlopt (C15)."""
from .common import *
from .traj import Traj

MSG = {1: 'Floating point precision limit reached before stopping criteria', 2: 'Internal solver error: nlopt forced stop',
       3: 'Internal solver error: nlopt invalid argument', 4: 'Internal solver error: std::bad_alloc'}


def steps(E):
    return (1, 2, 3) if E.param('three') else (1, 2)


def outcome(E, k):
    return E.param('outcome%d' % k)


def post11(E):
    o = E.param('outfn')
    prev = None
    for k in steps(E):
        t = Traj(E, 'zopt%d' % k, 'x%d' % k)
        n = lambda s: s + str(k)
        E.same('nothing escapes', E.out(n('escaped')), False if not E.sym else E.Not(E.eq(0, 0)))
        E.same('the solver ran', E.out(n('runs')), k)
        for l in ('', 'l'):
            E.shape(n(l + 'cmd'), t.nu)
            if outcome(E, k) == 0:
                E.forall([(0, t.nu)], lambda j: E.same('command is the input of stage 0', E.out(n(l + 'cmd'), j), t.U(0, j)))
                E.same('cost is the solver optimum', E.out(n(l + 'cost')), E.real(n('lastf')))
                E.same('raw status', E.out(n(l + 'code')), E.int(n('lastres')))
                E.check('status is that of the solver', E.ge(E.out(n(l + 'status')), 0))
                if not E.param('user'):
                    E.check('feasible without user constraints', E.out(n(l + 'feas')))
            else:
                E.forall([(0, t.nu)], lambda j: E.same('command of the previous step', E.out(n(l + 'cmd'), j), prev.U(0, j) if prev else 0))
                E.same('infinite cost', E.out(n(l + 'cost')), E.inf)
                E.same('error status', E.out(n(l + 'status')), 3)
                E.same('raw status -1', E.out(n(l + 'code')), -1)
                E.check('no feasibility claim', E.Not(E.out(n(l + 'feas'))))
                E.samestr('message names the failure', E.outs(n(l + 'msg')), MSG[outcome(E, k)])
        E.shape(n('sX'), t.ph + 1, t.nx)
        E.shape(n('sU'), t.ph + 1, t.nu)
        E.shape(n('sY'), t.ph + 1, t.ny)
        ok = outcome(E, k) == 0
        E.forall([(0, t.ph + 1), (0, t.nx)], lambda i, j: E.same('optimal state sequence', E.out(n('sX'), i, j), t.X(i, j) if ok else 0))
        E.forall([(0, t.ph + 1), (0, t.nu)], lambda i, j: E.same('optimal input sequence', E.out(n('sU'), i, j), t.U(i, j) if ok else 0))
        E.forall([(0, t.ph + 1), (0, t.ny)], lambda i, j: E.same('optimal output sequence', E.out(n('sY'), i, j), t.Y(i, j, o) if ok else 0))
        if ok:
            prev = t


def post12(E):
    last = None
    warm = E.param('warm')
    if E.param('toggle'):
        warm = not warm
    for k in steps(E):
        t = Traj(E, 'zopt%d' % k, 'x%d' % k)
        g = 'guess%d' % k
        nxs = t.ph * t.nx
        E.shape(g, t.n)
        if last is None or not warm:
            E.forall([(0, t.ph), (0, t.nx)], lambda i, j: E.same('guess holds the measured state', E.out(g, i * t.nx + j), E.inp('x%d' % k, j) / t.sx(j)))
            E.forall([(0, t.ch), (0, t.nu)], lambda i, j: E.same('guess holds the last input', E.out(g, nxs + i * t.nu + j), E.inp('u%d' % k, j) / t.su(j)))
            if last is None:
                E.same('slack guess', E.out(g, t.n - 1), 0)
        else:
            E.forall([(0, t.ph), (0, t.nx)], lambda i, j: E.same('guess is the previous optimum shifted (state)', E.out(g, i * t.nx + j), last.zf(E.min(i + 1, t.ph - 1) * t.nx + j)))
            E.forall([(0, t.ch), (0, t.nu)], lambda i, j: E.same('guess is the previous optimum shifted (input)', E.out(g, nxs + i * t.nu + j),
                                                                 last.zf(nxs + last.block(E.min(i + 1, t.ph - 1)) * t.nu + j)))
            E.same('slack of the previous optimum', E.out(g, t.n - 1), last.slack())
        if outcome(E, k) == 0:
            last = t


def post03(E):
    """the inverse input map: each decision move of a guess or result comes from its own stage"""
    last = None
    for k in steps(E):
        t = Traj(E, 'zopt%d' % k, 'x%d' % k)
        g, nxs = 'guess%d' % k, t.ph * t.nx
        if last is None or not E.param('warm'):
            E.forall([(0, t.ch), (0, t.nu)], lambda i, j: E.same('held input returned to move i', E.out(g, nxs + i * t.nu + j), E.inp('u%d' % k, j) / t.su(j)))
        else:
            E.forall([(0, t.ch), (0, t.nu)], lambda i, j: E.same('shifted input returned to move i', E.out(g, nxs + i * t.nu + j),
                                                                 last.zf(nxs + last.block(E.min(i + 1, t.ph - 1)) * t.nu + j)))
        E.forall([(0, t.ph + 1), (0, t.nu)], lambda i, j: E.same('result input of stage i is its move', E.out('sU%d' % k, i, j), t.U(i, j)))
        last = t


def post15(E):
    """1..4 success, 5 evaluation limit, 6 time limit, negative failures, anything else unknown"""
    for k in (1,):
        r = E.int('lastres1')
        E.same('result category', E.out('status1'), E.ite(E.And(E.le(-5, r), E.le(r, -1)), lambda: 3, lambda: E.ite(E.le(r, 0), lambda: 4, lambda: E.ite(E.le(r, 4), lambda: 0, lambda: E.ite(E.le(r, 6), lambda: 1, lambda: 4)))))
    E.same('failure category', E.out('status2'), 3)


def post23(E):
    poststats(E, steps(E))


P23 = [dict(stats=1), dict(stats=1, three=1, outcome2=1), dict(stats=1, statreset=1, three=1), dict(stats=1, statreset=1, outcome1=2), dict(stats=1, outcome1=1, outcome2=3, three=1)]
ST = [nl(2, 2, 1, 3, 2, 1, 1)]
P11 = [dict(), dict(outfn=1), dict(outcome1=1), dict(outcome2=2, outfn=1), dict(outcome1=3, outcome2=4), dict(three=1, outcome2=1, warm=1), dict(outcome1=4), dict(warm=1, outcome2=3, outfn=1), dict(three=1, outcome2=1, outcome3=3, outfn=1), dict(three=1, outcome1=4, outcome2=2)]
P12 = [dict(), dict(warm=1), dict(three=1, outcome2=1, warm=1), dict(three=1, warm=1), dict(warm=1, outcome1=2), dict(three=1, outcome2=3), dict(three=1, toggle=1), dict(three=1, warm=1, toggle=1)]
P12 += [dict(three=1, warm=1, outcome1=1, outcome2=2), dict(three=1, warm=1, outcome2=3, outcome3=1)]
HU = [dict(user=1, outfn=1), dict(user=1, outfn=1, evals=1, warm=1, three=1), dict(user=1, evals=1, outcome2=1, three=1, warm=1), dict(user=1, evals=1, outcome1=3, outfn=1, three=1)]
RES = lambda p, d: [dict(lastres1=a, lastres2=a % 6 + 1, lastres3=1) for a in ((1, 5) if d['nx'] == 2 else (6,))]
SCENARIOS = [
    Scenario('nl_run', post11, P11, NLB, NLN, RES, static=ST, native=3, hcases=HU, ucases=HU[:1]),
    Scenario('nl_run', post12, P12, NLB, NLN, RES, static=ST, native=3, hcases=HU),
    Scenario('nl_run', post15, [dict(outcome2=1, anycode=1)], NLB, NLN, lambda p, d: [dict(lastres1=a) for a in range(-7, 10)], native=1),
    Scenario('nl_run', post03, [dict(), dict(warm=1)], NLB, NLN, RES, static=ST, native=4, hcases=HU[:1] + [dict(three=1, warm=1)], ucases=[dict(three=1, warm=1)]),
    Scenario('nl_run', post23, P23, NLB[:1], NLN[:3], lambda p, d: [dict(lastres1=a, lastres2=b, lastres3=c) for a, b, c in ((1, 5, 6), (4, 4, 4), (-3, 2, -1), (7, 0, 3))], native=1),
]

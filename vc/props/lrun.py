"""Linear results and settings (C19), status translation of OSQP (C15), ownership of solver resources (C27)."""
from .common import *
from .lin import LQ, lp, LPB, LPN

SUCCESS, MAXIT, INFEAS, ERROR, UNKNOWN = range(5)
STATUS = {1: SUCCESS, 2: SUCCESS, -2: MAXIT, -3: INFEAS, -4: INFEAS, 3: INFEAS, 4: INFEAS, -5: ERROR, -7: ERROR}


def steps(E):
    return (1, 2, 3) if E.param('three') else (1, 2) if E.param('two') else (1,)


def failed(E, k):
    return E.param('setup%d' % k) or E.param('nosol%d' % k)


def isin(E, v, s):
    return E.Or(*[E.eq(v, x) for x in s])


def post19(E):
    q = LQ(E)
    prev = None
    stored = ('gx', 'gy') if E.param('given') else None
    na = q.na
    S, X, U, Y = (0, q.ph + 1), (0, q.nx), (0, q.nu), (0, q.ny)
    for k in steps(E):
        n = lambda s: s + str(k)
        mk = 2 if E.param('remodel') and k >= 2 else 1
        conf = 2 if E.param('toggle') and k >= 2 else 1
        given = conf == 2 or E.param('cfg') or E.param('params') or E.param('warm')
        warm = (not E.param('warm')) if conf == 2 else bool(E.param('warm'))
        E.check('nothing escapes', E.Not(E.out(n('escaped'))))
        sol = lambda i: E.inp(n('sol'), i)
        st = lambda: E.int(n('st'))
        bad = failed(E, k)
        E.same('solved exactly when set up', E.out(n('solves')), sum(1 for t in range(1, k + 1) if not E.param('setup%d' % t)))
        uk = lambda s, a: sol(E.min(s + 1, q.ph) * na + q.nx + a)
        for l in ('', 'l'):
            E.shape(n(l + 'cmd'), q.nu)
            if not bad:
                E.forall([U], lambda a: E.same('command is the input of stage 0', E.out(n(l + 'cmd'), a), uk(0, a)))
                E.same('cost is the solver objective', E.out(n(l + 'cost')), E.real(n('obj')))
                E.same('raw status', E.out(n(l + 'code')), st())
                E.same('feasible exactly when the solver has an admissible point', E.out(n(l + 'feas')), isin(E, st(), (1, 2, -2)))
            else:
                E.forall([U], lambda a: E.same('command of the previous step', E.out(n(l + 'cmd'), a), prev(a) if prev else 0))
                E.same('infinite cost', E.out(n(l + 'cost')), E.inf)
                E.same('raw status -1', E.out(n(l + 'code')), -1)
                E.same('error status', E.out(n(l + 'status')), ERROR)
                E.check('no feasibility claim', E.Not(E.out(n(l + 'feas'))))
        E.shape(n('sX'), q.ph + 1, q.nx)
        E.shape(n('sU'), q.ph + 1, q.nu)
        E.shape(n('sY'), q.ph + 1, q.ny)
        E.forall([S, X], lambda s, a: E.same('state sequence', E.out(n('sX'), s, a), 0 if bad else sol(s * na + a)))
        E.forall([S, U], lambda s, a: E.same('input sequence', E.out(n('sU'), s, a), 0 if bad else uk(s, a)))

        def y(s, o):
            r = E.sum(0, q.nx, lambda b: E.inp('C%d' % mk, o, b) * sol(s * na + b))
            if E.param('dist'):
                r = r + E.sum(0, q.ndu, lambda e: E.inp('Dd%d' % mk, o, e) * E.inp('dist%d' % mk, e, q.prev(s)))
            return r
        E.forall([S, Y], lambda s, o: E.same('output sequence', E.out(n('sY'), s, o), 0 if bad else y(s, o)))
        if given:
            E.same('warm start setting', E.out(n('setwarm')), 1 if warm else 0)
        if E.param('clear%d' % k) or (k == 1 and E.param('clear')):
            stored = None
        if not E.param('setup%d' % k) and given:
            use = warm and stored is not None
            E.same('a stored solution is used exactly when warm start is on', E.out(n('warmed')), 1 if use else 0)
            if use:
                E.shape(n('wx'), q.nv)
                E.shape(n('wy'), q.nc)
                E.forall([(0, q.nv)], lambda i: E.same('primal warm start', E.out(n('wx'), i), E.inp(stored[0], i)))
                E.forall([(0, q.nc)], lambda i: E.same('dual warm start', E.out(n('wy'), i), E.inp(stored[1], i)))
            else:
                E.same('no warm start', E.out(n('warmoff')), 1)
        if not bad:
            kk = k
            prev = (lambda kk: lambda a: E.inp('sol%d' % kk, E.min(1, q.ph) * na + q.nx + a))(k)
            stored = (n('sol'), n('dual'))
        if E.param('params') and k <= 2:
            c = str(conf)
            for a, b in (('alpha', 'alpha'), ('rho', 'rho'), ('eps_rel', 'eps_rel'), ('eps_abs', 'eps_abs'), ('eps_prim_inf', 'eps_prim_inf'),
                         ('eps_dual_inf', 'eps_dual_inf'), ('time_limit', 'time_limit')):
                E.same('setting ' + a, E.out(n(a)), E.real('p_' + b + c))
            E.same('setting max_iter', E.out(n('max_iter')), E.int('p_maxit' + c))
            for a, b in (('verbose', 'verbose'), ('adaptive_rho', 'adaptive'), ('polish', 'polish')):
                E.same('setting ' + a, E.out(n(a)), E.ite(E.bool('p_' + b + c), lambda: 1, lambda: 0))
    if E.param('two') and stored is not None:
        E.shape('keptx', q.nv)
        E.shape('kepty', q.nc)
        E.forall([(0, q.nv)], lambda i: E.same('stored primal solution', E.out('keptx', i), E.inp(stored[0], i)))
        E.forall([(0, q.nc)], lambda i: E.same('stored dual solution', E.out('kepty', i), E.inp(stored[1], i)))


def post15(E):
    for k in steps(E):
        if failed(E, k):
            E.same('a failed solve is an error', E.out('status%d' % k), ERROR)
            continue
        r = E.int('st%d' % k)
        for n in ('status', 'lstatus'):
            got = E.out('%s%d' % (n, k))
            for c in (SUCCESS, MAXIT, INFEAS, ERROR):
                E.same('result category %d' % c, E.eq(got, c), isin(E, r, [s for s, t in STATUS.items() if t == c]))
            E.same('anything else is unknown', E.eq(got, UNKNOWN), E.Not(isin(E, r, list(STATUS))))


def post27(E):
    for k in steps(E):
        E.check('nothing escapes', E.Not(E.out('escaped%d' % k)))
    E.same('workspaces released', E.out('leftWork'), 0)
    E.same('matrices released', E.out('leftCsc'), 0)
    E.same('settings and data released', E.out('leftRaw'), 0)


def post23(E):
    poststats(E, steps(E))


P23 = [dict(stats=1, two=1), dict(stats=1, two=1, three=1, setup2=1), dict(stats=1, statreset=1, two=1, three=1), dict(stats=1, statreset=1, two=1, setup1=2), dict(stats=1, two=1, nosol1=1)]
ST = [lp(2, 2, 1, 1, 3, 2)]
C19 = [dict(cfg=1), dict(cfg=1, dist=1, two=1), dict(warm=1, two=1, three=1), dict(params=1, warm=1, two=1, toggle=1), dict(params=1, two=1, toggle=1),
       dict(cfg=1, setup1=1), dict(warm=1, two=1, three=1, setup2=1), dict(warm=1, two=1, three=1, setup2=2), dict(warm=1, two=1, three=1, nosol2=1),
       dict(two=1, three=1, setup2=1, setup3=2), dict(two=1, three=1, nosol2=1, nosol3=1, warm=1),
       dict(warm=1, given=1), dict(warm=1, given=1, clear=1), dict(warm=1, two=1, clear2=1), dict(cfg=1, given=1, two=1), dict(cfg=1, dist=1, two=1, remodel=1), dict(params=1)]
C27 = [dict(), dict(two=1, three=1), dict(two=1, three=1, warm=1, setup2=1), dict(two=1, three=1, warm=1, setup2=2), dict(two=1, three=1, warm=1, setup3=2),
       dict(two=1, setup1=1, setup2=2), dict(setup1=2), dict(two=1, three=1, warm=1, nosol2=1), dict(two=1, three=1, remodel=1, dist=1, toggle=1)]
RES = lambda p, d: [dict(st1=a, st2=b, st3=1) for a, b in ((1, -3), (-2, 4), (2, -10))]
C15 = [dict(), dict(params=1), dict(warm=1, two=1, three=1), dict(two=1, three=1, setup2=1), dict(two=1, three=1, nosol1=1)]


def stats(p, d):
    """every OSQP status, and undocumented ones, at every solve"""
    if p.get('params'):
        return [dict(st1=a, p_verbose=b & 1, p_polish=b // 2) for a in range(-10, 7) for b in range(4)]
    return [dict(st1=a, st2=(7 * a + 70) % 17 - 10, st3=(5 * a + 50) % 17 - 10) for a in range(-10, 7)]


SCENARIOS = [
    Scenario('lp_run', post19, C19, LPB, LPN, RES, static=ST, native=2),
    Scenario('lp_run', post15, C15, LPB[:1], LPN, stats, native=1),
    Scenario('lp_run', post27, C27, LPB, LPN, RES, static=ST, native=2),
    Scenario('lp_run', post23, P23, LPB[:1], LPN[:3], lambda p, d: [dict(st1=a, st2=b, st3=c) for a, b, c in ((1, -3, 2), (-2, -2, -2), (-10, 4, 3), (-5, -7, -6))], native=1),
]

"""The utilities: discretisation (C21), integration (C22), profiling (C23), logging (C24), dimension arithmetic (C25)."""
from .common import *


# ------------------------------------------------------------------ C25
def post25(E):
    a, b, hi, lo = [E.int(n) for n in ('a', 'b', 'hi', 'lo')]

    def res(x, y, v):
        return E.ite(E.And(E.ge(x, 0), E.ge(y, 0)), lambda: v, lambda: -1)
    E.same('a size holds its value', E.out('val'), a)
    E.same('a copy holds the same value', E.out('copy'), a)
    for k in ('ss', 'si', 'is'):
        E.same('sum (%s)' % k, E.out(k + '+'), res(a, b, a + b))
        E.same('product (%s)' % k, E.out(k + '*'), res(a, b, a * b))
        E.same('difference (%s)' % k, E.out(k + '-'), res(hi, lo, hi - lo))
    E.same('chained', E.out('chain'), res(a, b, (a + b) * (a + 1)))
    for k, v in enumerate((a, b, hi, lo, 1, 2, 3, 4)):
        E.same('size record field %d' % k, E.out('m%d' % k), v)
    E.same('static rows in a type', E.out('trows'), 18)
    E.same('static columns in a type', E.out('tcols'), 2)
    E.same('dynamic operand at compile time (product)', E.out('tdyn'), -1)
    E.same('dynamic operand at compile time (sum)', E.out('tdyn2'), -1)


def ints25(p, d):
    v = (-1, 0, 1, 2, 7)
    big = (-1, 0, 3, 31, 32, 127, 256, 1000, 20000)
    return [dict(a=a, b=b, hi=max(a, b), lo=min(a, b)) for a in big for b in big] + [dict(a=a, b=b, hi=h, lo=l) for a in v for b in v for h, l in ((max(a, b), min(a, b)), (a, b), (3, 1)) if h == -1 or l == -1 or h >= l]


# ------------------------------------------------------------------ C22
def rk4(E, N, prev, t, h):
    """one classic Runge-Kutta step from prev at time t"""
    def f(tt, s):
        m = E.mat(N, 1, lambda i, j: s[int(E.const(i))])
        return [E.app('f', i, [tt, m]) for i in range(N)]
    k1 = f(t, prev)
    k2 = f(t + h / 2, [prev[i] + h / 2 * k1[i] for i in range(N)])
    k3 = f(t + h / 2, [prev[i] + h / 2 * k2[i] for i in range(N)])
    k4 = f(t + h, [prev[i] + h * k3[i] for i in range(N)])
    return [prev[i] + h * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6 for i in range(N)]


def post22(E):
    N = E.param('N')
    n = E.dim('n')
    t, h = E.real('t'), E.real('h')
    x0 = [E.inp('x', i) for i in range(N)]
    E.shape('one', N)
    E.shape('many', N)
    one = rk4(E, N, x0, t, h)
    for i in range(N):
        E.same('initial condition untouched', E.out('x0', i), x0[i])
        E.same('one step is the RK4 combination', E.out('one', i), one[i])
    if E.param('again'):
        t2, h2 = E.real('t2'), E.real('h2')
        x2 = [E.inp('x2', i) for i in range(N)]
        two = rk4(E, N, x2, t2, h2)
        for i in range(N):
            E.same('one step after other runs', E.out('two', i), two[i])
    E.recursion('n steps', ['many:%d' % i for i in range(N)], [E.out('many', i) for i in range(N)], n, x0,
                lambda k, prev: rk4(E, N, prev, t + k * h, h))


# ------------------------------------------------------------------ C21
def post21(E):
    kind = E.param('kind')
    nx, nu, ne = [E.dim(k) if E.param('gen') else E.param(k) for k in ('nx', 'nu', 'ne')]
    Ts = E.real('Ts')
    nd = ne if kind == 1 else 0
    n = nx + nu + nd

    def aug(i, j):
        return E.ite(E.le(nx, i), lambda: 0, lambda: E.ite(E.lt(j, nx), lambda: E.inp('A', i, j) * Ts, lambda: E.ite(
            E.lt(j, nx + nu), lambda: E.inp('B', i, j - nx) * Ts, lambda: E.inp('Be', i, j - nx - nu) * Ts if kind == 1 else 0)))
    ex = E.mexp(n, aug)
    blocks = [('Ad', nx, nx, 0), ('Bd', nx, nu, nx)]
    if kind == 1:
        blocks.append(('Bed', nx, nd, nx + nu))
    for nm, r, c, o in blocks:
        E.shape(nm, r, c)
        E.forall([(0, r), (0, c)], lambda i, j: E.same('%s is a block of the exponential of the augmented matrix' % nm, E.out(nm, i, j), ex(i, o + j), getattr(ex, 'tol', None)))
    if kind == 2:
        for nm, src, r, c in (('Cd', 'C', ne, nx), ('Dd', 'D', ne, nu)):
            E.shape(nm, r, c)
            E.forall([(0, r), (0, c)], lambda i, j: E.same('%s is copied' % nm, E.out(nm, i, j), E.inp(src, i, j)))


SZ21 = [(1, 1, 1), (1, 2, 3), (2, 1, 1), (2, 2, 1), (2, 1, 3), (3, 1, 2), (3, 2, 2), (3, 3, 1), (4, 2, 3), (5, 2, 1), (3, 1, 3), (2, 3, 2), (4, 4, 4)]
P21 = [dict(kind=k, nx=a, nu=b, ne=c) for k in range(3) for a, b, c in SZ21]


# ------------------------------------------------------------------ C23
def post23(E):
    for s in ('a', 'b') if E.param('reset') else ('a',):
        n = E.dim('n' + s)
        d = lambda k: E.inp('dur' + s, k)
        o = lambda x: E.out(x + s)
        E.forall([(0, n)], lambda i: E.same('the elapsed time is returned', E.out('ret' + s, i), d(i)))
        E.same('number of solutions', o('num'), n)
        tot = lambda k: E.usum(0, k, d)
        sq = lambda k: E.usum(0, k, lambda i: d(i) * d(i))
        E.same('total time', o('tot'), tot(n))
        st = lambda k: E.inp('st' + s, k)
        lim = [(-100, -1.25), (-1.25, -0.5), (-0.5, 0.5), (0.5, 1.25), (1.25, 100)]
        for c in range(5):
            a, b = E.frac(lim[c][0]), E.frac(lim[c][1])

            def one(i):
                cs = []
                if c > 0:
                    cs.append(E.ge(st(i), a))
                if c < 4:
                    cs.append(E.lt(st(i), b))
                return E.ite(E.And(*cs), lambda: 1, lambda: 0)
            E.same('solutions of status %d' % c, o('c%d' % c), E.sum(0, n, one))
        E.closed('mean', o('avg'), n, lambda k: E.ite(E.ge(k, 1), lambda: tot(k) / k, lambda: 0))
        var = lambda k: E.ite(E.ge(k, 1), lambda: (sq(k) - tot(k) * tot(k) / k) / k, lambda: 0)
        mean = lambda k: tot(k) / k
        E.root('standard deviation', o('std'), n, var, lambda k, s: [(k / (k + 1), s), (k / ((k + 1) * (k + 1)), d(k) - mean(k))], tol=1e-6)
        E.cases(E.ge(n, 1), lambda: (
            E.recursion('minimum', ['min' + s], [o('min')], n, None, lambda k, prev: [E.ite(E.eq(k, 0), lambda: d(k), lambda: E.min(prev[0], d(k)))]),
            E.recursion('maximum', ['max' + s], [o('max')], n, None, lambda k, prev: [E.ite(E.eq(k, 0), lambda: d(k), lambda: E.max(prev[0], d(k)))])),
            lambda: None)


D23 = [dict(na=a, nb=b) for a, b in ((0, 0), (1, 2), (3, 1), (2, 0))]
N23 = D23 + [dict(na=a, nb=b) for a, b in ((5, 7), (0, 4), (12, 9), (60, 3), (2, 150), (400, 120))]


# ------------------------------------------------------------------ C24
def post24(E):
    l1, l2, t1, t2 = [E.int(n) for n in ('l1', 'l2', 't1', 't2')]
    if not E.param('level'):
        l1 = 1
    head = '[MPC++ ctl] ' if E.param('prefix') else '[MPC++] '
    if E.param('reprefix'):
        head = '[MPC++ second] '
    out = {'a': '', 'b': ''}
    if E.truth(E.le(l1, t1)):
        out['a'] += head + 'one uno\n'
    dst = 'b' if E.param('retarget') else 'a'
    if E.param('relevel'):
        l1 = l2
    if E.param('reset'):
        l1, head = 1, '[MPC++] '
    if E.param('again'):
        l1, head = E.int('l1'), '[MPC++ third] '
    if E.truth(E.le(l1, t2)):
        out[dst] += head + 'two due\n'
    for k in 'ab':
        E.samestr('text written to stream %s' % k, E.outs(k), out[k])


def post24c(E):
    """the controllers log through the same logger, and configure it"""
    l1, l2, t1 = [E.int(n) for n in ('l1', 'l2', 't1')]
    E.check('errors are written exactly up to level ALERT', (E.out('refused') > 0) == (l1 <= 2))
    E.check('the default prefix is used', bool(E.out('refusedPrefix')) == (l1 <= 2))
    E.check('information is written exactly up to level NORMAL', (E.out('step') > 0) == (l1 <= 1))
    E.samestr('prefix given through the controller', E.outs('b1'), '[MPC++ ctl] probe 7\n' if l1 <= t1 else '')
    E.check('errors are written exactly up to level ALERT (level given through the controller)', (E.out('refused2') > 0) == (l2 <= 2))
    E.check('information is written exactly up to level NORMAL (level given through the controller)', (E.out('step2') > 0) == (l2 <= 1))
    E.samestr('message after the level changed', E.outs('b2'), '[MPC++ ctl] again 0.5\n' if l2 <= t1 else '')
    E.samestr('nothing more on the first stream', E.outs('a2'), '')


P24 = [dict(level=1), dict(prefix=1, level=1), dict(level=1, retarget=1), dict(level=1, relevel=1), dict(level=1, prefix=1, reset=1), dict(),
       dict(level=1, relevel=1, retarget=1, prefix=1),
       dict(prefix=1, reset=1), dict(level=1, prefix=1, reprefix=1), dict(level=1, prefix=1, reset=1, again=1), dict(reset=1, prefix=1, again=1)]


def ints24(p, d):
    return [dict(l1=a, l2=b, t1=c, t2=e) for a in range(4) for b in (range(4) if p.get('relevel') else (0,)) for c in range(3) for e in range(3)]


ND = [dict()]
CTL24 = [nl(2, 1, 1, 3, 2, 1, 1)]
SCENARIOS = [
    Scenario('ut_disc', post21, P21, ND, native=8, mode='B', overrides=lambda p, d, s: [{}, {}, {'grid': 2}, {'Ts': 1e-4}, {'Ts': 4.0, 'grid': 1}, {'mag': s, 'Ts': 1e-3}][s % 6]),
    Scenario('ut_rk4', post22, [dict(N=1), dict(N=2), dict(N=3), dict(N=2, again=1)], [dict(n=0), dict(n=1), dict(n=2)], [dict(n=k) for k in (0, 1, 2, 3, 7, 40)], native=6,
             overrides=lambda p, d, s: {'h': (0.04 + 0.03 * s) * (0.02 if d['n'] > 7 else 1) * (-1 if s % 3 == 2 else 1), 'h2': -0.1 if s % 2 else 0.15}),
    Scenario('ut_prof', post23, [dict(), dict(reset=1)], D23, N23, native=6),
    Scenario('ut_log', post24, P24, ND, None, ints24, native=1),
    Scenario('ut_dim', post25, [dict()], ND, None, ints25, native=1),
    Scenario('nl_log', post24c, [dict()], CTL24, None, lambda p, d: [dict(l1=a, l2=b, t1=t) for a in range(4) for b in range(4) for t in range(3)], native=1, mode='N'),
]
SCENARIOS[3].logger = True
# all sizes: the templates instantiated at distinguished sizes standing for nx, nu, ne (two orders of magnitude)
for _g in ((62, 93, 279), (279, 93, 62)):
    _s = Scenario('ut_discg', post21, [dict(kind=k, gen=1) for k in range(3)], [], native=0, mode='U',
                  defs=['-DV_GENERIC', '-DEIGEN_STACK_ALLOCATION_LIMIT=0'] + ['-DV_%s=%d' % x for x in zip(('NX', 'NU', 'NE'), _g)])
    _s.generic = dict(zip(('nx', 'nu', 'ne'), _g))
    SCENARIOS.append(_s)


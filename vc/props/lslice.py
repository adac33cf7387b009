"""Stage data of the linear controller by slices (C02); sparse form of the program (C20)."""
from .common import *
from .lin import LQ, lp, LPB, LPN

W, REF, EXO, XB, UB, YB, SC, CON, SC1 = range(9)


class Eff(LQ):
    """effective stage data after the slice call"""

    def __init__(self, E):
        LQ.__init__(self, E)
        self.what = E.param('what')
        self.base = E.param('base')
        if self.what in (CON, SC1):
            self.s = E.int('start')
            self.all = E.lt(1, 0)
            self.ok = E.lt(self.s, self.ph)
            self.e = self.s + 1
        elif E.param('all'):
            self.all = self.ok = E.lt(0, 1)
            self.s = self.e = 0
        elif self.what >= 0:
            self.s, self.e = E.int('start'), E.int('end')
            H = self.ch if self.what == UB else self.ph
            self.all = E.And(E.eq(self.s, -1), E.eq(self.e, -1))
            self.ok = E.Or(self.all, E.And(E.ge(self.s, 0), E.lt(self.s, self.e), E.le(self.e, H)))

    def inside(self, t):
        E = self.E
        return E.And(self.ok, E.Or(self.all, E.And(E.le(self.s, t), E.lt(t, self.e))))

    def v(self, hit, name, new, a, t, default):
        """stage data at position t"""
        E = self.E
        old = lambda: E.inp(name, a, t) if self.base else default
        if not hit:
            return old()
        return E.ite(self.inside(t), lambda: E.inp(new, a), old)


def post02(E):
    q = Eff(E)
    wh = q.what
    E.same('slice accepted exactly when valid', E.out('ret'), q.ok)
    E.same('rows of the program', E.out('m'), q.nc)
    E.same('variables of the program', E.out('n'), q.nv)
    E.shape('q1', q.nv)
    E.shape('l1', q.nc)
    E.shape('u1', q.nc)
    S, X, U, D, Y = (0, q.ph + 1), (0, q.nx), (0, q.nu), (0, q.ph), (0, q.ny)
    na, ns = q.na, q.ns
    pv = q.prev
    w = lambda n, a, t: q.v(wh == W, n, 'n' + n, a, t, 0)
    ref = lambda n, a, t: q.v(wh == REF, n + '1', 'n' + n, a, t, 0)
    dist = lambda e, t: q.v(wh == EXO, 'dist1', 'ndist', e, t, 0)
    feed = lambda o, t: E.sum(0, q.ndu, lambda e: q.i('Dd', o, e) * dist(e, t))
    lq = wh in (W, REF, EXO)
    if lq:
        E.forall([S, X], lambda s, a: E.same('linear output cost', q.o('q', s * na + a),
                 E.sum(0, q.ny, lambda o: q.i('C', o, a) * w('wY', o, pv(s)) * (feed(o, pv(s)) - ref('yref', o, pv(s))))))
        E.forall([S, U], lambda s, a: E.same('linear input cost', q.o('q', s * na + q.nx + a), 0 - w('wU', a, pv(s)) * ref('uref', a, pv(s))))
        E.forall([D, U], lambda s, a: E.same('linear increment cost', q.o('q', ns + s * q.nu + a), 0 - w('wD', a, s) * ref('dref', a, s)))
    for side, pre, inf in (('l', 'min', -E.inf), ('u', 'max', E.inf)):
        if wh in (EXO, XB):
            E.forall([(1, q.ph + 1), X], lambda s, a: E.same('disturbance on the state', q.o(side, s * na + a),
                     0 - E.sum(0, q.ndu, lambda e: q.i('Bd', a, e) * dist(e, pv(s)))))
        E.forall([S, X], lambda s, a: E.same('state limit ' + pre, q.o(side, ns + s * na + a), q.v(wh in (XB, CON), 'x' + pre, 'nx' + pre, a, pv(s), inf)))
        if wh in (UB, CON):
            # beyond the control horizon the input cannot move: its limits there are not constrained by this property
            E.forall([(0, q.ch + 1), U], lambda s, a: E.same('input limit ' + pre, q.o(side, ns + s * na + q.nx + a),
                     q.v(True, 'u' + pre, 'nu' + pre, a, E.min(pv(s), q.ch - 1), inf)))
        else:
            E.forall([S, U], lambda s, a: E.same('input limit ' + pre, q.o(side, ns + s * na + q.nx + a), E.inp('u' + pre, a, E.min(pv(s), q.ch - 1)) if q.base else inf))
        E.forall([S, Y], lambda s, a: E.same('output limit ' + pre, q.o(side, q.ro + s * q.ny + a),
                 q.v(wh in (YB, CON), 'y' + pre, 'ny' + pre, a, pv(s), inf) - feed(a, pv(s))))
        sb = E.real('s' + pre) if q.base else inf
        E.forall([S], lambda s: E.same('scalar limit ' + pre, q.o(side, q.rs + s),
                 E.ite(q.inside(pv(s)), lambda: E.real('ns' + pre), lambda: sb) if wh in (SC, SC1) else sb))


def cint(E, n, i):
    v = E.out(n, i)
    if E.sym:
        import terms as TT
        v = TT.const(v)
    return None if v is None else int(v)


def post20(E):
    """concrete sizes only: the arrays are walked entry by entry"""
    q = LQ(E)
    sd = (lambda x: int(__import__('terms').const(x))) if E.sym else (lambda x: x)
    nx, nu, ny, ndu, ph, ch = [sd(getattr(q, n)) for n in ('nx', 'nu', 'ny', 'ndu', 'ph', 'ch')]
    na, ns, nv = nx + nu, (ph + 1) * (nx + nu), sd(q.nv)
    nc = sd(q.nc)
    base = E.param('base')
    pv = lambda s: max(s - 1, 0)

    def P(r, c):
        if r < ns and c < ns:
            s, a, t, b = r // na, r % na, c // na, c % na
            if s != t:
                return 0
            if a < nx and b < nx:
                return E.sum(0, ny, lambda o: q.i('C', o, a) * E.inp('wY', o, pv(s)) * q.i('C', o, b)) if base else 0
            return E.inp('wU', a - nx, pv(s)) if a == b and base else 0
        if r == c and base:
            return E.inp('wD', (r - ns) % nu, (r - ns) // nu)
        return 0

    def A(r, c):
        if r < ns:
            s, a = r // na, r % na
            if c >= ns:
                t, b = (c - ns) // nu, (c - ns) % nu
                if s != t + 1:
                    return 0
                return q.i('B', a, b) if a < nx else (1 if a - nx == b else 0)
            t, b = c // na, c % na
            v = -1 if r == c else 0
            if s == t + 1:
                if a < nx:
                    v = q.i('A', a, b) if b < nx else q.i('B', a, b - nx)
                else:
                    v = 1 if a == b else 0
            return v
        r -= ns
        if r < ns:
            return 1 if r == c else 0
        r -= ns
        if r < (ph + 1) * ny:
            s, a = r // ny, r % ny
            return q.i('C', a, c % na) if c < ns and c // na == s and c % na < nx else 0
        r -= (ph + 1) * ny
        if r < ph * nu:
            return 1 if c == ns + r else 0
        r -= ph * nu
        if c < ns and c // na == r and base:
            return E.inp('sX', c % na) if c % na < nx else E.inp('sU', c % na - nx)
        return 0

    for m, R, C, spec, up in (('P', nv, nv, P, True), ('A', nc, nv, A, False)):
        E.same('rows of ' + m, E.out(m + 'm'), R)
        E.same('columns of ' + m, E.out(m + 'n'), C)
        E.shape(m + 'p', C + 1)
        p = [cint(E, m + 'p', j) for j in range(C + 1)]
        if not E.sym:
            good = True
        good = None not in p and p[0] == 0 and all(p[j] <= p[j + 1] for j in range(C))
        E.check('column starts of %s are non-decreasing from 0' % m, good)
        if not good:
            continue
        nz = p[C]
        E.same('entries of ' + m, E.out(m + 'nz'), nz)
        E.shape(m + 'i', nz)
        E.shape(m + 'x', nz)
        ri = [cint(E, m + 'i', k) for k in range(nz)]
        good = None not in ri and all(0 <= r < R for r in ri) and all(ri[k] < ri[k + 1] for j in range(C) for k in range(p[j], p[j + 1] - 1))
        E.check('rows of %s are strictly increasing within each column' % m, good)
        if not good:
            continue
        where = {(ri[k], j): k for j in range(C) for k in range(p[j], p[j + 1])}
        if up:
            E.check('only the upper triangle of the Hessian is given', all(r <= c for r, c in where))
        for j in range(C):
            for r in range(R):
                if up and r > j:
                    continue
                want = spec(r, j)
                k = where.get((r, j))
                E.exact('entry of ' + m, E.out(m + 'x', k) if k is not None else 0, want, 1e-7 if up and base else 1e-12)


def ints(p, d):
    if p.get('all'):
        return [{}]
    H = d['ch'] if p['what'] == UB else d['ph']
    if p['what'] in (CON, SC1):
        return [dict(start=s, end=0) for s in range(0, H + 3)]
    return slices(H) if p.get('base') or H > 5 else [dict(start=s, end=e) for s in range(-2, H + 2) for e in range(-1, H + 2)]


def bints(p, d):
    """every valid slice, and one of each kind of invalid ones"""
    l = ints(p, d)
    if p.get('all') or p['what'] in (CON, SC1):
        return l
    H = d['ch'] if p['what'] == UB else d['ph']
    bad = ((-1, -1), (0, 0), (1, 0), (0, H + 1), (-1, 1), (-2, H), (1, -1), (H, H + 1), (-1, H))
    l = [x for x in l if 0 <= x['start'] < x['end'] <= H] + [dict(start=a, end=b) for a, b in bad]
    return l[::4] if p.get('hist') else l


C02 = [dict(what=w, base=1) for w in range(9)] + [dict(what=w) for w in (XB, UB, YB, SC, CON, SC1)] + [dict(what=w, base=1, all=1) for w in range(7)]
ST = [lp(2, 2, 1, 1, 3, 2)]
grid = lambda p, d, s: [{}, dict(grid=2), dict(mag=s)][s % 3]
SCENARIOS = [
    Scenario('lp_qp', post02, C02, LPB, LPN[:8], ints, static=ST, native=2, overrides=infs, bints=bints, hcases=[dict(what=w, base=1, hist=h) for w in range(9) for h in (1, 2, 4)]),
    Scenario('lp_qp', post20, [dict(what=-1, sparse=1, all=1), dict(what=-1, sparse=1, base=1, all=1)], LPB, LPN, static=ST, native=12, overrides=grid, mode='B'),
]

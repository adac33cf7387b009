"""Specification environments: one postcondition text, evaluated symbolically (proof) or on concrete logs."""
import os
import math
import terms as TT


class Missing(Exception):
    pass


class Sym:
    """symbolic: outputs are terms of the verified code, checks are proof obligations"""
    sym = True

    def __init__(self, I, params):
        self.I = I
        self.params = params
        self.results = []      # (ok, label, detail, ctx, goal)
        self.approx = set()    # results decided up to the error of finite differences
        self.idx = []
        self.dcache = {}
        self.CLOSED = {}

    # -------------------------------------------------- inputs / outputs
    def param(self, n):
        return self.params.get(n, 0)

    def part(self, n):
        """this part of the postcondition is checked in this job"""
        return self.params.get('part', n) == n

    def dim(self, n):
        d = self.I.cfg.get('dims')
        if d is not None:
            return TT.num(d[n])
        return TT.ivar(n, True)

    def int(self, n):
        d = self.I.cfg.get('ints')
        if d is not None and n in d:
            return TT.num(d[n])
        return TT.ivar(n)

    def bool(self, n):
        d = self.I.cfg.get('ints')
        if d is not None and n in d:
            return TT.TRUE if d[n] else TT.FALSE
        return TT.bvar(n)

    def inp(self, n, i=0, j=0):
        return TT.read(n, i, j)

    def real(self, n):
        return TT.rvar(n)

    def preal(self, n):
        return TT.rvar(n, True)

    def raw(self, n):
        if n not in self.I.outs:
            raise Missing(n)
        return self.I.outs[n]

    def has(self, n):
        return n in self.I.outs

    def out(self, n, i=0, j=0):
        import values as VV
        v = self.raw(n)
        if isinstance(v, VV.Mat):
            return VV.expand(v.get(TT.num(i), TT.num(j)))
        if v is None:
            raise Missing(n)
        return VV.expand(v)

    def outs(self, n):
        return self.raw(n)

    def shape(self, n, r, c=1):
        import values as VV
        v = self.raw(n)
        if not isinstance(v, VV.Mat):
            self.check('size of ' + n, TT.FALSE)
            return False
        return self.check('size of ' + n, TT.and_(TT.eq(v.r, TT.num(r)), TT.eq(v.c, TT.num(c))))

    # -------------------------------------------------- logic
    def num(self, x):
        return TT.num(x)

    def lt(self, a, b):
        return TT.lt(TT.num(a), TT.num(b))

    def le(self, a, b):
        return TT.le(TT.num(a), TT.num(b))

    def ge(self, a, b):
        return TT.ge(TT.num(a), TT.num(b))

    def gt(self, a, b):
        return TT.gt(TT.num(a), TT.num(b))

    def eq(self, a, b):
        return TT.eq(TT.num(a), TT.num(b))

    def And(self, *a):
        return TT.and_(*[TT.boolt(x) for x in a])

    def Or(self, *a):
        return TT.or_(*[TT.boolt(x) for x in a])

    def Not(self, a):
        return TT.not_(TT.boolt(a))

    def ite(self, c, a, b):
        import values as VV
        return VV.mk_ite(TT.boolt(c), lambda: TT.num(a()), lambda: TT.num(b()))

    def min(self, a, b):
        a, b = TT.num(a), TT.num(b)
        return self.ite(TT.le(a, b), lambda: a, lambda: b)

    def max(self, a, b):
        a, b = TT.num(a), TT.num(b)
        return self.ite(TT.ge(a, b), lambda: a, lambda: b)

    def sqrt(self, a):
        return TT.sqrtn(a)

    def abs(self, a):
        return TT.absn(a)

    def sum(self, lo, hi, f):
        import norm
        from smt import assume
        lo, hi = TT.num(lo), TT.num(hi)
        n = TT.const(TT.sub(hi, lo))
        if n is not None:
            r = TT.ZERO
            for t in range(int(n)):
                r = TT.add(r, TT.num(f(TT.add(lo, TT.num(t)))))
            return r
        k = TT.fresh('es')
        with assume(TT.ge(k, lo), TT.lt(k, hi)):
            b = TT.num(f(k))
        return norm.smart_sum(lo, hi, k, b)

    def all(self, r, c, f):
        import norm
        rr, cc = TT.const(TT.num(r)), TT.const(TT.num(c))
        if rr is not None and cc is not None:
            return TT.and_(*[TT.boolt(f(TT.num(i), TT.num(j))) for j in range(cc) for i in range(rr)])
        return norm.mk_forall2(TT.num(r), TT.num(c), f)

    def mat(self, r, c, f):
        import values as VV
        import intrinsics
        return intrinsics.reify(VV.Mat(r, c, lambda i, j: f(i, j)))

    def app(self, n, comp, args):
        return TT.app(n, comp, [a if isinstance(a, TT.T) else TT.num(a) for a in args])

    def fun(self, n, *args):
        return TT.fun(n, *args)

    def _qa(self, args):
        import values as VV
        ks, out = [], []
        for a in args:
            if isinstance(a, tuple) and a[0] == 'k':
                ks.append(TT.num(a[1]))
                out.append(None)
            elif isinstance(a, tuple):
                out.append(VV.Mat(a[0], a[1], a[2]))
            else:
                out.append(TT.num(a))
        return tuple(ks), out

    def q(self, n, comp, args):
        """value of a known quadratic user function; args: (rows, cols, f) | ('k', integer) | number"""
        import intrinsics
        ks, a = self._qa(args)
        return intrinsics.quad(n, TT.num(comp), ks, a)

    def dq(self, n, comp, args, ai, i=0, j=0):
        """its partial derivative by entry (i,j) of argument ai"""
        import intrinsics
        ks, a = self._qa(args)
        v = a[ai]
        x = v if isinstance(v, TT.T) else TT.num(v.get(TT.num(i), TT.num(j)))
        r = intrinsics.qcoef('L', n, ai, comp, i, j, ks)
        if intrinsics.QDEG[0] > 1:
            r = TT.add(r, TT.mul(TT.scale(x, 2), intrinsics.qcoef('Q', n, ai, comp, i, j, ks)))
        return r

    def exact(self, label, a, b, tol=None):
        return self.same(label, a, b)

    def qmag(self, n, comp, args):
        return 0

    def close(self, label, a, b, mag=0):
        """equal up to the error of finite differences"""
        import norm
        norm.TINY[0] = True
        self.approx.add(len(self.results))
        try:
            return self.same(label, a, b)
        finally:
            norm.TINY[0] = False

    def const(self, x):
        return TT.const(TT.num(x))

    def frac(self, x):
        from fractions import Fraction
        return TT.num(Fraction(repr(x)))

    def truth(self, c):
        """a condition the path has decided"""
        import smt
        c = TT.boolt(c)
        d = smt.decide(c)
        if d is None:
            self.check('path decides ' + TT.show(c), TT.FALSE)
            return False
        return d

    def mexp(self, n, f):
        import eigen
        import values as VV
        cc = lambda x: x if TT.const(x) is None else int(TT.const(x))
        m = eigen.mat_exp(self.I, VV.Mat(n, n, lambda i, j: TT.num(f(cc(i), cc(j)))))
        return lambda i, j: m.get(TT.num(i), TT.num(j))

    def seqof(self, v, n):
        """the recorded recurrence behind a value after n iterations: (record, key, i, j)"""
        import loops
        v = TT.num(v)
        if len(v.args) != 1 or len(v.args[0][0]) != 1 or v.args[0][1] != 1 or v.args[0][0][0][1] != 1:
            return None
        a = v.args[0][0][0][0]
        if a.op != 'fun' or a.args[0] not in loops.SEQ:
            return None
        import norm
        if not norm.eqv(a.args[1], TT.num(n)):
            return None
        R, key = loops.SEQ[a.args[0]]
        return a.args[0], R, key, a.args[2], a.args[3]

    def recursion(self, label, names, outs, n, init, step):
        """outs is the n-th element of the sequence with the given start and step law (start None: whatever it is)"""
        import loops
        import smt
        from smt import assume
        c = TT.const(TT.num(n))
        if c is not None:
            if init is None and c == 0:
                return
            prev = list(init) if init is not None else [TT.ZERO] * len(outs)
            for k in range(int(c)):
                prev = step(TT.num(k), prev)
            for o, p in zip(outs, prev):
                self.same(label, o, p)
            return
        n = TT.num(n)
        k = TT.fresh('sk', True)
        with assume(TT.ge(n, 1)):
            if smt.ctx_inconsistent():
                return
            sq = [self.seqof(o, n) for o in outs]
            if any(x is None for x in sq):
                self.results.append((False, label + ': sequence recognised', TT.show(TT.num(outs[0]))[:500], smt.S.ctx, TT.FALSE))
                return
        if init is not None:
            with assume(TT.eq(n, 0)):
                if not smt.ctx_inconsistent():
                    for o, v in zip(outs, init):
                        self.same(label + ': nothing done', o if self.seqof(o, n) is None else loops.seq_at(self.I, self.seqof(o, n), TT.ZERO), v)
            for x, v in zip(sq, init):
                self.same(label + ': start', loops.seq_at(self.I, x, TT.ZERO), v)
        with assume(TT.ge(k, 0), TT.lt(k, n)):
            prev = [loops.seq_var(x, k) for x in sq]
            want = None
            for t, x in enumerate(sq):
                def chk(t=t, x=x):
                    w = step(k, prev)
                    self.same(label + ': step law', loops.seq_step(self.I, x, k), w[t])
                if init is None:
                    with assume(TT.eq(k, 0)):
                        self.same(label + ': first step', loops.seq_step(self.I, x, TT.ZERO), step(TT.ZERO, [TT.ZERO] * len(sq))[t])
                    with assume(TT.ge(k, 1)):
                        chk()
                else:
                    chk()

    def closed(self, label, out, n, f, tol=None):
        """out == f(n), by induction over the recorded recurrence"""
        import loops
        import smt
        from smt import assume
        c = TT.const(TT.num(n))
        if c is not None:
            self.same(label, out, f(TT.num(n)))
            return
        n = TT.num(n)
        with assume(TT.ge(n, 1)):
            x = self.seqof(out, n)
        if x is None:
            self.same(label, out, f(n))
            return
        with assume(TT.eq(n, 0)):
            if not smt.ctx_inconsistent():
                y = self.seqof(out, n)
                self.same(label + ': nothing done', out if y is None else loops.seq_at(self.I, y, TT.ZERO), f(TT.ZERO))
        self.CLOSED[x[0]] = f
        self.same(label + ': start', loops.seq_at(self.I, x, TT.ZERO), f(TT.ZERO))
        k = TT.fresh('sk', True)
        for fs in ([TT.eq(k, 0)], [TT.ge(k, 1)]):
            with assume(TT.ge(k, 0), TT.lt(k, n), *fs):
                if smt.ctx_inconsistent():
                    continue
                kk = TT.ZERO if fs[0].op == 'eq' else k
                v = loops.seq_step(self.I, x, kk)
                # induction hypothesis (and what was proved before about other sequences)
                v = self.hyp(v)
                self.same(label + ': step', v, f(TT.add(kk, TT.ONE)))

    def root(self, label, out, n, V, sos, tol=None):
        """out is the non-negative root of V(n); sos(k, s) writes V(k+1) as a sum of c*b^2 with c >= 0, given the root s of V(k)"""
        import loops
        import smt
        from smt import assume
        n = TT.num(n)
        if TT.const(n) is not None:
            self.same(label, out, TT.sqrtn(V(n)))
            return
        with assume(TT.ge(n, 1)):
            x = self.seqof(out, n)
        if x is None:
            self.same(label, out, TT.sqrtn(V(n)))
            return
        with assume(TT.eq(n, 0)):
            y = self.seqof(out, n)
            if not smt.ctx_inconsistent():
                self.same(label + ': nothing done', out if y is None else loops.seq_at(self.I, y, TT.ZERO), 0)
        self.same(label + ': start', loops.seq_at(self.I, x, TT.ZERO), 0)
        self.same(label + ': start', V(TT.ZERO), 0)
        k = TT.fresh('sk', True)
        for fs in ([TT.eq(k, 0)], [TT.ge(k, 1)]):
            with assume(TT.ge(k, 0), TT.lt(k, n), *fs):
                if smt.ctx_inconsistent():
                    continue
                kk = TT.ZERO if fs[0].op == 'eq' else k
                v = smt.simp(self.hyp(loops.seq_step(self.I, x, kk)))
                a = TT.atom(v)
                c = TT.const(v)
                if c is not None and c >= 0:
                    self.same(label + ': step', TT.mul(v, v), V(TT.add(kk, TT.ONE)))
                    continue
                if a is None or a.op != 'sqrt':
                    self.check(label + ': step is a square root', TT.FALSE)
                    continue
                s = loops.seq_var(x, kk)
                t = TT.ZERO
                for co, b in sos(kk, s):
                    self.check(label + ': weights', TT.ge(TT.num(co), 0))
                    t = TT.add(t, TT.mul(TT.num(co), TT.mul(TT.num(b), TT.num(b))))
                self.same(label + ': the root exists', a.args[0], t)
                self.same(label + ': step', square_out(a.args[0], TT.atom(s), V(kk)), V(TT.add(kk, TT.ONE)))

    def usum(self, lo, hi, f):
        """sum whose constant overhang is unfolded: sum to k+1 is sum to k plus the last term"""
        import smt
        hi = TT.num(hi)
        c = 0
        for m, co in hi.args:
            if m == ():
                c = co
        if c > 0 and TT.const(hi) is None and smt.prove(TT.ge(TT.sub(hi, TT.num(c)), TT.num(lo))):
            h = TT.sub(hi, TT.num(c))
            r = self.sum(lo, h, f)
            for t in range(int(c)):
                r = TT.add(r, TT.num(f(TT.add(h, TT.num(t)))))
            return r
        return self.sum(lo, hi, f)

    def hyp(self, v):
        import loops
        names = frozenset(self.CLOSED)

        def g(a):
            if a.op == 'fun' and a.args[0] in self.CLOSED:
                return TT.num(self.CLOSED[a.args[0]](a.args[1]))
            return None
        return loops.transform(v, g, names)

    inf = property(lambda self: TT.INF)

    # -------------------------------------------------- checks
    def forall(self, ranges, f):
        """ranges: [(lo, hi)]; f(i...)"""
        from smt import assume
        import smt

        def go(k, vs):
            if k == len(ranges):
                self.idx.append(vs)
                f(*vs)
                self.idx.pop()
                return
            lo, hi = ranges[k]
            lo = TT.num(lo(*vs) if callable(lo) else lo)
            hi = TT.num(hi(*vs) if callable(hi) else hi)
            n = TT.const(TT.sub(hi, lo))
            if n is not None and (n <= 0 or TT.const(lo) is not None):
                for t in range(int(n)):
                    go(k + 1, vs + [TT.add(lo, TT.num(t))])
                return
            v = TT.fresh('sk', bool(TT.const(lo) is not None and TT.const(lo) >= 0))
            with assume(TT.ge(v, lo), TT.lt(v, hi)):
                if smt.ctx_inconsistent():
                    return
                go(k + 1, vs + [v])
        go(0, [])

    def cases(self, c, fa, fb):
        """case distinction over a condition around checks"""
        import smt
        from smt import assume
        c = TT.boolt(c)
        d = smt.decide(c)
        if d is not False:
            with assume(c):
                if d is True or not smt.ctx_inconsistent():
                    fa()
        if d is not True:
            with assume(TT.not_(c)):
                if d is False or not smt.ctx_inconsistent():
                    fb()

    def check(self, label, c):
        import norm
        from smt import S
        if isinstance(c, bool):
            c = TT.TRUE if c else TT.FALSE
        n = len(norm.FAIL)
        c = TT.boolt(c)
        ok = norm.eqvB(c, TT.TRUE)
        fl = norm.FAIL[n:]
        del norm.FAIL[n:]
        self.results.append((ok, label, '' if ok else TT.show(c)[:1500], S.ctx, c))
        return ok

    def same(self, label, a, b, tol=None):
        """a == b (numbers or booleans)"""
        import norm
        from smt import S
        n = len(norm.FAIL)
        if isinstance(a, TT.T) and isinstance(b, TT.T) and (a.sort == 'B' or b.sort == 'B'):
            ok = norm.eqvB(TT.boolt(a), TT.boolt(b))
            g = TT.FALSE
        else:
            a, b = TT.num(a), TT.num(b)
            ok = norm.eqv(a, b)
            g = TT.eq(a, b)
        fl = norm.FAIL[n:]
        del norm.FAIL[n:]
        ctx = S.ctx
        det = ''
        if not ok:
            det = 'got %s\n  want %s' % (TT.show(a)[:1500], TT.show(b)[:1500])
            if fl:
                det += '\n  residue %s' % TT.show(fl[0][0])[:1500]
                if os.environ.get('CTXSHOW'):
                    det += '\n  under ' + '; '.join(TT.show(f) for f in fl[0][1].facts)[:3000]
                ctx = fl[0][1]
                g = TT.eq(fl[0][0], TT.ZERO)
        self.results.append((ok, label, det, ctx, g))
        return ok

    def samestr(self, label, a, b):
        from smt import S
        ok = isinstance(a, str) and a == b
        self.results.append((ok, label, '' if ok else 'got %r want %r' % (a, b), S.ctx, TT.FALSE))

    def fact(self, c):
        """nothing: preconditions are stated in the scenario"""


def square_out(t, a, v):
    """replace a^2 by v in a polynomial"""
    r = TT.ZERO
    for m, c in TT.num(t).args:
        p = TT.num(c)
        for b, e in m:
            if b is a and e == 2:
                p = TT.mul(p, v)
            else:
                q = TT.numof(b) if e > 0 else TT.recip(TT.numof(b))
                for _ in range(abs(e)):
                    p = TT.mul(p, q)
        r = TT.add(r, p)
    return r


class Num:
    """concrete: outputs from the log of a native run of the same scenario"""
    sym = False

    def __init__(self, log, params, seed):
        self.log = log
        self.params = params
        self.seed = seed
        self.results = []
        self.tol = 1e-7

    def param(self, n):
        return self.params.get(n, 0)

    def part(self, n):
        """this part of the postcondition is checked in this job"""
        return self.params.get('part', n) == n

    def dim(self, n):
        return self.log['dim'][n]

    def int(self, n):
        return self.log['int'][n]

    def bool(self, n):
        return bool(self.log['int'][n])

    def inp(self, n, i=0, j=0):
        r, c, v = self.log['in'][n]
        assert 0 <= i < r and 0 <= j < c, (n, i, j, r, c)
        return v[j * r + i]

    def real(self, n):
        return self.log['in'][n][2][0]

    preal = real

    def raw(self, n):
        if n not in self.log['out']:
            raise Missing(n)
        return self.log['out'][n]

    def has(self, n):
        return n in self.log['out'] or n in self.log['outs']

    def out(self, n, i=0, j=0):
        r, c, v = self.raw(n)
        if not (0 <= i < r and 0 <= j < c):
            raise Missing('%s(%s,%s) outside %sx%s' % (n, i, j, r, c))
        return v[int(j) * r + int(i)]

    def outs(self, n):
        if n not in self.log['outs']:
            raise Missing(n)
        return self.log['outs'][n]

    def shape(self, n, r, c=1):
        R, C, _ = self.raw(n)
        return self.check('size of ' + n, R == r and C == c, 'got %dx%d want %dx%d' % (R, C, r, c))

    def num(self, x):
        return x

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def ge(self, a, b):
        return a >= b

    def gt(self, a, b):
        return a > b

    def eq(self, a, b):
        return a == b

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def ite(self, c, a, b):
        return a() if c else b()

    def min(self, a, b):
        return min(a, b)

    def max(self, a, b):
        return max(a, b)

    def sqrt(self, a):
        return math.sqrt(a)

    def abs(self, a):
        return abs(a)

    def sum(self, lo, hi, f):
        return sum((f(k) for k in range(int(lo), int(hi))), 0.0)

    def all(self, r, c, f):
        return all(f(i, j) for j in range(c) for i in range(r))

    def mat(self, r, c, f):
        return (r, c, [f(i, j) for j in range(c) for i in range(r)])

    def app(self, n, comp, args):
        return poly_app(self.seed, n, int(comp), args)

    def _qa(self, args):
        out = []
        for a in args:
            if isinstance(a, tuple) and a[0] == 'k':
                out.append(float(a[1]))
            elif isinstance(a, tuple):
                out.append(self.mat(int(a[0]), int(a[1]), a[2]))
            else:
                out.append(float(a))
        return out

    def q(self, n, comp, args):
        return poly_app(self.seed, n, int(comp), self._qa(args))

    def dq(self, n, comp, args, ai, i=0, j=0):
        return poly_d(self.seed, n, int(comp), self._qa(args), ai, int(i), int(j))

    def close(self, label, a, b, mag=0):
        """mag: size of the terms summed in the differenced function (rounding of the differences grows with it)"""
        return self.same(label, a, b, 2e-4, 5e-8 * mag)

    def qmag(self, n, comp, args):
        return poly_mag(self.seed, n, int(comp), self._qa(args))

    def exact(self, label, a, b, tol=1e-12):
        """equal up to rounding, however small the values are"""
        return self.check(label, abs(a - b) <= tol * max(abs(a), abs(b)), 'got %r want %r' % (a, b))

    def const(self, x):
        return x

    def frac(self, x):
        return x

    def truth(self, c):
        return bool(c)

    def mexp(self, n, f):
        import numpy
        import scipy.linalg
        m = scipy.linalg.expm(numpy.array([[float(f(i, j)) for j in range(n)] for i in range(n)]))
        f = lambda i, j: float(m[i][j])
        f.tol = 1e-11 * (1 + float(abs(m).max()))
        return f

    def recursion(self, label, names, outs, n, init, step):
        if init is None and n == 0:
            return
        prev = list(init) if init is not None else [0.0] * len(outs)
        for k in range(int(n)):
            prev = step(k, prev)
        for o, p in zip(outs, prev):
            self.same(label, o, p)

    def closed(self, label, out, n, f, tol=None):
        self.same(label, out, f(n), tol)

    def usum(self, lo, hi, f):
        return self.sum(lo, hi, f)

    def root(self, label, out, n, V, sos, tol=None):
        self.same(label, out, math.sqrt(max(V(n), 0.0)), tol)

    inf = math.inf

    def forall(self, ranges, f):
        def go(k, vs):
            if k == len(ranges):
                f(*vs)
                return
            lo, hi = ranges[k]
            lo = lo(*vs) if callable(lo) else lo
            hi = hi(*vs) if callable(hi) else hi
            for t in range(int(lo), int(hi)):
                go(k + 1, vs + [t])
        go(0, [])

    def cases(self, c, fa, fb):
        fa() if c else fb()

    def check(self, label, c, det=''):
        self.results.append((bool(c), label, det))
        return bool(c)

    def same(self, label, a, b, tol=None, more=0):
        t = tol or self.tol
        if isinstance(a, bool) or isinstance(b, bool):
            ok = bool(a) == bool(b)
        elif math.isnan(a) or math.isnan(b):
            ok = False
        elif math.isinf(a) or math.isinf(b):
            ok = a == b
        else:
            ok = abs(a - b) <= t * (1 + abs(a) + abs(b)) + more
        self.results.append((ok, label, '' if ok else 'got %r want %r' % (a, b)))
        return ok

    def samestr(self, label, a, b):
        self.results.append((a == b, label, '' if a == b else 'got %r want %r' % (a, b)))


# ---------------------------------------------------------------- mirror of harness/v_native.hpp
M64 = (1 << 64) - 1


def mix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64
    return x ^ (x >> 31)


_hc = {}


def hsh(seed, n, a=0, b=0, c=0, d=0):
    k = (seed, n)
    h = _hc.get(k)
    if h is None:
        h = mix(seed)
        for ch in n.encode():
            h = mix(h ^ ch)
        _hc[k] = h
    h = mix(h ^ a)
    h = mix(h ^ b)
    h = mix(h ^ c)
    return mix(h ^ d)


_uc = {}


def unit(*k):
    v = _uc.get(k)
    if v is None:
        v = float(hsh(*k) >> 11) / float(1 << 52) - 1.0
        if len(_uc) > 2000000:
            _uc.clear()
        _uc[k] = v
    return v


def poly_app(seed, n, comp, args):
    s = unit(seed, n, comp, 1000)
    prev = 0.0
    for ai, a in enumerate(args):
        if isinstance(a, tuple):
            r, c, v = a
            ents = [(v[j * r + i], i, j) for j in range(c) for i in range(r)]
        else:
            ents = [(float(a), 0, 0)]
        for v, i, j in ents:
            s += unit(seed, n, comp, ai, i, j) * v
            s += 0.5 * unit(seed, n, comp, ai + 100, i, j) * v * v
            s += 0.25 * unit(seed, n, comp, ai + 200, i, j) * v * prev
            prev = v
    return s


def poly_mag(seed, n, comp, args):
    s = 1.0
    prev = 0.0
    for ai, a in enumerate(args):
        vs = a[2] if isinstance(a, tuple) else [float(a)]
        for v in vs:
            s += abs(v) * (1 + 0.5 * abs(v) + 0.25 * abs(prev))
            prev = v
    return s


def poly_d(seed, n, comp, args, ai0, i0, j0):
    s = 0.0
    prev = 0.0
    hit = False
    for ai, a in enumerate(args):
        if isinstance(a, tuple):
            r, c, v = a
            ents = [(v[j * r + i], i, j) for j in range(c) for i in range(r)]
        else:
            ents = [(float(a), 0, 0)]
        for v, i, j in ents:
            if hit:
                return s + 0.25 * unit(seed, n, comp, ai + 200, i, j) * v
            if ai == ai0 and i == i0 and j == j0:
                hit = True
                s = unit(seed, n, comp, ai, i, j) + unit(seed, n, comp, ai + 100, i, j) * v + 0.25 * unit(seed, n, comp, ai + 200, i, j) * prev
            prev = v
    return s


def parse_log(text):
    """list of cases: dict(status, sig, dim, int, in, out, outs, fails, events, done)"""
    cases = []
    cur = None
    for l in text.split('\n'):
        if l.startswith('case '):
            _, i, st, sg = l.split()
            cur = dict(status=int(st), sig=int(sg), dim={}, int={}, out={}, outs={}, fails=[], events=[], done=False, assumed=True)
            cur['in'] = {}
            cases.append(cur)
            continue
        if cur is None:
            continue
        w = l.split(' ')
        k = w[0]
        if k == 'endcase':
            cur = None
        elif k == 'dim':
            cur['dim'][w[1]] = int(w[2])
        elif k == 'int':
            cur['int'][w[1]] = int(w[2])
        elif k in ('in', 'out'):
            cur[k][w[1]] = (int(w[2]), int(w[3]), [float(x) for x in w[4:]])
        elif k == 'outs':
            cur['outs'][w[1]] = ' '.join(w[2:]).replace('\\n', '\n').replace('\\\\', '\\')
        elif k == 'fail':
            cur['fails'].append(' '.join(w[1:]))
        elif k == 'event':
            cur['events'].append(' '.join(w[1:]))
        elif k == 'done':
            cur['done'] = True
        elif k == 'assume':
            cur['assumed'] = False
    return cases

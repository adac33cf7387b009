"""Loop summaries: an inductive invariant is found (classes of cells), checked on one generic iteration, and
turned into a closed description of the state after n iterations."""
from terms import *
import terms as TT
import smt
from smt import S, assume, prove, decide, simp
import values as VV
from values import *
import norm


class Cell:
    __slots__ = ('cls', 'v0', 'c', 'pre', 'new', 'name', 'sort')

    def __init__(self, cls, v0):
        self.cls = cls
        self.v0 = v0
        self.c = None
        self.pre = None
        self.new = None
        self.name = None
        self.sort = 'R'


class Rec:
    """a summarised loop"""

    def __init__(self):
        self.cells = {}
        self.kappa = None
        self.guard = TRUE
        self.N = None
        self.names = {}
        self.memo = {}
        self.base = None
        self.top = False


import os
DEBUG = os.environ.get('LD')
RECS = {}     # pre name -> (Rec, key)
SEQ = {}      # ghost sequence name -> (Rec, key)
_hints = {}


def reset():
    RECS.clear()
    SEQ.clear()
    _hints.clear()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        return a is b
    if isinstance(a, Mat) and isinstance(b, Mat):
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.t is b.t and a.off is b.off
    if isinstance(a, (str, tuple)):
        return a == b
    return False


def summarise(I, ce, inc, body):
    import interp as IN
    H0 = I.H
    ctx0 = S.ctx
    frame0 = dict(I.frame)
    hk = (id(ce), id(body))
    def absk(k):
        return ('L', I.curframe, k[2]) if k[0] == 'L' and k[1] == '*' else k

    def relk(k):
        return ('L', '*', k[2]) if k[0] == 'L' and k[1] == I.curframe else k
    classes = {absk(k): v for k, v in _hints.get(hk, {}).items() if absk(k) in H0}
    rec0 = I.rec_obl
    nobl = len(I.obls)
    final = bool(classes)
    noclosed = set()
    remembered = set(classes)
    if inc is not None:
        # integer cells advanced by a constant by the increment alone
        I.setheap(dict(H0))
        I.rec_obl = False
        try:
            I.ev(inc)
            for key, v0 in H0.items():
                new = I.H.get(key)
                if key not in classes and isinstance(v0, T) and v0.sort == 'I' and isinstance(new, T) and new is not v0:
                    d = sub(num(new), num(v0))
                    if const(d) is not None:
                        classes[key] = ('lin', d)
        except Unsupported:
            pass
        I.rec_obl = rec0
        I.setheap(H0)
    for rnd in range(14):
        R = Rec()
        R.kappa = fresh('it')
        R.top = VV.INLOOP[0] == 0
        H = dict(H0)
        bad = False
        guards = []
        for key, (cls, c) in list(classes.items()):
            v0 = H0[key]
            cell = Cell(cls, v0)
            cell.c = c
            R.cells[key] = cell
            if cls == 'lin':
                cell.pre = add(num(v0), mul(c, R.kappa))
            elif cls == 'closed':
                ka0, d_, g_ = c
                cell.c = subst(d_, {ka0: R.kappa})
                g_ = subst(g_, {ka0: R.kappa})
                guards.append(g_)
                with assume(ge(R.kappa, 0), g_):
                    sm = closed_sum(R.kappa, cell.c)
                if sm is None:
                    noclosed.add(key)
                    classes[key] = ('num', None)
                    bad = True
                    break
                cell.pre = add(num(v0), sm)
                if num(v0).sort == 'I':
                    cell.sort = 'I'
            elif cls in ('num', 'bool'):
                nm = freshname('pre')
                cell.name = nm
                if cls == 'bool':
                    cell.pre = bvar(nm)
                elif v0.sort == 'I' and c != 'R':
                    cell.pre = ivar(nm)
                    cell.sort = 'I'
                else:
                    cell.pre = rvar(nm)
                RECS[nm] = (R, key)
            elif cls == 'mat':
                nm = 'pre!%s' % freshname('m')
                cell.name = nm
                cell.pre = pre_mat(nm, v0)
                RECS[nm] = (R, key)
            elif cls == 'fix':
                cell.pre = v0
            elif cls == 'map':
                tab = {}
                for st, (p0, c0) in v0.tab.items():
                    pn, cn = freshname('pre'), freshname('pre')
                    for q, (nm, vv, sub_v0, sb) in enumerate(((pn, bvar(pn), p0, 'bool'), (cn, ivar(cn), c0, 'num'))):
                        sc = Cell(sb, sub_v0)
                        sc.name, sc.pre = nm, vv
                        sc.sort = 'I'
                        R.cells[(key, st, q)] = sc
                        RECS[nm] = (R, (key, st, q))
                    tab[st] = (bvar(pn), ivar(cn))
                cell.pre = IN.MapVal(tab)
            elif cls == 'stream':
                cell.pre = IN.Stream(v0.parts + (None,))
            elif cls == 'any':
                cell.pre = ('loopjunk', freshname('j'))
            H[key] = cell.pre
        if bad:
            continue
        I.setheap(H)
        I.rec_obl = rec0 and final
        if DEBUG: print('round', rnd, I.fname, I.line, {str(k): v[0] for k, v in classes.items()})
        S.ctx = ctx0.add(ge(R.kappa, 0))
        g = I.cond_val(ce)
        R.guard = g
        S.ctx = S.ctx.add(g)
        lctx = S.ctx
        for g_ in guards:
            if not prove(g_):
                # a guard remembered from another visit of this loop does not hold here
                bad = True
        if bad:
            for key, (cls, c) in list(classes.items()):
                if cls == 'closed':
                    classes[key] = ('num', None)
            S.ctx = ctx0
            continue
        if smt.ctx_inconsistent(S.ctx) and rnd == 0 and not classes:
            # never entered
            S.ctx = ctx0
            I.setheap(H0)
            I.rec_obl = rec0
            return None
        Hs = dict(I.H)
        VV.INLOOP[0] += 1
        try:
            o = I.loop_body(body)
        finally:
            VV.INLOOP[0] -= 1
        if o is not None:
            S.ctx = ctx0
            I.rec_obl = rec0
            I.setheap(H0)
            I.unsup('abnormal exit of a symbolic loop')
        if inc is not None:
            I.ev(inc)
        I.frame.clear()
        I.frame.update(frame0)
        H1 = I.H
        S.ctx = lctx
        changed = False
        for key, v0 in H0.items():
            pre = Hs.get(key)
            new = H1.get(key)
            cell = R.cells.get(key)
            if cell is None:
                if same(pre, new):
                    continue
                classes[key] = guess(I, v0, new)
                changed = True
                continue
            cell.new = new
            if cell.cls == 'lin':
                want = add(num(v0), mul(cell.c, add(R.kappa, ONE)))
                if not norm.eqv(num(new), want):
                    classes[key] = ('num', None)
                    changed = True
            elif cell.cls == 'closed':
                if not norm.eqv(sub(num(new), cell.pre), cell.c):
                    classes[key] = ('num', None)
                    if key in remembered:
                        # the closed form belonged to another visit of this loop
                        remembered.discard(key)
                    else:
                        noclosed.add(key)
                    changed = True
            elif cell.cls == 'fix':
                if not same(cell.pre, new) and not (isinstance(new, T) and norm.eqv(new, cell.pre)):
                    S.ctx = ctx0
                    I.unsup('loop changes a fixed cell')
            elif cell.cls in ('num',):
                if not isinstance(new, T):
                    I.unsup('cell changes kind')
                if cell.sort == 'I' and num(new).sort != 'I':
                    # a real variable that started with an integer value
                    classes[key] = ('num', 'R')
                    changed = True
                    continue
                d = sub(num(new), cell.pre)
                if const(d) is not None and v0.sort == 'I' and cell.name not in d.fv:
                    classes[key] = ('lin', d)
                    changed = True
                elif key not in noclosed and cell.name in num(new).fv:
                    noclosed.add(key)
                    d = delta(num(new), cell.pre, cell.name)
                    if d is not None and not mentions(d, R) and v0.sort == 'I':
                        with assume(ge(R.kappa, 0)):
                            sm = closed_sum(R.kappa, d)
                        if sm is not None:
                            classes[key] = ('closed', (TT.atom(R.kappa), d, TRUE if mentions(g, R) else g))
                            changed = True
            elif cell.cls == 'map':
                for st, pc in new.tab.items():
                    for q in (0, 1):
                        R.cells[(key, st, q)].new = pc[q]
            elif cell.cls == 'mat':
                if not isinstance(new, Mat):
                    I.unsup('matrix cell changes kind')
                if not (new.r is cell.pre.r and new.c is cell.pre.c):
                    if not prove(and_(eq(new.r, cell.pre.r), eq(new.c, cell.pre.c))):
                        I.unsup('matrix resized in a loop')
        S.ctx = ctx0
        if changed:
            del I.obls[nobl:]
            final = False
            continue
        if not final and rec0:
            final = True
            del I.obls[nobl:]
            continue
        break
    else:
        I.rec_obl = rec0
        I.unsup('loop classes do not stabilise')
    I.rec_obl = rec0
    _hints[hk] = {relk(k): v for k, v in classes.items()}
    R.base = ctx0
    # number of iterations
    I.setheap(H0)
    N = count(I, R, ctx0)
    R.N = N
    out = dict(H0)
    for key, cell in R.cells.items():
        if key not in H0:
            continue
        out[key] = value_at(I, R, key, N)
    I.setheap(out)
    # the loop guard is false afterwards; nothing else to learn
    return None


def closed_sum(k, d):
    """sum of d(0..k-1) as a term in k, None when it has no simple form"""
    kk = fresh('it')
    ka = TT.atom(k)
    with assume(ge(kk, 0), *[subst(f, {ka: kk}) for f in S.ctx.facts if ka.args[0] in f.fv]):
        sm = norm.smart_sum(ZERO, kk, k, d)
    if smt.has_ite(sm) or has_sum(sm):
        return None
    sm = subst(sm, {TT.atom(kk): k})
    return sm


def has_sum(t):
    return any(a.op == 'sum' for m, c in t.args for a, e in m)


def pre_mat(nm, v0):
    rd = iread if v0.sort == 'I' else (bread if v0.sort == 'B' else read)
    return Mat(v0.r, v0.c, lambda i, j: rd(nm, i, j), v0.sort)


def guess(I, v0, new):
    import interp as IN
    if isinstance(v0, T):
        if v0.sort == 'B':
            return ('bool', None)
        if isinstance(new, T) and new.sort == 'B':
            I.unsup('cell changes kind')
        return ('num', 'R' if isinstance(new, T) and num(new).sort != 'I' else None)
    if isinstance(v0, Mat):
        return ('mat', None)
    if isinstance(v0, IN.Stream):
        return ('stream', None)
    if isinstance(v0, IN.MapVal):
        return ('map', None)
    if isinstance(v0, tuple) and v0 and v0[0] in ('undef', 'undefptr', 'opaque', 'loopjunk'):
        return ('any', None)
    if v0 is None or isinstance(v0, (Ptr, Fn, str)):
        return ('any', None)
    I.unsup('loop changes a cell holding %r' % (v0,))


def count(I, R, ctx0):
    g = R.guard
    k = TT.atom(R.kappa)
    if g is TRUE:
        I.unsup('loop without guard')
    lits = norm.literals(g)
    Ns = []
    for l in lits:
        if k.args[0] not in l.fv:
            if prove(l):
                continue
            # constant guard: zero iterations when false
            Ns.append(('const', l))
            continue
        if l.op == 'ge':
            ab = norm.lin_in(l.args[0], k)
            if ab is None:
                I.unsup('loop guard ' + show(l))
            a, b = ab
            ca = const(a)
            if ca is None or ca >= 0:
                I.unsup('loop guard ' + show(l))
            # b + a k >= 0  <=>  k <= b/(-a)
            if ca == -1:
                n = add(b, ONE)
            else:
                n = None
                if prove(ge(b, 0)):
                    n = add(divmod_(b, num(-ca))[0], ONE)
                else:
                    I.unsup('loop stride')
            d = decide(ge(n, 0))
            if d is True:
                Ns.append(n)
            elif d is False:
                Ns.append(ZERO)
            else:
                Ns.append(num(ite(ge(n, 0), n, ZERO)))
        elif l.op == 'not' and l.args[0].op == 'eq':
            ab = norm.lin_in(l.args[0].args[0], k)
            if ab is None or const(ab[0]) not in (1, -1):
                I.unsup('loop guard !=')
            n = ab[1] if const(ab[0]) == -1 else scale(ab[1], -1)
            if not prove(ge(n, 0)):
                I.unsup('loop may not terminate')
            Ns.append(n)
        else:
            I.unsup('loop guard: ' + show(l))
    nums = [n for n in Ns if not isinstance(n, tuple)]
    if not nums:
        I.unsup('loop may not terminate')
    N = nums[0]
    for n in nums[1:]:
        d = decide(le(N, n))
        if d is True:
            continue
        if d is False:
            N = n
        else:
            N = num(ite(le(N, n), N, n))
    for n in Ns:
        if isinstance(n, tuple):
            N = num(ite(n[1], N, ZERO))
    for nm in R_prenames(R):
        if nm in N.fv:
            I.unsup('loop bound changes in the loop')
    return N


def R_prenames(R):
    return [c.name for c in R.cells.values() if c.name]


# ---------------------------------------------------------------- ghost sequences
def seq_name(R, key, n, i, j):
    """value of a cell after n iterations as an element of the sequence the loop defines"""
    cell = R.cells[key]
    nm = 'seq:' + cell.name
    SEQ[nm] = (R, key)
    return TT.fun(nm, n, i, j)


def seq_at(I, x, n):
    nm, R, key, i, j = x
    if n is ZERO:
        v0 = R.cells[key].v0
        return num(v0.get(i, j)) if isinstance(v0, Mat) else num(v0)
    return TT.fun(nm, n, i, j)


def seq_var(x, n):
    return TT.fun(x[0], n, x[3], x[4])


def seq_step(I, x, n):
    """element n+1 in terms of the state after n iterations"""
    nm, R, key, i, j = x
    cell = R.cells[key]
    with assume(ge(R.kappa, 0), lt(R.kappa, R.N), eq(R.kappa, n)):
        t = cell.new.get(i, j) if isinstance(cell.new, Mat) else cell.new
        t = subst(num(t), {TT.atom(R.kappa): n})
    return resolve(I, R, simp(t), n)


# ---------------------------------------------------------------- value of a cell after n iterations
def mentions(t, R):
    fv = t.fv
    for c in R.cells.values():
        if c.name and c.name in fv:
            return True
    return False


def value_at(I, R, key, n):
    cell = R.cells[key]
    k = ('v', key, n.id if isinstance(n, T) else n, S.ctx.ids)
    if cell.cls != 'mat' and k in R.memo:
        return R.memo[k]
    ka = TT.atom(R.kappa)
    if cell.cls in ('num', 'bool', 'closed') and isinstance(n, T) and ka.args[0] in n.fv:
        # the iteration counter of this loop is rigid in n: rename it before it is bound again
        k2 = fresh('it')
        old = S.ctx
        S.ctx = renamed(ka, k2)
        v = _value_at(I, R, key, cell, subst(n, {ka: k2}))
        S.ctx = old
        v = subst(v, {TT.atom(k2): R.kappa})
    else:
        v = _value_at(I, R, key, cell, n)
    R.memo[k] = v
    return v


def _value_at(I, R, key, cell, n):
    cls = cell.cls
    if cls == 'lin':
        return add(num(cell.v0), mul(cell.c, n))
    if cls == 'closed':
        return add(num(cell.v0), with_iter_sum(I, R, cell, n))
    if cls == 'fix':
        return cell.v0
    if cls == 'stream':
        return cell.new
    if cls == 'any':
        return ('loopjunk', freshname('j'))
    if n is ZERO:
        return cell.v0
    if cls == 'mat':
        v0 = cell.v0
        R0, k0, n0 = R, key, n
        m = Mat(v0.r, v0.c, lambda i, j: tick(lookup(I, R0, k0, n0, i, j)), v0.sort)
        return m
    if cls == 'num':
        t = num(cell.new)
        P = cell.pre
        if t is P:
            return cell.v0
        if cell.name not in t.fv:
            return overwritten(I, R, cell, t, n)
        d = delta(t, P, cell.name)
        if d is not None:
            d = with_iter(I, R, n, lambda: resolve(I, R, d, R.kappa, n))
            s = norm.smart_sum(ZERO, n, R.kappa, d)
            return add(num(cell.v0), s)
        if R.top and cell.sort == 'R':
            return seq_name(R, key, n, ZERO, ZERO)
        I.unsup('recurrence not understood: ' + show(t))
    if cls == 'map':
        import interp as IN
        return IN.MapVal({s: (value_at(I, R, (key, s, 0), n), value_at(I, R, (key, s, 1), n)) for s in cell.v0.tab})
    if cls == 'bool':
        t = cell.new
        P = cell.pre
        if t is P:
            return cell.v0
        if cell.name not in t.fv:
            return overwritten(I, R, cell, t, n)
        k = TT.atom(R.kappa)
        f = subst(t, {P: FALSE})
        g = subst(t, {P: TRUE})
        if f is FALSE:
            b = with_iter(I, R, n, lambda: resolve(I, R, g, R.kappa, n))
            return and_(cell.v0, forall1(R.kappa, n, b))
        if g is TRUE:
            b = with_iter(I, R, n, lambda: resolve(I, R, not_(f), R.kappa, n))
            return or_(cell.v0, not_(forall1(R.kappa, n, b)))
        # general: last definite write
        I.unsup('boolean recurrence')
    I.unsup('cell class ' + cls)


def forall1(k, n, b):
    if b is TRUE:
        return TRUE
    ka = TT.atom(k)
    if ka.args[0] not in b.fv:
        d = decide(ge(n, 1))
        if d is True:
            return b
        return or_(lt(n, 1), b)
    kk = k
    j = fresh('fj')
    return close('forall', (kk, j), (num(n), ONE), b, 'B')


def with_iter_sum(I, R, cell, n):
    if n is ZERO:
        return ZERO
    d = resolve(I, R, cell.c, R.kappa, n)
    return norm.smart_sum(ZERO, n, R.kappa, d)


def with_iter(I, R, n, f):
    with assume(ge(R.kappa, 0), lt(R.kappa, n)):
        return f()


def overwritten(I, R, cell, t, n):
    e = sub(n, ONE)
    d = decide(ge(n, 1))
    if d is False:
        return cell.v0

    def val():
        x = subst(t, {TT.atom(R.kappa): e})
        return resolve(I, R, x, e, n)
    if d is True:
        return val()
    with assume(ge(n, 1)):
        v = val()
    return ite(ge(n, 1), v, cell.v0)


def tick(v):
    VV.DEC[0] += 1
    return v


def delta(t, P, name):
    """t = P + d with d free of P (through ites)"""
    pa = TT.atom(P)
    d = sub(t, P)
    if name not in d.fv:
        return d

    def go(t):
        # t number; push through an ite that mentions P
        if name not in t.fv:
            return None
        for m, c in t.args:
            for a, e in m:
                if a.op == 'ite' and name in a.fv:
                    if len(t.args) != 1 and not (len(m) == 1 and e == 1 and c == 1):
                        return None
                    rest = sub(t, numof(a))
                    cnd, x, y = a.args
                    if name in cnd.fv:
                        return None
                    x2 = sub(add(rest, num(x)), P) if True else None
                    y2 = sub(add(rest, num(y)), P)
                    if name in x2.fv:
                        x2 = go(add(rest, num(x)))
                    if name in y2.fv:
                        y2 = go(add(rest, num(y)))
                    if x2 is None or y2 is None:
                        return None
                    return num(ite(cnd, x2, y2))
        d = sub(t, P)
        return d if name not in d.fv else None
    return go(t)


# ---------------------------------------------------------------- pre-state atoms
def resolve(I, R, t, n, N=None):
    """replace the pre-state atoms of R in t by the values after n iterations"""
    if not isinstance(t, T):
        return t
    if not mentions(t, R):
        return t
    names = {}
    for key, c in R.cells.items():
        if c.name:
            names[c.name] = key

    def f(a):
        if a.op in ('rvar', 'ivar', 'bvar'):
            key = names.get(a.args[0])
            if key is None:
                return None
            return value_at(I, R, key, n)
        if a.op in ('read', 'iread', 'bread'):
            key = names.get(a.args[0])
            if key is None:
                return None
            i, j = [transform(x, f, nameset) for x in a.args[1:]]
            return lookup(I, R, key, n, i, j)
        return None
    nameset = frozenset(names)
    return transform(t, f, nameset)


def resolve_scalars(I, R, t, n):
    if not mentions(t, R):
        return t
    names = {c.name: key for key, c in R.cells.items() if c.name and c.cls in ('num', 'bool')}
    if not names:
        return t

    def f(a):
        if a.op in ('rvar', 'ivar', 'bvar'):
            key = names.get(a.args[0])
            if key is not None:
                return value_at(I, R, key, n)
        return None
    return transform(t, f, frozenset(names))


def transform(t, f, names):
    """rebuild t replacing atoms by f (None: unchanged); binders are opened"""
    if isinstance(t, tuple):
        return tuple(transform(x, f, names) for x in t)
    if not isinstance(t, T) or not (t.fv & names):
        return t
    if t.op == 'num':
        r = ZERO
        for m, c in t.args:
            p = num(c)
            for a, e in m:
                q = num(transform(a, f, names))
                if e < 0:
                    q = TT.recip(q)
                for _ in range(abs(e)):
                    p = mul(p, q)
            r = add(r, p)
        return r
    v = f(t)
    if v is not None:
        return num(v) if t.sort != 'B' else v
    if t.op == 'ite':
        c = transform(t.args[0], f, names)
        return mk_ite(c, lambda: num(transform(t.args[1], f, names)), lambda: num(transform(t.args[2], f, names)))
    if t.op == 'sum':
        n = transform(t.args[0], f, names)
        k = fresh('s')
        b = TT.opensub(t, [k])
        with assume(ge(k, 0), lt(k, n)):
            b = transform(b, f, names)
        return norm.smart_sum(ZERO, n, k, b)
    if t.op in ('mlam', 'forall'):
        r, c = transform(t.args[0], f, names), transform(t.args[1], f, names)
        i, j = fresh('ti'), fresh('tj')
        b = TT.opensub(t, [i, j])
        with assume(ge(i, 0), lt(i, r), ge(j, 0), lt(j, c)):
            b = transform(b, f, names)
        if t.op == 'forall' and b is TRUE:
            return TRUE
        return close(t.op, (i, j), (r, c), b, t.sort)
    if t.op == 'extr':
        r, c = transform(t.args[1], f, names), transform(t.args[2], f, names)
        i, j = fresh('ti'), fresh('tj')
        b = TT.opensub(t, [i, j])
        with assume(ge(i, 0), lt(i, r), ge(j, 0), lt(j, c)):
            b = transform(b, f, names)
        return numof(close('extr', (i, j), (t.args[0], r, c), b, 'R'))
    if t.op == 'and':
        # conditions are assumed from left to right
        return and_(*[transform(x, f, names) for x in t.args])
    if t.op == 'dlam':
        raise Unsupported('loop over derivative term')
    na = tuple(transform(x, f, names) for x in t.args)
    return TT.rebuild(t, na)


# ---------------------------------------------------------------- matrices
def lookup(I, R, key, n, i, j):
    """entry (i,j) of the matrix cell after n iterations"""
    i, j, n = num(i), num(j), num(n)
    k = ('m', key, n.id, i.id, j.id, S.ctx.ids)
    v = R.memo.get(k)
    if v is None:
        ka = TT.atom(R.kappa)
        nm = ka.args[0]
        if n is not ZERO and (nm in n.fv or nm in i.fv or nm in j.fv):
            k2 = fresh('it')
            m = {ka: k2}
            old = S.ctx
            S.ctx = renamed(ka, k2)
            v = _lookup(I, R, key, subst(n, m), subst(i, m), subst(j, m))
            S.ctx = old
            v = subst(v, {TT.atom(k2): R.kappa})
        else:
            v = _lookup(I, R, key, n, i, j)
        R.memo[k] = v
    return v


def renamed(ka, k2):
    """the current context with the counter ka called k2"""
    nm = ka.args[0]
    c = smt.Ctx()
    for f in S.ctx.facts:
        c = c.add(subst(f, {ka: k2}) if nm in f.fv else f)
    if S.ctx.bad:
        c = c.add(FALSE)
    return c


def leaves(t, isb, name):
    """[(conds, leaf)] of the ite structure of t"""
    out = []

    def go(t, cs):
        if not isb:
            a = None
            for m, c in t.args:
                for x, e in m:
                    if x.op == 'ite' and name in x.fv:
                        a = x
                        break
                if a is not None:
                    break
            if a is not None:
                c, x, y = a.args
                for cc, v in ((c, x), (not_(c), y)):
                    d = decide(cc)
                    if d is False:
                        continue
                    with assume(cc):
                        if smt.ctx_inconsistent():
                            continue
                        go(simp(TT.subst(t, {a: num(v)})), cs + ([cc] if d is None else []))
                return
        out.append((and_(*cs), t))
    go(t, [])
    return out


def _lookup(I, R, key, n, i, j):
    cell = R.cells[key]
    m0 = cell.v0
    isb = m0.sort == 'B'

    def base():
        return m0.get(i, j)
    if n is ZERO:
        return base()
    kap = R.kappa
    ka = TT.atom(kap)
    rng = [ge(kap, 0), lt(kap, n), ge(i, 0), lt(i, m0.r), ge(j, 0), lt(j, m0.c)]
    rd = iread if m0.sort == 'I' else (bread if isb else read)
    with assume(*rng) as cx:
        idle = smt.ctx_inconsistent()
    if idle:
        # evaluated outside the contradictory context
        return base()
    idle = False
    with assume(*rng) as cx:
        t = cell.new.get(i, j)
        if not isb:
            t = simp(num(t))
        t = resolve_scalars(I, R, t, kap)
        pre = rd(cell.name, i, j)
        idle = t is pre
    if idle:
        return base()
    with assume(*rng) as cx:
        lv = leaves(t, isb, cell.name) if not isb else [(TRUE, t)]
        kinds = []
        pa = TT.atom(pre) if not isb else pre
        for c, l in lv:
            if l is pre:
                kinds.append('pre')
                continue
            d = sub(l, pre) if not isb else None
            if not isb and has_atom(l, pa):
                kinds.append('upd' if has_atom(d, pa) else 'acc')
            else:
                kinds.append('set')
        if 'upd' in kinds or ('acc' in kinds and 'set' in kinds):
            # the new entry is a function of the old one: closed when one iteration at most changes it
            W = or_(*[c for (c, l), kd in zip(lv, kinds) if kd != 'pre']) if 'pre' in kinds else TRUE
            if mentions(W, R) or not unique_writer(R, n, W):
                if R.top and m0.sort == 'R':
                    return seq_name(R, key, n, i, j)
                I.unsup('matrix recurrence not understood: ' + show(t))
            kinds = ['pre' if kd == 'pre' else 'set' for kd in kinds]
        if 'acc' in kinds:
            d = ZERO
            for (c, l), kd in zip(lv, kinds):
                if kd == 'acc':
                    with assume(c):
                        dd = resolve(I, R, sub(l, pre), kap)
                    d = add(d, num(ite(c, dd, ZERO)))
            # conditions may mention the pre-state
            d = resolve(I, R, d, kap)
        else:
            W = TRUE if 'pre' not in kinds else or_(*[c for (c, l), kd in zip(lv, kinds) if kd == 'set'])
            if mentions(W, R):
                I.unsup('write condition depends on the loop state')
            e = find_last(I, R, n, W, i, j, [(c, l) for (c, l), kd in zip(lv, kinds) if kd == 'set'])
    if 'acc' in kinds:
        return add(num(base()), norm.smart_sum(ZERO, n, kap, d))

    if e[0] == 'none':
        return base()
    if e[0] == 'one':
        e, w = e[1], e[2]
        cond = and_(w, ge(e, 0), lt(e, n))

        def val():
            x = subst(t, {ka: e})
            if not isb:
                x = simp(x)
            return resolve(I, R, x, e)
        return mk_ite(cond, val, base)
    # several disjoint writers
    def chain(k):
        if k == len(e[1]):
            return base()
        ee, w, l = e[1][k]
        cond = and_(w, ge(ee, 0), lt(ee, n))

        def val():
            x = subst(l, {ka: ee})
            if not isb:
                x = simp(x)
            return resolve(I, R, x, ee)
        return mk_ite(cond, val, lambda: chain(k + 1))
    return chain(0)


def has_atom(t, a):
    return a.id in TT.atoms_of(t) or (a.fv and a.args[0] in t.fv and binder_has(t, a))


def binder_has(t, a):
    """some binder inside t mentions the matrix of a (conservative)"""
    st = [t]
    seen = set()
    nm = a.args[0]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen or nm not in x.fv:
            continue
        seen.add(x.id)
        if x.op == 'num':
            for m, c in x.args:
                for b, e in m:
                    st.append(b)
            continue
        if x.op in ('sum', 'mlam', 'forall', 'extr', 'dlam'):
            return True
        st.extend(x.args)
    return False


def cands(R, n, w):
    """candidate iteration numbers from the literals of a write condition"""
    ka = TT.atom(R.kappa)
    nm = ka.args[0]
    out = []
    seen = set()

    def put(e):
        if e is not None and e.id not in seen:
            seen.add(e.id)
            out.append(e)
    lits = []

    def coll(c):
        if c.op == 'and':
            for x in c.args:
                coll(x)
        elif c.op == 'not' and c.args[0].op == 'and':
            coll(c.args[0])
        elif c.op == 'not':
            coll(c.args[0])
        else:
            lits.append(c)
    coll(w)
    if nm not in w.fv:
        put(sub(n, ONE))
    for l in sorted(lits, key=lambda l: 0 if l.op == 'eq' else 1):
        if l.op not in ('eq', 'ge') or nm not in l.fv or l.args[0].sort != 'I':
            continue
        for m, c in l.args[0].args:
            # a range between column starts of a sparse matrix: the iteration is the column
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op == 'iread' and m[0][0].args[0].startswith('spo:'):
                rest = sub(l.args[0], scale(numof(m[0][0]), c))
                rest = scale(rest, -c)
                if nm not in rest.fv:
                    import sparse
                    put(sparse.column(m[0][0].args[0][4:], rest))
                    put(sparse.column(m[0][0].args[0][4:], sub(rest, ONE) if c == 1 else rest))
        ab = norm.lin_in(l.args[0], ka)
        if ab is None:
            continue
        a, b = ab
        ca = const(a)
        if ca in (1, -1):
            e0 = scale(b, -1) if ca == 1 else b
            put(e0)
        else:
            for s, num_ in ((1, scale(b, -1)), (-1, b)):
                aa = a if s == 1 else scale(a, -1)
                if prove(ge(aa, 1)):
                    if prove(ge(num_, 0)):
                        put(divmod_(num_, aa)[0])
                    # ceil variants
                    u = sub(add(num_, aa), ONE)
                    if prove(ge(u, 0)) and not prove(ge(num_, 0)):
                        put(divmod_(u, aa)[0])
    put(sub(n, ONE))
    return out


def valid(R, n, w, e, cx):
    """e is the last iteration below n where w holds, whenever some iteration satisfies w"""
    ka = TT.atom(R.kappa)
    k = R.kappa
    with assume(w):
        if smt.ctx_inconsistent():
            return 'never'
        g = and_(ge(e, 0), lt(e, n), le(k, e))
        if not prove(g):
            return False
        return prove(subst(w, {ka: e}))


def unique_writer(R, n, W):
    ka = TT.atom(R.kappa)
    with assume(W):
        if smt.ctx_inconsistent():
            return True
        for e in cands(R, n, W):
            if ka.args[0] not in e.fv and prove(eq(R.kappa, e)):
                return True
    return False


def find_last(I, R, n, W, i, j, ws):
    ka = TT.atom(R.kappa)
    d = decide(W)
    if d is False:
        return ('none',)
    if d is True:
        W = TRUE
        e = sub(n, ONE)
        return ('one', e, TRUE)
    with assume(W):
        cs = cands(R, n, W)
    for e in cs:
        # candidates must not depend on the iteration itself
        if ka.args[0] in e.fv:
            continue
        v = valid(R, n, W, e, None)
        if v == 'never':
            return ('none',)
        if v:
            return ('one', e, subst(W, {ka: e}))
    # per leaf
    res = []
    for c, l in ws:
        got = None
        with assume(c):
            cs = cands(R, n, c)
        for e in cs:
            if ka.args[0] in e.fv:
                continue
            v = valid(R, n, c, e, None)
            if v == 'never':
                got = 'never'
                break
            if v:
                got = (e, subst(c, {ka: e}), l)
                break
        if got is None:
            I.unsup('last writer not found: ' + show(W))
        if got != 'never':
            res.append(got)
    # order by recency; overlapping writers need a provable order
    for x in range(len(res)):
        for y in range(x + 1, len(res)):
            a, b = res[x], res[y]
            both = and_(a[1], b[1], ge(a[0], 0), lt(a[0], n), ge(b[0], 0), lt(b[0], n))
            with assume(both):
                if smt.ctx_inconsistent():
                    continue
                if prove(ge(a[0], b[0])):
                    continue
                if prove(ge(b[0], a[0])):
                    res[x], res[y] = res[y], res[x]
                    continue
            I.unsup('overlapping writers')
    return ('many', res)

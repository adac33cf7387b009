"""Values of the interpreter: lazy matrices, lvalues, objects, pointers, functions."""
from terms import *
import smt
from smt import S, decide, assume, prove

DEC = [0]
OBL = [None]   # obligation sink: fn(cond, kind, where)


class Unsupported(Exception):
    pass


class ForkNeeded(Exception):
    def __init__(self, cond):
        Exception.__init__(self, 'fork on %s' % show(cond))
        self.cond = cond


def oblige(cond, kind):
    OBL[0](boolt(cond), kind)


def mk_ite(c, a, b):
    """lazy branches, decided by the context when possible"""
    if c is TRUE:
        return a()
    if c is FALSE:
        return b()
    DEC[0] += 1
    d = decide(c)
    if d is True:
        return a()
    if d is False:
        return b()
    with assume(c):
        x = a()
    with assume(not_(c)):
        y = b()
    return ite(c, x, y)


class Mat:
    """immutable matrix; g(i,j) computes an entry (may consult the context)"""
    __slots__ = ('r', 'c', 'g', 'memo', 'ov', 'sort', 'tag')

    def __init__(self, r, c, g, sort='R', ov=None):
        self.r = num(r)
        self.c = num(c)
        self.g = g
        self.memo = {}
        self.ov = ov
        self.sort = sort
        self.tag = None

    def get(self, i, j=ZERO):
        i = num(i)
        j = num(j)
        k = (i.id, j.id)
        m = self.memo
        v = m.get(k)
        if v is not None:
            return v
        v = m.get((k, S.ctx.ids))
        if v is not None:
            return v
        d0 = DEC[0]
        v = self._get(i, j)
        if self.sort != 'B':
            v = num(v)
        if DEC[0] == d0:
            m[k] = v
        else:
            m[(k, S.ctx.ids)] = v
        return v

    def _get(self, i, j):
        ov = self.ov
        if ov:
            ci, cj = const(i), const(j)
            if ci is not None and cj is not None:
                v = ov.get((ci, cj))
                if v is not None:
                    return v
                return self.g(i, j)
            # symbolic index over constant writes
            items = list(ov.items())

            def go(k):
                if k == len(items):
                    return self.g(i, j)
                (a, b), v = items[k]
                return mk_ite(and_(eq(i, a), eq(j, b)), lambda: v, lambda: go(k + 1))
            return go(0)
        return self.g(i, j)

    def dims(self):
        return const(self.r), const(self.c)

    def size(self):
        return mul(self.r, self.c)

    def flat(self, p):
        """column-major element p"""
        i, j = unflat(p, self.r, self.c)
        return self.get(i, j)

    def setelem(self, i, j, v):
        ci, cj = const(i), const(j)
        if ci is not None and cj is not None and const(self.r) is not None and const(self.c) is not None:
            ov = dict(self.ov) if self.ov else {}
            ov[(ci, cj)] = v
            return Mat(self.r, self.c, self.g, self.sort, ov)
        old = self

        def g(a, b):
            return mk_ite(and_(eq(a, i), eq(b, j)), lambda: v, lambda: old.get(a, b))
        return Mat(self.r, self.c, g, self.sort)


def unflat(p, r, c):
    p, r, c = num(p), num(r), num(c)
    if c is ONE:
        return p, ZERO
    if r is ONE:
        return ZERO, p
    q, m = divmod_(p, r)
    return m, q


def divmod_(p, n):
    """quotient and remainder of nonnegative p by n>0, symbolically when provable"""
    p, n = num(p), num(n)
    cp, cn = const(p), const(n)
    if cp is not None and cn:
        return num(cp // cn), num(cp % cn)
    if n is ONE:
        return p, ZERO
    DEC[0] += 1
    if prove(lt(p, n)) and prove(ge(p, 0)):
        return ZERO, p
    for q in divcands(p, n):
        r = sub(p, mul(q, n))
        if prove(and_(ge(r, 0), lt(r, n))):
            return q, r
    if has_ite_top(p):
        # push through ite
        for m, co in p.args:
            for a, e in m:
                if a.op == 'ite':
                    cnd = a.args[0]
                    p1 = subst(p, {a: a.args[1]})
                    p2 = subst(p, {a: a.args[2]})
                    with assume(cnd):
                        q1, r1 = divmod_(p1, n)
                    with assume(not_(cnd)):
                        q2, r2 = divmod_(p2, n)
                    return num(ite(cnd, q1, q2)), num(ite(cnd, r1, r2))
    return idiv(p, n), imod(p, n)


def has_ite_top(p):
    return any(a.op == 'ite' for m, c in p.args for a, e in m)


def polydiv(p, n, lead):
    """divide p by n using lead=(mono,coef) of n as the leading monomial; returns quotient"""
    lm, lc = lead
    ld = dict(lm)
    q = ZERO
    rem = p
    for _ in range(40):
        hit = None
        for m, c in rem.args:
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in ld.items()) and (isinstance(c, int) and c % lc == 0):
                t = tuple(sorted(((a, d[a] - ld.get(a, 0)) for a in d if d[a] != ld.get(a, 0)), key=lambda x: x[0].id))
                hit = (t, c // lc)
                break
        if hit is None:
            break
        t = T_from({hit[0]: hit[1]})
        q = add(q, t)
        rem = sub(rem, mul(t, n))
    return q


def T_from(d):
    import terms
    return terms._from(d)


def divcands(p, n):
    seen = set()
    for lead in n.args:
        if not lead[0] and len(n.args) > 1:
            continue
        q = polydiv(p, n, lead)
        for dq in (0, -1, 1):
            x = add(q, num(dq))
            if x.id not in seen:
                seen.add(x.id)
                yield x


def undef(name='undef'):
    return freshname(name)


def undef_mat(r, c, sort='R'):
    nm = freshname('undef')
    rd = iread if sort == 'I' else (bread if sort == 'B' else read)
    return Mat(r, c, lambda i, j: rd(nm, i, j), sort)


def const_mat(r, c, v, sort='R'):
    v = num(v) if sort != 'B' else v
    return Mat(r, c, lambda i, j: v, sort)


def mat_map(f, *ms, sort='R'):
    a = ms[0]
    return Mat(a.r, a.c, lambda i, j: f(*[m.get(i, j) for m in ms]), sort)


def transpose(m):
    return Mat(m.c, m.r, lambda i, j: m.get(j, i), m.sort)


class Obj:
    """identity of a record object"""
    __slots__ = ('oid', 'ti', 'label', 'freed', 'arrays', 'end')

    def __init__(self, oid, ti, label=''):
        self.oid = oid
        self.ti = ti
        self.label = label
        self.freed = False

    def __repr__(self):
        return 'Obj(%s:%s)' % (self.oid, self.label)


class Ptr:
    """pointer: target is an lvalue (of a matrix, with element offset) or an Obj"""
    __slots__ = ('t', 'off')

    def __init__(self, t, off=ZERO):
        self.t = t
        self.off = num(off)

    def __repr__(self):
        return 'Ptr(%r+%s)' % (self.t, show(self.off))


class Fn:
    __slots__ = ('fid', 'caps', 'this', 'name', 'key')

    def __init__(self, fid, caps=None, this=None, name='', key=None):
        self.fid = fid
        self.caps = caps
        self.this = this
        self.name = name
        self.key = key


class LV:
    pass


HEAP = [None]   # the interpreter's current heap (dict)


class CellLV(LV):
    __slots__ = ('k', 't')

    def __init__(self, k, t=None):
        self.k = k
        self.t = t

    def get(self):
        v = HEAP[0].get(self.k, HEAP)
        if v is HEAP:
            raise Unsupported('read of unknown cell %s' % (self.k,))
        return v

    def set(self, v):
        HEAP[0][self.k] = v

    def __repr__(self):
        return 'Cell%s' % (self.k,)

    def ident(self):
        return ('cell', self.k)


class ConstLV(LV):
    """temporary bound to a reference / rvalue materialised"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v

    def ident(self):
        return ('tmp', id(self))


class ElemLV(LV):
    __slots__ = ('base', 'i', 'j')

    def __init__(self, base, i, j):
        self.base = base
        self.i = num(i)
        self.j = num(j)

    def get(self):
        return self.base.get().get(self.i, self.j)

    def set(self, v):
        m = self.base.get()
        if m.sort != 'B':
            v = num(v)
        self.base.set(m.setelem(self.i, self.j, v))

    def ident(self):
        return ('elem', self.base.ident(), self.i.id, self.j.id)


class ViewLV(LV):
    """rectangular view: fwd(i,j)->(bi,bj); inv(bi,bj)->(cond,(i,j))"""
    __slots__ = ('base', 'r', 'c', 'fwd', 'inv', 'kind')

    def __init__(self, base, r, c, fwd, inv, kind='view'):
        self.base = base
        self.r = num(r)
        self.c = num(c)
        self.fwd = fwd
        self.inv = inv
        self.kind = kind

    def get(self):
        m = self.base.get()
        fwd = self.fwd
        return Mat(self.r, self.c, lambda i, j: m.get(*fwd(i, j)), m.sort)

    def set(self, v):
        old = self.base.get()
        cr, cc = const(self.r), const(self.c)
        dr, dc = old.dims()
        if cr is not None and cc is not None and dr is not None and dc is not None:
            ov = dict(old.ov) if old.ov else {}
            ok = True
            upd = []
            for i in range(cr):
                for j in range(cc):
                    a, b = self.fwd(num(i), num(j))
                    ca, cb = const(a), const(b)
                    if ca is None or cb is None:
                        ok = False
                        break
                    upd.append(((ca, cb), v.get(i, j)))
                if not ok:
                    break
            if ok:
                ov.update(upd)
                self.base.set(Mat(old.r, old.c, old.g, old.sort, ov))
                return
        inv = self.inv

        def g(a, b):
            c, ij = inv(a, b)
            return mk_ite(c, lambda: v.get(*ij()), lambda: old.get(a, b))
        self.base.set(Mat(old.r, old.c, g, old.sort))

    def ident(self):
        return ('view', id(self))


def block_view(base, r0, c0, nr, nc):
    r0, c0, nr, nc = num(r0), num(c0), num(nr), num(nc)

    def fwd(i, j):
        return add(r0, i), add(c0, j)

    def inv(a, b):
        i = sub(a, r0)
        j = sub(b, c0)
        return and_(ge(i, 0), lt(i, nr), ge(j, 0), lt(j, nc)), lambda: (i, j)
    return ViewLV(base, nr, nc, fwd, inv, 'block')


def block_mat(m, r0, c0, nr, nc):
    r0, c0 = num(r0), num(c0)
    return Mat(nr, nc, lambda i, j: m.get(add(r0, i), add(c0, j)), m.sort)


def trans_view(lv):
    m = lv.get()
    return ViewLV(lv, m.c, m.r, lambda i, j: (j, i), lambda a, b: (TRUE, lambda: (b, a)), 'trans')


def map_view(ptr, r, c):
    """Eigen::Map over a flat vector lvalue (column-major)"""
    r, c = num(r), num(c)
    base = ptr.t
    m = base.get()
    off = ptr.off
    n = mul(r, c)
    if m.r is r and m.c is c and off is ZERO:
        return ViewLV(base, r, c, lambda i, j: (i, j), lambda a, b: (TRUE, lambda: (a, b)), 'map')

    def lin(i, j):
        return add(off, add(i, mul(j, r)))

    def fwd(i, j):
        return unflat(lin(i, j), m.r, m.c)

    def inv(a, b):
        p = sub(add(a, mul(b, m.r)), off)
        return and_(ge(p, 0), lt(p, n)), lambda: unflat(p, r, c)
    return ViewLV(base, r, c, fwd, inv, 'map')


def load(x):
    while isinstance(x, LV):
        x = x.get()
    return x


# ------------------------------------------------------------------ named values
INLOOP = [0]   # inside a loop summary values depend on the iteration and are not named
DEFS = {}      # name -> matrix: entries are read as atoms and unfolded when a specification looks at them


def named(m, prefix='def'):
    nm = 'pre!%s' % freshname(prefix)
    DEFS[nm] = m
    rd = iread if m.sort == 'I' else read
    return Mat(m.r, m.c, lambda i, j: rd(nm, i, j), m.sort)


def expand(t):
    """unfold the named matrices read in t"""
    import loops
    names = frozenset(DEFS)
    if not isinstance(t, T) or not (t.fv & names):
        return t

    def f(a):
        if a.op in ('read', 'iread') and a.args[0] in DEFS:
            i, j = [loops.transform(x, f, names) for x in a.args[1:]]
            return loops.transform(num(DEFS[a.args[0]].get(i, j)), f, names)
        return None
    return loops.transform(t, f, names)

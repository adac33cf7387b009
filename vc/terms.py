"""Hash-consed terms: numbers are Laurent polynomials over atoms, ints and reals share one form."""
from fractions import Fraction

_tab = {}
_n = [0]


class T:
    __slots__ = ('op', 'args', 'id', 'sort', 'bh', 'fv')

    def __repr__(self):
        return show(self)

    # arithmetic sugar (num terms and atoms)
    def __add__(a, b):
        return add(a, num(b))

    __radd__ = __add__

    def __sub__(a, b):
        return sub(a, num(b))

    def __rsub__(a, b):
        return sub(num(b), a)

    def __mul__(a, b):
        return mul(a, num(b))

    __rmul__ = __mul__

    def __truediv__(a, b):
        return div(a, num(b))

    def __rtruediv__(a, b):
        return div(num(b), a)

    def __neg__(a):
        return scale(a, -1)

    def __invert__(a):
        return not_(a)


def intern(op, args, sort, bh=0, fv=frozenset()):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.bh = bh
        t.fv = fv
        _n[0] += 1
        t.id = _n[0]
        _tab[k] = t
    return t


_EMPTY = frozenset()


def _mk(op, args, sort, h=None):
    """generic constructor computing binder height and free names"""
    bh = 0
    fv = set()
    if op in ('read', 'iread', 'bread') and args[0].startswith('pre!'):
        fv.add(args[0])
    elif op == 'fun' and args[0].startswith('seq:'):
        fv.add(args[0])
    st = list(args)
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.bh > bh:
                bh = x.bh
            fv |= x.fv
        elif isinstance(x, tuple):
            st.extend(x)
    if h is not None and h > bh:
        bh = h
    return intern(op, args, sort, bh, frozenset(fv) if fv else _EMPTY)


# ------------------------------------------------------------------ atoms
_attr = {}  # atom id -> set of flags ('nonneg','pos')


def ivar(name, nonneg=False):
    k = ('ivar', (name,))
    t = _tab.get(k)
    if t is None:
        t = intern('ivar', (name,), 'I', 0, frozenset((name,)))
    if nonneg:
        _attr.setdefault(t.id, set()).add('nonneg')
    return numof(t)


def rvar(name, pos=False):
    t = intern('rvar', (name,), 'R', 0, frozenset((name,)))
    if pos:
        _attr.setdefault(t.id, set()).add('pos')
    return numof(t)


def bvar(name):
    return intern('bvar', (name,), 'B', 0, frozenset((name,)))


_posreads = set()
_finreads = set()
_ireads_nonneg = set()


def read(name, *idx):
    return numof(_mk('read', (name,) + tuple(num(i) for i in idx), 'R'))


def iread(name, *idx):
    if name.startswith('spo:') and num(idx[0]) is ZERO:
        return ZERO      # the first column of a sparse matrix starts at 0
    return numof(_mk('iread', (name,) + tuple(num(i) for i in idx), 'I'))


def bread(name, *idx):
    return _mk('bread', (name,) + tuple(num(i) for i in idx), 'B')


def bv(h, w):
    # bound variables are never free names
    return numof(intern('bv', (h, w), 'I', 0, _EMPTY))


# ------------------------------------------------------------------ numbers
def numof(atom):
    return intern('num', (((((atom, 1),)), 1),), atom.sort, atom.bh, atom.fv)


_const = {}


def num(x):
    if isinstance(x, T):
        if x.op == 'num':
            return x
        if x.sort == 'B':
            return ite(x, num(1), num(0))
        return numof(x)
    t = _const.get(x) if not isinstance(x, bool) else None
    if t is None:
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, float):
            if x == float('inf'):
                return INF
            if x == float('-inf'):
                return scale(INF, -1)
            x = Fraction(x)
        if isinstance(x, Fraction) and x.denominator == 1:
            x = int(x)
        if x == 0:
            t = intern('num', (), 'I')
        else:
            t = intern('num', (((), x),), 'I' if isinstance(x, int) else 'R')
        _const[x] = t
    return t


def _monokey(m):
    return tuple((a.id, e) for a, e in m)


def _from(d):
    items = []
    sort = 'I'
    bh = 0
    fv = set()
    for m, c in d.items():
        if c == 0:
            continue
        if isinstance(c, Fraction) and c.denominator == 1:
            c = int(c)
        if not isinstance(c, int):
            sort = 'R'
        for a, e in m:
            if a.sort != 'I' or e < 0:
                sort = 'R'
            if a.bh > bh:
                bh = a.bh
            if a.fv:
                fv |= a.fv
        items.append((m, c))
    items.sort(key=lambda mc: (len(mc[0]), _monokey(mc[0])))
    return intern('num', tuple(items), sort, bh, frozenset(fv) if fv else _EMPTY)


def add(a, b):
    if not a.args:
        return b
    if not b.args:
        return a
    d = dict(a.args)
    for m, c in b.args:
        d[m] = d.get(m, 0) + c
    return _from(d)


def sub(a, b):
    if a is b:
        return ZERO
    if not b.args:
        return a
    d = dict(a.args)
    for m, c in b.args:
        d[m] = d.get(m, 0) - c
    return _from(d)


def scale(a, k):
    a = num(a)
    if k == 1:
        return a
    if k == 0:
        return ZERO
    return _from({m: c * k for m, c in a.args})


_infatom = None


def _mulmono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    l = [(a, e) for a, e in d.items() if e != 0]
    l.sort(key=lambda x: x[0].id)
    if _infatom is not None and _infatom in d and len(l) > 1:
        # inf times a positive quantity is inf
        keep = [(a, e) for a, e in l if a is _infatom or not is_pos_atom(a)]
        l = keep
    return tuple(l)


def mul(a, b):
    if not a.args or not b.args:
        return ZERO
    d = {}
    for m1, c1 in a.args:
        for m2, c2 in b.args:
            m = _mulmono(m1, m2)
            c = c1 * c2
            if _infatom is not None and any(x is _infatom for x, _ in m) and abs(c) != 1 and len(m) == 1:
                c = 1 if c > 0 else -1
            d[m] = d.get(m, 0) + c
    return _from(d)


_divhook = [None]


def recip(b):
    b = num(b)
    if len(b.args) == 1:
        m, c = b.args[0]
        if isinstance(c, int):
            c = Fraction(1, c)
        else:
            c = 1 / c
        return _from({tuple((a, -e) for a, e in m): c})
    if not b.args:
        return numof(_mk('inv', (b,), 'R'))
    lc = b.args[-1][1]
    p = scale(b, Fraction(1) / lc)
    return scale(numof(_mk('inv', (p,), 'R')), Fraction(1) / lc)


def div(a, b):
    a = num(a)
    b = num(b)
    return mul(a, recip(b))


def const(t):
    """python number of a constant number term, else None"""
    if t.op != 'num':
        return None
    if not t.args:
        return 0
    if len(t.args) == 1 and not t.args[0][0]:
        return t.args[0][1]
    return None


def atom(t):
    """the atom of a number term that is exactly one atom"""
    if t.op == 'num' and len(t.args) == 1:
        m, c = t.args[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


ZERO = num(0)
ONE = num(1)
INFATOM = intern('rvar', ('inf',), 'R', 0, frozenset(('inf',)))
_infatom = INFATOM
INF = numof(INFATOM)
_attr.setdefault(INFATOM.id, set()).add('pos')

_funpos = ('absmax1',)


def is_pos_atom(a):
    if a.op in ('rvar', 'ivar'):
        return 'pos' in _attr.get(a.id, ())
    if a.op == 'read':
        return a.args[0] in _posreads
    if a.op == 'max':
        return is_pos(a.args[0]) or is_pos(a.args[1])
    if a.op == 'min':
        return is_pos(a.args[0]) and is_pos(a.args[1])
    if a.op == 'sqrt':
        return is_pos(a.args[0])
    if a.op == 'ite':
        return is_pos(a.args[1]) and is_pos(a.args[2])
    if a.op == 'inv':
        return is_pos(a.args[0])
    return False


def is_nonneg_atom(a):
    if a.op == 'ivar':
        return bool(_attr.get(a.id))
    if a.op in ('abs', 'div', 'mod', 'sqrt'):
        return True
    if a.op == 'iread':
        return a.args[0] in _ireads_nonneg
    if a.op == 'max':
        return is_nonneg(a.args[0]) or is_nonneg(a.args[1])
    if a.op == 'ite':
        return is_nonneg(a.args[1]) and is_nonneg(a.args[2])
    return is_pos_atom(a)


def is_pos(t):
    """sufficient syntactic positivity"""
    t = num(t)
    if not t.args:
        return False
    strict = False
    for m, c in t.args:
        if c < 0:
            return False
        if all(is_pos_atom(a) for a, e in m):
            strict = True
        elif not all(is_nonneg_atom(a) or e % 2 == 0 for a, e in m):
            return False
    return strict


def is_nonneg(t):
    t = num(t)
    for m, c in t.args:
        if c < 0:
            return False
        if not all(is_nonneg_atom(a) or e % 2 == 0 for a, e in m):
            return False
    return True


# ------------------------------------------------------------------ booleans
TRUE = intern('true', (), 'B')
FALSE = intern('false', (), 'B')


def boolt(x):
    if isinstance(x, T):
        if x.sort == 'B':
            return x
        return ne(x, ZERO)
    return TRUE if x else FALSE


def ge0(p):
    c = const(p)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if p.sort == 'I':
        # normalise by the gcd of the coefficients
        from math import gcd
        g = 0
        k = 0
        for m, co in p.args:
            if m:
                g = gcd(g, abs(co))
            else:
                k = co
        if g > 1:
            p = _from({m: (co // g) for m, co in p.args})
    if p is INF:
        return TRUE
    q = _constite(p, ge0)
    if q is not None:
        return q
    return _mk('ge', (p,), 'B')


def ge(a, b):
    return ge0(sub(num(a), num(b)))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    a = num(a)
    b = num(b)
    if a.sort == 'I' and b.sort == 'I':
        return ge0(sub(sub(b, a), ONE))
    return not_(ge(a, b))


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a.sort == 'B' and b.sort == 'B':
        if a is b:
            return TRUE
        return or_(and_(a, b), and_(not_(a), not_(b)))
    p = sub(num(a), num(b))
    c = const(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    q = _constite(p, lambda x: eq(x, ZERO))
    if q is not None:
        return q
    # sign normalisation
    if p.args[-1][1] < 0:
        p = scale(p, -1)
    return _mk('eq', (p,), 'B')


def _constite(p, f):
    """comparison of a constant-valued ite becomes its condition"""
    if len(p.args) > 2:
        return None
    it = None
    for m, c in p.args:
        if m == ():
            continue
        if it is not None or len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'ite':
            return None
        it = (m[0][0], c)
    if it is None:
        return None
    a, c = it
    x, y = const(a.args[1]), const(a.args[2])
    if x is None or y is None:
        return None
    rest = sub(p, scale(numof(a), c))
    return ite(a.args[0], boolt(f(add(rest, num(x * c)))), boolt(f(add(rest, num(y * c)))))


def ne(a, b):
    return not_(eq(a, b))


def not_(b):
    b = boolt(b)
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == 'ge' and b.args[0].sort == 'I':
        return ge0(sub(scale(b.args[0], -1), ONE))
    return _mk('not', (b,), 'B')


def and_(*bs):
    l = []
    for b in bs:
        b = boolt(b)
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == 'and':
            l.extend(b.args)
        else:
            l.append(b)
    s = []
    seen = set()
    for b in l:
        if b.id in seen:
            continue
        seen.add(b.id)
        s.append(b)
    for b in s:
        if not_(b).id in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _mk('and', tuple(sorted(s, key=lambda x: x.id)), 'B')


def or_(*bs):
    return not_(and_(*[not_(b) for b in bs]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c = boolt(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        b = boolt(b)
        a = boolt(a)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not':
        c = c.args[0]
        a, b = b, a
    a = num(a)
    b = num(b)
    return numof(_mk('ite', (c, a, b), 'I' if a.sort == 'I' and b.sort == 'I' else 'R'))


# ------------------------------------------------------------------ functions
def absn(t):
    t = num(t)
    c = const(t)
    if c is not None:
        return num(abs(c))
    if is_nonneg(t):
        return t
    if t.args[-1][1] < 0:
        t = scale(t, -1)
    return numof(_mk('abs', (t,), t.sort))


def maxn(a, b):
    a = num(a)
    b = num(b)
    if a is b:
        return a
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return a if ca >= cb else b
    if a.id > b.id:
        a, b = b, a
    return numof(_mk('max', (a, b), 'I' if a.sort == b.sort == 'I' else 'R'))


def minn(a, b):
    return scale(maxn(scale(a, -1), scale(b, -1)), -1)


def sqrtn(t):
    t = num(t)
    c = const(t)
    if c is not None and c >= 0:
        import math
        f = Fraction(c)
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return num(Fraction(n, d))
    return numof(_mk('sqrt', (t,), 'R'))


def fun(name, *args):
    return numof(_mk('fun', (name,) + tuple(num(a) for a in args), 'R'))


def idiv(a, n):
    a, n = num(a), num(n)
    ca, cn = const(a), const(n)
    if ca is not None and cn:
        return num(ca // cn)
    q, r = pullout(a, n)
    if q is not ZERO:
        return add(q, idiv(r, n))
    return numof(_mk('div', (a, n), 'I'))


def imod(a, n):
    a, n = num(a), num(n)
    ca, cn = const(a), const(n)
    if ca is not None and cn:
        return num(ca % cn)
    q, r = pullout(a, n)
    if q is not ZERO:
        return imod(r, n)
    return numof(_mk('mod', (a, n), 'I'))


def pullout(a, n):
    """a = q*n + r with the terms of a divisible by the monomial n in q (floor division, n > 0)"""
    if len(n.args) != 1:
        return ZERO, a
    nm, nc = n.args[0]
    if not nm:
        return ZERO, a
    nd = dict(nm)
    q = {}
    r = {}
    for m, c in a.args:
        d = dict(m)
        if all(d.get(x, 0) >= e for x, e in nd.items()) and isinstance(c, int) and c % nc == 0:
            t = tuple(sorted(((x, d[x] - nd.get(x, 0)) for x in d if d[x] != nd.get(x, 0)), key=lambda z: z[0].id))
            q[t] = c // nc
        else:
            r[m] = c
    return _from(q), _from(r)


def trunc(t):
    t = num(t)
    if t.sort == 'I':
        return t
    c = const(t)
    if c is not None:
        return num(int(c))
    return numof(_mk('trunc', (t,), 'I'))


# ------------------------------------------------------------------ binders
_fresh = [0]


def fresh(prefix='k', nonneg=True):
    _fresh[0] += 1
    return ivar('%s!%d' % (prefix, _fresh[0]), nonneg)


def freshname(prefix):
    _fresh[0] += 1
    return '%s!%d' % (prefix, _fresh[0])


def varname(v):
    return atom(v).args[0]


def close(op, var_terms, extra, body, sort):
    """build a binder node over ivars var_terms with body; extra = other (non bound) args"""
    h = body.bh + 1
    m = {atom(v): bv(h, w) for w, v in enumerate(var_terms)}
    b = subst(body, m)
    return _mk(op, tuple(extra) + (h, b), sort, h)


def opensub(t, vals):
    """substitute the bound variables of binder t (h, body are the last args)"""
    h, body = t.args[-2], t.args[-1]
    return subst(body, {atom(bv(h, w)): num(v) for w, v in enumerate(vals)}, bound=True)


def sum_raw(lo, hi, var, body):
    """sum for var in [lo,hi) of body"""
    body = num(body)
    lo = num(lo)
    hi = num(hi)
    if not body.args:
        return ZERO
    n = sub(hi, lo)
    c = const(n)
    if c is not None and c <= 0:
        return ZERO
    va = atom(var)
    if va.args[0] not in body.fv:
        # callers guarantee hi >= lo
        return mul(body, n)
    if c == 1:
        return subst(body, {va: lo})
    # pull monomial factors independent of the variable out of single-monomial bodies
    if len(body.args) > 1:
        r = ZERO
        for m, co in body.args:
            r = add(r, sum_raw(lo, hi, var, _from({m: co})))
        return r
    m, co = body.args[0]
    dep = []
    ind = []
    for a, e in m:
        (dep if va.args[0] in a.fv else ind).append((a, e))
    bodyd = _from({tuple(dep): 1})
    # shift to start at zero
    if const(lo) != 0:
        bodyd = subst(bodyd, {va: add(num(var), lo)})
    t = close('sum', (var,), (n,), bodyd, bodyd.sort)
    return mul(_from({tuple(ind): co}), numof(t))


def mlam(rows, cols, iv, jv, body):
    return close('mlam', (iv, jv), (num(rows), num(cols)), body, 'M')


def app(name, comp, args):
    return numof(_mk('app', (name, num(comp), tuple(args)), 'R'))


# ------------------------------------------------------------------ substitution
def subst(t, m, bound=False, memo=None):
    """m: atom -> num term.  Bound variables in m only when bound=True (always unique heights)."""
    if not m:
        return t
    names = None if bound else frozenset(a.args[0] for a in m if a.op in ('ivar', 'rvar', 'bvar'))
    # atoms other than variables: no pruning possible by name
    if names is not None and len(names) != len(m):
        names = None
    minh = min(a.args[0] for a in m) if bound else 0
    if memo is None:
        memo = {}

    def go(t):
        if names is not None and not (t.fv & names):
            return t
        if bound and not hasbv(t):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == 'num':
            r = ZERO
            d = {}
            simple = True
            for mo, c in t.args:
                changed = False
                p = None
                for a, e in mo:
                    b = goatom(a)
                    if b is not None:
                        changed = True
                        break
                if not changed:
                    d[mo] = d.get(mo, 0) + c
                    continue
                p = num(c)
                for a, e in mo:
                    b = goatom(a)
                    if b is None:
                        q = numof(a)
                    else:
                        q = b
                    if e < 0:
                        q = recip(q)
                        e = -e
                    for _ in range(e):
                        p = mul(p, q)
                for m2, c2 in p.args:
                    d[m2] = d.get(m2, 0) + c2
            r = _from(d)
        else:
            r = goatom(t)
            if r is None:
                r = t
        memo[t.id] = r
        return r

    amemo = {}

    def goatom(a):
        """None if unchanged, else replacement (num or bool term)"""
        if a in m:
            return m[a]
        if names is not None and not (a.fv & names):
            return None
        if bound and not hasbv(a):
            return None
        if a.id in amemo:
            return amemo[a.id]
        na = tuple(goany(x) for x in a.args)
        if all(x is y for x, y in zip(na, a.args)):
            r = None
        else:
            r = rebuild(a, na)
        amemo[a.id] = r
        return r

    def goany(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            y = tuple(goany(z) for z in x)
            return x if all(a is b for a, b in zip(x, y)) else y
        return x

    return go(t)


_hasbv = {}


def hasbv(t):
    r = _hasbv.get(t.id)
    if r is None:
        if t.op == 'bv':
            r = True
        else:
            r = False
            st = list(t.args)
            while st:
                x = st.pop()
                if isinstance(x, T):
                    if hasbv(x):
                        r = True
                        break
                elif isinstance(x, tuple):
                    st.extend(x)
        _hasbv[t.id] = r
    return r


def rebuild(a, na):
    op = a.op
    if op == 'read':
        return numof(_mk('read', na, 'R'))
    if op == 'iread':
        return numof(_mk('iread', na, 'I'))
    if op == 'bread':
        return _mk('bread', na, 'B')
    if op == 'ite':
        return ite(*na)
    if op == 'ge':
        return ge0(na[0])
    if op == 'eq':
        return eq(na[0], ZERO)
    if op == 'not':
        return not_(na[0])
    if op == 'and':
        return and_(*na)
    if op == 'abs':
        return absn(na[0])
    if op == 'max':
        return maxn(*na)
    if op == 'sqrt':
        return sqrtn(na[0])
    if op == 'div':
        return idiv(*na)
    if op == 'mod':
        return imod(*na)
    if op == 'trunc':
        return trunc(na[0])
    if op == 'inv':
        return recip(na[0])
    if op == 'sum':
        n, h, body = na
        v = fresh('q')
        b = subst(body, {atom(bv(h, 0)): v}, bound=True)
        return sum_raw(ZERO, n, v, b)
    if op in ('mlam', 'dlam', 'forall', 'extr'):
        h = na[-2]
        # keep the canonical height
        nb = {'mlam': 2, 'dlam': 1, 'forall': 2, 'extr': 2}[op]
        vs = [fresh('q') for _ in range(nb)]
        b = subst(na[-1], {atom(bv(h, w)): v for w, v in enumerate(vs)}, bound=True)
        r = close(op, vs, na[:-2], b, a.sort)
        return numof(r) if a.sort in ('I', 'R') else r
    if op == 'app':
        return app(*na)
    if op == 'fun':
        return numof(_mk('fun', na, 'R'))
    if op == 'mlamtheta':
        raise Exception
    r = _mk(op, na, a.sort)
    return numof(r) if r.sort in ('I', 'R') else r


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return '…'
    if t.op == 'num':
        if not t.args:
            return '0'
        o = []
        for m, c in t.args:
            f = '*'.join(show(a, d + 1) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not f:
                o.append(str(c))
            elif c == 1:
                o.append(f)
            elif c == -1:
                o.append('-' + f)
            else:
                o.append('%s*%s' % (c, f))
        return '(' + ' + '.join(o) + ')' if len(o) > 1 else o[0]
    if t.op in ('ivar', 'rvar', 'bvar'):
        return t.args[0]
    if t.op == 'bv':
        return '#%d.%d' % t.args
    if t.op in ('read', 'iread', 'bread'):
        return '%s[%s]' % (t.args[0], ','.join(show(x, d + 1) for x in t.args[1:]))
    if t.op == 'ge':
        return '%s>=0' % show(t.args[0], d + 1)
    if t.op == 'eq':
        return '%s==0' % show(t.args[0], d + 1)

    def sh(x):
        if isinstance(x, tuple):
            return '(' + ','.join(sh(y) for y in x) + ')'
        return show(x, d + 1)
    return '%s(%s)' % (t.op, ', '.join(sh(x) for x in t.args))


def atoms_of(t, acc=None, seen=None):
    """all atoms (not below binders) reachable in t, including inside ite/args"""
    if acc is None:
        acc = {}
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'num':
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
        else:
            if x.sort in ('I', 'R') or x.op in ('bvar', 'bread'):
                acc[x.id] = x
            st.extend(x.args)
    return acc

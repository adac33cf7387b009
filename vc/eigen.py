"""Contracts of the external operations (Eigen, the standard library) over the interpreter's values."""
from fractions import Fraction
from terms import *
import terms as TT
import values as VV
from values import *
from smt import assume, prove, decide
import norm


def _asmat(I, v):
    v0 = v
    v = load(v)
    if isinstance(v, Mat):
        return v
    if isinstance(v, T):
        return const_mat(1, 1, v)
    if isinstance(v, Sparse):
        return v.m
    I.unsup('matrix expected, got %r' % (v,))


class Sparse:
    """Eigen::SparseMatrix: dense contents m, plus which structural entries exist"""

    def __init__(self, m, nz=None, compressed=True):
        self.m = m
        self.nz = nz            # None: exactly the nonzero entries;  else function (i,j)->cond
        self.compressed = compressed


def sparse_empty(I):
    return Sparse(const_mat(0, 0, ZERO))


def dot(n, f):
    """sum over k in [0,n) of f(k)"""
    c = const(n)
    if c is not None and c <= 64:
        r = ZERO
        for k in range(c):
            r = add(r, f(num(k)))
        return r
    k = fresh('k')
    VV.DEC[0] += 1
    with assume(ge(k, 0), lt(k, n)):
        body = num(f(k))
    return norm.smart_sum(ZERO, num(n), k, body)


def product(I, a, b):
    oblige(eq(a.c, b.r), 'product dimensions')
    if a.tag and a.tag[0] == 'diag':
        d = a.tag[1]
        return Mat(a.r, b.c, lambda i, j: mul(d(i), num(b.get(i, j))))
    if b.tag and b.tag[0] == 'diag':
        d = b.tag[1]
        return Mat(a.r, b.c, lambda i, j: mul(num(a.get(i, j)), d(j)))

    def g(i, j):
        return dot(a.c, lambda k: mul_lazy(lambda: a.get(i, k), lambda: b.get(k, j)))
    m = Mat(a.r, b.c, g)
    if const(a.c) is None and a.sort != 'B' and not VV.INLOOP[0]:
        return VV.named(m)
    return m


def mul_lazy(fa, fb):
    x = num(fa())
    if not x.args:
        return ZERO
    return mul(x, num(fb()))


def eye(r, c):
    return Mat(r, c, lambda i, j: mk_ite(eq(i, j), lambda: ONE, lambda: ZERO))


def diag_of(vec):
    def d(i):
        return num(vec_get(vec, i))
    n = vec_len(vec)
    m = Mat(n, n, lambda i, j: mk_ite(eq(i, j), lambda: d(i), lambda: ZERO))
    m.tag = ('diag', d)
    return m


def vec_get(v, i):
    if v.c is ONE:
        return v.get(i, ZERO)
    if v.r is ONE:
        return v.get(ZERO, i)
    if prove(eq(v.c, 1)):
        return v.get(i, ZERO)
    return v.get(ZERO, i)


def vec_len(v):
    if v.c is ONE:
        return v.r
    if v.r is ONE:
        return v.c
    if prove(eq(v.c, 1)):
        return v.r
    return v.c


def ew(I, op, a, b, what='elementwise'):
    """elementwise combination"""
    if const(a.c) == 1 and const(b.r) == 1 and const(a.r) != 1:
        pass
    oblige(and_(eq(a.r, b.r), eq(a.c, b.c)), what + ' dimensions')
    return Mat(a.r, a.c, lambda i, j: op(a.get(i, j), b.get(i, j)))


# ------------------------------------------------------------------ construction
def construct_mat(I, e, md):
    R, C, sc = md
    args = e['a']
    sort = {'int': 'I', 'bool': 'B'}.get(sc, 'R')
    if not args:
        return I.default_value(e['t'])
    pts = e['f'].get('pt') or []
    if len(args) == 1:
        v = I.ev(args[0])
        v = load(v)
        if isinstance(v, Sparse):
            return v.m
        if isinstance(v, Mat):
            return I.fit(e['t'], v)
        if isinstance(v, T):
            # size constructor (or 1x1 fixed)
            if R == 1 and C == 1:
                return const_mat(1, 1, v, sort)
            if C == 1:
                if isinstance(R, T) or R > 0:
                    oblige(eq(v, R), 'fixed size construction')
                return undef_mat(v, 1, sort)
            if R == 1:
                return undef_mat(1, v, sort)
            return undef_mat(v, 1, sort)
        if isinstance(v, list):
            return list_mat(I, v)
        I.unsup('matrix from %r' % (v,))
    if len(args) == 2:
        a, b = I.val(args[0]), I.val(args[1])
        if isinstance(a, T) and isinstance(b, T):
            if not isinstance(R, T) and not isinstance(C, T) and R > 0 and C > 0 and R * C == 2:
                m = undef_mat(R, C, sort)
                return m.setelem(ZERO, ZERO, a).setelem(ONE if R == 2 else ZERO, ZERO if R == 2 else ONE, b)
            oblige(and_(ge(a, 0), ge(b, 0)), 'matrix size')
            return undef_mat(a, b, sort)
    vals = [I.val(a) for a in args]
    if all(isinstance(v, T) for v in vals) and len(vals) in (3, 4):
        m = undef_mat(len(vals), 1, sort)
        for i, v in enumerate(vals):
            m = m.setelem(num(i), ZERO, v)
        return m
    I.unsup('matrix construction with %d arguments' % len(args))


def list_mat(I, v):
    if v and isinstance(v[0], list):
        r, c = len(v), len(v[0])
        return Mat(r, c, lambda i, j: v[const(i)][const(j)])
    return Mat(len(v), 1, lambda i, j: v[const(i)])


def construct_std(I, e, x):
    n = x.get('name') or ''
    args = e['a']
    import interp as IN
    if n in IN.EXC_BASES:
        if not args:
            return IN.Exc(n, {'std::bad_alloc': 'std::bad_alloc'}.get(n, n))
        if e.get('copy'):
            v = I.val(args[0])
            if isinstance(v, IN.Exc):
                return v
        v = I.val(args[0])
        return IN.Exc(n, v if isinstance(v, str) else None)
    if n == 'std::basic_string':
        if not args:
            return ''
        v = I.val(args[0])
        if isinstance(v, (str, T)) or v is None:
            return v
        if isinstance(v, tuple):
            return v
        I.unsup('string construction')
    if n == 'std::vector':
        if not I.vec_elem_num(x):
            if not args:
                return []
            v = I.val(args[0])
            if isinstance(v, list):
                return list(v)
            I.unsup('vector construction')
        sort = I.scal_sort(x['args'][0]['t'])
        if not args:
            return Mat(0, 1, lambda i, j: ZERO, sort)
        a = I.val(args[0])
        if isinstance(a, Mat):
            return a
        if isinstance(a, Sparse):
            return a
        if isinstance(a, list):
            return list_mat(I, a)
        if isinstance(a, Ptr):
            b = I.val(args[1])
            ln = sub(b.off, a.off)
            m = a.t.get()
            oblige(and_(ge(a.off, 0), ge(ln, 0), le(b.off, m.size())), 'iterator range')
            return Mat(ln, 1, lambda i, j: m.flat(add(a.off, i)), m.sort)
        if isinstance(a, T):
            v = ZERO
            if len(args) > 1:
                bt = I.tname(args[1].get('t')) if args[1].get('t') is not None else ''
                if 'allocator' not in bt:
                    v = I.val(args[1])
            if sort == 'B':
                v = boolt(v)
            return const_mat(a, 1, v, sort)
        I.unsup('vector construction')
    if n == 'std::function':
        if not args:
            return None
        return I.val(args[0])
    if n in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr'):
        if not args:
            return None
        return I.val(args[0])
    if n == 'std::map':
        if e.get('copy'):
            return I.val(args[0])
        return IN.MapVal({k: (FALSE, ZERO) for k in range(5)})
    if n.startswith('std::chrono::'):
        if not args:
            return ZERO
        return I.val(args[0])
    if n in ('std::basic_stringstream', 'std::basic_ostringstream'):
        return IN.Stream()
    if n == 'Eigen::Map':
        return make_map(I, e, x)
    if n in ('Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Transpose', 'Eigen::Ref', 'Eigen::ArrayWrapper') or n.startswith('Eigen::Cwise') or n.startswith('Eigen::Product'):
        return I.ev(args[0])
    if n.endswith('::InnerIterator'):
        return sparse_iter(I, e, args)
    if n == 'Eigen::SparseMatrix':
        if not args:
            return sparse_empty(I)
        v = I.val(args[0])
        if isinstance(v, Sparse):
            return v
        if isinstance(v, T):
            return Sparse(const_mat(v, I.val(args[1]), ZERO))
    if n.startswith('std::') and not args:
        return ('opaque', n)
    if n.startswith('Eigen::') and n in ('Eigen::Stride', 'Eigen::IOFormat'):
        return ('opaque', n)
    if e.get('copy') or len(args) == 1:
        return I.ev(args[0])
    if n.startswith('std::') or n == 'Eigen::IOFormat':
        return ('opaque', n)
    I.unsup('construction of ' + x.get('s', n))


def make_map(I, e, x):
    args = e['a']
    a0 = x['args'][0]
    mt = I.T(a0['t'])
    R, C = mt['args'][1], mt['args'][2]
    p = I.val(args[0])
    dims = []
    for a in args[1:]:
        if I.T(a['t'])['k'] == 'rec':
            continue
        dims.append(num(I.val(a)))
    if len(dims) == 2:
        r, c = dims
    elif len(dims) == 1:
        r, c = (dims[0], ONE) if C == 1 else (ONE, dims[0])
    else:
        r, c = num(R), num(C)
    if p is None:
        oblige(FALSE, 'map over null')
        I.unsup('map over null')
    if isinstance(p, Ptr) and isinstance(p.t, Obj):
        I.unsup('map over object')
    base = p.t
    m = load(base)
    if not isinstance(m, Mat):
        if isinstance(base, LV):
            # pointer to a scalar cell
            I.unsup('map over scalar')
    if R > 0:
        oblige(eq(r, R), 'map rows')
        r = num(R)
    if C > 0:
        oblige(eq(c, C), 'map columns')
        c = num(C)
    oblige(and_(ge(p.off, 0), le(add(p.off, mul(r, c)), m.size())), 'map extent')
    return map_view(p, r, c)


# ------------------------------------------------------------------ methods
def dims_of(v):
    m = v if isinstance(v, (Mat, ViewLV)) else load(v)
    if isinstance(m, Sparse):
        m = m.m
    return m.r, m.c


def blk(I, base, r0, c0, nr, nc, kind):
    m = load(base)
    if not isinstance(m, Mat):
        I.unsup('block of %r' % (m,))
    r0, c0, nr, nc = num(r0), num(c0), num(nr), num(nc)
    oblige(and_(ge(r0, 0), ge(nr, 0), le(add(r0, nr), m.r), ge(c0, 0), ge(nc, 0), le(add(c0, nc), m.c)), kind + ' extent')
    if isinstance(base, LV):
        return block_view(base, r0, c0, nr, nc)
    return block_mat(m, r0, c0, nr, nc)


def elem(I, base, i, j=None):
    m = load(base)
    if not isinstance(m, Mat):
        I.unsup('element of %r' % (m,))
    if j is None:
        if m.c is ONE or (const(m.c) is None and prove(eq(m.c, 1))):
            i, j = num(i), ZERO
        elif m.r is ONE or (const(m.r) is None and prove(eq(m.r, 1))):
            i, j = ZERO, num(i)
        elif const(m.c) == 0 or const(m.r) == 0:
            i, j = num(i), ZERO
        else:
            oblige(and_(ge(num(i), 0), lt(num(i), m.size())), 'element index')
            i, j = unflat(num(i), m.r, m.c)
    i, j = num(i), num(j)
    oblige(and_(ge(i, 0), lt(i, m.r), ge(j, 0), lt(j, m.c)), 'element index')
    if isinstance(base, LV):
        return ElemLV(base, i, j)
    return m.get(i, j)


def setall(I, obj, v):
    m = load(obj)
    f = v if callable(v) else (lambda i, j: v)
    new = Mat(m.r, m.c, f, m.sort)
    if not isinstance(obj, LV):
        I.unsup('set on temporary')
    obj.set(new)
    return obj


def reduce_(I, m, op, what):
    r, c = m.dims()
    if r is None or c is None:
        return None
    acc = None
    for j in range(c):
        for i in range(r):
            x = m.get(num(i), num(j))
            acc = x if acc is None else op(acc, x)
    return acc


def exists_(m, f):
    """disjunction over all entries of f(entry)"""
    return not_(forall_(m, lambda x: not_(boolt(f(x)))))


def forall_(m, f):
    r, c = m.dims()
    if r is not None and c is not None:
        return and_(*[boolt(f(m.get(num(i), num(j)))) for i in range(r) for j in range(c)])
    return norm.mk_forall2(m.r, m.c, lambda i, j: boolt(f(m.get(i, j))))


def targ_ints(f):
    out = []
    for a in f.get('targs') or []:
        if isinstance(a, int):
            out.append(a)
        elif isinstance(a, dict) and 'pack' in a:
            out += [x for x in a['pack'] if isinstance(x, int)]
    return out


def method(I, f, e):
    name = f['name']
    q = f['q']
    if name.startswith('operator bool') or name == 'operator bool':
        v = I.val(e['e'])
        if isinstance(v, Obj) and (v.oid, '#pos') in I.H:
            return lt(I.H[(v.oid, '#pos')], v.end)
        return FALSE if v is None else TRUE
    obj = I.ev(e['e'])
    args = e['a']
    if isinstance(obj, Ptr) and e.get('arrow'):
        obj = I.deref(obj)
    v = load(obj)
    if isinstance(v, Ptr) and e.get('arrow'):
        obj = I.deref(v)
        v = load(obj)
    if isinstance(v, Obj) and (v.oid, '#pos') in I.H:
        return iter_method(I, name, v)
    if isinstance(v, Obj):
        if name == 'operator=':
            src = I.obj_of(I.ev(args[0]))
            I.copy_obj(v, src)
            return v
        if name == 'what':
            return I.H.get((v.oid, '#what'), '')
        I.unsup('method %s on object' % q)
    import interp as IN
    if isinstance(v, Mat):
        if 'std::vector' in q or q.startswith('std::'):
            return vec_method(I, name, obj, v, args, f, e)
        return mat_method(I, name, obj, v, args, f, e)
    if isinstance(v, Sparse):
        return sparse_method(I, name, obj, v, args, e)
    if isinstance(v, IN.Exc):
        if name == 'what':
            return v.msg if v.msg is not None else ('opaque', 'what')
    if isinstance(v, str):
        if name in ('operator=', 'assign'):
            obj.set(I.val(args[0]))
            return obj
        if name == 'c_str' or name == 'data':
            return v
        if name == 'empty':
            return TRUE if v == '' else FALSE
        if name in ('size', 'length'):
            return num(len(v))
        if name == 'clear':
            obj.set('')
            return obj
    if isinstance(v, list):
        if name in ('size',):
            return num(len(v))
        if name == 'empty':
            return TRUE if not v else FALSE
        if name in ('push_back', 'emplace_back'):
            x = I.init_value(args[0]['t'], args[0]) if isinstance(args[0], dict) else None
            obj.set(v + [x])
            return None
        if name == 'clear':
            obj.set([])
            return None
        if name == 'back':
            return v[-1]
        if name == 'begin':
            return ('iter', obj, 0)
        if name == 'end':
            return ('iter', obj, len(v))
    if isinstance(v, IN.MapVal):
        return map_method(I, name, obj, v, args)
    if isinstance(v, IN.Stream):
        if name == 'str':
            if all(isinstance(p, str) for p in v.parts):
                return ''.join(v.parts)
            return ('opaque', 'stream text')
        return ('opaque', 'stream')
    if isinstance(v, T):
        if name == 'count':
            return v
        if name == 'time_since_epoch':
            return v
        if name in ('value',):
            return v
    if name in ('get', 'operator->', 'operator*', 'data'):
        return v
    if name == 'reset' and (v is None or isinstance(v, Ptr)):
        obj.set(I.val(args[0]) if args else None)
        return None
    if name == 'swap':
        o2 = I.ev(args[0])
        a, b = load(obj), load(o2)
        obj.set(b)
        o2.set(a)
        return None
    if isinstance(v, tuple):
        if v[0] in ('opaque', 'logger'):
            return v
    if name == 'operator=':
        x = I.val(args[0])
        obj.set(x)
        return obj
    I.unsup('method %s on %r' % (q, v))


def map_method(I, name, obj, v, args):
    import interp as IN
    if name == 'clear':
        obj.set(IN.MapVal({k: (FALSE, ZERO) for k in v.tab}))
        return None
    if name == 'empty':
        return not_(or_(*[p for p, _ in v.tab.values()]))
    if name == 'size':
        r = ZERO
        for p, _ in v.tab.values():
            r = add(r, num(ite(p, ONE, ZERO)))
        return r
    if name in ('count', 'contains'):
        k = num(I.val(args[0]))
        c = or_(*[and_(eq(k, kk), p) for kk, (p, _) in v.tab.items()])
        return c if name == 'contains' else num(ite(c, ONE, ZERO))
    if name == 'at':
        return map_read(v, num(I.val(args[0])))
    if name in ('find', 'begin', 'end'):
        return ('mapiter', name)
    I.unsup('map method ' + name)


def map_read(v, k):
    r = ZERO
    for kk, (p, x) in v.tab.items():
        # absent entries hold zero
        r = num(ite(eq(k, kk), x, r))
    return r


class MapElemLV(LV):
    def __init__(self, base, k):
        self.base = base
        self.k = num(k)

    def get(self):
        return map_read(self.base.get(), self.k)

    def set(self, x):
        import interp as IN
        v = self.base.get()
        x = num(x)
        tab = {}
        for kk, (p, y) in v.tab.items():
            c = eq(self.k, kk)
            if c is FALSE:
                tab[kk] = (p, y)
                continue
            with assume(c):
                xx = smt.simp(x)
            tab[kk] = (or_(p, c), num(ite(c, xx, y)))
        self.base.set(IN.MapVal(tab))

    def ident(self):
        return ('mapelem', self.base.ident(), self.k.id)


def vec_method(I, name, obj, v, args, f, e):
    if name == 'size':
        return v.r
    if name == 'empty':
        return eq(v.r, 0)
    if name in ('data', 'begin', 'cbegin'):
        return Ptr(obj if isinstance(obj, LV) else ConstLV(v))
    if name in ('end', 'cend'):
        return Ptr(obj if isinstance(obj, LV) else ConstLV(v), v.r)
    if name in ('at',):
        return elem(I, obj, I.val(args[0]))
    if name == 'operator[]':
        return elem(I, obj, I.val(args[0]))
    if name in ('resize', 'assign'):
        a0 = I.val(args[0])
        if isinstance(a0, Ptr):
            b = I.val(args[1])
            ln = sub(b.off, a0.off)
            m = a0.t.get()
            oblige(and_(ge(a0.off, 0), ge(ln, 0), le(b.off, m.size())), 'iterator range')
            obj.set(Mat(ln, 1, lambda i, j: m.flat(add(a0.off, i)), m.sort))
            return None
        n = num(a0)
        x = I.val(args[1]) if len(args) > 1 else ZERO
        if v.sort == 'B':
            x = boolt(x)
        if name == 'assign':
            obj.set(const_mat(n, 1, x, v.sort))
        else:
            old = v
            if const(old.r) == 0:
                obj.set(const_mat(n, 1, x, v.sort))
            else:
                obj.set(Mat(n, 1, lambda i, j: mk_ite(lt(i, old.r), lambda: old.get(i, ZERO), lambda: x), v.sort))
        return None
    if name in ('push_back', 'emplace_back'):
        x = I.val(args[0])
        if v.sort == 'B':
            x = boolt(x)
        old = v
        if const(old.r) is not None:
            obj.set(Mat(add(old.r, ONE), 1, old.g, v.sort, old.ov).setelem(old.r, ZERO, x))
        else:
            obj.set(Mat(add(old.r, ONE), 1, lambda i, j: mk_ite(eq(i, old.r), lambda: x, lambda: old.get(i, ZERO)), v.sort))
        return None
    if name == 'clear':
        obj.set(Mat(0, 1, lambda i, j: ZERO, v.sort))
        return None
    if name in ('reserve', 'shrink_to_fit'):
        return None
    if name == 'back':
        return elem(I, obj, sub(v.r, ONE))
    if name == 'front':
        return elem(I, obj, ZERO)
    if name == 'operator=':
        obj.set(I.val(args[0]))
        return obj
    if name == 'swap':
        o2 = I.ev(args[0])
        a, b = load(obj), load(o2)
        obj.set(b)
        o2.set(a)
        return None
    I.unsup('vector method ' + name)


IDENT = ('array', 'matrix', 'eval', 'noalias', 'derived', 'const_cast_derived', 'nestedExpression', 'reshaped_', 'finished')


def mat_method(I, name, obj, m, args, f, e):
    A = lambda k: num(I.val(args[k]))
    if name in IDENT:
        if name == 'eval':
            return m
        return obj
    if name == 'rows':
        return m.r
    if name == 'cols':
        return m.c
    if name == 'size':
        return m.size()
    if name == 'data':
        return Ptr(obj if isinstance(obj, LV) else ConstLV(m))
    ti = [I.gen(x) for x in targ_ints(f)]
    if name == 'block':
        if len(args) == 4:
            return blk(I, obj, A(0), A(1), A(2), A(3), 'block')
        return blk(I, obj, A(0), A(1), num(ti[0]), num(ti[1]), 'block')
    if name == 'col':
        return blk(I, obj, ZERO, A(0), m.r, ONE, 'column')
    if name == 'row':
        return blk(I, obj, A(0), ZERO, ONE, m.c, 'row')
    n1 = (lambda k: A(k)) if not ti else None
    if name == 'middleRows':
        return blk(I, obj, A(0), ZERO, A(1) if len(args) > 1 else num(ti[0]), m.c, name)
    if name == 'middleCols':
        return blk(I, obj, ZERO, A(0), m.r, A(1) if len(args) > 1 else num(ti[0]), name)
    if name in ('topRows', 'bottomRows', 'leftCols', 'rightCols'):
        n = A(0) if args else num(ti[0])
        if name == 'topRows':
            return blk(I, obj, ZERO, ZERO, n, m.c, name)
        if name == 'bottomRows':
            return blk(I, obj, sub(m.r, n), ZERO, n, m.c, name)
        if name == 'leftCols':
            return blk(I, obj, ZERO, ZERO, m.r, n, name)
        return blk(I, obj, ZERO, sub(m.c, n), m.r, n, name)
    if name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
        nr, nc = (A(0), A(1)) if args else (num(ti[0]), num(ti[1]))
        r0 = ZERO if name.startswith('top') else sub(m.r, nr)
        c0 = ZERO if 'Left' in name else sub(m.c, nc)
        return blk(I, obj, r0, c0, nr, nc, name)
    if name in ('segment', 'head', 'tail'):
        col = m.c is ONE or prove(eq(m.c, 1))
        ln = m.r if col else m.c
        if name == 'segment':
            s, n = A(0), (A(1) if len(args) > 1 else num(ti[0]))
        elif name == 'head':
            s, n = ZERO, (A(0) if args else num(ti[0]))
        else:
            n = A(0) if args else num(ti[0])
            s = sub(ln, n)
        if col:
            return blk(I, obj, s, ZERO, n, ONE, name)
        return blk(I, obj, ZERO, s, ONE, n, name)
    if name == 'transpose':
        if isinstance(obj, LV):
            return trans_view(obj)
        return transpose(m)
    if name == 'transposeInPlace':
        obj.set(transpose(m))
        return None
    if name == 'diagonal':
        oblige(eq(m.r, m.c), 'diagonal of a square matrix')
        if isinstance(obj, LV):
            return ViewLV(obj, m.r, 1, lambda i, j: (i, i), lambda a, b: (eq(a, b), lambda: (a, ZERO)), 'diag')
        return Mat(m.r, 1, lambda i, j: m.get(i, i))
    if name == 'setZero':
        if args:
            resize(I, obj, m, args)
        return setall(I, obj, ZERO if m.sort != 'B' else FALSE)
    if name == 'setOnes':
        if args:
            resize(I, obj, m, args)
        return setall(I, obj, ONE)
    if name in ('setConstant', 'fill'):
        if len(args) == 3:
            resize(I, obj, m, args[:2])
            args = args[2:]
        elif len(args) == 2:
            resize(I, obj, m, args[:1])
            args = args[1:]
        x = I.val(args[0])
        return setall(I, obj, x if m.sort == 'B' else num(x))
    if name == 'setIdentity':
        if args:
            resize(I, obj, m, args)
        return setall(I, obj, lambda i, j: mk_ite(eq(i, j), lambda: ONE, lambda: ZERO))
    if name in ('resize', 'conservativeResize'):
        resize(I, obj, m, args, name == 'conservativeResize')
        return None
    if name in ('operator=', 'operator_'):
        return assign(I, obj, I.ev(args[0]), e['e'].get('t'))
    if name == 'swap':
        o2 = I.ev(args[0])
        m2 = load(o2)
        oblige(and_(eq(m.r, m2.r), eq(m.c, m2.c)), 'swap dimensions') if isinstance(obj, ViewLV) or isinstance(o2, ViewLV) else None
        obj.set(m2)
        o2.set(m)
        return None
    if name in ('cwiseAbs', 'abs'):
        return mat_map(lambda x: TT.absn(x), m)
    if name in ('cwiseSqrt', 'sqrt'):
        return mat_map(lambda x: TT.sqrtn(x), m)
    if name in ('cwiseAbs2', 'square', 'abs2'):
        return mat_map(lambda x: mul(x, x), m)
    if name in ('cwiseInverse', 'inverse') and (name == 'cwiseInverse' or 'Array' in f['q']):
        return mat_map(lambda x: TT.recip(x), m)
    if name in ('cwiseMax', 'max', 'cwiseMin', 'min'):
        fn = TT.maxn if 'ax' in name else TT.minn
        b = load(I.ev(args[0]))
        if isinstance(b, Mat):
            return ew(I, lambda x, y: fn(x, y), m, b, name)
        b = num(b)
        return mat_map(lambda x: fn(x, b), m)
    if name == 'cwiseProduct':
        return ew(I, lambda x, y: mul(num(x), num(y)), m, _asmat(I, I.ev(args[0])), name)
    if name == 'cwiseQuotient':
        return ew(I, lambda x, y: div(x, y), m, _asmat(I, I.ev(args[0])), name)
    if name == 'asDiagonal':
        return diag_of(m)
    if name == 'cast':
        rt = I.T(e['t'])
        return m
    if name == 'replicate':
        if args:
            p, qn = A(0), A(1)
        else:
            p, qn = num(ti[0]), num(ti[1])

        def g(i, j):
            return m.get(divmod_(i, m.r)[1] if p is not ONE else i, divmod_(j, m.c)[1] if qn is not ONE else j)
        return Mat(mul(m.r, p), mul(m.c, qn), g)
    if name in ('rowwise', 'colwise'):
        return ('wise', name, obj, m)
    if name == 'sum':
        return msum(m)
    if name == 'squaredNorm':
        return msum(mat_map(lambda x: mul(x, x), m))
    if name == 'norm':
        return TT.sqrtn(msum(mat_map(lambda x: mul(x, x), m)))
    if name == 'dot':
        b = _asmat(I, I.ev(args[0]))
        n = vec_len(m)
        oblige(eq(n, vec_len(b)), 'dot dimensions')
        return dot(n, lambda k: mul(num(vec_get(m, k)), num(vec_get(b, k))))
    if name == 'trace':
        return dot(m.r, lambda k: m.get(k, k))
    if name in ('maxCoeff', 'minCoeff'):
        oblige(gt(m.size(), 0), name + ' of an empty matrix')
        r = reduce_(I, m, TT.maxn if name == 'maxCoeff' else TT.minn, name)
        if r is None:
            return norm.mk_extremum(name == 'maxCoeff', m)
        return r
    if name == 'any':
        return exists_(m, lambda x: x)
    if name == 'all':
        return forall_(m, lambda x: x)
    if name == 'count':
        r = reduce_(I, mat_map(lambda x: num(ite(boolt(x), ONE, ZERO)), m), add, name)
        if r is None:
            I.unsup('count')
        return r
    if name == 'hasNaN':
        return FALSE
    if name == 'allFinite':
        return TRUE
    if name == 'isZero':
        lim = num(A(0)) if args else num(Fraction(1, 10**12))
        return forall_(m, lambda x: and_(le(x, lim), le(scale(num(x), -1), lim)))
    if name == 'value':
        oblige(and_(eq(m.r, 1), eq(m.c, 1)), 'value() of a non-scalar')
        return m.get(ZERO, ZERO)
    if name in ('coeff', 'coeffRef', 'operator()'):
        return elem(I, obj, *[A(k) for k in range(len(args))])
    if name == 'unaryExpr':
        fv = load(I.ev(args[0]))
        if isinstance(fv, Fn):
            return Mat(m.r, m.c, lambda i, j: call_pure(I, fv, [m.get(i, j)]))
        I.unsup('unaryExpr')
    if name == 'sparseView':
        if args:
            ref = num(A(0))
            eps = num(A(1)) if len(args) > 1 else num(Fraction(1, 10**12))
            lim = mul(eps, TT.fun('abs', ref) if const(ref) is None else num(abs(const(ref))))
            return Sparse(mat_map(lambda x: mk_ite(and_(le(x, lim), le(scale(num(x), -1), lim)), lambda: ZERO, lambda: num(x)), m))
        return Sparse(m)
    if name == 'triangularView':
        mode = None
        for a in f.get('targs') or []:
            if isinstance(a, int):
                mode = a
        return ('tri', mode, m)
    if name == 'exp':
        if 'MatrixBase' in f['q']:
            return mat_exp(I, m)
        return mat_map(lambda x: TT.fun('exp', x), m)
    if name == 'inverse':
        I.unsup('matrix inverse')
    if name == 'format':
        return ('opaque', 'format')
    if name in ('begin', 'end'):
        base = obj if isinstance(obj, LV) else ConstLV(m)
        return Ptr(base, ZERO if name == 'begin' else m.size())
    I.unsup('matrix method ' + f['q'])


def msum(m):
    return dot(m.c, lambda j: dot(m.r, lambda i: m.get(i, j)))


def call_pure(I, fv, vals):
    fn = I.p.fns.get(fv.fid)
    if fn is None:
        I.unsup('lambda body')
    h = I.H
    I.setheap(dict(h))
    args = [('ref', ConstLV(v)) if I.ty[p['t']]['k'] == 'ref' else ('val', v) for p, v in zip(fn['params'], vals)]
    r = load(I.call_fn(fn, fv.this, args, caps=fv.caps))
    I.setheap(h)
    return r


def mat_exp(I, m):
    """matrix exponential: uninterpreted, entries are functions of the whole argument"""
    import intrinsics
    oblige(eq(m.r, m.c), 'exponential of a square matrix')
    a = intrinsics.reify(m)
    return Mat(m.r, m.c, lambda i, j: numof(TT._mk('mexp', (num(i), num(j), a), 'R')))


def resize(I, obj, m, args, keep=False):
    d = [num(I.val(a)) for a in args]
    if len(d) == 1:
        if m.r is ONE and m.c is not ONE and const(m.c) != 0 or (m.r is ONE and m.c is not ONE):
            d = [ONE, d[0]]
        else:
            d = [d[0], ONE]
    oblige(and_(ge(d[0], 0), ge(d[1], 0)), 'resize to a negative size')
    if isinstance(obj, ViewLV):
        oblige(and_(eq(d[0], obj.r), eq(d[1], obj.c)), 'resize of a view')
        return
    if d[0] is m.r and d[1] is m.c:
        return
    if const(m.r) is None and prove(and_(eq(d[0], m.r), eq(d[1], m.c))):
        return
    new = undef_mat(d[0], d[1], m.sort)
    if keep:
        old, und = m, new
        new = Mat(d[0], d[1], lambda i, j: mk_ite(and_(lt(i, old.r), lt(j, old.c)), lambda: old.get(i, j), lambda: und.get(i, j)), m.sort)
    obj.set(new)


def assign(I, lv, v, t):
    v = load(v)
    if isinstance(v, tuple) and v[0] == 'tri':
        v = tri_mat(v)
    if isinstance(v, Sparse):
        cur = load(lv)
        if isinstance(cur, Sparse):
            lv.set(v)
            return lv
        v = v.m
    if isinstance(v, T):
        v = const_mat(1, 1, v)
    if not isinstance(lv, LV):
        I.unsup('assignment to a temporary')
    if isinstance(lv, ViewLV):
        r, c = lv.r, lv.c
        if not (v.r is r and v.c is c):
            same = const(sub(v.r, r)) == 0 and const(sub(v.c, c)) == 0 or prove(and_(eq(v.r, r), eq(v.c, c)))
            if not same:
                # Eigen transposes vectors on assignment
                def vecdim(x):
                    return x is ONE
                if ((c is ONE and v.r is ONE) or (r is ONE and v.c is ONE)) and (vecdim(r) or vecdim(c)):
                    v = transpose(v)
                oblige(and_(eq(v.r, r), eq(v.c, c)), 'assignment dimensions')
        lv.set(v)
        return lv
    cur = load(lv)
    if isinstance(cur, Mat):
        v = I.fit(t, v) if t is not None and I.matdims(t) else v
        if cur.sort != v.sort:
            vv = v
            v = Mat(v.r, v.c, vv.get, cur.sort)
        if v.tag:
            vv = v
            v = Mat(v.r, v.c, vv.get, cur.sort)
        lv.set(v)
        return lv
    if isinstance(cur, Sparse):
        lv.set(Sparse(v))
        return lv
    I.unsup('matrix assignment to %r' % (cur,))


def tri_mat(v):
    _, mode, m = v
    if mode == 2:   # Eigen::Upper
        return Mat(m.r, m.c, lambda i, j: mk_ite(le(i, j), lambda: m.get(i, j), lambda: ZERO))
    if mode == 1:
        return Mat(m.r, m.c, lambda i, j: mk_ite(ge(i, j), lambda: m.get(i, j), lambda: ZERO))
    raise Unsupported('triangular view mode %s' % mode)


# ------------------------------------------------------------------ operators
def operator(I, f, e):
    op = e['op']
    q = f['q']
    a = e['a']
    if op == '<<':
        if 'CommaInitializer' in q or (I.is_eigen(a[0]['t']) and not q.startswith('std::') and q != 'Eigen::operator<<'):
            return Comma(I, I.ev(a[0])).put(_asmat(I, I.val(a[1])))
        return stream_out(I, a)
    if op == ',':
        ci = I.ev(a[0])
        if isinstance(ci, Comma):
            return ci.put(_asmat(I, I.val(a[1])))
        I.unsup('comma operator')
    if op == '=':
        lhs = I.ev(a[0])
        rhs = I.ev(a[1])
        return std_assign(I, lhs, rhs, a[0].get('t'))
    if op == '->':
        v = I.val(a[0])
        if v is None:
            oblige(FALSE, 'null dereference')
            I.unsup('null dereference')
        return v
    if op == '*' and len(a) == 1:
        v = I.val(a[0])
        if isinstance(v, tuple) and v and v[0] == 'mapiter':
            return v
        return I.deref(v)
    if op in ('++', '+=') and I.tname(a[0]['t']).endswith('::InnerIterator'):
        it = I.obj_of(I.ev(a[0]))
        k = ('#pos')
        I.H[(it.oid, k)] = add(I.H[(it.oid, k)], ONE if op == '++' else num(I.val(a[1])))
        return it
    if op in ('()', '[]'):
        base = I.ev(a[0])
        v = load(base)
        if isinstance(v, Fn):
            return I.call_value(v, a[1:])
        if v is None:
            oblige(FALSE, 'call of an empty function')
            I.unsup('empty function call')
        if isinstance(v, Mat):
            return elem(I, base, *[num(I.val(x)) for x in a[1:]])
        import interp as IN
        if isinstance(v, IN.MapVal):
            k = num(I.val(a[1]))
            if isinstance(base, LV):
                # an absent entry is created
                base.set(IN.MapVal({kk: (or_(p, eq(k, kk)), y) for kk, (p, y) in v.tab.items()}))
            return MapElemLV(base, k)
        if isinstance(v, list):
            i = const(num(I.val(a[1])))
            if i is None:
                I.unsup('symbolic index into a list')
            if not (0 <= i < len(v)):
                oblige(FALSE, 'vector index')
                I.unsup('vector index')
            return v[i] if isinstance(v[i], Obj) else ListElemLV(base, i)
        if isinstance(v, Ptr):
            return I.deref(Ptr(v.t, add(v.off, num(I.val(a[1])))))
        if isinstance(v, Obj):
            return I.ev_index(dict(a=a[0], b=a[1]))
        I.unsup('operator %s on %r' % (op, v))
    if len(a) == 2:
        x = I.ev(a[0])
        y = I.ev(a[1])
        if op in ('+=', '-=', '*=', '/='):
            return comp_assign(I, op, x, y, a[0].get('t'), e)
        return binary(I, op, load(x), load(y), e)
    if len(a) == 1:
        x = load(I.ev(a[0]))
        if op == '-':
            if isinstance(x, Mat):
                return mat_map(lambda u: scale(u, -1), x)
            return scale(num(x), -1)
        if op == '!':
            if isinstance(x, Mat):
                return mat_map(lambda u: not_(u), x, sort='B')
            return TRUE if x is None else FALSE
        if op in ('++', '--'):
            lv = I.ev(a[0])
            if isinstance(x, Ptr):
                lv.set(Ptr(x.t, add(x.off, num(1 if op == '++' else -1))))
                return lv
    I.unsup('operator %s %s' % (op, q))


class ListElemLV(LV):
    def __init__(self, base, i):
        self.base = base
        self.i = i

    def get(self):
        return self.base.get()[self.i]

    def set(self, v):
        l = list(self.base.get())
        l[self.i] = v
        self.base.set(l)

    def ident(self):
        return ('listelem', self.base.ident(), self.i)


def stream_out(I, a):
    import interp as IN
    s = I.ev(a[0])
    v = load(s)
    if isinstance(v, IN.Stream):
        x = None
        try:
            x = I.val(a[1])
        except Unsupported:
            x = None
        s_ = x if isinstance(x, str) else None
        if isinstance(x, Fn) and x.name in ('std::endl', 'std::flush', 'std::fixed'):
            s_ = '\n' if x.name == 'std::endl' else ''
        elif isinstance(x, T) and x.sort == 'I' and const(x) is not None and not isinstance(const(x), bool):
            s_ = str(const(x))
        if isinstance(s, LV):
            s.set(IN.Stream(v.parts + (s_,)))
        return s
    return ('opaque', 'stream') if not isinstance(v, tuple) else v


def std_assign(I, lhs, rhs, t):
    if isinstance(lhs, Obj):
        src = I.obj_of(rhs)
        if isinstance(src, Obj):
            I.copy_obj(lhs, src)
            return lhs
        I.unsup('object assignment from %r' % (src,))
    cur = load(lhs)
    if isinstance(lhs, ViewLV) or (t is not None and I.is_eigen(t)):
        return assign(I, lhs, rhs, t)
    v = load(rhs)
    if isinstance(cur, Mat) and isinstance(v, list):
        v = list_mat(I, v)
    if isinstance(v, list):
        v = list(v)
    lhs.set(v)
    return lhs


def comp_assign(I, op, lv, y, t, e):
    cur = load(lv)
    y = load(y)
    if isinstance(cur, Mat):
        if isinstance(y, Mat):
            if op in ('+=', '-='):
                r = binary(I, op[0], cur, y, e)
            elif op == '*=':
                if is_array(I, t):
                    r = ew(I, lambda u, v: mul(num(u), num(v)), cur, y)
                else:
                    r = product(I, cur, y)
            else:
                r = ew(I, lambda u, v: div(u, v), cur, y)
        else:
            y = num(y)
            if op in ('+=', '-='):
                r = mat_map(lambda u: (add if op == '+=' else sub)(num(u), y), cur)
            elif op == '*=':
                r = mat_map(lambda u: mul(num(u), y), cur)
            else:
                r = mat_map(lambda u: div(u, y), cur)
        return assign(I, lv, r, t)
    if isinstance(cur, str) and isinstance(y, str) and op == '+=':
        lv.set(cur + y)
        return lv
    if isinstance(cur, T):
        k = {'+=': add, '-=': sub, '*=': mul, '/=': div}[op]
        lv.set(k(num(cur), num(y)))
        return lv
    if isinstance(cur, Ptr):
        lv.set(I.ptrop(op[0], cur, y))
        return lv
    I.unsup('compound assignment on %r' % (cur,))


def is_array(I, t):
    if t is None:
        return False
    x = I.T(t)
    s = x.get('s', '')
    return s.startswith('Eigen::Array') or s.startswith('const Eigen::Array') or 'Eigen::Array<' in s.split('<')[0] + '<' or 'ArrayWrapper' in s[:30] or array_like(I, x)


def array_like(I, x):
    """is the Eigen expression type an array expression"""
    n = x.get('name', '')
    if n in ('Eigen::Array', 'Eigen::ArrayWrapper'):
        return True
    if n in ('Eigen::Matrix', 'Eigen::MatrixWrapper', 'Eigen::Product'):
        return False
    for a in x.get('args') or []:
        if isinstance(a, dict) and 't' in a:
            y = I.T(a['t'])
            if y.get('name', '').startswith('Eigen::') and not y['name'].startswith('Eigen::internal') and y['name'] != 'Eigen::Stride':
                if array_like(I, y):
                    return True
    return False


def binary(I, op, x, y, e=None):
    import interp as IN
    if isinstance(x, Sparse):
        x = x.m
    if isinstance(y, Sparse):
        y = y.m
    if isinstance(x, tuple) and x and x[0] == 'tri':
        x = tri_mat(x)
    if isinstance(x, Mat) and isinstance(y, Mat):
        arr = False
        if e is not None and op in ('*', '/'):
            arr = array_like(I, I.T(e['a'][0]['t']))
        if op == '*' and not arr:
            return product(I, x, y)
        if op in ('+', '-', '*', '/'):
            fn = {'+': add, '-': sub, '*': mul, '/': div}[op]
            r = ew(I, lambda u, v: fn(num(u), num(v)), x, y, 'operator ' + op)
            return r
        if op in ('==', '!='):
            r = and_(eq(x.r, y.r), eq(x.c, y.c))
            if const(x.r) is not None:
                rr, cc = x.dims()
                r = and_(r, *[eq(x.get(num(i), num(j)), y.get(num(i), num(j))) for i in range(rr) for j in range(cc)])
                return r if op == '==' else not_(r)
            I.unsup('matrix comparison')
        if op in ('<', '>', '<=', '>='):
            fn = {'<': lt, '>': gt, '<=': le, '>=': ge}[op]
            return Mat(x.r, x.c, lambda i, j: fn(x.get(i, j), y.get(i, j)), 'B')
        if op in ('&&', '||'):
            fn = and_ if op == '&&' else or_
            return Mat(x.r, x.c, lambda i, j: fn(x.get(i, j), y.get(i, j)), 'B')
    if isinstance(x, Mat) and isinstance(y, T):
        y = num(y)
        if op in ('+', '-', '*', '/'):
            fn = {'+': add, '-': sub, '*': mul, '/': div}[op]
            return mat_map(lambda u: fn(num(u), y), x)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            fn = {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eq, '!=': ne}[op]
            return Mat(x.r, x.c, lambda i, j: fn(x.get(i, j), y), 'B')
    if isinstance(x, T) and isinstance(y, Mat):
        x = num(x)
        if op in ('+', '-', '*', '/'):
            fn = {'+': add, '-': sub, '*': mul, '/': div}[op]
            return mat_map(lambda u: fn(x, num(u)), y)
        if op in ('<', '>', '<=', '>='):
            fn = {'<': lt, '>': gt, '<=': le, '>=': ge}[op]
            return Mat(y.r, y.c, lambda i, j: fn(x, y.get(i, j)), 'B')
    if isinstance(x, str) or isinstance(y, str) or isinstance(x, tuple) and x and x[0] == 'opaque' or isinstance(y, tuple) and y and y[0] == 'opaque':
        if isinstance(x, str) and isinstance(y, str):
            if op == '+':
                return x + y
            if op == '==':
                return TRUE if x == y else FALSE
            if op == '!=':
                return TRUE if x != y else FALSE
        if op == '+':
            return ('opaque', 'string')
        if op == '<=>':
            return ('opaque', 'cmp')
    if op == '<=>' and isinstance(x, T):
        return ('cmp3', num(x), num(y))
    if isinstance(x, tuple) and x and x[0] == 'cmp3':
        fn = {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eq, '!=': ne}[op]
        return fn(x[1], x[2])
    if isinstance(y, tuple) and y and y[0] == 'cmp3':
        fn = {'<': gt, '>': lt, '<=': ge, '>=': le, '==': eq, '!=': ne}[op]
        return fn(y[1], y[2])
    if isinstance(x, T) and isinstance(y, T):
        fn = {'+': add, '-': sub, '*': mul, '/': div}.get(op)
        if fn:
            return fn(num(x), num(y))
        fn = {'<': lt, '>': gt, '<=': le, '>=': ge, '==': eq, '!=': ne}.get(op)
        if fn:
            return fn(x, y)
    if isinstance(x, Ptr) or isinstance(y, Ptr) or x is None or y is None:
        return I.ptrop(op, x, y)
    if isinstance(x, Fn) and y is None or isinstance(y, Fn) and x is None:
        return FALSE if op == '==' else TRUE
    I.unsup('operator %s on %r, %r' % (op, x, y))


# ------------------------------------------------------------------ free functions
EPS = Fraction(1, 2 ** 52)


def call_ext(I, f, e):
    q = f['q']
    n = f['name']
    a = e['a']
    if n in ('move', 'forward', 'as_const', 'ref', 'cref') and q.startswith('std::'):
        return I.ev(a[0])
    if n == 'addressof':
        return I.addr(I.ev(a[0]))
    if q.startswith('Eigen::NumTraits') and n == 'dummy_precision':
        return num(Fraction(1, 10**12))
    if q.startswith('std::numeric_limits'):
        if n == 'infinity':
            return INF
        if n == 'epsilon':
            return num(EPS if 'double' in q else Fraction(1, 2 ** 23))
        if n in ('max', 'lowest', 'min'):
            if 'double' in q or 'float' in q:
                if n == 'min':
                    return num(Fraction(1, 10 ** 300))
                return INF if n == 'max' else scale(INF, -1)
            if '<int>' in q:
                return num(2147483647 if n == 'max' else -2147483648)
            if 'unsigned' in q:
                return num((1 << 64) - 1 if 'long' in q else (1 << 32) - 1) if n == 'max' else ZERO
        if n == 'quiet_NaN':
            return read(freshname('nan'))
    if n in ('max', 'min', 'fmax', 'fmin') and not q.startswith('std::chrono'):
        x, y = num(I.val(a[0])), num(I.val(a[1]))
        if n in ('max', 'fmax'):
            c = ge(x, y)
        else:
            c = le(x, y)
        if x.sort == 'R' and y.sort == 'R' or const(x) is None and const(y) is None and (x.sort == 'R' or y.sort == 'R'):
            return TT.maxn(x, y) if n in ('max', 'fmax') else TT.minn(x, y)
        if x.sort == 'R' or y.sort == 'R':
            return TT.maxn(x, y) if n in ('max', 'fmax') else TT.minn(x, y)
        return mk_ite(c, lambda: x, lambda: y)
    if n == 'clamp':
        x, l, h = [num(I.val(z)) for z in a]
        return mk_ite(lt(x, l), lambda: l, lambda: mk_ite(gt(x, h), lambda: h, lambda: x))
    if n in ('abs', 'fabs'):
        return TT.absn(I.val(a[0]))
    if n == 'sqrt':
        return TT.sqrtn(I.val(a[0]))
    if n == 'pow':
        x, y = num(I.val(a[0])), num(I.val(a[1]))
        c = const(y)
        if c is not None:
            if isinstance(c, int) or c.denominator == 1:
                r = ONE
                for _ in range(abs(int(c))):
                    r = mul(r, x)
                return r if c >= 0 else TT.recip(r)
            if c == Fraction(1, 2):
                return TT.sqrtn(x)
        return TT.fun('pow', x, y)
    if n in ('sin', 'cos', 'tan', 'exp', 'log', 'floor', 'ceil', 'round', 'tanh'):
        return TT.fun(n, num(I.val(a[0])))
    if n in ('isnan', 'isinf'):
        x = num(I.val(a[0]))
        if n == 'isnan':
            return FALSE
        return or_(eq(x, INF), eq(x, scale(INF, -1)))
    if n == 'isfinite':
        return TRUE
    if n in ('memcpy', 'memmove'):
        dst, src, ln = I.val(a[0]), I.val(a[1]), num(I.val(a[2]))
        return copy_mem(I, dst, src, div(ln, num(8)))
    if n == 'memset':
        dst, v, ln = I.val(a[0]), num(I.val(a[1])), num(I.val(a[2]))
        if const(v) == 0:
            return fill_mem(I, dst, ZERO, div(ln, num(8)))
    if n in ('copy_n',):
        src, ln, dst = I.val(a[0]), num(I.val(a[1])), I.val(a[2])
        copy_mem(I, dst, src, ln)
        return Ptr(dst.t, add(dst.off, ln)) if isinstance(dst, Ptr) else None
    if n == 'copy':
        s0, s1, dst = I.val(a[0]), I.val(a[1]), I.val(a[2])
        ln = sub(s1.off, s0.off)
        copy_mem(I, dst, s0, ln)
        return Ptr(dst.t, add(dst.off, ln)) if isinstance(dst, Ptr) else None
    if n == 'fill':
        s0, s1, v = I.val(a[0]), I.val(a[1]), I.val(a[2])
        fill_mem(I, s0, num(v), sub(s1.off, s0.off))
        return None
    if n == 'fill_n':
        s0, ln, v = I.val(a[0]), num(I.val(a[1])), I.val(a[2])
        fill_mem(I, s0, num(v), ln)
        return None
    if n == 'swap':
        x, y = I.ev(a[0]), I.ev(a[1])
        u, v = load(x), load(y)
        x.set(v)
        y.set(u)
        return None
    if n in ('make_shared', 'make_unique'):
        t = e['t']
        x = I.T(t)
        el = x['args'][0]['t']
        if I.isrec(el):
            o = I.alloc(el)
            rec = I.rec_of(el)
            if a:
                I.unsup('make_shared with arguments')
            I.default_construct_into(o, rec)
            return Ptr(o)
        I.unsup('make_shared')
    if n == '__assert_fail':
        oblige(FALSE, 'assertion failed: ' + str(a[0].get('v', a[0].get('e', {}).get('v', ''))) if isinstance(a[0], dict) else 'assertion')
        raise AssertStop()
    if n in ('exit', 'abort', 'terminate'):
        oblige(FALSE, 'process exit')
        raise AssertStop()
    if q.startswith('std::chrono'):
        if n == 'now':
            I.nowc += 1
            return read('now%d' % I.nowc)
        if n == 'zero':
            return ZERO
        if n == 'max':
            return INF
        if n == 'min':
            return scale(INF, -1)
        if n == 'duration_cast':
            return I.val(a[0])
        return I.val(a[0]) if a else ZERO
    if n == 'to_string':
        v = const(num(I.val(a[0])))
        return str(v) if v is not None else ('opaque', 'number')
    if n in ('setprecision', 'setw', 'endl', 'fixed', 'boolalpha', 'setfill'):
        return ('opaque', n)
    if q.startswith('Eigen::') and f.get('static', True):
        r = eigen_static(I, f, e)
        if r is not None:
            return r
    if n in ('signbit',):
        return lt(num(I.val(a[0])), 0)
    if n == 'hypot':
        x, y = num(I.val(a[0])), num(I.val(a[1]))
        return TT.sqrtn(add(mul(x, x), mul(y, y)))
    if n == 'any_of' or n == 'all_of' or n == 'accumulate' or n == 'transform':
        I.unsup('algorithm ' + n)
    if n == 'kroneckerProduct':
        return kron(_asmat(I, I.val(a[0])), _asmat(I, I.val(a[1])))
    if q.startswith('osqp_') or n in ('malloc', 'free', 'calloc'):
        I.unsup('call ' + q)
    I.unsup('external function ' + q)


class Comma:
    """Eigen::CommaInitializer"""

    def __init__(self, I, lv):
        self.I = I
        self.lv = lv
        m = load(lv)
        self.r, self.c = m.r, m.c
        self.row, self.col, self.h = ZERO, ZERO, None

    def dec(self, c):
        d = decide(c)
        if d is None:
            raise ForkNeeded(c)
        return d

    def put(self, m):
        if self.h is None:
            self.h = m.r
        elif self.dec(eq(self.col, self.c)) and self.dec(or_(ne(m.c, ZERO), ne(m.r, self.h))):
            self.row, self.col, self.h = add(self.row, self.h), ZERO, m.r
        oblige(and_(eq(m.r, self.h), le(add(self.row, m.r), self.r), le(add(self.col, m.c), self.c)), 'comma initialiser extent')
        block_view(self.lv, self.row, self.col, m.r, m.c).set(m)
        self.col = add(self.col, m.c)
        return self

    def finish(self):
        oblige(and_(or_(eq(add(self.row, self.h), self.r), eq(self.c, ZERO)), eq(self.col, self.c)), 'comma initialiser complete')


def kron(x, y):
    def g(i, j):
        qi, ri = divmod_(i, y.r)
        qj, rj = divmod_(j, y.c)
        return mul(num(x.get(qi, qj)), num(y.get(ri, rj)))
    return Mat(mul(x.r, y.r), mul(x.c, y.c), g)


class AssertStop(Exception):
    pass


def rt_dims(I, t):
    """static dims of an Eigen expression type of the form CwiseNullaryOp<..., Matrix<..>>"""
    x = I.T(t)
    if x['k'] == 'rec':
        md = I.matdims(t)
        if md:
            return md
        for a in x.get('args') or []:
            if isinstance(a, dict) and 't' in a:
                md = I.matdims(a['t'])
                if md:
                    return md
    return None


def eigen_static(I, f, e):
    n = f['name']
    a = e['a']
    if n not in ('Zero', 'Ones', 'Constant', 'Identity', 'Random', 'Unit', 'LinSpaced'):
        return None
    md = rt_dims(I, e['t']) or (-1, -1, 'real')
    vals = [I.val(x) for x in a]
    v = None
    if n == 'Constant':
        v = vals[-1]
        vals = vals[:-1]
    if len(vals) == 0:
        r, c = num(md[0]), num(md[1])
    elif len(vals) == 1:
        r, c = (num(vals[0]), ONE) if md[1] == 1 else ((ONE, num(vals[0])) if md[0] == 1 else (num(vals[0]), ONE))
    else:
        r, c = num(vals[0]), num(vals[1])
    if isinstance(md[0], T) or md[0] > 0:
        oblige(eq(r, md[0]), n + ' rows')
    if isinstance(md[1], T) or md[1] > 0:
        oblige(eq(c, md[1]), n + ' columns')
    oblige(and_(ge(r, 0), ge(c, 0)), n + ' size')
    if n == 'Zero':
        return const_mat(r, c, ZERO)
    if n == 'Ones':
        return const_mat(r, c, ONE)
    if n == 'Constant':
        return const_mat(r, c, num(v))
    if n == 'Identity':
        return eye(r, c)
    I.unsup('Eigen ' + n)


def copy_mem(I, dst, src, n):
    n = num(n)
    if src is None or dst is None:
        oblige(eq(n, 0), 'copy through null')
        return dst
    if isinstance(src, Ptr) and isinstance(src.t, Obj):
        src = Ptr(CellLV((src.t.oid, '#data')), src.off)
    if isinstance(dst, Ptr) and isinstance(dst.t, Obj):
        dst = Ptr(CellLV((dst.t.oid, '#data')), dst.off)
    sm = src.t.get()
    dm = dst.t.get()
    oblige(and_(ge(src.off, 0), ge(n, 0), le(add(src.off, n), sm.size())), 'copy source extent')
    oblige(and_(ge(dst.off, 0), le(add(dst.off, n), dm.size())), 'copy destination extent')
    so, do = src.off, dst.off
    new = Mat(n, 1, lambda i, j: sm.flat(add(so, i)), sm.sort)
    map_view(Ptr(dst.t, do), n, ONE).set(new)
    return dst


def fill_mem(I, dst, v, n):
    dm = dst.t.get()
    oblige(and_(ge(dst.off, 0), ge(n, 0), le(add(dst.off, n), dm.size())), 'fill extent')
    map_view(dst, n, ONE).set(const_mat(n, 1, v, dm.sort))


# ------------------------------------------------------------------ sparse
def sparse_method(I, name, obj, v, args, e):
    m = v.m
    if name == 'rows':
        return m.r
    if name == 'cols':
        return m.c
    if name in ('makeCompressed', 'prune', 'reserve'):
        if name == 'prune' and args:
            I.unsup('prune')
        if isinstance(obj, LV):
            obj.set(Sparse(m, v.nz, True))
        return None
    if name == 'isCompressed':
        return TRUE if v.compressed else FALSE
    if name == 'nonZeros':
        return sparse_arrays(I, v)[0]
    if name in ('outerIndexPtr', 'innerIndexPtr', 'valuePtr', 'innerNonZeroPtr'):
        nnz, outer, inner, vals = sparse_arrays(I, v)
        if name == 'innerNonZeroPtr':
            return None
        return Ptr(ConstLV({'outerIndexPtr': outer, 'innerIndexPtr': inner, 'valuePtr': vals}[name]))
    if name == 'triangularView':
        mode = None
        for a in (e['f'].get('targs') or []):
            if isinstance(a, int):
                mode = a
        return Sparse(tri_mat(('tri', mode, m)))
    if name == 'operator=':
        x = I.val(args[0])
        obj.set(x if isinstance(x, Sparse) else Sparse(_asmat(I, x)))
        return obj
    if name in ('coeff', 'coeffRef'):
        return m.get(num(I.val(args[0])), num(I.val(args[1])))
    if name == 'toDense':
        return m
    if name in ('resize',):
        obj.set(Sparse(const_mat(num(I.val(args[0])), num(I.val(args[1])), ZERO)))
        return None
    if name == 'setZero':
        obj.set(Sparse(const_mat(m.r, m.c, ZERO)))
        return obj
    if name == 'transpose':
        return Sparse(transpose(m))
    if name == 'derived' or name == 'eval':
        return obj
    I.unsup('sparse method ' + name)


def sparse_iter(I, e, args):
    if e.get('copy') and len(args) == 1:
        src = I.obj_of(I.ev(args[0]))
        o = I.clone(src)
    else:
        v = I.val(args[0])
        if not isinstance(v, Sparse):
            I.unsup('iterator over %r' % (v,))
        k = num(I.val(args[1]))
        oblige(and_(ge(k, 0), lt(k, v.m.c)), 'column of a sparse iterator')
        nnz, outer, inner, vals = sparse_arrays(I, v)
        o = I.newobj(e['t'], 'sparse iterator')
        o.arrays = (inner, vals, k)
        o.end = outer.get(add(k, ONE), ZERO)
        I.H[(o.oid, '#pos')] = outer.get(k, ZERO)
        return o
    o.arrays, o.end = src.arrays, src.end
    return o


def iter_method(I, name, o):
    inner, vals, k = o.arrays
    pos = I.H[(o.oid, '#pos')]
    if name in ('col', 'outer'):
        return k
    oblige(lt(pos, o.end), 'sparse iterator past the end')
    if name in ('row', 'index'):
        return inner.get(pos, ZERO)
    if name in ('value', 'valueRef'):
        return vals.get(pos, ZERO)
    I.unsup('sparse iterator ' + name)


def sparse_arrays(I, v):
    """compressed columns of a sparse matrix, computed once per dense contents"""
    r = v.m.memo.get('#sparse')
    if r is None:
        r = v.m.memo['#sparse'] = sparse_arrays_(I, v)
    return r


def sparse_arrays_(I, v):
    """compressed columns of a sparse matrix: symbolic matrices are handled through an axiomatised
    enumeration of the nonzero entries"""
    m = v.m
    r, c = m.dims()
    if r is not None and c is not None:
        # concrete size: structural nonzeros must be decided
        outer = [ZERO]
        inner, vals = [], []
        cnt = 0
        for j in range(c):
            for i in range(r):
                x = m.get(num(i), num(j))
                if x is ZERO:
                    continue
                cx = const(x)
                if cx is None:
                    d = decide(eq(x, 0))
                    if d is True:
                        continue
                    if d is None:
                        I.fact_nonzero(x)
                inner.append(num(i))
                vals.append(x)
                cnt += 1
            outer.append(num(cnt))
        return (num(cnt), Mat(c + 1, 1, lambda i, j: outer[const(i)], 'I'), Mat(cnt, 1, lambda i, j: inner[const(i)], 'I'),
                Mat(cnt, 1, lambda i, j: vals[const(i)]))
    import sparse
    return sparse.enum(I, v)

"""The harness intrinsics V::*: symbolic inputs, user callbacks, outputs."""
from terms import *
import terms as TT
import values as VV
from values import *
from smt import assume, prove, S


def strv(I, e):
    v = I.val(e)
    if not isinstance(v, str):
        I.unsup('name is not a literal: %r' % (v,))
    return v


def reify(m):
    """matrix as a term (argument of an uninterpreted function)"""
    r, c = m.dims()
    if r is not None and c is not None:
        return TT._mk('mtup', (m.r, m.c, tuple(m.get(num(i), num(j)) for j in range(c) for i in range(r))), 'M')
    VV.DEC[0] += 1
    k = ('reify', S.ctx.ids)
    v = m.memo.get(k)
    if v is not None:
        return v
    i, j = fresh('ri'), fresh('rj')
    fs = [ge(i, 0), lt(i, m.r), ge(j, 0), lt(j, m.c)]
    with assume(*fs):
        b = num(m.get(i, j))
    v = TT.mlam(m.r, m.c, i, j, b)
    m.memo[k] = v
    return v


def argterm(I, v):
    v = load(v)
    if isinstance(v, Mat):
        return reify(v)
    if isinstance(v, T):
        return v if v.sort == 'B' else num(v)
    I.unsup('callback argument %r' % (v,))


def input_mat(I, name, r, c, pos=False):
    I.inputs[name] = (num(r), num(c))
    if pos:
        TT._posreads.add(name)
    return Mat(r, c, lambda i, j: read(name, i, j))


def call(I, f, e):
    n = f['name']
    a = e['a']
    if not hasattr(I, 'inputs'):
        I.inputs = {}
    if n == 'nm':
        k = const(num(I.val(a[1])))
        if k is None:
            I.unsup('symbolic name index')
        return strv(I, a[0]) + str(k)
    if n == 'param':
        return num(I.cfg.get('params', {}).get(strv(I, a[0]), 0))
    if n == 'dim':
        nm = strv(I, a[0])
        mn = I.val(a[1])
        d = I.cfg.get('dims')
        if d is not None:
            return num(d[nm])
        t = ivar(nm, True)
        I.inputs[nm] = 'dim'
        I.fact(ge(t, mn))
        if const(num(mn)) and const(num(mn)) >= 1:
            TT._attr.setdefault(TT.atom(t).id, set()).add('pos')
        return t
    if n == 'integer':
        nm = strv(I, a[0])
        lo, hi = num(I.val(a[1])), num(I.val(a[2]))
        d = I.cfg.get('ints')
        if d is not None and nm in d:
            return num(d[nm])
        t = ivar(nm)
        I.inputs[nm] = 'int'
        I.fact(ge(t, lo))
        I.fact(lt(t, hi))
        return t
    if n == 'real':
        nm = strv(I, a[0])
        I.inputs[nm] = 'real'
        return rvar(nm)
    if n == 'preal':
        nm = strv(I, a[0])
        I.inputs[nm] = 'real'
        return rvar(nm, True)
    if n == 'boolean':
        nm = strv(I, a[0])
        I.inputs[nm] = 'bool'
        d = I.cfg.get('ints')
        if d is not None and nm in d:
            return TRUE if d[nm] else FALSE
        return bvar(nm)
    if n == 'fpvec':
        TT._finreads.add(strv(I, a[0]))
    if n in ('vec', 'pvec', 'fpvec', 'stdvec'):
        return input_mat(I, strv(I, a[0]), I.val(a[1]), 1, n in ('pvec', 'fpvec'))
    if n == 'matrix':
        return input_mat(I, strv(I, a[0]), I.val(a[1]), I.val(a[2]))
    if n == 'assume':
        I.fact(I.cond_val(a[0]))
        return None
    if n == 'check':
        VV.oblige(boolt(I.val(a[0])), 'contract: ' + strv(I, a[1]))
        return None
    if n == 'event':
        I.events.append((strv(I, a[0]), S.ctx))
        return None
    if n == 'out':
        nm = strv(I, a[0])
        v = I.val(a[1])
        I.outs[nm] = v
        I.outorder.append(nm)
        return None
    if n == 'outp':
        nm = strv(I, a[0])
        p = I.val(a[1])
        ln = num(I.val(a[2]))
        if isinstance(p, Ptr) and isinstance(p.t, Obj):
            p = Ptr(CellLV((p.t.oid, '#data')), p.off)
        if p is None:
            I.outs[nm] = None
        else:
            m = p.t.get()
            oblige(and_(ge(p.off, 0), le(add(p.off, ln), m.size())), 'pointer extent ' + nm)
            I.outs[nm] = Mat(ln, 1, lambda i, j: m.flat(add(p.off, i)), m.sort)
        I.outorder.append(nm)
        return None
    if n == 'app':
        nm = strv(I, a[0])
        args = [argterm(I, I.ev(x)) for x in a[1:]]
        return app(nm, 0, args)
    if n == 'appv':
        nm = strv(I, a[0])
        o = I.ev(a[1])
        m = load(o)
        args = [argterm(I, I.ev(x)) for x in a[2:]]
        if not isinstance(m, Mat):
            I.unsup('callback output')
        o.set(Mat(m.r, m.c, lambda i, j: app(nm, i, args)))
        return None
    if n == 'qapp':
        nm = strv(I, a[0])
        ks, args = qargs(I, a[1:])
        return quad(nm, ZERO, ks, args)
    if n == 'qappv':
        nm = strv(I, a[0])
        o = I.ev(a[1])
        m = load(o)
        ks, args = qargs(I, a[2:])
        if not isinstance(m, Mat):
            I.unsup('callback output')
        o.set(Mat(m.r, m.c, lambda i, j: quad(nm, i, ks, args)))
        return None
    I.unsup('intrinsic ' + n)


def qargs(I, l):
    """integer arguments select the function, real ones enter quadratically"""
    ks, args = [], []
    for x in l:
        t = I.T(I.strip(x['t'])) if 't' in x else None
        v = load(I.ev(x))
        if t and t['k'] in ('int', 'enum'):
            ks.append(num(v))
            args.append(None)
        else:
            args.append(v if isinstance(v, Mat) else num(v))
    return tuple(ks), args


def qcoef(kind, nm, ai, comp, i, j, ks):
    return TT.fun('%s:%s:%d' % (kind, nm, ai), *([num(comp), num(i), num(j)] + list(ks)))


def quad(nm, comp, ks, args):
    import norm
    r = qcoef('C', nm, 0, comp, 0, 0, ks)
    deg = QDEG[0]
    for ai, v in enumerate(args):
        if v is None:
            continue

        def f(i, j, x):
            t = mul(qcoef('L', nm, ai, comp, i, j, ks), x)
            if deg > 1:
                t = add(t, mul(qcoef('Q', nm, ai, comp, i, j, ks), mul(x, x)))
            return t
        if isinstance(v, Mat):
            r = add(r, sum2(v.r, v.c, lambda i, j: f(i, j, num(v.get(i, j)))))
        else:
            r = add(r, f(0, 0, v))
    return r


QDEG = [2]


def sum1(n, f):
    import norm
    c = const(num(n))
    if c is not None:
        r = ZERO
        for t in range(int(c)):
            r = add(r, num(f(num(t))))
        return r
    k = fresh('qs')
    with assume(ge(k, 0), lt(k, num(n))):
        b = num(f(k))
    return norm.smart_sum(ZERO, num(n), k, b)


def sum2(r, c, f):
    return sum1(c, lambda j: sum1(r, lambda i: f(i, j)))

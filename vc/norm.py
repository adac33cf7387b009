"""Sums, quantifiers and the equality prover."""
from terms import *
import terms as TT
import smt
from smt import S, assume, prove, decide, simp


def lin_in(p, k):
    """p = a*k + b with k atom; returns (a, b) when p is linear in k, else None (k must not occur elsewhere)"""
    nm = k.args[0]
    a = {}
    b = {}
    for m, c in p.args:
        d = dict(m)
        e = d.pop(k, 0)
        if any(nm in x.fv for x in d):
            return None
        if e == 0:
            b[m] = c
        elif e == 1:
            a[tuple(sorted(d.items(), key=lambda z: z[0].id))] = c
        else:
            return None
    return TT._from(a), TT._from(b)


def literals(c):
    return list(c.args) if c.op == 'and' else [c]


def ediv(t, s):
    """floor division and remainder of t by s>0 (polynomial candidates), or None"""
    import values
    q, r = values.divmod_(t, s)
    return q, r


def smart_sum(lo, hi, k, body, depth=0):
    """sum_{lo<=k<hi} body, with the conditions on k resolved"""
    lo, hi = num(lo), num(hi)
    ka = TT.atom(k)
    nm = ka.args[0]
    body = num(body)
    n = sub(hi, lo)
    cn = const(n)
    if cn is not None:
        if cn <= 0:
            return ZERO
        if cn <= 8:
            r = ZERO
            for t in range(cn):
                r = add(r, simp(subst(body, {ka: add(lo, num(t))})))
            return r
    if nm not in body.fv:
        return mul(body, n)
    with assume(ge(k, lo), lt(k, hi)):
        body = simp(body)
        if smt.ctx_inconsistent():
            return ZERO
    if nm not in body.fv:
        return mul(body, n)
    if lo is ZERO and smt.has_op(body, 'div'):
        a = divisor_of(body, ka)
        if a is not None:
            nq = exact_div(hi, a)
            if nq is not None and prove(ge(nq, 0)) and prove(ge(a, 1)):
                # k = a*q + r
                q, r = fresh('sq'), fresh('sr')
                with assume(ge(q, 0), lt(q, nq), ge(r, 0), lt(r, a)):
                    b = body
                    for op, v in (('div', q), ('mod', r)):
                        at = TT._mk(op, (numof(ka), a), 'I')
                        b = subst(b, {at: v})
                    b = simp(subst(b, {ka: add(mul(a, q), r)}))
                if q.fv & b.fv or r.fv & b.fv:
                    with assume(ge(q, 0), lt(q, nq)):
                        b = smart_sum(ZERO, a, r, b, depth)
                    return smart_sum(ZERO, nq, q, b, depth)
    r = ZERO
    if any(m and m[0][0].op == 'iread' and m[0][0].args[0].startswith('spo:') for m, c in body.args):
        import sparse
        done, body = sparse.telescope(k, body)
        r = sub(subst(done, {ka: hi}), subst(done, {ka: lo}))
        r = sub(r, ZERO)
    for m, c in body.args:
        r = add(r, sum_mono(lo, hi, k, m, c, depth))
    return r


def divisor_of(t, ka):
    """a with div(k, a) in t, a free of k"""
    nm = ka.args[0]
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen or nm not in x.fv:
            continue
        seen.add(x.id)
        if x.op == 'num':
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
            continue
        if x.op == 'div' and nm not in num(x.args[1]).fv and num(x.args[0]) is numof(ka):
            return num(x.args[1])
        st.extend(x.args)
    return None


def exact_div(p, a):
    """p / a for polynomials when exact (a one monomial)"""
    if len(a.args) != 1:
        return None
    (ma, ca), = a.args
    da = dict(ma)
    out = {}
    for m, c in p.args:
        d = dict(m)
        for x, e in da.items():
            d[x] = d.get(x, 0) - e
            if d[x] < 0:
                return None
            if d[x] == 0:
                del d[x]
        out[tuple(sorted(d.items(), key=lambda z: z[0].id))] = c / ca
    return TT._from(out)


def ite_with(t, nm):
    """a conditional atom of the polynomial t that mentions nm"""
    for m, c in t.args:
        for a, e in m:
            if a.op == 'ite' and nm in a.fv:
                return a
    return None


def sum_mono(lo, hi, k, m, c, depth):
    ka = TT.atom(k)
    nm = ka.args[0]
    dep, ind = [], []
    for a, e in m:
        (dep if nm in a.fv or a is ka else ind).append((a, e))
    out = TT._from({tuple(ind): c})
    if not dep:
        return mul(out, sub(hi, lo))
    ites = [a for a, e in dep if a.op == 'ite']
    if not ites or depth > 12:
        d = TT._from({tuple(dep): 1})
        # linear bodies in k keep a closed form only through the raw sum
        return mul(out, sum_raw(lo, hi, k, d))
    a = ites[0]
    e = dict(dep)[a]
    rest = TT._from({tuple(x for x in dep if x[0] is not a): 1})
    cond, x, y = a.args

    def pw(v):
        v = num(v)
        if e < 0:
            v = TT.recip(v)
        r = ONE
        for _ in range(abs(e)):
            r = mul(r, v)
        return mul(rest, r)

    return mul(out, sum_cond(lo, hi, k, cond, lambda: pw(x), lambda: pw(y), depth + 1))


def sum_cond(lo, hi, k, cond, fx, fy, depth):
    """sum over k of (cond ? x : y)"""
    ka = TT.atom(k)
    nm = ka.args[0]
    if nm not in cond.fv:
        d = decide(cond)
        if d is True:
            return smart_sum(lo, hi, k, fx(), depth)
        if d is False:
            return smart_sum(lo, hi, k, fy(), depth)
        with assume(cond):
            a = smart_sum(lo, hi, k, fx(), depth)
        with assume(not_(cond)):
            b = smart_sum(lo, hi, k, fy(), depth)
        return num(ite(cond, a, b))
    neg = cond.op == 'not' and cond.args[0].op == 'and'
    if neg:
        return sum_cond(lo, hi, k, cond.args[0], fy, fx, depth)
    if cond.op == 'and':
        ls = literals(cond)
        # equalities first, then k-free
        ls.sort(key=lambda l: (0 if nm not in l.fv else (1 if l.op == 'eq' else 2)))
        first, rest = ls[0], and_(*ls[1:])
        return sum_cond(lo, hi, k, first, lambda: num(ite(rest, fx(), fy())), fy, depth)
    lit = cond
    if lit.op == 'not' and lit.args[0].op == 'eq':
        return sum_cond(lo, hi, k, lit.args[0], fy, fx, depth)
    if lit.op in ('eq', 'ge') and lit.args[0].sort == 'I':
        it = ite_with(lit.args[0], nm)
        if it is not None and depth < 12:
            c2, x2, y2 = it.args
            mk = eq if lit.op == 'eq' else ge
            la, lb = mk(subst(lit.args[0], {it: num(x2)}), ZERO), mk(subst(lit.args[0], {it: num(y2)}), ZERO)
            return sum_cond(lo, hi, k, c2, lambda: num(ite(la, fx(), fy())), lambda: num(ite(lb, fx(), fy())), depth + 1)
        ab = lin_in(lit.args[0], ka)
        if ab is not None:
            a, b = ab
            sgn = None
            if prove(ge(a, 1)):
                sgn = 1
            elif prove(le(a, -1)):
                sgn = -1
            if sgn is not None:
                if sgn < 0:
                    a = scale(a, -1)
                t = scale(b, -1) if sgn > 0 else b   # eq: a*k = t ; ge: sgn>0: a*k >= t ; sgn<0: a*k <= t
                if lit.op == 'eq':
                    if a is ONE:
                        q, r = t, ZERO
                    else:
                        if not prove(ge(t, 0)):
                            with assume(lt(t, 0)):
                                # no solution with k>=lo>=0
                                pass
                        q, r = ediv(t, a)
                    cin = and_(eq(r, 0), ge(q, lo), lt(q, hi))
                    if a is not ONE:
                        cin = and_(cin, ge(t, 0))
                    d = decide(cin)
                    # the point at an end of the range: the rest of the range
                    # is summed without it (the formula of the other case may
                    # read outside of an array at that point)
                    last = sub(sub(hi, ONE), q)
                    first = sub(q, lo)
                    end = None
                    if d is True and const(last) == 0:
                        end = (lo, q)
                    elif d is True and const(first) == 0:
                        end = (add(lo, ONE), hi)
                    if end is not None:
                        with assume(cin):
                            pt = simp(subst(fx(), {ka: q}))
                        return add(smart_sum(end[0], end[1], k, fy(), depth), pt)
                    xy = sub(fx(), fy())
                    base = smart_sum(lo, hi, k, fy(), depth)
                    if d is False:
                        return base
                    with assume(cin):
                        pt = simp(subst(xy, {ka: q}))
                    if d is True:
                        return add(base, pt)
                    return add(base, num(ite(cin, pt, ZERO)))
                if sgn > 0:
                    # k >= ceil(t/a)
                    if a is ONE:
                        th = t
                    else:
                        th = None
                        u = sub(add(t, a), ONE)
                        if prove(ge(u, 0)):
                            th = ediv(u, a)[0]
                        elif prove(le(t, 0)):
                            th = ZERO
                    if th is not None:
                        return split_at(lo, hi, k, th, fy, fx, depth)
                else:
                    # k <= floor(t/a)
                    th = None
                    if a is ONE:
                        th = add(t, ONE)
                    elif prove(ge(t, 0)):
                        th = add(ediv(t, a)[0], ONE)
                    elif prove(lt(t, 0)):
                        th = ZERO
                    if th is not None:
                        return split_at(lo, hi, k, th, fx, fy, depth)
    d = num(ite(cond, fx(), fy()))
    return sum_raw(lo, hi, k, d)


def split_at(lo, hi, k, th, f_lo, f_hi, depth):
    """f_lo for k<th, f_hi for k>=th"""
    d = decide(le(th, lo))
    if d is True:
        return smart_sum(lo, hi, k, f_hi(), depth)
    d2 = decide(ge(th, hi))
    if d2 is True:
        return smart_sum(lo, hi, k, f_lo(), depth)
    if d is False and d2 is False:
        return add(smart_sum(lo, th, k, f_lo(), depth), smart_sum(th, hi, k, f_hi(), depth))
    if d is None:
        with assume(le(th, lo)):
            a = smart_sum(lo, hi, k, f_hi(), depth)
        with assume(gt(th, lo)):
            b = split_at(lo, hi, k, th, f_lo, f_hi, depth)
        return num(ite(le(th, lo), a, b))
    with assume(ge(th, hi)):
        a = smart_sum(lo, hi, k, f_lo(), depth)
    with assume(lt(th, hi)):
        b = split_at(lo, hi, k, th, f_lo, f_hi, depth)
    return num(ite(ge(th, hi), a, b))


def mk_forall2(r, c, f):
    i, j = fresh('fi'), fresh('fj')
    if const(c) == 1:
        with assume(ge(i, 0), lt(i, r)):
            b = boolt(f(i, ZERO))
    elif const(r) == 1:
        with assume(ge(j, 0), lt(j, c)):
            b = boolt(f(ZERO, j))
    else:
        with assume(ge(i, 0), lt(i, r), ge(j, 0), lt(j, c)):
            b = boolt(f(i, j))
    if b is TRUE:
        return TRUE
    return close('forall', (i, j), (num(r), num(c)), b, 'B')


def mk_extremum(ismax, m):
    i, j = fresh('xi'), fresh('xj')
    with assume(ge(i, 0), lt(i, m.r), ge(j, 0), lt(j, m.c)):
        b = num(m.get(i, j))
    return numof(close('extr', (i, j), ('max' if ismax else 'min', m.r, m.c), b, 'R'))


# ------------------------------------------------------------------ equality
class Budget(Exception):
    pass


def undecided_literal(c):
    """an atomic condition inside c that the context does not decide"""
    if c.op == 'not':
        return undecided_literal(c.args[0])
    if c.op == 'and':
        for l in c.args:
            if decide(l) is None:
                return undecided_literal(l)
        return c
    return c


def pick_cond(t, seen=None):
    """an undecided condition of an ite reachable without crossing a binder; prefers atomic ones"""
    if seen is None:
        seen = set()
    mx = None
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if not smt.has_ite(x):
            continue
        if x.op == 'num':
            for m, c in x.args:
                for a, e in m:
                    st.append(a)
            continue
        if x.op == 'ite':
            c = x.args[0]
            return undecided_literal(c)
        if x.op == 'max' and mx is None:
            mx = x
        if x.op in ('sum', 'mlam', 'forall', 'extr', 'dlam'):
            if x.op == 'sum':
                st.append(x.args[0])
            continue
        st.extend(x.args)
    return None if mx is None else ge(mx.args[0], mx.args[1])


FAIL = []


TINY = [False]      # comparison up to finite-difference error: terms with negligible numeric coefficients are dropped
from fractions import Fraction
TINYC = Fraction(1, 20000)


def eqv(a, b, depth=0):
    """prove a == b under the current context (numbers or booleans or matrices terms)"""
    if isinstance(a, T) and isinstance(b, T) and a is b:
        return True
    if a.sort == 'B' or b.sort == 'B':
        return eqvB(boolt(a), boolt(b), depth)
    if a.sort == 'M':
        return eqvM(a, b, depth)
    d = simp(sub(num(a), num(b)))
    return zero(d, depth)


def zero(d, depth=0):
    if d is ZERO:
        return True
    if S.ctx.bad:
        return True
    if depth > 40:
        return False
    c = pick_cond(d)
    if c is not None and maxes(d):
        # equal maxima are recognised before they are resolved
        d2 = congr(d, depth, ('max',))
        if d2 is not d:
            return zero(simp(d2), depth + 1)
    if c is not None:
        r = True
        for cc in (c, not_(c)):
            with assume(cc):
                if smt.ctx_inconsistent():
                    continue
                r = zero(simp(d), depth + 1)
                if not r:
                    return False
        return True
    if TINY[0]:
        d = TT._from({m: c for m, c in d.args if abs(c) > TINYC})
        if d is ZERO:
            return True
    d = reduce_inv(d)
    if d is ZERO:
        return True
    d2 = congr(d, depth)
    if d2 is ZERO:
        return True
    if d2 is not d:
        return zero(simp(d2), depth + 1)
    d2 = unit_sums(d)
    if d2 is not d:
        return zero(simp(d2), depth + 1)
    if any(a.op == 'sum' for m, c in d.args for a, e in m):
        e = smt.equalities(deep=True)
        if e:
            d2 = TT.subst(d, e)
            if d2 is not d:
                return zero(simp(d2), depth + 1)
    try:
        d2 = merge_sums(d, depth)
    except Split as e:
        for cc in (e.args[0], not_(e.args[0])):
            with assume(cc):
                if not smt.ctx_inconsistent() and not zero(simp(d), depth + 1):
                    return False
        return True
    if d2 is ZERO:
        return True
    if d2 is not d:
        return zero(simp(d2), depth + 1)
    if prove(eq(d, 0)):
        return True
    if smt.ctx_inconsistent():
        return True
    e = smt.equalities(deep=True)
    if e:
        d2 = TT.subst(d, e)
        if d2 is not d:
            return zero(simp(d2), depth + 1)
    FAIL.append((d, S.ctx))
    return False


def reduce_inv(d):
    """clear denominators inv(p) (p assumed nonzero) and negative powers; squares of roots"""
    for _ in range(6):
        invs = {}
        sq = None
        for m, c in d.args:
            for a, e in m:
                if a.op == 'inv' and e > 0:
                    invs[a] = max(invs.get(a, 0), e)
                if a.op == 'sqrt' and (e >= 2 or e <= -1):
                    sq = a
        if sq is not None:
            lowest = min([dict(m).get(sq, 0) for m, c in d.args] + [0])
            r = ZERO
            for m, c in d.args:
                dd = dict(m)
                e = dd.pop(sq, 0) - (lowest if lowest < 0 else 0)
                t = TT._from({tuple(sorted(dd.items(), key=lambda z: z[0].id)): c})
                for _ in range(e // 2):
                    t = mul(t, sq.args[0])
                if e % 2:
                    t = mul(t, numof(sq))
                r = add(r, t)
            if r is d:
                return d
            d = r
            continue
        if not invs:
            return d
        a = next(iter(invs))
        E = invs[a]
        r = ZERO
        for m, c in d.args:
            dd = dict(m)
            e = dd.pop(a, 0)
            t = TT._from({tuple(sorted(dd.items(), key=lambda z: z[0].id)): c})
            for _ in range(E - e):
                t = mul(t, a.args[0])
            r = add(r, t)
        d = r
    return d


_MERGEABLE = ('read', 'iread', 'app', 'fun', 'abs', 'sqrt', 'inv', 'mexp', 'extr', 'dapp', 'div', 'mod', 'trunc', 'max')


def args_equal(x, y, depth):
    for u, v in zip(x.args, y.args):
        if u is v:
            continue
        if isinstance(u, T) and isinstance(v, T):
            if u.sort == 'M' or v.sort == 'M':
                if not eqvM(u, v, depth + 1):
                    return False
            elif u.sort == 'B' or v.sort == 'B':
                if not eqvB(boolt(u), boolt(v), depth + 1):
                    return False
            elif not quick_eq(u, v, depth + 1):
                return False
        elif isinstance(u, tuple) and isinstance(v, tuple):
            if len(u) != len(v):
                return False
            for p, q in zip(u, v):
                if p is q:
                    continue
                if not (isinstance(p, T) and isinstance(q, T)):
                    if p != q:
                        return False
                    continue
                if not eqv(p, q, depth + 1):
                    return False
        elif u != v:
            return False
    return True


def quick_eq(u, v, depth):
    u, v = num(u), num(v)
    if u.sort == 'I' and v.sort == 'I':
        return prove(eq(u, v))
    n = len(FAIL)
    r = eqv(u, v, depth)
    del FAIL[n:]
    return r


def key_of(a):
    if a.op in ('read', 'iread', 'app', 'fun', 'dapp'):
        return (a.op, a.args[0], len(a.args))
    if a.op == 'extr':
        return None
    return (a.op, len(a.args))


def maxes(d):
    n = set()
    for m, c in d.args:
        for a, e in m:
            if a.op == 'max':
                n.add(a.id)
            elif a.op == 'inv' and smt.has_op(a, 'max'):
                n.add(a.id)
    return len(n) > 1


def congr(d, depth, ops=None):
    groups = {}
    for m, c in d.args:
        for a, e in m:
            if a.op in (ops or _MERGEABLE):
                k = key_of(a)
                if k:
                    g = groups.setdefault(k, {})
                    g[a.id] = a
    for g in groups.values():
        l = sorted(g.values(), key=lambda a: a.id)
        if len(l) < 2:
            continue
        for x in range(len(l)):
            for y in range(x + 1, len(l)):
                if l[x].op == 'app' and depth > 12:
                    continue
                n = len(FAIL)
                ok = args_equal(l[x], l[y], depth)
                del FAIL[n:]
                if ok:
                    return subst_atom(d, l[y], numof(l[x]))
    return d


def subst_atom(d, a, v):
    """replace top-level atom a by number v"""
    r = ZERO
    for m, c in d.args:
        dd = dict(m)
        e = dd.pop(a, 0)
        t = TT._from({tuple(sorted(dd.items(), key=lambda z: z[0].id)): c})
        if e:
            w = TT.recip(v) if e < 0 else v
            for _ in range(abs(e)):
                t = mul(t, w)
        r = add(r, t)
    return r


def unit_sums(d):
    """sums over at most one index"""
    for m, c in d.args:
        for a, e in m:
            if a.op == 'sum':
                n = num(a.args[0])
                if prove(le(n, 1)):
                    r = num(ite(ge(n, 1), TT.opensub(a, [ZERO]), ZERO))
                    return subst(d, {a: r})
    return d


def open_sum(a, k=None):
    n = a.args[0]
    k = k if k is not None else fresh('s')
    return n, k, TT.opensub(a, [k])


def merge_sums(d, depth):
    """normalise sum bodies, then combine sums over the same range"""
    sums = []
    rest = ZERO
    for m, c in d.args:
        ss = [a for a, e in m if a.op == 'sum' and e == 1]
        if len(ss) >= 1:
            a = ss[0]
            f = TT._from({tuple(x for x in m if x[0] is not a): c})
            sums.append((a, f))
        else:
            rest = add(rest, TT._from({m: c}))
    if not sums:
        return d
    # renormalise under the current context
    nd = rest
    changed = False
    for a, f in sums:
        n, k, body = open_sum(a)
        t = smart_sum(ZERO, n, k, body)
        if t is not numof(a):
            changed = True
        nd = add(nd, mul(f, t))
    if changed and nd is not d:
        return nd
    # group by range
    groups = []
    for a, f in sums:
        n = a.args[0]
        for g in groups:
            if g[0] is n or prove(eq(g[0], n)):
                g[1].append((a, f))
                break
        else:
            groups.append([n, [(a, f)]])
    res = rest
    done = False
    for n, items in groups:
        k = fresh('s')
        tot = ZERO
        for a, f in items:
            tot = add(tot, mul(f, TT.opensub(a, [k])))
        with assume(ge(k, 0), lt(k, n)):
            tot = simp(tot)
            nf = len(FAIL)
            z = zero(tot, depth + 1)
            if z:
                del FAIL[nf:]
        if z:
            done = True
            continue
        for a, f in items:
            res = add(res, mul(f, numof(a)))
    if done:
        return res
    r = join_sums(d)
    if r is not d:
        return r
    r = join_shifted(d, sums)
    if r is not d:
        return r
    return align_sums(d, sums, depth)


def join_shifted(d, sums):
    """ranges that differ by a constant: the longer ones are peeled when the remainders can then be joined"""
    groups = []
    for a, f in sums:
        for g in groups:
            if g[0] is a.args[0]:
                g[1].append((a, f))
                break
        else:
            groups.append((num(a.args[0]), [(a, f)]))
    for n1, l1 in groups:
        for n2, l2 in groups:
            c = const(sub(n2, n1))
            if c is None or c != int(c) or not 0 < c <= 3 or not prove(ge(n1, 0)):
                continue
            c = int(c)
            for first in (0, c):
                tot = pts = ZERO
                for a, f in l1:
                    tot = add(tot, mul(f, numof(a)))
                for a, f in l2:
                    k = fresh('js')
                    tot = add(tot, mul(f, smart_sum(ZERO, n1, k, TT.opensub(a, [add(k, num(first))]))))
                    for t in range(c):
                        pts = add(pts, mul(f, TT.opensub(a, [num(t) if first else add(n1, num(t))])))
                r = join_sums(tot)
                if r is tot:
                    continue
                r = add(r, pts)
                for u, h in sums:
                    if not any(u is a for a, f in l1) and not any(u is a for a, f in l2):
                        r = add(r, mul(h, numof(u)))
                for m, co in d.args:
                    if not any(a.op == 'sum' and e == 1 for a, e in m):
                        r = add(r, TT._from({m: co}))
                return r
    return d


def join_sums(d, level=0):
    """sums over adjacent ranges of the same summand (at any nesting) are joined"""
    if level > 3:
        return d
    sums, rest = [], ZERO
    for m, c in d.args:
        ss = [a for a, e in m if a.op == 'sum' and e == 1]
        if len(ss) == 1 and not any(a.op == 'sum' and e != 1 for a, e in m):
            a = ss[0]
            sums.append((a, TT._from({tuple(x for x in m if x[0] is not a): c})))
        else:
            rest = add(rest, TT._from({m: c}))
    if len(sums) < 2 and not level:
        return d
    # adjacent ranges
    for x, (a, f) in enumerate(sums):
        for y, (b, g) in enumerate(sums):
            if a is b or f is not g:
                continue
            k = fresh('jn')
            n1, n2 = num(a.args[0]), num(b.args[0])
            if TT.opensub(b, [k]) is not TT.opensub(a, [add(k, n1)]):
                continue
            if not prove(and_(ge(n1, 0), ge(n2, 0))):
                continue
            t = mul(f, smart_sum(ZERO, add(n1, n2), k, TT.opensub(a, [k])))
            r = add(rest, t)
            for z, (u, h) in enumerate(sums):
                if z not in (x, y):
                    r = add(r, mul(h, numof(u)))
            return r
    # the same range: inside
    groups = []
    for a, f in sums:
        for g in groups:
            if g[0] is a.args[0]:
                g[1].append((a, f))
                break
        else:
            groups.append((a.args[0], [(a, f)]))
    for n, items in groups:
        k = fresh('jn')
        tot = ZERO
        for a, f in items:
            tot = add(tot, mul(f, TT.opensub(a, [k])))
        with assume(ge(k, 0), lt(k, n)):
            t2 = join_sums(tot, level + 1)
        if t2 is not tot:
            r = d
            for a, f in items:
                r = sub(r, mul(f, numof(a)))
            return add(r, smart_sum(ZERO, n, k, t2))
    return d


def index_args(t, k):
    """arguments of atoms of t that are linear in k: {(op, name, position): [(slope, offset)]}"""
    nm = k.args[0]
    out = {}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen or nm not in x.fv:
            continue
        seen.add(x.id)
        if x.op == 'num':
            for m, c in x.args:
                st.extend(a for a, e in m)
            continue
        if x.op in ('read', 'iread', 'fun'):
            for q, y in enumerate(x.args[1:]):
                if isinstance(y, T) and y.op == 'num' and nm in y.fv:
                    l = lin_in(y, k)
                    if l is not None:
                        out.setdefault((x.op, x.args[0], q), []).append(l)
        st.extend(x.args)
    return out


def align_sums(d, sums, depth):
    """two sums over ranges shifted against each other by a constant: both are peeled to the common range"""
    items = {a.id: a for a, f in sums}
    l = [items[i] for i in sorted(items)]
    k = fresh('al')
    ka = TT.atom(k)
    ix = {}
    for a in l:
        ix[a.id] = index_args(TT.opensub(a, [k]), ka)
    for x in l:
        for y in l:
            if x is y:
                continue
            cs = set()
            for key, lx in ix[x.id].items():
                for sx, ox in lx:
                    for sy, oy in ix[y.id].get(key, ()):
                        if sx is sy:
                            q = exact_div(sub(oy, ox), sx) if len(sx.args) == 1 else None
                            q = None if q is None else const(q)
                            if q is not None and q == int(q) and 0 < q <= 3:
                                cs.add(int(q))
            # body_y(k) resembles body_x(k + c)
            n1, n2 = num(x.args[0]), num(y.args[0])
            for c in sorted(cs):
                e = const(simp(sub(add(n2, num(c)), n1)))
                if e is None or e != int(e) or abs(e) > 3:
                    continue
                e = int(e)
                if not prove(ge(n1, c + max(0, -e))) or not prove(ge(n2, max(0, e))):
                    return split_small(d, n1, n2, c, e)
                r = peel(d, x, c, max(0, -e))
                return peel(r, y, 0, max(0, e))
    return glue_sums(d, sums, depth)


GLUE = [0]


def glue_sums(d, sums, depth):
    """a longer sum is cut where a shorter one begins or ends, when one of the parts then cancels"""
    if GLUE[0] > 2:
        return d
    groups = []
    for a, f in sums:
        n = num(a.args[0])
        for g in groups:
            if g[0] is n or prove(eq(g[0], n)):
                g[1].append((a, f))
                break
        else:
            groups.append([n, [(a, f)]])
    if len(groups) < 2:
        return d
    GLUE[0] += 1
    try:
        for n1, l1 in groups:
            for n2, l2 in groups:
                if n1 is n2 or not prove(and_(ge(n1, 0), le(n1, n2))):
                    continue
                rest = sub(n2, n1)
                for off in (ZERO, rest):
                    k = fresh('gl')
                    tot = ZERO
                    for a, f in l1:
                        tot = add(tot, mul(f, TT.opensub(a, [k])))
                    for a, f in l2:
                        tot = add(tot, mul(f, TT.opensub(a, [add(k, off)])))
                    nf = len(FAIL)
                    with assume(ge(k, 0), lt(k, n1)):
                        z = zero(simp(tot), depth + 8)
                    del FAIL[nf:]
                    if not z:
                        continue
                    r = d
                    for a, f in l1:
                        r = sub(r, mul(f, numof(a)))
                    for a, f in l2:
                        r = sub(r, mul(f, numof(a)))
                        k = fresh('gl')
                        r = add(r, mul(f, smart_sum(ZERO, rest, k, TT.opensub(a, [add(k, ZERO if off is rest else n1)]))))
                    return r
    finally:
        GLUE[0] -= 1
    return d


def split_small(d, n1, n2, c, e):
    g = and_(ge(n1, c + max(0, -e)), ge(n2, max(0, e)))
    if decide(g) is False:
        # at most a few terms: written out
        for m, co in d.args:
            for a, ex in m:
                if a.op == 'sum':
                    n = num(a.args[0])
                    if prove(le(n, 3)):
                        r = ZERO
                        for t in (2, 1, 0):
                            r = num(ite(ge(n, t + 1), add(r, TT.opensub(a, [num(t)])), ZERO))
                        return subst(d, {a: r})
        return d
    raise Split(g)


class Split(Exception):
    """a case distinction on the given condition is needed"""


def peel(d, a, first, last):
    """sum a without its first and last terms, which are written out"""
    if not first and not last:
        return d
    n = num(a.args[0])
    r = ZERO
    for t in range(first):
        r = add(r, TT.opensub(a, [num(t)]))
    for t in range(last):
        r = add(r, TT.opensub(a, [sub(n, num(t + 1))]))
    k = fresh('pl')
    body = TT.opensub(a, [add(k, num(first))])
    r = add(r, smart_sum(ZERO, sub(n, num(first + last)), k, body))
    return subst_atom(d, a, r)


def eqvM(a, b, depth):
    """equality of reified matrices"""
    if a is b:
        return True
    if a.op == 'mtup' and b.op == 'mtup':
        if a.args[0] is not b.args[0] or a.args[1] is not b.args[1]:
            return False
        return all(eqv(x, y, depth + 1) for x, y in zip(a.args[2], b.args[2]))
    if a.op == 'mlam' and b.op == 'mlam':
        if not (prove(eq(a.args[0], b.args[0])) and prove(eq(a.args[1], b.args[1]))):
            return False
        i, j = fresh('mi'), fresh('mj')
        x, y = TT.opensub(a, [i, j]), TT.opensub(b, [i, j])
        with assume(ge(i, 0), lt(i, a.args[0]), ge(j, 0), lt(j, a.args[1])):
            if smt.ctx_inconsistent():
                return True
            return eqv(x, y, depth + 1)
    return False


def bool_atoms(t, acc=None):
    if acc is None:
        acc = {}
    if t.op in ('and', 'not'):
        for x in t.args:
            bool_atoms(x, acc)
    elif t.op not in ('true', 'false'):
        acc[t.id] = t
    return acc


def canonB(t):
    """comparisons of extrema and absolute values as quantified linear comparisons"""
    if t.op == 'and':
        return and_(*[canonB(x) for x in t.args])
    if t.op == 'not':
        return not_(canonB(t.args[0]))
    if t.op == 'forall':
        i, j = fresh('ci'), fresh('cj')
        b = TT.opensub(t, [i, j])
        with assume(ge(i, 0), lt(i, t.args[0]), ge(j, 0), lt(j, t.args[1])):
            b = canonB(b)
        return TRUE if b is TRUE else close('forall', (i, j), (t.args[0], t.args[1]), b, 'B')
    if t.op == 'ge':
        p = t.args[0]
        for m, c in p.args:
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = m[0][0]
            if a.op == 'abs' and c < 0:
                x = num(a.args[0])
                return and_(canonB(ge(subst(p, {a: x}), 0)), canonB(ge(subst(p, {a: scale(x, -1)}), 0)))
            if a.op == 'extr' and prove(and_(ge(a.args[1], 1), ge(a.args[2], 1))):
                i, j = fresh('ci'), fresh('cj')
                b = TT.opensub(a, [i, j])
                q = subst(p, {a: num(b)})
                if (a.args[0] == 'max') == (c < 0):
                    return canonB(close('forall', (i, j), (a.args[1], a.args[2]), ge(q, 0), 'B'))
                return not_(canonB(close('forall', (i, j), (a.args[1], a.args[2]), not_(ge(q, 0)), 'B')))
    return t


def eqvB(a, b, depth=0):
    if a is b:
        return True
    if depth == 0:
        a, b = canonB(a), canonB(b)
        if a is b:
            return True
    # merge quantified atoms
    fa = [x for x in bool_atoms(a).values() if x.op == 'forall']
    fb = [x for x in bool_atoms(b).values() if x.op == 'forall']
    for x in fb:
        for y in fa:
            if x is y:
                continue
            if prove(and_(eq(x.args[0], y.args[0]), eq(x.args[1], y.args[1]))):
                i, j = fresh('mi'), fresh('mj')
                with assume(ge(i, 0), lt(i, x.args[0]), ge(j, 0), lt(j, x.args[1])):
                    u, v = TT.opensub(x, [i, j]), TT.opensub(y, [i, j])
                    ok = eqvB(u, v, depth + 1)
                if ok:
                    b = TT.subst(b, {x: y})
                    break
    if a is b:
        return True
    # merge arithmetic atoms by congruence
    A, B = bool_atoms(a), bool_atoms(b)
    for x in list(B.values()):
        if x.id in A or x.op not in ('ge', 'eq'):
            continue
        for y in A.values():
            if y.op == x.op and eqv(x.args[0], y.args[0], depth + 1):
                b = TT.subst(b, {x: y})
                break
            if y.op == 'ge' and x.op == 'ge' and x.args[0].sort == 'R' and False:
                pass
    if a is b:
        return True
    e = TT.or_(and_(a, b), and_(not_(a), not_(b)))
    return prove(e)

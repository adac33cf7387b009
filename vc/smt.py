"""Contexts (sets of facts) and the arithmetic prover on top of z3."""
import time
import z3
from terms import *
import terms as TT
import models

STATS = dict(queries=0, z3=0, z3time=0.0, memo=0, unknown=0)


class Ctx:
    __slots__ = ('facts', 'ids', 'key', 'bad')

    def __init__(self, facts=(), ids=frozenset(), bad=False):
        self.facts = facts
        self.ids = ids
        self.key = hash(ids)
        self.bad = bad

    def add(self, f):
        f = boolt(f)
        if f is TRUE or f.id in self.ids:
            return self
        if f is FALSE:
            return Ctx(self.facts, self.ids, True)
        if f.op == 'and':
            c = self
            for g in f.args:
                c = c.add(g)
            return c
        return Ctx(self.facts + (f,), self.ids | {f.id}, self.bad or not_(f).id in self.ids)


class State:
    def __init__(self):
        self.ctx = Ctx()
        self.memo = {}


S = State()


def reset():
    S.ctx = Ctx()
    S.memo = {}
    _eqmemo.clear()


class assume:
    def __init__(self, *fs):
        self.fs = fs

    def __enter__(self):
        self.old = S.ctx
        c = S.ctx
        for f in self.fs:
            c = c.add(f)
        S.ctx = c
        return c

    def __exit__(self, *a):
        S.ctx = self.old


def push(f):
    old = S.ctx
    S.ctx = old.add(f)
    return old


# ---------------------------------------------------------------- z3 translation (cached for the whole process)
_zmemo = {}
_nmemo = {}      # (poly id, sort) -> z3 expression
_bmemo = {}      # bool id -> z3 expression
_deps = {}       # term id -> (atoms, monos, comparison polynomials)
_axmemo = {}     # atom id -> (z3 axioms, dependent terms)
_monoax = {}
_keep = []


def _var(name, sort):
    k = (name, sort)
    v = _zmemo.get(k)
    if v is None:
        v = z3.Int(name) if sort == 'I' else (z3.Real(name) if sort == 'R' else z3.Bool(name))
        _zmemo[k] = v
    return v


def zatom(a):
    if a.op == 'ite':
        k = ('ite', a.id)
        v = _nmemo.get(k)
        if v is None:
            v = z3.If(zb(a.args[0]), zn(a.args[1], a.sort), zn(a.args[2], a.sort))
            _nmemo[k] = v
        return v
    return _var('a%d' % a.id, a.sort)


def mono_sort(m):
    return 'I' if all(a.sort == 'I' and e > 0 for a, e in m) else 'R'


def zmono(m):
    if len(m) == 1 and m[0][1] == 1:
        return zatom(m[0][0])
    return _var('m' + '_'.join('%d^%d' % (a.id, e) for a, e in m), mono_sort(m))


def zn(p, sort=None):
    if p.op != 'num':
        p = num(p)
    if sort is None:
        sort = p.sort
    k = (p.id, sort)
    r = _nmemo.get(k)
    if r is not None:
        return r
    ts = []
    for m, c in p.args:
        if not m:
            ts.append(z3.IntVal(c) if sort == 'I' else z3.RealVal(str(c)))
            continue
        v = zmono(m)
        if sort == 'R' and v.sort() == z3.IntSort():
            v = z3.ToReal(v)
        if c == 1:
            ts.append(v)
        else:
            ts.append((z3.IntVal(c) if sort == 'I' else z3.RealVal(str(c))) * v)
    if not ts:
        r = z3.IntVal(0) if sort == 'I' else z3.RealVal(0)
    elif len(ts) == 1:
        r = ts[0]
    else:
        r = z3.Sum(ts)
    _nmemo[k] = r
    return r


def zb(t):
    r = _bmemo.get(t.id)
    if r is not None:
        return r
    op = t.op
    if op == 'true':
        r = z3.BoolVal(True)
    elif op == 'false':
        r = z3.BoolVal(False)
    elif op == 'not':
        r = z3.Not(zb(t.args[0]))
    elif op == 'and':
        r = z3.And([zb(x) for x in t.args])
    elif op == 'ge':
        r = zn(t.args[0]) >= 0
    elif op == 'eq':
        r = zn(t.args[0]) == 0
    else:
        r = _var('b%d' % t.id, 'B')
    _bmemo[t.id] = r
    return r


_E = frozenset()


def deps(t):
    """(atoms, nonlinear monomials, comparison polynomials) used in the translation of t"""
    r = _deps.get(t.id)
    if r is not None:
        return r
    at, mo, ge_ = set(), set(), set()
    op = t.op
    if op == 'num':
        for m, c in t.args:
            if not m:
                continue
            if not (len(m) == 1 and m[0][1] == 1):
                mo.add(m)
            for a, e in m:
                if a.op == 'ite':
                    for x in a.args:
                        d = deps(x)
                        at |= d[0]
                        mo |= d[1]
                        ge_ |= d[2]
                    if not (len(m) == 1 and e == 1):
                        at.add(a)
                else:
                    at.add(a)
    elif op in ('and', 'not'):
        for x in t.args:
            d = deps(x)
            at |= d[0]
            mo |= d[1]
            ge_ |= d[2]
    elif op in ('ge', 'eq'):
        d = deps(t.args[0])
        at |= d[0]
        mo |= d[1]
        ge_ |= d[2]
        ge_.add(t.args[0])
    r = (frozenset(at), frozenset(mo), frozenset(ge_))
    _deps[t.id] = r
    return r


def atom_axioms(a):
    r = _axmemo.get(a.id)
    if r is not None:
        return r
    ax, ts = [], []
    _axmemo[a.id] = (ax, ts)
    if a.op == 'ite':
        return ax, ts
    v = zatom(a)
    if a.op == 'max':
        x, y = zn(a.args[0], a.sort), zn(a.args[1], a.sort)
        ax.append(z3.Or(z3.And(v == x, x >= y), z3.And(v == y, y >= x)))
        ts += list(a.args)
    elif a.op == 'abs':
        x = zn(a.args[0], a.sort)
        ax.append(z3.If(x >= 0, v == x, v == -x))
        ts.append(a.args[0])
    elif a.op in ('div', 'mod'):
        x, n = a.args
        d, m = TT.idiv(x, n), TT.imod(x, n)
        q = add(mul(n, d), m)
        ts += [d, m, q, x, n]
        # floor division, n > 0
        ax.append(z3.Implies(zn(n, 'I') > 0, z3.And(zn(x, 'I') == zn(q, 'I'), zn(m, 'I') >= 0, zn(m, 'I') < zn(n, 'I'))))
        ax.append(z3.Implies(z3.And(zn(n, 'I') > 0, zn(x, 'I') >= 0), z3.And(zn(d, 'I') >= 0, zn(m, 'I') <= zn(x, 'I'))))
        ax.append(z3.Implies(z3.And(zn(n, 'I') > 0, zn(x, 'I') >= 0, zn(x, 'I') < zn(n, 'I')), z3.And(zn(d, 'I') == 0, zn(m, 'I') == zn(x, 'I'))))
    elif a.op == 'sqrt':
        ts.append(a.args[0])
        ax.append(v >= 0)
    elif is_pos_atom(a):
        ax.append(v > 0)
    elif is_nonneg_atom(a):
        ax.append(v >= 0)
    if a is INFATOM:
        ax.append(v > 1)
    if a.op == 'read' and a.args[0] in TT._finreads:
        ax.append(v < zatom(INFATOM))
        ts.append(TT.INF)
    if a.op == 'iread' and a.args[0].startswith('sp') and a.args[0][3:4] == ':':
        sparse_axioms(a, v, ax, ts)
    return ax, ts


def sparse_axioms(a, v, ax, ts):
    import sparse
    f, s = a.args[0][2], a.args[0][4:]
    R, C, m = sparse.SP[s]
    nnz = sparse.start(s, C)
    ts.append(nnz)
    if f == 'o':
        if numof(a) is not nnz:
            ax.append(v <= zn(nnz, 'I'))
            ax.append(z3.Implies(zn(a.args[1], 'I') <= 0, v == 0))
        else:
            ax.append(z3.Implies(zn(a.args[1], 'I') <= 0, v == 0))
        ts.append(a.args[1])
    elif f in 'ic':
        p = num(a.args[1])
        ts.append(p)
        zp = zn(p, 'I')
        ok = z3.And(zp >= 0, zp < zn(nnz, 'I'))
        if f == 'i':
            ts.append(R)
            ax.append(z3.Implies(ok, v < zn(R, 'I')))
        else:
            k = numof(a)
            lo, hi = sparse.start(s, k), sparse.start(s, add(k, TT.ONE))
            ts.extend([C, lo, hi])
            ax.append(z3.Implies(ok, z3.And(v < zn(C, 'I'), zn(lo, 'I') <= zp, zp < zn(hi, 'I'))))


def sparse_pairs(atoms, absorb):
    """monotonicity of the column starts, increasing rows"""
    by = {}
    for a in atoms:
        if a.op == 'iread' and a.args[0][:4] in ('spo:', 'spi:'):
            by.setdefault(a.args[0], []).append(a)
    zs = []
    for nm, l in by.items():
        l.sort(key=lambda a: a.id)
        for x in range(len(l)):
            for y in range(x + 1, len(l)):
                a, b = l[x], l[y]
                p, q = num(a.args[1]), num(b.args[1])
                zp, zq, za, zb_ = zn(p, 'I'), zn(q, 'I'), zatom(a), zatom(b)
                absorb(p)
                absorb(q)
                if nm[2] == 'o':
                    zs.append(z3.And(z3.Implies(zp <= zq, za <= zb_), z3.Implies(zq <= zp, zb_ <= za)))
                else:
                    import sparse
                    ca, cb = sparse.column(nm[4:], p), sparse.column(nm[4:], q)
                    absorb(ca)
                    absorb(cb)
                    nnz = zn(sparse.start(nm[4:], sparse.SP[nm[4:]][1]), 'I')
                    zs.append(z3.Implies(z3.And(zp >= 0, zq >= 0, zp < nnz, zq < nnz, zn(ca, 'I') == zn(cb, 'I')),
                                         z3.And(z3.Implies(zp < zq, za < zb_), z3.Implies(zq < zp, zb_ < za))))
    return zs


def mono_axiom(m):
    r = _monoax.get(m)
    if r is None:
        v = zmono(m)
        if all(is_pos_atom(a) for a, e in m):
            r = v > 0
        elif all(is_nonneg_atom(a) or e % 2 == 0 for a, e in m):
            r = v >= 0
        else:
            r = False
        _monoax[m] = r
    return r


_prodlem = {}
_pairlem = {}
_common = {}


def prod_lemma(p, a):
    k = (p.id, a.id)
    r = _prodlem.get(k)
    if r is None:
        q = mul(p, numof(a))
        zp, zq, za = zn(p), zn(q), zatom(a)
        r = (q, [z3.Implies(zp >= 0, zq >= 0), z3.Implies(zp <= 0, zq <= 0), z3.Implies(zp <= -1, zq <= -za), z3.Implies(zp >= 1, zq >= za)])
        _prodlem[k] = r
    return r


def pair_lemma(m1, m2):
    k = (m1, m2)
    r = _pairlem.get(k)
    if r is None:
        d1, d2 = dict(m1), dict(m2)
        com = {}
        for a in d1:
            if a in d2:
                com[a] = min(d1[a], d2[a])
        if not com or not all(is_nonneg_atom(a) for a in com):
            r = ((), ())
        else:
            r1 = tuple((a, e - com.get(a, 0)) for a, e in m1 if e > com.get(a, 0))
            r2 = tuple((a, e - com.get(a, 0)) for a, e in m2 if e > com.get(a, 0))
            c = tuple(sorted(com.items(), key=lambda z: z[0].id))
            q1 = zmono(r1) if r1 else z3.IntVal(1)
            q2 = zmono(r2) if r2 else z3.IntVal(1)
            v1, v2, vc = zmono(m1), zmono(m2), zmono(c)
            r = ([z3.Implies(q1 < q2, v1 + vc <= v2), z3.Implies(q2 < q1, v2 + vc <= v1), z3.Implies(q1 == q2, v1 == v2)],
                 [x for x in (r1, r2, c) if x])
        _pairlem[k] = r
    return r


def common_factors(p):
    r = _common.get(p.id)
    if r is None:
        r = []
        # the constant left by a negated comparison is set aside
        p = TT._from({m: c for m, c in p.args if m})
        ms = [dict(m) for m, c in p.args]
        com = set(ms[0]) if ms else set()
        for d in ms[1:]:
            com &= set(d)
        for a in com:
            if is_nonneg_atom(a):
                r.append(TT._from({tuple(sorted(((x, e - (1 if x is a else 0)) for x, e in m if e - (1 if x is a else 0)), key=lambda z: z[0].id)): c for m, c in p.args}))
        _common[p.id] = r
    return r


TIMEOUT = [4000]


def build(fs):
    """z3 assertions for the conjunction of fs with axioms and product lemmas"""
    zs = [zb(f) for f in fs]
    atoms, monos, geqs = set(), set(), set()

    def absorb(t):
        d = deps(t)
        monos.update(d[1])
        geqs.update(d[2])
        for a in d[0]:
            addatom(a)

    def addatom(a):
        if a in atoms:
            return
        atoms.add(a)
        ax, ts = atom_axioms(a)
        zs.extend(ax)
        for t in ts:
            absorb(t)
    for f in fs:
        absorb(f)
    if any(a.op == 'iread' and a.args[0][:4] in ('spo:', 'spi:') for a in atoms):
        n = -1
        while n != len(atoms):
            n = len(atoms)
            pz = sparse_pairs(list(atoms), absorb)
            if n > 60:
                break
        zs.extend(pz)
    im = [m for m in monos if mono_sort(m) == 'I']
    if im:
        keys = set(im)
        mult = {}
        for m in im:
            for a, e in m:
                if is_nonneg_atom(a):
                    mult[a.id] = a
        polys = [p for p in geqs if p.sort == 'I' and len(p.args) <= 8]
        ids = {p.id for p in polys}
        for p in list(polys):
            for q in common_factors(p):
                if q.id not in ids:
                    ids.add(q.id)
                    polys.append(q)
                    absorb(q)
        polys.sort(key=lambda p: p.id)
        ml = [mult[k] for k in sorted(mult)]
        seen = set()
        for p in polys:
            for a in ml:
                q = mul(p, numof(a))
                if q.id in seen:
                    continue
                nl = [m for m, c in q.args if len(m) > 1 or (m and m[0][1] > 1)]
                if not nl or not any(m in keys for m in nl):
                    continue
                seen.add(q.id)
                q, l = prod_lemma(p, a)
                absorb(q)
                zs.extend(l)
        im = sorted([m for m in monos if mono_sort(m) == 'I'], key=lambda m: [(a.id, e) for a, e in m])
        for x in range(len(im)):
            for y in range(x + 1, len(im)):
                l, nm = pair_lemma(im[x], im[y])
                if l:
                    zs.extend(l)
                    for m in nm:
                        if not (len(m) == 1 and m[0][1] == 1):
                            monos.add(m)
                        for a, e in m:
                            addatom(a)
    for m in monos:
        ax = mono_axiom(m)
        if ax is not False:
            zs.append(ax)
    return zs


def _query(fs, want_model=False):
    zs = build(fs)
    s = z3.SimpleSolver()
    s.set('timeout', TIMEOUT[0])
    for z in zs:
        z3.Z3_solver_assert(s.ctx.ref(), s.solver, z.as_ast())
    STATS['z3'] += 1
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    STATS['z3time'] += dt
    if r == z3.unknown:
        STATS['unknown'] += 1
    if want_model is None:
        if r == z3.sat:
            mdl = s.model()

            def val(n):
                a = TT._tab.get(('ivar', (n,)))
                return None if a is None else mdl.eval(zatom(a), model_completion=True).as_long()
            return r, val
        return r, None
    if want_model:
        if r == z3.sat:
            mdl = s.model()
            return r, lambda t: mdl.eval(zn(num(t)), model_completion=True)
        return r, None
    return r


def _relevant(goal, facts):
    """facts connected to the goal through shared free names"""
    names = set(goal.fv)
    rest = list(facts)
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            if not f.fv or (f.fv & names):
                out.append(f)
                if not f.fv <= names:
                    names |= f.fv
                    ch = True
            else:
                nr.append(f)
        rest = nr
    return out


def prove(goal, ctx=None):
    goal = boolt(goal)
    ctx = ctx or S.ctx
    if goal is TRUE:
        return True
    if ctx.bad:
        return True
    STATS['queries'] += 1
    if goal.id in ctx.ids:
        return True
    if goal.op == 'and':
        return all(prove(g, ctx) for g in goal.args)
    if goal.op == 'ge' and is_nonneg(goal.args[0]):
        return True
    k = (ctx.ids, goal.id)
    r = S.memo.get(k)
    if r is not None:
        STATS['memo'] += 1
        return r
    r = None
    if goal.op == 'ge':
        p = goal.args[0]
        for f in ctx.facts:
            if f.op == 'ge' and is_nonneg(sub(p, f.args[0])):
                r = True
                break
        if r is None and _refute(p, ctx):
            r = False
    elif goal.op == 'eq':
        p = goal.args[0]
        if any(m == () for m, c in p.args):
            # p = 0 impossible if p or -p is syntactically positive
            if is_pos(p) or is_pos(scale(p, -1)):
                r = bool(ctx_inconsistent(ctx))
    if r is None:
        rel = _relevant(goal, ctx.facts)
        if models.refuted(rel, goal):
            r = False
        else:
            r, mdl = _query(rel + [not_(goal)], None)
            if r == z3.sat and mdl is not None:
                models.learn(rel, goal, mdl)
            r = r == z3.unsat
        if not r:
            r = prove_split(goal, ctx) or prove_eq(goal, ctx)
    S.memo[k] = r
    return r


_eqmemo = {}


def equalities(ctx=None, deep=False):
    """integer variables that the facts determine by a linear equation (given, or a pair of opposite inequalities): {variable: term}"""
    ctx = ctx or S.ctx
    r = _eqmemo.get((ctx.ids, deep))
    if r is not None:
        return r
    out = {}
    fs = [f for f in ctx.facts if f.op in ('ge', 'eq') and f.args[0].sort == 'I']
    if deep:
        # inequalities that are tight in this context
        for f in list(fs):
            p = f.args[0]
            if f.op == 'ge' and len(p.args) > 1 and all(not m or (len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ivar') for m, c in p.args) \
                    and any('!' in m[0][0].args[0] for m, c in p.args if m):
                g = ge(scale(p, -1), 0)
                if prove(g, ctx):
                    fs.append(g)
    for _ in range(12):
        best = None
        ges = {f.args[0].id for f in fs if f.op == 'ge'}
        for f in fs:
            p = f.args[0]
            if f.op == 'ge' and scale(p, -1).id not in ges:
                continue
            for m, c in p.args:
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].op == 'ivar':
                    a = m[0][0]
                    e = scale(sub(p, scale(num(a), c)), -c)
                    if a.args[0] in e.fv or e.sort != 'I':
                        continue
                    k = (0 if '!' in a.args[0] else 1, -a.id)
                    if best is None or k < best[0]:
                        best = (k, a, e)
        if best is None:
            break
        _, a, e = best
        m = {a: num(e)}
        out = {x: subst(v, m) for x, v in out.items()}
        out[a] = num(e)
        nf = []
        for f in fs:
            g = subst(f, m)
            if g.op in ('ge', 'eq') and g.args[0].sort == 'I':
                nf.append(g)
        fs = nf
    _eqmemo[(ctx.ids, deep)] = out
    return out


def prove_eq(goal, ctx):
    """retry with the determined variables replaced, when that makes non-linear terms linear"""
    if _depth[0] > 3 or goal.op not in ('ge', 'eq') or goal.args[0].sort != 'I':
        return False
    if not any(len(m) > 1 for m, c in goal.args[0].args):
        return False
    e = equalities(ctx)
    if not e:
        return False
    g = subst(goal, e)
    if g is goal:
        return False
    if g is TRUE:
        return True
    _depth[0] += 1
    try:
        cx = Ctx()
        for f in ctx.facts:
            cx = cx.add(subst(f, e))
        return prove(g, cx)
    finally:
        _depth[0] -= 1


def nl_ite(t):
    """an integer ite atom inside a nonlinear monomial of a literal"""
    st = [t]
    while st:
        x = st.pop()
        if x.op in ('and', 'not'):
            st.extend(x.args)
        elif x.op in ('ge', 'eq'):
            for m, c in x.args[0].args:
                if len(m) > 1 or (m and m[0][1] > 1):
                    for a, e in m:
                        if a.op == 'ite' and a.sort == 'I':
                            return a
    return None


_depth = [0]


def prove_split(goal, ctx):
    a = nl_ite(goal)
    if a is None or _depth[0] > 3:
        return False
    _depth[0] += 1
    try:
        for c, v in ((a.args[0], a.args[1]), (not_(a.args[0]), a.args[2])):
            m = {a: num(v)}
            cx = Ctx()
            for f in ctx.facts:
                cx = cx.add(subst(f, m))
            cx = cx.add(c)
            if not prove(subst(goal, m), cx):
                return False
        return True
    finally:
        _depth[0] -= 1


def _refute(p, ctx):
    return False


def ctx_inconsistent(ctx=None):
    ctx = ctx or S.ctx
    if ctx.bad:
        return True
    k = (ctx.ids, 'inc')
    r = S.memo.get(k)
    if r is None:
        if not ctx.facts or models.refuted(ctx.facts, FALSE):
            r = False
        else:
            r, mdl = _query(list(ctx.facts), None)
            if r == z3.sat and mdl is not None:
                models.learn(ctx.facts, FALSE, mdl)
            r = r == z3.unsat
        S.memo[k] = r
    return r


def decide(c, ctx=None):
    """True / False / None"""
    c = boolt(c)
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if prove(c, ctx):
        return True
    if prove(not_(c), ctx):
        return False
    return None


def model(goal, names, ctx=None):
    """values of the given terms in a counterexample to goal (ints/fractions), or None"""
    ctx = ctx or S.ctx
    r, ev = _query(list(ctx.facts) + [not_(boolt(goal))], True)
    if r != z3.sat:
        return None
    out = {}
    for k, t in names.items():
        v = ev(t)
        try:
            out[k] = v.as_long()
        except Exception:
            try:
                out[k] = float(v.as_fraction())
            except Exception:
                pass
    return out


# ---------------------------------------------------------------- simplification under the context
_simpmemo = {}


def simp(t):
    """resolve ite atoms whose condition the current context decides"""
    t = num(t)
    if not has_ite(t):
        return t
    k = (S.ctx.ids, t.id)
    r = _simpmemo.get(k)
    if r is not None:
        return r
    d = ZERO
    for m, c in t.args:
        p = num(c)
        for a, e in m:
            q = numof(a)
            if a.op == 'ite':
                dd = decide(a.args[0])
                if dd is True:
                    q = simp(a.args[1])
                elif dd is False:
                    q = simp(a.args[2])
                else:
                    with assume(a.args[0]):
                        x = simp(a.args[1])
                    with assume(not_(a.args[0])):
                        y = simp(a.args[2])
                    q = num(ite(a.args[0], x, y))
            elif a.op in ('max',):
                x, y = simp(a.args[0]), simp(a.args[1])
                q = maxn(x, y)
                dd = decide(ge(x, y))
                if dd is True:
                    q = x
                elif dd is False:
                    q = y
            elif a.op in ('div', 'mod'):
                import values
                x, y = simp(a.args[0]), simp(a.args[1])
                q = values.divmod_(x, y)[0 if a.op == 'div' else 1] if prove(ge(x, 0)) and prove(gt(y, 0)) else num(rebuild(a, (x, y)))
            elif has_ite(a):
                na = tuple(_simpany(x) for x in a.args) if a.op in ('read', 'iread', 'abs', 'sqrt', 'inv', 'app', 'fun', 'trunc') else a.args
                if na != a.args:
                    q = num(rebuild(a, na))
            if e < 0:
                q = recip(q)
                e = -e
            for _ in range(e):
                p = mul(p, q)
        d = add(d, p)
    _simpmemo[k] = d
    return d


def _simpany(x):
    if isinstance(x, T):
        if x.op == 'num':
            return simp(x)
        return x
    if isinstance(x, tuple):
        return tuple(_simpany(y) for y in x)
    return x


_hasite = {}


def has_ite(t):
    r = _hasite.get(t.id)
    if r is None:
        r = t.op in ('ite', 'max', 'div', 'mod')
        if not r:
            st = list(t.args)
            while st:
                x = st.pop()
                if isinstance(x, T):
                    if has_ite(x):
                        r = True
                        break
                elif isinstance(x, tuple):
                    st.extend(x)
        _hasite[t.id] = r
    return r


_hasop = {}


def has_op(t, op):
    k = (t.id, op)
    r = _hasop.get(k)
    if r is None:
        r = t.op == op
        st = list(t.args)
        while st and not r:
            x = st.pop()
            if isinstance(x, T):
                r = has_op(x, op)
            elif isinstance(x, tuple):
                st.extend(x)
        _hasop[k] = r
    return r

"""Concrete inputs that lead into the context of a failed obligation (exact z3 encoding; user functions and other atoms are free)."""
import z3
import terms as TT
from terms import num, not_, boolt

TIMEOUT = 4000
INF = 10 ** 30


class Enc:
    def __init__(self):
        self.inputs = {}     # key -> (kind, name, idx terms, z3 value)
        self.soft = set()
        self.side = []
        self.memo = {}
        self.fn = {}

    def n(self, p, sort=None):
        if p.op != 'num':
            p = num(p)
        sort = sort or p.sort
        k = ('n', p.id, sort)
        if k in self.memo:
            return self.memo[k]
        r = z3.IntVal(0) if sort == 'I' else z3.RealVal(0)
        for m, c in p.args:
            t = z3.IntVal(c) if sort == 'I' and isinstance(c, int) else z3.RealVal(str(c))
            for a, e in m:
                v = self.atom(a)
                if sort == 'R' and v.sort() == z3.IntSort():
                    v = z3.ToReal(v)
                for _ in range(abs(e)):
                    t = t * v if e > 0 else t / v
            r = r + t
        self.memo[k] = r
        return r

    def atom(self, a):
        k = ('a', a.id)
        if k in self.memo:
            return self.memo[k]
        op = a.op
        fresh = (z3.Int if a.sort == 'I' else z3.Real)('w%d' % a.id)
        r = fresh
        if op == 'ite':
            r = z3.If(self.b(a.args[0]), self.n(a.args[1], a.sort), self.n(a.args[2], a.sort))
        elif op in ('rvar', 'ivar'):
            if a.args[0] == 'inf':
                r = z3.RealVal(INF)
            else:
                r = (z3.Int if op == 'ivar' else z3.Real)(a.args[0])
                self.inputs[k] = (op, a.args[0], (), r)
                fl = TT._attr.get(a.id, ())
                if 'pos' in fl:
                    self.side.append(r > 0)
                if 'nonneg' in fl:
                    self.side.append(r >= 0)
        elif op in ('read', 'iread'):
            ix = [self.n(x, 'I') for x in a.args[1:]]
            f = self.fn.get((a.args[0], len(ix)))
            if f is None:
                f = z3.Function('rd!' + a.args[0], *([z3.IntSort()] * len(ix) + [z3.RealSort() if op == 'read' else z3.IntSort()]))
                self.fn[(a.args[0], len(ix))] = f
            r = f(*ix) if ix else fresh
            if op == 'read' and '!' not in a.args[0]:
                self.inputs[k] = (op, a.args[0], tuple(ix), r)
                if a.args[0] in TT._posreads:
                    self.side.append(r > 0)
                if a.args[0] in TT._finreads:
                    self.side.append(r < INF)
            else:
                self.soft.add(op)
        elif op == 'inv':
            self.side.append(r * self.n(a.args[0], 'R') == 1)
        elif op == 'abs':
            t = self.n(a.args[0], a.sort)
            r = z3.If(t >= 0, t, -t)
        elif op == 'max':
            x, y = self.n(a.args[0], a.sort), self.n(a.args[1], a.sort)
            r = z3.If(x >= y, x, y)
        elif op in ('div', 'mod'):
            x, y = self.n(a.args[0], 'I'), self.n(a.args[1], 'I')
            r = x / y if op == 'div' else x % y
        elif op == 'sqrt':
            self.side += [r * r == self.n(a.args[0], 'R'), r >= 0]
        else:
            self.soft.add(op)
        self.memo[k] = r
        return r

    def b(self, t):
        k = ('b', t.id)
        if k in self.memo:
            return self.memo[k]
        op = t.op
        if op == 'true':
            r = z3.BoolVal(True)
        elif op == 'false':
            r = z3.BoolVal(False)
        elif op == 'not':
            r = z3.Not(self.b(t.args[0]))
        elif op == 'and':
            r = z3.And([self.b(x) for x in t.args])
        elif op == 'ge':
            r = self.n(t.args[0]) >= 0
        elif op == 'eq':
            r = self.n(t.args[0]) == 0
        else:
            r = z3.Bool('b%d' % t.id)
            if op == 'bvar':
                self.inputs[k] = (op, t.args[0], (), r)
            else:
                self.soft.add(op)
        self.memo[k] = r
        return r


def witness(goal, ctx, names):
    """dict(ints, over, soft, goal) or None; names: integer inputs (dimensions and switches) to report"""
    for limit in ((3, 6, 16, 40, None) if names else (None,)):
        for withgoal in ((True, False) if goal is not None else (False,)):
            e = Enc()
            try:
                fs = [e.b(boolt(f)) for f in ctx.facts]
                soft = sorted(e.soft)
                if withgoal:
                    fs.append(z3.Not(e.b(boolt(goal))))
            except (RecursionError, z3.Z3Exception, TypeError):
                return None
            vs = {n: e.n(num(t), 'I') for n, t in names.items()}
            s = z3.Solver()
            s.set('timeout', TIMEOUT)
            s.add(fs)
            s.add(e.side)
            if limit is not None:
                s.add([v <= limit for v in vs.values()] + [v >= -limit for v in vs.values()])
            r = s.check()
            if r == z3.unsat and not withgoal:
                break
            if r != z3.sat:
                continue
            m = s.model()

            def val(v):
                x = m.eval(v, model_completion=True)
                if z3.is_int_value(x):
                    return x.as_long()
                if z3.is_true(x) or z3.is_false(x):
                    return 1 if z3.is_true(x) else 0
                if z3.is_rational_value(x):
                    x = float(x.as_fraction())
                elif z3.is_algebraic_value(x):
                    x = float(x.approx(20).as_fraction())
                else:
                    return None
                return float('inf') if x >= INF else (float('-inf') if x <= -INF else x)
            over = {}
            for op, name, ix, v in e.inputs.values():
                if op in ('ivar',) or name in names or '!' in name:
                    continue
                x = val(v)
                if x is None:
                    continue
                if op == 'read':
                    j = [val(i) for i in ix]
                    if any(q is None for q in j):
                        continue
                    j = (j + [0, 0])[:2]
                    over['%s:%d:%d' % (name, j[0], j[1])] = x
                else:
                    over[name] = x
            return dict(ints={n: val(v) for n, v in vs.items()}, over=over, soft=soft, goal=withgoal)
    return None

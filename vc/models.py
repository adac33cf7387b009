"""Concrete interpretations: a query whose negation holds in a known interpretation of all its facts needs no solver call.
Only refutations are taken from here (prove -> False); nothing is ever proved by evaluation."""
import itertools
import zlib
from fractions import Fraction
import terms as TT
from terms import T


class Unknown(Exception):
    pass


_fail = Unknown()


def crc(*a):
    return zlib.crc32('|'.join(map(str, a)).encode())



POOL = []
CAP = 120
HIT = [0, 0]


class Model:
    __slots__ = ('v', 'memo')

    def __init__(self, v):
        self.v = v
        self.memo = {}

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is None:
            try:
                r = self.go(t)
            except Unknown:
                r = _fail
            self.memo[t.id] = r
        if r is _fail:
            raise _fail
        return r

    def go(self, t):
        op = t.op
        if op == 'num':
            s = 0
            for m, c in t.args:
                p = c
                for a, e in m:
                    x = self.ev(a)
                    if e == 1:
                        p = p * x
                    elif e > 0:
                        p = p * x ** e
                    else:
                        if x == 0:
                            raise _fail
                        p = p * Fraction(x) ** e
                s = s + p
            return s
        if op == 'ivar':
            r = self.v.get(t.args[0])
            if r is None:
                raise _fail
            if r < 0 and TT.is_nonneg_atom(t) or r < 1 and TT.is_pos_atom(t):
                raise _fail
            return r
        if op == 'ge':
            return self.ev(t.args[0]) >= 0
        if op == 'eq':
            return self.ev(t.args[0]) == 0
        if op == 'and':
            for x in t.args:
                if not self.ev(x):
                    return False
            return True
        if op == 'not':
            return not self.ev(t.args[0])
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'ite':
            return self.ev(t.args[1] if self.ev(t.args[0]) else t.args[2])
        if op == 'max':
            return max(self.ev(t.args[0]), self.ev(t.args[1]))
        if op == 'abs':
            return abs(self.ev(t.args[0]))
        if op in ('div', 'mod'):
            x, n = self.ev(t.args[0]), self.ev(t.args[1])
            if n <= 0:
                raise _fail
            return x // n if op == 'div' else x % n
        if op == 'rvar':
            if t.args[0] == 'inf':
                return 10**9
            h = crc(t.args[0])
            return Fraction(1 + h % 17, 4) if TT.is_pos_atom(t) else Fraction(h % 33 - 16, 4)
        if op in ('read', 'iread'):
            nm = t.args[0]
            if nm[:2] == 'sp' and op == 'iread':
                raise _fail
            h = crc(nm, *[self.ev(x) if isinstance(x, T) else x for x in t.args[1:]])
            if op == 'iread':
                return h % 7
            return Fraction(1 + h % 17, 4) if TT.is_pos_atom(t) else Fraction(h % 33 - 16, 4)
        if op == 'bvar':
            return bool(crc(t.args[0]) & 1)
        if op == 'inv':
            x = self.ev(t.args[0])
            if x == 0:
                raise _fail
            return 1 / Fraction(x)
        raise _fail


def holds(m, facts, goal):
    """m satisfies the facts and falsifies the goal; None when it does not interpret one of them"""
    try:
        if m.ev(goal):
            return False
        for f in facts:
            if not m.ev(f):
                return False
        return True
    except Unknown:
        return None


def put(m):
    POOL.append(m)
    if len(POOL) > CAP:
        POOL.pop(0)


def refuted(facts, goal):
    """some known interpretation satisfies the facts and falsifies the goal"""
    names = None
    ext = []
    for i in range(len(POOL) - 1, -1, -1):
        m = POOL[i]
        r = holds(m, facts, goal)
        if r:
            HIT[0] += 1
            if i < len(POOL) - 8:
                POOL.append(POOL.pop(i))
            return True
        if r is None and len(ext) < 6:
            if names is None:
                names = set(goal.fv)
                for f in facts:
                    names |= f.fv
                names = {n for n in names if ('ivar', (n,)) in TT._tab}
            miss = names - m.v.keys()
            if 0 < len(miss) <= 2:
                ext.append((m, sorted(miss)))
    for m, miss in ext:
        vals = sorted({0, 1, 2} | {v for v in m.v.values() if 0 <= v < 50} | {v - 1 for v in m.v.values() if 1 <= v < 50})[:9]
        small = [f for f in facts if f.fv & set(miss)]
        for c in itertools.product(vals, repeat=len(miss)):
            v = {n: x for n, x in m.v.items() if n in names}
            v.update(zip(miss, c))
            x = Model(v)
            if holds(x, small, goal) and holds(x, facts, goal):
                HIT[0] += 1
                v = dict(m.v)
                v.update(zip(miss, c))
                put(Model(v))
                return True
    HIT[1] += 1
    return False


def learn(facts, goal, val):
    """val(name) -> integer value of a variable in a solver model (or None)"""
    names = set(goal.fv)
    for f in facts:
        names |= f.fv
    v = {}
    for n in names:
        x = val(n)
        if x is not None:
            v[n] = x
    m = Model(v)
    try:
        if m.ev(goal):
            return
        for f in facts:
            if not m.ev(f):
                return
    except Unknown:
        return
    POOL.append(m)
    if len(POOL) > CAP:
        POOL.pop(0)

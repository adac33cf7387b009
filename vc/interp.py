"""Symbolic interpreter of the clang AST of the real code (loops and symbolic sizes included)."""
import json
import re
from fractions import Fraction
from terms import *
import terms as TT
import smt
from smt import S, Ctx, assume, prove, decide
import values as VV
from values import *
import eigen as EG


class CppThrow(Exception):
    def __init__(self, v):
        Exception.__init__(self, 'C++ exception %r' % (v,))
        self.v = v


class Exc:
    """a C++ exception object"""

    def __init__(self, cls, msg):
        self.cls = cls
        self.msg = msg


class MapVal:
    """std::map from a small enum to int: total table key -> (present, value)"""

    def __init__(self, tab):
        self.tab = tab


class Stream:
    """text built by a stringstream (only concrete text is tracked; None = unknown)"""

    def __init__(self, parts=()):
        self.parts = tuple(parts)


class Out:
    """abnormal outcomes of a statement: n = (cond, heap) of normal completion or None"""

    def __init__(self, n, o):
        self.n = n
        self.o = o


EXC_BASES = {
    'nlopt::roundoff_limited': ['std::runtime_error', 'std::exception'],
    'nlopt::forced_stop': ['std::runtime_error', 'std::exception'],
    'std::runtime_error': ['std::exception'],
    'std::invalid_argument': ['std::logic_error', 'std::exception'],
    'std::logic_error': ['std::exception'],
    'std::out_of_range': ['std::logic_error', 'std::exception'],
    'std::bad_alloc': ['std::exception'],
    'std::exception': [],
}

_TABS = {}


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {f['id']: f for f in d['fns']}
        self.canon = {}
        for f in d['fns']:
            self.canon[f['canon']] = f
        self.recs = {r['id']: r for r in d['recs']}
        self.rec_by_t = {r['t']: r for r in d['recs']}
        self.rec_by_q = {}
        for r in d['recs']:
            self.rec_by_q.setdefault(r['q'], r)
        self.globals = {g['id']: g for g in d['globals']}
        self.byname = {}
        for f in d['fns']:
            self.byname.setdefault(f['q'], f)
            self.byname.setdefault(f['name'], f)


GHOST_OK = ('csc_spalloc', 'osqp_setup')


class Interp:
    def __init__(self, prog, cfg):
        self.p = prog
        self.ty = prog.types
        self.gencache = {}
        self.cfg = cfg            # params, dims (concrete) or None for symbolic
        self.H = {}
        VV.HEAP[0] = self.H
        self.frame = {}
        self.this = None
        self.noid = 0
        self.frames = 0
        self.obls = []
        self.rec_obl = True
        self.outs = {}
        self.outorder = []
        self.events = []
        self.globinit = {}
        self.line = 0
        self.fname = ''
        self.depth = 0
        self.assumptions = set()
        self.used = set()          # functions interpreted
        self.loops = []
        self.loopinv = []
        self.base_facts = []
        self.trace = cfg.get('trace', False)
        self.unroll_cap = cfg.get('unroll', 2000)
        self.stack = []
        self.stacklines = []
        self.nowc = 0
        self.log_live = cfg.get('logger', False)
        VV.OBL[0] = self.oblige
        VV.DEC[0] = 0

    # ------------------------------------------------------------ infrastructure
    def setheap(self, h):
        self.H = h
        VV.HEAP[0] = h

    def oblige(self, cond, kind):
        if not self.rec_obl:
            return
        ok = prove(cond)
        self.obls.append((ok, kind, self.fname, self.line, cond, S.ctx))
        if not ok and self.cfg.get('verbose'):
            print('OBL?', kind, self.fname, self.line, show(cond))

    def fact(self, f):
        """assumption added for the rest of the scenario"""
        f = boolt(f)
        if f is TRUE:
            return
        self.base_facts.append(f)
        S.ctx = S.ctx.add(f)

    def fact_nonzero(self, x):
        self.assumptions.add('bounded runs: symbolic matrix entries are taken as non-zero')
        self.fact(not_(eq(x, 0)))

    def restore(self, saved):
        for f in self.base_facts:
            saved = saved.add(f)
        S.ctx = saved

    def unsup(self, what):
        raise Unsupported('%s [%s:%s]' % (what, self.fname, self.line))

    # ------------------------------------------------------------ types
    def strip(self, t):
        x = self.ty[t]
        while x['k'] == 'ref':
            t = x['to']
            x = self.ty[t]
        return t

    def T(self, t):
        return self.ty[self.strip(t)]

    def matdims(self, t):
        """(R,C,scalar) of a plain Eigen matrix/array type, else None"""
        x = self.T(t)
        if x['k'] == 'rec' and x['name'] in ('Eigen::Matrix', 'Eigen::Array'):
            a = x['args']
            return self.gen(a[1]), self.gen(a[2]), self.ty[a[0]['t']]['k'] if isinstance(a[0], dict) else 'real'
        return None

    def gen(self, v):
        """size constant of a generic instantiation -> the symbolic size it stands for (other constants unchanged)"""
        g = self.cfg.get('generic')
        if not g or abs(v) < 50:
            return v
        if v not in self.gencache:
            import itertools
            found = [c for c in itertools.product(range(3), repeat=len(g)) if abs(v - sum(a * b for a, b in zip(c, g.values()))) <= 2]
            if len(found) != 1:
                self.unsup('constant %d is no size expression' % v)
            c = found[0]
            t = num(v - sum(a * b for a, b in zip(c, g.values())))
            for a, n in zip(c, g):
                t = add(t, TT.scale(TT.ivar(n, True), a))
            self.gencache[v] = t
        return self.gencache[v]

    def isrec(self, t):
        x = self.T(t)
        return x['k'] == 'rec' and self.rec_of(x) is not None

    def rec_of(self, x):
        if isinstance(x, int):
            x = self.T(x)
        if x['k'] != 'rec' or x['name'].startswith(('std::', 'Eigen::', '__gnu')):
            return None
        return self.p.recs.get(x['id'])

    def tname(self, t):
        x = self.T(t)
        return x.get('name') or x['k']

    def is_eigen(self, t):
        x = self.T(t)
        return x['k'] == 'rec' and x['name'].startswith('Eigen::')

    # ------------------------------------------------------------ allocation
    def newobj(self, ti, label=''):
        self.noid += 1
        return Obj(self.noid, ti, label)

    def default_value(self, t, zero=False):
        """value (or Obj) for a variable of type t before its initialiser"""
        x = self.T(t)
        k = x['k']
        if k == 'rec':
            md = self.matdims(t)
            if md:
                r = 0 if md[0] == -1 else md[0]
                c = 0 if md[1] == -1 else md[1]
                if md[0] == -1 and md[1] == 1:
                    c = 1
                if md[1] == -1 and md[0] == 1:
                    r = 1
                s = 'I' if md[2] == 'int' else ('B' if md[2] == 'bool' else 'R')
                return undef_mat(r, c, s)
            n = x['name']
            if n in ('Eigen::SparseMatrix',):
                return EG.sparse_empty(self)
            if n == 'std::vector':
                if self.vec_elem_num(x):
                    return Mat(0, 1, lambda i, j: ZERO, self.scal_sort(x['args'][0]['t']))
                return []
            if n == 'std::basic_string':
                return ''
            if n in ('std::shared_ptr', 'std::unique_ptr', 'std::function'):
                return None
            if n == 'std::map':
                return MapVal({k: (FALSE, ZERO) for k in range(5)})
            if n.startswith('std::chrono::'):
                return ZERO
            if n in ('std::basic_stringstream', 'std::basic_ostringstream'):
                return Stream()
            if n == 'std::array':
                n_ = [a for a in x['args'] if isinstance(a, int)]
                el = x['args'][0]['t']
                return self.mkarray(t, el, n_[0])
            r = self.rec_of(x)
            if r is not None:
                return self.alloc(self.strip(t))
            if n.startswith('std::') or n.startswith('Eigen::'):
                return ('opaque', n)
            self.unsup('default value of ' + x['s'])
        if zero:
            return self.zero(t)
        if k == 'array':
            return self.mkarray(t, x['to'], x['n'])
        if k == 'bool':
            return bread(freshname('undef'))
        if k in ('int', 'enum'):
            return iread(freshname('undef'))
        if k == 'real':
            return read(freshname('undef'))
        if k == 'ptr':
            return ('undefptr', freshname('undef'))
        return ('undef', k)

    def scal_sort(self, t):
        k = self.T(t)['k']
        return {'bool': 'B', 'int': 'I', 'enum': 'I'}.get(k, 'R')

    def vec_elem_num(self, x):
        a = x['args'][0]
        k = self.T(a['t'])['k']
        return k in ('real', 'int', 'bool', 'enum')

    def zero(self, t):
        k = self.T(t)['k']
        if k == 'bool':
            return FALSE
        if k in ('int', 'enum', 'real'):
            return ZERO
        if k in ('ptr', 'nullptr'):
            return None
        return self.default_value(t)

    def mkarray(self, t, el, n):
        o = self.newobj(self.strip(t), 'array')
        self.H[(o.oid, '#n')] = n
        if self.T(el)['k'] in ('real', 'int', 'bool') and n > 0:
            # numeric arrays are flat matrices
            self.H[(o.oid, '#data')] = undef_mat(n, 1, self.scal_sort(el))
            return o
        for i in range(n):
            self.H[(o.oid, i)] = self.default_value(el)
        return o

    def alloc(self, t):
        """allocate a record object with uninitialised fields (sub-objects allocated)"""
        t = self.strip(t)
        rec = self.rec_of(t)
        o = self.newobj(t, rec['q'])
        self.alloc_fields(o, rec)
        return o

    def alloc_fields(self, o, rec):
        for b in rec['bases']:
            br = self.rec_of(b if isinstance(b, int) else b['t'])
            if br is not None:
                self.alloc_fields(o, br)
            else:
                bt = self.T(b if isinstance(b, int) else b['t'])
                if bt.get('name') in EXC_BASES:
                    self.H[(o.oid, '#what')] = ''
        for f in rec['fields']:
            x = self.ty[f['t']]
            if x['k'] == 'ref':
                self.H[(o.oid, f['name'])] = None
                continue
            self.H[(o.oid, f['name'])] = self.default_value(f['t'])

    def all_fields(self, rec):
        for b in rec['bases']:
            br = self.rec_of(b if isinstance(b, int) else b['t'])
            if br is not None:
                yield from self.all_fields(br)
        for f in rec['fields']:
            yield f

    def copy_obj(self, dst, src):
        """memberwise copy of record objects"""
        if dst.oid == src.oid:
            return
        for (oid, f), v in [(k, v) for k, v in self.H.items() if k[0] == src.oid]:
            d = self.H.get((dst.oid, f))
            if isinstance(v, Obj) and isinstance(d, Obj):
                self.copy_obj(d, v)
            elif isinstance(v, Obj):
                n = self.newobj(v.ti, v.label)
                self.H[(dst.oid, f)] = n
                self.copy_obj(n, v)
            else:
                self.H[(dst.oid, f)] = v

    def clone(self, src):
        n = self.newobj(src.ti, src.label)
        # sub-objects are cloned by copy_obj
        self.copy_obj(n, src)
        return n

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if a.r is b.r and a.c is b.c or (prove(and_(eq(a.r, b.r), eq(a.c, b.c)))):
                m = Mat(a.r, a.c, lambda i, j: mk_ite(c, lambda: a.get(i, j), lambda: b.get(i, j)), a.sort)
                return m
            if any(n.startswith(('it!', 'sk!', 'pre')) for n in c.fv):
                # inside a loop summary the path cannot be split: the size itself is conditional
                return Mat(ite(c, a.r, b.r), ite(c, a.c, b.c), lambda i, j: mk_ite(c, lambda: a.get(i, j), lambda: b.get(i, j)), a.sort)
            raise ForkNeeded(c)
        if isinstance(a, str) and a == b:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.t is b.t:
            return Ptr(a.t, ite(c, a.off, b.off))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.oid == b.oid:
            return a
        if isinstance(a, MapVal) and isinstance(b, MapVal):
            return MapVal({k: (ite(c, a.tab[k][0], b.tab[k][0]), ite(c, a.tab[k][1], b.tab[k][1])) for k in a.tab})
        if isinstance(a, Stream) and isinstance(b, Stream) and a.parts == b.parts:
            return a
        if isinstance(a, tuple) and a == b:
            return a
        raise ForkNeeded(c)

    def merge_heap(self, c, h1, h2):
        if c is TRUE:
            return h1
        if c is FALSE:
            return h2
        out = dict(h1)
        for k, b in h2.items():
            if k in h1:
                a = h1[k]
                if a is not b:
                    out[k] = self.merge_val(c, a, b)
            else:
                out[k] = b
        return out

    # ------------------------------------------------------------ statements
    def exec(self, s):
        """returns None (normal) or Out"""
        k = s['k']
        l = s.get('l')
        if l:
            self.line = l
        return getattr(self, 'st_' + k)(s)

    def st_block(self, s):
        return self.seq(s['s'])

    def seq(self, stmts):
        pend = []
        saved = S.ctx
        pc = TRUE
        for st in stmts:
            try:
                o = self.exec(st)
            except CppThrow as e:
                o = Out(None, [('throw', TRUE, self.H, e.v)])
            if o is None:
                continue
            for (k, c, h, v) in o.o:
                pend.append((k, and_(pc, c), h, v))
            if o.n is None:
                self.restore(saved)
                return Out(None, pend)
            pc = and_(pc, o.n[0])
            self.setheap(o.n[1])
            S.ctx = S.ctx.add(o.n[0])
        self.restore(saved)
        if not pend:
            return None
        return Out((pc, self.H), pend)

    def st_expr(self, s):
        v = self.ev(s['e'])
        if isinstance(v, EG.Comma):
            v.finish()
        return None

    def st_null(self, s):
        return None

    def st_decl(self, s):
        for d in s['d']:
            self.declare(d)
        return None

    def declare(self, d):
        if d.get('static'):
            self.static_local(d)
            return
        t = d['t']
        x = self.ty[t]
        if x['k'] == 'ref':
            v = self.ev(d['init'])
            self.frame[d['id']] = self.as_ref(v)
            return
        key = ('L', self.fid_cur(), d['id'])
        v = self.init_value(t, d.get('init'))
        if isinstance(v, Obj):
            self.frame[d['id']] = v
            self.locals_.append(v)
        else:
            self.H[key] = v
            self.frame[d['id']] = CellLV(key, t)
        if x['k'] == 'rec' and x['name'].startswith('Eigen::') and not self.matdims(t) and x['name'] not in ('Eigen::SparseMatrix',):
            # an Eigen expression object kept by name may refer to later changed operands
            if x['name'] not in ('Eigen::Block', 'Eigen::Map', 'Eigen::VectorBlock', 'Eigen::Ref', 'Eigen::MatrixExponentialReturnValue'):
                if not x['name'].endswith('::InnerIterator') and 'Product' not in x['s'] and 'Cwise' not in x['s'] and x['name'] not in ('Eigen::IOFormat', 'Eigen::Transpose', 'Eigen::MatrixExponentialReturnValue'):
                    self.unsup('named Eigen expression ' + x['s'])
                if 'Cwise' in x['s']:
                    self.assumptions.add('named Eigen expressions are evaluated where they are declared')

    def static_local(self, d):
        key = ('S', d['id'])
        if key not in self.globinit:
            self.globinit[key] = True
            v = self.init_value(d['t'], d.get('init'))
            if isinstance(v, Obj):
                self.globinit[('ref', d['id'])] = v
            else:
                self.H[key] = v
                self.globinit[('ref', d['id'])] = CellLV(key, d['t'])
        self.frame[d['id']] = self.globinit[('ref', d['id'])]

    def fid_cur(self):
        return self.curframe

    def as_ref(self, v):
        """bind a reference"""
        if isinstance(v, (LV, Obj)):
            return v
        return ConstLV(v)

    def init_value(self, t, init):
        """value for a fresh object of type t from initialiser expression"""
        if init is None:
            return self.default_value(t)
        k = init['k']
        x = self.T(t)
        if k == 'construct':
            return self.construct(init, None)
        if k == 'initlist':
            return self.initlist(t, init)
        if k == 'zeroinit':
            return self.zeroinit(t)
        v = self.ev(init)
        return self.own(t, v)

    def zeroinit(self, t):
        x = self.T(t)
        if x['k'] == 'rec' and self.rec_of(x):
            o = self.alloc(t)
            for f in self.all_fields(self.rec_of(x)):
                if self.T(f['t'])['k'] in ('int', 'real', 'bool', 'enum', 'ptr'):
                    self.H[(o.oid, f['name'])] = self.zero(f['t'])
            return o
        if x['k'] == 'array':
            o = self.mkarray(t, x['to'], x['n'])
            if (o.oid, '#data') in self.H:
                self.H[(o.oid, '#data')] = const_mat(x['n'], 1, ZERO)
            else:
                for i in range(x['n']):
                    if not isinstance(self.H[(o.oid, i)], Obj):
                        self.H[(o.oid, i)] = self.zero(x['to'])
            return o
        return self.zero(t)

    def own(self, t, v):
        """turn an evaluated prvalue into a value stored in a fresh variable of type t"""
        v0 = v
        if isinstance(v, LV):
            v = load(v)
        if isinstance(v, Obj):
            return v
        if isinstance(v, Mat):
            return self.fit(t, v)
        if isinstance(v, ViewLV):
            return v
        return v

    def fit(self, t, m):
        """conform a matrix to the plain type t (vector orientation, fixed sizes)"""
        md = self.matdims(t)
        if md is None:
            return m
        R, C, _ = md
        if C == 1 and R != 1:
            if m.c is not ONE:
                if const(m.c) is None and not prove(eq(m.c, 1)) or const(m.c) is not None:
                    if m.r is ONE or prove(eq(m.r, 1)):
                        m = transpose(m)
                    else:
                        oblige(eq(m.c, 1), 'column vector assignment')
                        m = Mat(m.r, 1, m.g if not m.ov else m.get, m.sort)
                else:
                    mm = m
                    m = Mat(m.r, 1, mm.get, m.sort)
        elif R == 1 and C != 1:
            if m.r is not ONE:
                if const(m.r) is None and not prove(eq(m.r, 1)) or const(m.r) is not None:
                    if m.c is ONE or prove(eq(m.c, 1)):
                        m = transpose(m)
                    else:
                        oblige(eq(m.r, 1), 'row vector assignment')
                else:
                    mm = m
                    m = Mat(1, m.c, mm.get, m.sort)
        if isinstance(R, T) or R > 0:
            oblige(eq(m.r, R), 'fixed rows')
        if isinstance(C, T) or C > 0:
            oblige(eq(m.c, C), 'fixed columns')
        return m

    def st_return(self, s):
        e = s.get('e')
        if e is None:
            return Out(None, [('ret', TRUE, self.H, None)])
        rt = self.currt
        x = self.ty[rt] if rt is not None else None
        if x is not None and x['k'] == 'ref':
            v = self.ev(e)
            return Out(None, [('ret', TRUE, self.H, v)])
        if x is not None and x['k'] == 'void':
            self.ev(e)
            return Out(None, [('ret', TRUE, self.H, None)])
        v = self.init_value(rt, e) if rt is not None else load(self.ev(e))
        return Out(None, [('ret', TRUE, self.H, v)])

    def st_break(self, s):
        return Out(None, [('brk', TRUE, self.H, None)])

    def st_continue(self, s):
        return Out(None, [('cont', TRUE, self.H, None)])

    def cond_val(self, e):
        return boolt(load(self.ev(e)))

    def st_if(self, s):
        if s.get('init'):
            o = self.exec(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.cond_val(s['c'])
        a, b = s['a'], s.get('b')
        return self.branch(c, lambda: self.exec(a), (lambda: self.exec(b)) if b else (lambda: None))

    def branch(self, c, fa, fb):
        d = decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        h0 = self.H
        res = []
        frame0 = dict(self.frame)
        for cc, f in ((c, fa), (not_(c), fb)):
            self.setheap(dict(h0))
            with assume(cc):
                try:
                    o = f()
                except CppThrow as e:
                    o = Out(None, [('throw', TRUE, self.H, e.v)])
                if o is None:
                    o = Out((TRUE, self.H), [])
            res.append(o)
            self.frame.clear()
            self.frame.update(frame0)
        A, B = res
        pend = [(k, and_(c, cc), h, v) for k, cc, h, v in A.o] + [(k, and_(not_(c), cc), h, v) for k, cc, h, v in B.o]
        if A.n and B.n:
            n = (or_(and_(c, A.n[0]), and_(not_(c), B.n[0])), self.merge_heap(c, A.n[1], B.n[1]))
        elif A.n:
            n = (and_(c, A.n[0]), A.n[1])
        elif B.n:
            n = (and_(not_(c), B.n[0]), B.n[1])
        else:
            n = None
        if n is not None:
            self.setheap(n[1])
            if not pend:
                return None
        return Out(n, pend)

    def st_switch(self, s):
        v = num(load(self.ev(s['c'])))
        body = s['body']
        stmts = body['s'] if body['k'] == 'block' else [body]
        # flatten labels: list of (labels, stmt)
        items = []
        for st in stmts:
            labels = []
            while st and st['k'] in ('case', 'default'):
                labels.append(None if st['k'] == 'default' else st['v'])
                st = st.get('s')
            items.append((labels, st))
        allvals = []
        for labels, st in items:
            for lb in labels:
                if lb is not None:
                    allvals.append(num(load(self.ev(lb))) if isinstance(lb, dict) else num(lb))
        entries = []
        for n, (labels, st) in enumerate(items):
            if labels:
                cs = []
                for lb in labels:
                    if lb is None:
                        cs.append(and_(*[ne(v, a) for a in allvals]))
                    else:
                        cs.append(eq(v, num(load(self.ev(lb))) if isinstance(lb, dict) else num(lb)))
                entries.append((or_(*cs), n))

        def run_from(n):
            o = self.seq([st for _, st in items[n:] if st is not None])
            return self.catch(o, 'brk')

        def go(k):
            if k == len(entries):
                return None
            c, n = entries[k]
            return self.branch(c, lambda: run_from(n), lambda: go(k + 1))
        return go(0)

    def catch(self, o, kind):
        """turn outcomes of the given kind into normal completion"""
        if o is None:
            return None
        rest = []
        n = o.n
        for (k, c, h, v) in o.o:
            if k == kind:
                if n is None:
                    n = (c, h)
                else:
                    n = (or_(n[0], c), self.merge_heap(c, h, n[1]))
            else:
                rest.append((k, c, h, v))
        if n is not None:
            self.setheap(n[1])
            if not rest:
                return None
        return Out(n, rest)

    def st_try(self, s):
        o = self.exec_guard(s['body'])
        if o is None:
            return None
        rest = []
        thr = []
        for x in o.o:
            (thr if x[0] == 'throw' else rest).append(x)
        if not thr:
            return o
        n = o.n
        for (_, c, h, exc) in thr:
            hd = None
            for hnd in s['h']:
                if self.exc_match(hnd, exc):
                    hd = hnd
                    break
            if hd is None:
                rest.append(('throw', c, h, exc))
                continue
            self.setheap(dict(h))
            if hd.get('v'):
                self.frame[hd['v']['id']] = ConstLV(exc)
            with assume(c):
                o2 = self.exec_guard(hd['body'])
            if o2 is None:
                o2 = Out((TRUE, self.H), [])
            for (k2, c2, h2, v2) in o2.o:
                rest.append((k2, and_(c, c2), h2, v2))
            if o2.n:
                cc = and_(c, o2.n[0])
                if n is None:
                    n = (cc, o2.n[1])
                else:
                    n = (or_(n[0], cc), self.merge_heap(cc, o2.n[1], n[1]))
        if n is not None:
            self.setheap(n[1])
            if not rest:
                return None
        return Out(n, rest)

    def exec_guard(self, s):
        try:
            return self.exec(s)
        except CppThrow as e:
            return Out(None, [('throw', TRUE, self.H, e.v)])

    def exc_match(self, h, exc):
        v = h.get('v')
        if not v:
            return True
        n = self.tname(v['t'])
        cls = exc.cls
        return n == cls or n in EXC_BASES.get(cls, [])

    # ------------------------------------------------------------ loops
    def st_for(self, s):
        fr = dict(self.frame)
        if s.get('init'):
            o = self.exec(s['init'])
            if o is not None:
                self.unsup('abnormal loop init')
        r = self.loop(s.get('c'), s.get('inc'), s['body'], s.get('cv'))
        return r

    def st_while(self, s):
        return self.loop(s['c'], None, s['body'], s.get('cv'))

    def st_do(self, s):
        o = self.loop_body(s['body'])
        if o is not None:
            self.unsup('abnormal do body')
        return self.loop(s['c'], None, s['body'], None)

    def loop_body(self, body):
        """one iteration; continue is normal; returns None or Out (brk/ret/throw)"""
        try:
            o = self.exec(body)
        except CppThrow as e:
            o = Out(None, [('throw', TRUE, self.H, e.v)])
        return self.catch(o, 'cont')

    def loop(self, ce, inc, body, cv):
        pend = []
        pc = TRUE
        saved = S.ctx
        n = 0
        brk = []
        try:
            while True:
                c = self.cond_val(ce) if ce is not None else TRUE
                if c is FALSE:
                    break
                if c is not TRUE:
                    d = decide(c)
                    if d is False:
                        break
                    if n == 0 and not self.concrete_loop(c):
                        if pend:
                            self.unsup('loop')
                        import loops
                        return loops.summarise(self, ce, inc, body)
                    if d is None:
                        if self.cfg.get('fork_loops', False):
                            raise ForkNeeded(c)
                        self.unsup('loop guard not decided: ' + show(c))
                n += 1
                if n > self.unroll_cap:
                    self.unsup('unroll cap')
                o = self.loop_body(body)
                if o is not None:
                    for (k, cc, h, v) in o.o:
                        (brk if k == 'brk' else pend).append((k, and_(pc, cc), h, v))
                    if o.n is None:
                        n = -1
                        break
                    pc = and_(pc, o.n[0])
                    self.setheap(o.n[1])
                    S.ctx = S.ctx.add(o.n[0])
                if inc is not None:
                    self.ev(inc)
        finally:
            self.restore(saved)
        nn = None if n == -1 else (pc, self.H)
        for (k, c, h, v) in brk:
            nn = (c, h) if nn is None else (or_(nn[0], c), self.merge_heap(c, h, nn[1]))
        if nn is not None:
            self.setheap(nn[1])
            if not pend:
                return None
        return Out(nn, pend)

    def concrete_loop(self, c):
        """the guard only involves constants (scenario parameters)"""
        return self.cfg.get('dims') is not None

    def st_range(self, s):
        r = load(self.ev(s['r'])) if not isinstance(s['r'], str) else None
        if isinstance(r, list):
            items = r
        elif isinstance(r, Mat) and const(r.r) is not None:
            items = [r.get(num(i), ZERO) for i in range(const(r.r))]
        else:
            self.unsup('range for')
        pend = []
        for it in items:
            self.frame[s['v']['id']] = it if isinstance(it, Obj) else ConstLV(it)
            o = self.loop_body(s['body'])
            if o is not None:
                self.unsup('abnormal range-for body')
        return None

    def st_unsupported(self, s):
        self.unsup('statement ' + str(s.get('what')))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        k = e['k']
        l = e.get('l')
        if l:
            self.line = l
        f = getattr(self, 'ev_' + k, None)
        if f is None:
            self.unsup('expression ' + k)
        return f(e)

    def val(self, e):
        return load(self.ev(e))

    def ev_int(self, e):
        if self.cfg.get('generic'):
            if e.get('folded') and self.fname.startswith('mpc'):
                self.unsup('folded constant in a generic instantiation')
            return num(self.gen(int(e['v'])))
        return num(int(e['v']))

    def ev_bool(self, e):
        if e.get('folded') and self.cfg.get('generic') and self.fname.startswith('mpc'):
            self.unsup('folded condition in a generic instantiation')
        return TRUE if e['v'] else FALSE

    def ev_float(self, e):
        v = e['v']
        if isinstance(v, str):
            v = float(v)
        s = e.get('s')
        if s:
            m = re.match(r'^[0-9]*\.?[0-9]*([eE][-+]?[0-9]+)?', str(s))
            try:
                f = Fraction(str(s).rstrip('fFlL'))
                if float(f) == v:
                    return num(f)
            except Exception:
                pass
        if v is None:
            return INF
        return num(v if v in (float('inf'), float('-inf')) else Fraction(repr(float(v))))

    def ev_str(self, e):
        return e['v']

    def ev_rv(self, e):
        return load(self.ev(e['e']))

    def ev_this(self, e):
        return Ptr(self.this)

    def ev_var(self, e):
        i = e['id']
        if i in self.frame:
            v = self.frame[i]
            return v
        if e.get('global') or i in self.p.globals:
            return self.global_ref(i, e)
        if e.get('tparam'):
            self.unsup('template parameter')
        self.unsup('unbound variable ' + e['name'])

    def global_ref(self, i, e):
        if ('ref', i) in self.globinit:
            return self.globinit[('ref', i)]
        g = self.p.globals.get(i)
        if g is None:
            if e['q'].startswith('std::'):
                return ('opaque', e['q'])
            self.unsup('global ' + e['q'])
        if g['q'].startswith('std::'):
            r = ('opaque', g['q'])
            self.globinit[('ref', i)] = r
            return r
        key = ('G', i)
        fr, th = self.frame, self.this
        v = self.init_value(g['t'], g['init']) if g.get('init') else self.zeroinit(g['t'])
        if isinstance(v, Obj):
            r = v
        else:
            self.H[key] = v
            r = CellLV(key, g['t'])
        self.globinit[('ref', i)] = r
        return r

    def ev_fnref(self, e):
        f = e['f']
        return Fn(f['id'] if f.get('own') else None, name=f['q'], key=f)

    def obj_of(self, v):
        """record object designated by an expression value"""
        for _ in range(6):
            if isinstance(v, Obj):
                return v
            if isinstance(v, Ptr):
                v = v.t
            elif isinstance(v, LV):
                v = v.get()
            else:
                break
        return v

    def ev_field(self, e):
        b = self.ev(e['e'])
        b = self.obj_of(b)
        if isinstance(b, Exc):
            self.unsup('field of exception')
        if b is None:
            oblige(FALSE, 'null dereference')
            self.unsup('null dereference')
        if not isinstance(b, Obj):
            self.unsup('field %s of %r' % (e['name'], b))
        if b.freed:
            oblige(FALSE, 'use after free')
        v = self.H.get((b.oid, e['name']), VV.HEAP)
        if v is VV.HEAP:
            self.unsup('no field %s in %r' % (e['name'], b))
        if e['name'] != 'alive' and (b.oid, 'alive') in self.H and self.fname not in GHOST_OK and not self.fname.endswith('::operator='):
            # ghost ownership flag of the solver's objects
            oblige(eq(self.H[(b.oid, 'alive')], 1), 'use after release')
        if isinstance(v, Obj):
            return v
        if self.ty_is_ref_field(b, e):
            return v
        return CellLV((b.oid, e['name']), e['t'])

    def ty_is_ref_field(self, b, e):
        v = self.H.get((b.oid, e['name']))
        return isinstance(v, LV)

    def ev_bin(self, e):
        op = e['op']
        if op == '&&':
            a = self.cond_val(e['a'])
            if a is FALSE:
                return FALSE
            with assume(a):
                b = self.pure(lambda: self.cond_val(e['b']), a)
            return and_(a, b)
        if op == '||':
            a = self.cond_val(e['a'])
            if a is TRUE:
                return TRUE
            with assume(not_(a)):
                b = self.pure(lambda: self.cond_val(e['b']), not_(a))
            return or_(a, b)
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.val(e['a'])
        b = self.val(e['b'])
        return self.binop(op, a, b, e.get('t'), e)

    def pure(self, f, c):
        h = self.H
        self.setheap(dict(h))
        v = f()
        for k, x in h.items():
            if self.H.get(k) is not x:
                d = decide(c)
                if d is True:
                    return v
                raise ForkNeeded(c)
        return v

    def binop(self, op, a, b, t, e=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
            return self.ptrop(op, a, b)
        if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, Fn) or isinstance(b, Fn):
            if op in ('==', '!='):
                r = TRUE if a is b else FALSE
                return r if op == '==' else not_(r)
            self.unsup('operator %s on %r %r' % (op, a, b))
        k = self.T(t)['k'] if t is not None else 'real'
        if op in ('&', '|', '^') and isinstance(a, T):
            ca, cb = (TT.const(a), TT.const(b)) if a.sort != 'B' and isinstance(b, T) and b.sort != 'B' else (None, None)
            if ca is not None and cb is not None and int(ca) == ca and int(cb) == cb:
                x, y = int(ca), int(cb)
                return num(x & y if op == '&' else x | y if op == '|' else x ^ y)
            A, B = boolt(a), boolt(b)
            if (a.sort == 'B' or a in (ZERO, ONE)) or (b.sort == 'B') or self.is01(a) and self.is01(b):
                r = and_(A, B) if op == '&' else (or_(A, B) if op == '|' else or_(and_(A, not_(B)), and_(not_(A), B)))
                return num(r) if k == 'int' else r
            self.unsup('bit operator')
        a, b = num(a), num(b)
        if op == '+':
            return add(a, b)
        if op == '-':
            r = sub(a, b)
            if k == 'int' and not self.T(t).get('signed', True):
                oblige(ge(r, 0), 'unsigned subtraction wraps')
            return r
        if op == '*':
            return mul(a, b)
        if op == '/':
            if k == 'int':
                oblige(ne(b, 0), 'division by zero')
                ca, cb = const(a), const(b)
                if ca is not None and cb:
                    q = abs(ca) // abs(cb)
                    return num(q if (ca >= 0) == (cb > 0) else -q)
                if prove(and_(ge(a, 0), gt(b, 0))):
                    return divmod_(a, b)[0]
                self.unsup('integer division of possibly negative values')
            return div(a, b)
        if op == '%':
            oblige(ne(b, 0), 'modulo by zero')
            ca, cb = const(a), const(b)
            if ca is not None and cb and ca >= 0:
                return num(ca % cb)
            if prove(and_(ge(a, 0), gt(b, 0))):
                VV.DEC[0] += 1
                return divmod_(a, b)[1]
            self.unsup('modulo of possibly negative values %s %s under %s' % (show(a), show(b), [show(f) for f in S.ctx.facts]))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return gt(a, b)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return ge(a, b)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return ne(a, b)
        if op in ('<<', '>>'):
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None:
                return num(ca << cb if op == '<<' else ca >> cb)
        self.unsup('operator ' + op)

    def is01(self, a):
        at = TT.atom(a) if a.op == 'num' else a
        return at is not None and at.op == 'ite' and at.args[1] in (ZERO, ONE) and at.args[2] in (ZERO, ONE)

    def ptrop(self, op, a, b):
        if op in ('==', '!='):
            if a is None and b is None:
                r = TRUE
            elif a is None or b is None:
                o = b if a is None else a
                if isinstance(o, tuple):
                    r = bread(freshname('undefcmp'))
                elif isinstance(o, T):
                    r = eq(o, 0)
                else:
                    r = FALSE
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                same = (a.t is b.t) or (isinstance(a.t, LV) and isinstance(b.t, LV) and hasattr(a.t, 'ident') and a.t.ident() == b.t.ident())
                r = eq(a.off, b.off) if same else FALSE
            else:
                r = FALSE
            return r if op == '==' else not_(r)
        if op == '+':
            if isinstance(b, Ptr):
                a, b = b, a
            return Ptr(a.t, add(a.off, num(b)))
        if op == '-':
            if isinstance(b, Ptr):
                return sub(a.off, b.off)
            return Ptr(a.t, sub(a.off, num(b)))
        self.unsup('pointer operator ' + op)

    def assign_lv(self, lv, v, t=None):
        if isinstance(lv, Obj):
            v = self.obj_of(v) if isinstance(v, (LV, Ptr)) else v
            if isinstance(v, Obj):
                self.copy_obj(lv, v)
                return
            self.unsup('assignment to object')
        if not isinstance(lv, LV):
            self.unsup('assignment to %r' % (lv,))
        v = load(v)
        lv.set(v)

    def ev_assign(self, e):
        lv = self.ev(e['a'])
        v = self.ev(e['b'])
        if isinstance(lv, Obj) or isinstance(v, Obj):
            self.assign_lv(lv, v)
            return lv
        v = load(v)
        k = self.T(e['t'])['k']
        if k == 'bool' and isinstance(v, T):
            v = boolt(v)
        lv.set(v)
        return lv

    def ev_cassign(self, e):
        lv = self.ev(e['a'])
        v = self.val(e['b'])
        cur = load(lv)
        op = e['op'][:-1]
        ct = e.get('ct', e['t'])
        r = self.binop(op, cur, v, ct if ct is not None else e['t'], e)
        if self.T(e['t'])['k'] == 'bool':
            r = boolt(r)
        lv.set(r)
        return lv

    def ev_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            lv = self.ev(e['e'])
            old = load(lv)
            if isinstance(old, Ptr):
                new = Ptr(old.t, add(old.off, num(1 if op == '++' else -1)))
            else:
                new = add(num(old), num(1 if op == '++' else -1))
                if op == '--' and not self.T(e['t']).get('signed', True):
                    oblige(ge(new, 0), 'unsigned decrement wraps')
            lv.set(new)
            return old if e.get('post') else lv
        if op == '&':
            v = self.ev(e['e'])
            return self.addr(v)
        if op == '*':
            v = self.val(e['e'])
            return self.deref(v)
        v = self.val(e['e'])
        if op == '!':
            if isinstance(v, T):
                return not_(boolt(v))
            return TRUE if v is None else FALSE
        if op == '-':
            return scale(num(v), -1)
        if op == '+':
            return num(v)
        if op == '~':
            if isinstance(v, T) and v.sort == 'B':
                return not_(v)
        self.unsup('unary ' + op)

    def addr(self, v):
        if isinstance(v, Obj):
            return Ptr(v)
        if isinstance(v, ElemLV):
            m = v.base.get()
            return Ptr(v.base, add(v.i, mul(v.j, m.r)))
        if isinstance(v, LV):
            return Ptr(v)
        if isinstance(v, Fn):
            return v
        if isinstance(v, tuple) and v[0] == 'opaque':
            return v
        self.unsup('address of %r' % (v,))

    def deref(self, v):
        if isinstance(v, Fn):
            return v
        if v is None:
            oblige(FALSE, 'null dereference')
            self.unsup('null dereference')
        if isinstance(v, Ptr):
            if isinstance(v.t, Obj):
                if v.t.freed:
                    oblige(FALSE, 'use after free')
                return v.t
            if isinstance(v.t.get(), Mat):
                m = v.t.get()
                oblige(and_(ge(v.off, 0), lt(v.off, m.size())), 'pointer access')
                i, j = unflat(v.off, m.r, m.c)
                return ElemLV(v.t, i, j)
            return v.t
        self.unsup('dereference of %r' % (v,))

    def ev_cond(self, e):
        c = self.cond_val(e['c'])
        d = decide(c)
        if d is True:
            return self.ev(e['a'])
        if d is False:
            return self.ev(e['b'])
        h0 = self.H
        self.setheap(dict(h0))
        with assume(c):
            a = load(self.ev(e['a']))
        ha = self.H
        self.setheap(dict(h0))
        with assume(not_(c)):
            b = load(self.ev(e['b']))
        hb = self.H
        self.setheap(self.merge_heap(c, ha, hb))
        return self.merge_val(c, a, b)

    def ev_index(self, e):
        a = self.ev(e['a'])
        i = num(self.val(e['b']))
        a0 = a
        if isinstance(a, LV):
            a = load(a)
        if isinstance(a, Obj):
            if (a.oid, '#data') in self.H:
                n = self.H[(a.oid, '#n')]
                oblige(and_(ge(i, 0), lt(i, n)), 'array index')
                return ElemLV(CellLV((a.oid, '#data')), i, ZERO)
            ci = const(i)
            if ci is None:
                self.unsup('symbolic array index')
            v = self.H.get((a.oid, ci), VV.HEAP)
            if v is VV.HEAP:
                oblige(FALSE, 'array index')
                self.unsup('array index out of range')
            if isinstance(v, Obj):
                return v
            return CellLV((a.oid, ci))
        if isinstance(a, Ptr):
            if isinstance(a.t, Obj) and (a.t.oid, '#data') in self.H:
                a = Ptr(CellLV((a.t.oid, '#data')), a.off)
            if isinstance(a.t, Obj):
                ci = const(add(a.off, i))
                if ci == 0:
                    return a.t
                self.unsup('pointer index into object')
            return self.deref(Ptr(a.t, add(a.off, i)))
        if a is None:
            oblige(FALSE, 'null dereference')
        self.unsup('index of %r' % (a,))

    def ev_cast(self, e):
        ck = e['ck']
        if ck == 'NullToPointer':
            return None
        v = self.ev(e['e'])
        if ck in ('NoOp', 'LValueBitCast', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay', 'Dynamic', 'AtomicToNonAtomic', 'BuiltinFnToFnPtr'):
            if ck == 'Dynamic':
                return self.dyncast(e, v)
            return v
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, str):
                return v
            if isinstance(v, Obj):
                if (v.oid, '#data') in self.H:
                    return Ptr(CellLV((v.oid, '#data')))
                return v
            return v
        v = load(v)
        if ck in ('IntegralCast',):
            if isinstance(v, T) and v.sort == 'B':
                return num(v)
            tt = self.T(e['t'])
            if tt['k'] == 'int' and not tt.get('signed', True) and isinstance(v, T):
                st = self.T(e['e']['t']) if e['e'].get('t') is not None else {}
                if st.get('signed', True):
                    # negative to unsigned wraps
                    cv = const(num(v))
                    if cv is not None and cv < 0:
                        return num(cv % (1 << tt['bits']))
                    oblige(ge(num(v), 0), 'conversion of a negative value to unsigned')
            return v
        if ck == 'IntegralToFloating':
            return num(v)
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToIntegral':
            return TT.trunc(num(v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return boolt(v)
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return FALSE if v is None else TRUE
        if ck == 'ToVoid':
            return None
        if ck == 'NullToMemberPointer':
            return None
        self.unsup('cast ' + ck)

    def dyncast(self, e, v):
        v = load(v)
        tt = self.T(e['t'])
        if isinstance(v, Ptr) and isinstance(v.t, Obj):
            want = self.rec_of(self.ty[tt['to']] if tt['k'] == 'ptr' else tt)
            if want is not None and self.derives(self.rec_of(v.t.ti), want):
                return v
            return None
        return v

    def derives(self, rec, want):
        if rec['id'] == want['id']:
            return True
        for b in rec['bases']:
            br = self.rec_of(b if isinstance(b, int) else b['t'])
            if br is not None and self.derives(br, want):
                return True
        return False

    def ev_null(self, e):
        return None

    def ev_zeroinit(self, e):
        return self.zeroinit(e['t'])

    def ev_initlist(self, e):
        return self.initlist(e['t'], e)

    def initlist(self, t, e):
        x = self.T(t)
        if x['k'] == 'array':
            o = self.mkarray(t, x['to'], x['n'])
            if (o.oid, '#data') in self.H:
                m = const_mat(x['n'], 1, ZERO, self.scal_sort(x['to']))
                for i, a in enumerate(e['a']):
                    m = m.setelem(num(i), ZERO, load(self.ev(a)))
                self.H[(o.oid, '#data')] = m
            else:
                for i, a in enumerate(e['a']):
                    v = self.init_value(x['to'], a)
                    self.H[(o.oid, i)] = v
                for i in range(len(e['a']), x['n']):
                    if not isinstance(self.H[(o.oid, i)], Obj):
                        self.H[(o.oid, i)] = self.zero(x['to'])
            return o
        r = self.rec_of(x)
        if r is not None:
            o = self.alloc(t)
            fs = r['fields']
            for f, a in zip(fs, e['a']):
                self.H[(o.oid, f['name'])] = self.init_value(f['t'], a)
            return o
        if len(e['a']) == 1:
            return self.init_value(t, e['a'][0])
        if len(e['a']) == 0:
            return self.zeroinit(t)
        return [load(self.ev(a)) for a in e['a']]

    def ev_sizeof(self, e):
        x = self.T(e['of']) if isinstance(e['of'], int) else {'k': '?'}
        if x['k'] == 'int':
            return num(x['bits'] // 8)
        if x['k'] == 'real':
            return num(8)
        if x['k'] == 'ptr':
            return num(8)
        if x['k'] == 'rec' and self.rec_of(x):
            return num(8 * (1 + len(list(self.all_fields(self.rec_of(x))))))
        self.unsup('sizeof')

    def ev_throw(self, e):
        v = load(self.ev(e['e'])) if e.get('e') else None
        if isinstance(v, Obj):
            rec = self.rec_of(v.ti)
            v = Exc(rec['q'], self.H.get((v.oid, '#what'), ''))
        raise CppThrow(v)

    def ev_new(self, e):
        if e.get('n'):
            self.unsup('array new')
        init = e.get('init')
        if init is not None and init['k'] == 'construct':
            v = self.construct(init, None)
        else:
            v = self.init_value(e['nt'], init)
        if isinstance(v, Obj):
            return Ptr(v)
        key = ('N', self.noid)
        self.noid += 1
        self.H[key] = v
        return Ptr(CellLV(key))

    def ev_delete(self, e):
        v = self.val(e['e'])
        if v is None:
            return None
        if isinstance(v, Ptr) and isinstance(v.t, Obj):
            o = v.t
            if o.freed:
                oblige(FALSE, 'double delete')
                return None
            self.destroy(o)
            o.freed = True
            return None
        if isinstance(v, tuple):
            oblige(FALSE, 'delete of an uninitialised pointer')
        return None

    def destroy(self, o):
        rec = self.rec_of(o.ti)
        if rec is not None:
            self.run_dtor(o, rec)

    def run_dtor(self, o, rec):
        d = None
        for m in rec['methods']:
            if m['name'].startswith('~'):
                d = self.p.canon.get(m['id']) or self.p.fns.get(m.get('def'))
        if d is not None and d.get('body'):
            self.call_fn(d, o, [])
        for b in rec['bases']:
            br = self.rec_of(b if isinstance(b, int) else b['t'])
            if br is not None:
                self.run_dtor(o, br)

    def ev_stmtexpr(self, e):
        self.unsup('statement expression')

    def ev_unsupported(self, e):
        if e.get('what') == 'SourceLocExpr':
            return num(0)
        self.unsup('expression ' + str(e.get('what')))

    def ev_lambda(self, e):
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = self.this
                continue
            if c.get('byref'):
                caps[c['id']] = self.frame.get(c['id'])
            else:
                v = self.frame.get(c['id']) if c.get('init') is None else self.ev(c['init'])
                v = load(v)
                if isinstance(v, Obj):
                    v = self.clone(v)
                    caps[c['id']] = v
                else:
                    caps[c['id']] = ConstLV(v)
        return Fn(e.get('fn'), caps, this, 'lambda', e)

    # ------------------------------------------------------------ construction
    def ev_construct(self, e):
        return self.construct(e, None)

    def construct(self, e, into):
        t = e['t']
        x = self.T(t)
        md = self.matdims(t)
        if md:
            return EG.construct_mat(self, e, md)
        r = self.rec_of(x)
        if r is not None:
            args = e['a']
            if e.get('copy') and len(args) == 1:
                src = self.obj_of(self.ev(args[0]))
                f = self.p.fns.get(e['f']['id']) if e['f'].get('own') else None
                if f is None or not f.get('body') or f.get('defaulted') or (not any(z.get('written') for z in f.get('inits') or []) and not f['body'].get('s')):
                    if isinstance(src, Obj):
                        n = self.newobj(src.ti if into is None else into.ti, src.label)
                        n.ti = self.strip(t)
                        if into is not None:
                            self.copy_obj(into, src)
                            return into
                        self.copy_obj(n, src)
                        return n
                if not isinstance(src, Obj):
                    self.unsup('copy construction')
            o = into
            if o is None:
                o = self.alloc(t)
            if e.get('zeroinit'):
                for f in self.all_fields(r):
                    if self.T(f['t'])['k'] in ('int', 'real', 'bool', 'enum', 'ptr'):
                        self.H[(o.oid, f['name'])] = self.zero(f['t'])
            self.run_ctor(o, r, e['f'], args)
            return o
        return EG.construct_std(self, e, x)

    def run_ctor(self, o, rec, fref, argexprs):
        f = self.p.fns.get(fref['id']) if fref.get('own') else None
        if f is None:
            # implicit default constructor
            self.default_init_fields(o, rec, set())
            return
        args = [self.arg(p['t'], a) for p, a in zip(f['params'], argexprs)]
        self.call_fn(f, o, args, ctor=rec)

    def default_init_fields(self, o, rec, done):
        for b in rec['bases']:
            bt = b if isinstance(b, int) else b['t']
            br = self.rec_of(bt)
            if br is not None and ('base', br['id']) not in done:
                self.default_construct_into(o, br)
        for f in rec['fields']:
            if f['name'] in done:
                continue
            self.init_field(o, f, f.get('init'))

    def default_construct_into(self, o, rec):
        # find a default constructor
        for m in rec['methods']:
            if m['name'] == rec['q'].split('::')[-1].split('<')[0] and m['np'] == 0:
                fn = self.p.canon.get(m['id']) or self.p.fns.get(m.get('def'))
                if fn is not None:
                    self.call_fn(fn, o, [], ctor=rec)
                    return
        self.default_init_fields(o, rec, set())

    def init_field(self, o, f, init):
        x = self.ty[f['t']]
        if init is None:
            r = self.rec_of(x)
            if r is not None:
                sub_ = self.H.get((o.oid, f['name']))
                if isinstance(sub_, Obj):
                    self.default_construct_into(sub_, r)
            return
        if x['k'] == 'ref':
            self.H[(o.oid, f['name'])] = self.as_ref(self.ev(init))
            return
        th, fr = self.this, self.frame
        self.this = o
        v = self.init_value(f['t'], init)
        self.this = th
        self.H[(o.oid, f['name'])] = v

    # ------------------------------------------------------------ calls
    def arg(self, pt, a):
        """evaluate an argument for a parameter of type pt"""
        x = self.ty[pt]
        if x['k'] == 'ref':
            v = self.ev(a)
            return ('ref', self.as_ref(v))
        v = self.init_value(pt, a)
        return ('val', v)

    def call_fn(self, f, this, args, ctor=None, caps=None):
        """inline a function with a known body"""
        self.used.add((f['q'], f.get('loc')))
        if f.get('body') is None and ctor is None:
            self.unsup('no body for ' + f['q'])
        if self.depth > 60:
            self.unsup('recursion')
        saved = (self.frame, self.this, self.line, self.fname, getattr(self, 'currt', None), getattr(self, 'curframe', 0), getattr(self, 'locals_', []))
        self.frames += 1
        self.curframe = self.frames
        self.frame = dict(caps) if caps else {}
        self.locals_ = []
        self.depth += 1
        self.stack.append(f['q'])
        self.stacklines.append(self.line)
        self.fname = re.sub(r'<.*?MPCSize.*?>+', '', f['q'])
        self.this = this
        self.currt = f.get('rt')
        try:
            for p, a in zip(f['params'], args):
                kind, v = a
                if kind == 'ref' or isinstance(v, Obj):
                    self.frame[p['id']] = v
                else:
                    key = ('L', self.curframe, p['id'])
                    self.H[key] = v
                    self.frame[p['id']] = CellLV(key, p['t'])
            if ctor is not None:
                self.ctor_inits(f, this, ctor)
            o = self.exec_guard(f['body']) if f.get('body') else None
            if o is None:
                res = None
            else:
                rets = [x for x in o.o if x[0] == 'ret']
                thr = [x for x in o.o if x[0] == 'throw']
                oth = [x for x in o.o if x[0] not in ('ret', 'throw')]
                if oth:
                    self.unsup('stray outcome')
                if o.n is not None:
                    rets.append(('ret', o.n[0], o.n[1], None))
                if thr and (rets or len(thr) > 1):
                    raise ForkNeeded(thr[0][1])
                if thr:
                    self.setheap(thr[0][2])
                    raise CppThrow(thr[0][3])
                _, c, h, res = rets[-1]
                for (_, c2, h2, v2) in reversed(rets[:-1]):
                    if res is not None or v2 is not None:
                        res = self.merge_ret(c2, v2, res, h2, h)
                    h = self.merge_heap(c2, h2, h)
                self.setheap(h)
            # destructors of local record objects with user-written destructors
            for ob in reversed(self.locals_):
                rec = self.rec_of(ob.ti)
                if rec is not None and res is not ob and not ob.freed and self.has_user_dtor(rec):
                    self.destroy(ob)
            cf = self.curframe
            dead = [k for k in self.H if k[0] == 'L' and k[1] == cf]
            if dead and not isinstance(res, (LV, Ptr, Fn)):
                H = dict(self.H)
                for k in dead:
                    del H[k]
                self.setheap(H)
            return res
        except (Unsupported, ForkNeeded) as ex:
            if not hasattr(ex, 'stack'):
                ex.stack = ['%s:%s' % (a, b) for a, b in zip(self.stack, self.stacklines + [self.line])]
            raise
        finally:
            self.depth -= 1
            self.stack.pop()
            self.stacklines.pop()
            (self.frame, self.this, self.line, self.fname, self.currt, self.curframe, self.locals_) = saved

    def has_user_dtor(self, rec):
        for m in rec['methods']:
            if m['name'].startswith('~'):
                d = self.p.canon.get(m['id']) or self.p.fns.get(m.get('def'))
                if d is not None and d.get('body') and d['body'].get('s'):
                    return True
        for b in rec['bases']:
            br = self.rec_of(b if isinstance(b, int) else b['t'])
            if br is not None and self.has_user_dtor(br):
                return True
        return False

    def merge_ret(self, c, a, b, ha, hb):
        if isinstance(a, Obj) and isinstance(b, Obj) and a.oid != b.oid:
            raise ForkNeeded(c)
        if isinstance(a, LV) or isinstance(b, LV):
            if a is b:
                return a
            raise ForkNeeded(c)
        return self.merge_val(c, a, b)

    def ctor_inits(self, f, o, rec):
        done = set()
        items = f.get('inits') or []
        for it in items:
            if 'delegate' in it and it.get('delegate') is not None:
                self.unsup('delegating constructor')
        for b in rec['bases']:
            bt = b if isinstance(b, int) else b['t']
            br = self.rec_of(bt)
            ini = None
            for it in items:
                if it.get('base') is not None and self.strip(it['base']) == self.strip(bt):
                    ini = it['init']
            if br is None:
                xt = self.T(bt)
                if xt.get('name') in EXC_BASES and ini is not None:
                    v = EG.construct_std(self, ini, xt)
                    self.H[(o.oid, '#what')] = v.msg
                continue
            if ini is None or ini['k'] != 'construct':
                self.default_construct_into(o, br)
            else:
                self.run_ctor(o, br, ini['f'], ini['a'])
        for fl in rec['fields']:
            ini = None
            got = False
            for it in items:
                if it.get('field') == fl['name']:
                    ini = it['init']
                    got = True
            if got and ini is not None and ini['k'] == 'construct' and self.isrec(fl['t']):
                sub_ = self.H[(o.oid, fl['name'])]
                v = self.construct(ini, sub_ if isinstance(sub_, Obj) else None)
                self.H[(o.oid, fl['name'])] = v
                continue
            self.init_field(o, fl, ini if got else fl.get('init'))

    def dispatch(self, f, obj):
        """final overrider of a virtual function for the dynamic type of obj"""
        rec = self.rec_of(obj.ti)
        target = f['id']
        fn = self.p.fns.get(target) or self.p.canon.get(target)
        canon = fn['canon'] if fn else target
        res = self.find_over(rec, canon)
        if res is None:
            self.unsup('virtual dispatch of ' + f['q'])
        return res

    def find_over(self, rec, canon):
        for m in rec['methods']:
            if m['id'] == canon or canon in self.over_closure(m):
                fn = self.p.canon.get(m['id']) or self.p.fns.get(m.get('def'))
                if fn is not None and fn.get('body'):
                    return fn
                return None if m['id'] != canon else fn
        for b in rec['bases']:
            br = self.rec_of(b if isinstance(b, int) else b['t'])
            if br is not None:
                r = self.find_over(br, canon)
                if r is not None:
                    return r
        return None

    def over_closure(self, m):
        out = set()
        st = list(m.get('over') or [])
        while st:
            i = st.pop()
            if i in out:
                continue
            out.add(i)
            fn = self.p.canon.get(i)
            if fn:
                st.extend(fn.get('over') or [])
            else:
                for r in self.p.recs.values():
                    for mm in r['methods']:
                        if mm['id'] == i:
                            st.extend(mm.get('over') or [])
        return out

    def ev_call(self, e):
        f = e.get('f')
        if f is None:
            fv = self.val(e['fe'])
            if isinstance(fv, Fn):
                return self.call_value(fv, e['a'])
            if fv is None:
                oblige(FALSE, 'call through null')
            self.unsup('indirect call')
        if f['q'].startswith('V::'):
            import intrinsics
            return intrinsics.call(self, f, e)
        if f.get('own'):
            fn = self.p.fns[f['id']]
            if self.is_logger(fn):
                return self.logger_call(f, e)
            args = [self.arg(p['t'], a) for p, a in zip(fn['params'], e['a'])]
            c = self.contract(fn)
            return self.call_fn(fn, None, args)
        return EG.call_ext(self, f, e)

    def contract(self, fn):
        return None

    def is_logger(self, fn):
        return not self.log_live and fn['q'].startswith('mpc::Logger')

    def logger_call(self, f, e):
        return ('logger',)

    def call_value(self, fv, argexprs):
        if fv.fid is None and isinstance(fv.key, dict) and fv.key.get('generic'):
            self.unsup('generic lambda')
        fn = self.p.fns.get(fv.fid)
        if fn is None:
            self.unsup('call of function value ' + fv.name)
        args = [self.arg(p['t'], a) for p, a in zip(fn['params'], argexprs)]
        return self.call_fn(fn, fv.this, args, caps=fv.caps)

    def ev_mcall(self, e):
        f = e['f']
        q = f['q']
        if not self.log_live and q.startswith('mpc::Logger'):
            return ('logger',)
        if f.get('own') or (f.get('virtual') and f['q'].startswith('mpc::')):
            base = self.ev(e['e'])
            o = self.obj_of(base)
            if isinstance(o, Fn):
                return self.call_value(o, e['a'])
            if o is None:
                oblige(FALSE, 'null dereference')
                self.unsup('null dereference')
            if not isinstance(o, Obj):
                self.unsup('method %s on %r' % (q, o))
            if o.freed:
                oblige(FALSE, 'use after free')
            if f.get('virtual') and not e.get('qual'):
                fn = self.dispatch(f, o)
            else:
                fn = self.p.fns[f['id']]
            args = [self.arg(p['t'], a) for p, a in zip(fn['params'], e['a'])]
            return self.call_fn(fn, o, args)
        return EG.method(self, f, e)

    def ev_opcall(self, e):
        f = e['f']
        if not self.log_live and f['q'].startswith('mpc::Logger'):
            return ('logger',)
        if f.get('own'):
            fn = self.p.fns[f['id']]
            if fn.get('cls') and not fn.get('static'):
                base = self.ev(e['a'][0])
                o = self.obj_of(base)
                if isinstance(o, Fn):
                    return self.call_value(o, e['a'][1:])
                args = [self.arg(p['t'], a) for p, a in zip(fn['params'], e['a'][1:])]
                return self.call_fn(fn, o, args)
            args = [self.arg(p['t'], a) for p, a in zip(fn['params'], e['a'])]
            return self.call_fn(fn, None, args)
        return EG.operator(self, f, e)

    def ev_memfn(self, e):
        self.unsup('member function value')

    # ------------------------------------------------------------ entry
    def run(self, name):
        f = self.p.byname[name]
        return self.call_fn(f, None, [])

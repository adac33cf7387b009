"""check.py <property> : decide one property on /repo's current tree."""
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import frontend
import native
import registry

V = frontend.V
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
WORKERS = int(os.environ.get('VERIF_JOBS', '8'))
T0 = time.time()
LIMIT = 780 if TIER == 'quick' else 3300
PY = '/usr/local/bin/python3-vt' if os.path.exists('/usr/local/bin/python3-vt') else 'python3-vt'


def left():
    return max(20, LIMIT - (time.time() - T0))


LIVE = set()
LOCK = threading.Lock()
STOP = [False]


def call(script, a, cap):
    """one worker process; killed when the verdict is already known"""
    if STOP[0]:
        raise subprocess.TimeoutExpired(script, 0)
    p = subprocess.Popen([PY, HERE + script], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    LIVE.add(p)
    try:
        p.stdout_, p.stderr_ = p.communicate(json.dumps(a), timeout=cap)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise
    finally:
        LIVE.discard(p)
    return subprocess.CompletedProcess(script, p.returncode, p.stdout_, p.stderr_)


def stop():
    STOP[0] = True
    for p in list(LIVE):
        p.kill()


def job(a):
    a = dict(a)
    cap = min(left(), a.pop('cap', 240 if TIER == 'quick' else 1500))
    try:
        p = call('/job.py', a, cap)
    except subprocess.TimeoutExpired:
        return dict(error='time limit', posts=[], obls=[], used=[], time=cap, z3={}, paths=0, forks=0, vac=True)
    if 'RESULT' not in p.stdout:
        return dict(error='internal: ' + p.stderr[-800:], posts=[], obls=[], used=[], time=0, z3={}, paths=0, forks=0, vac=True)
    return json.loads(p.stdout[p.stdout.rindex('RESULT{' if not a['many'] else 'RESULT[') + 6:])


def chunks(l, n):
    for i in range(0, len(l), n):
        yield l[i:i + n]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.spec = registry.PROPS[pid]
        self.viol = []
        self.notes = []
        self.assump = set()
        self.used = set()
        self.nob = self.ndis = 0
        self.bob = self.bdis = 0
        self.neval = 0
        self.nchecks = 0
        self.samples = []
        self.z3 = {}
        self.ufail = []
        self.bfail = []
        self.unproved = []
        self.distinct = set()
        self.ubyback = {'symbolic normaliser and z3': 0}

    # -------------------------------------------------------------- phases
    def run(self):
        ex = cf.ThreadPoolExecutor(WORKERS)
        frontend.astx()
        frontend._th[0] = frontend.tree_hash()
        scs = []
        for modname, idx in self.spec['scen']:
            sc = importlib.import_module('props.' + modname).SCENARIOS[idx]
            scs.append((modname, idx, sc))
        self.scs = scs
        asts = {}
        fut = {}
        for k, (m, i, sc) in enumerate(scs):
            fut[(k, None)] = ex.submit(self.extract, sc, [])
        bins = {}
        for k, (m, i, sc) in enumerate(scs):
            if 'N' in sc.mode or sc.native:
                bins[(k, -1)] = ex.submit(native.binary, sc)
                for n, st in enumerate(sc.static):
                    bins[(k, n)] = ex.submit(native.binary, sc, st)
        jobs = []
        safety = self.spec.get('safety')
        ast = {}
        for k, (m, i, sc) in enumerate(scs):
            a, err = fut[(k, None)].result()
            ast[k] = a
            if a is None:
                self.notes.append('extraction of %s failed: %s' % (sc.name, err[-300:]))
                self.unproved.append('%s: not extracted' % sc.name)
        # native contract checking
        njobs = []
        for (k, n), b in bins.items():
            njobs += self.native_phase(ex, k, n, b)
        # unbounded proofs, the longest
        for k, (m, i, sc) in enumerate(scs):
            if ast[k] is None:
                continue
            for p in sc.cases + sc.ucases:
                if "U" in sc.mode and os.environ.get("NOU") is None:
                    parts = sc.parts(p) if sc.parts else None
                    for q in [p] if not parts or safety else [dict(p, part=x) for x in parts]:
                        jobs.append((ex.submit(job, dict(many=False, ast=ast[k], mod=m, idx=i, params=q, dims=None, ints=None)), 'U', k, [(q, None, None)]))
        for k, (m, i, sc) in enumerate(scs):
            if ast[k] is None or 'B' not in sc.mode:
                continue
            lst = []
            for p in sc.cases:
                for d in sc.bdims if TIER == 'quick' else sc.ndims:
                    for it in (sc.bints if TIER == 'quick' else sc.intsets)(p, d):
                        lst.append((p, d, it))
            for p in sc.hcases:
                for d in sc.bdims[:1] if TIER == 'quick' else sc.ndims[:3]:
                    for it in (sc.bints if TIER == 'quick' else sc.intsets)(p, d):
                        lst.append((p, d, it))
            for ch in chunks(lst, max(1, getattr(sc, 'chunk', 40))):
                jobs.append((ex.submit(job, dict(many=True, ast=ast[k], mod=m, idx=i, list=ch)), 'B', k, ch))
        for f in njobs:
            f.result()
        if self.viol:
            # a concrete failing input settles the question
            stop()
            self.notes.append('stopped at the first failing inputs; the obligations were not all generated')
            self.nob += 1
            self.replays(bins)
            ex.shutdown()
            return
        for f, mode, k, what in jobs:
            r = f.result()
            if mode == 'U':
                self.take(r, 'U', k, what[0])
            else:
                rs = r if isinstance(r, list) else [r] * len(what)
                for w, x in zip(what, rs):
                    self.take(x, 'B', k, w)
        self.replays(bins)
        ex.shutdown()

    def extract(self, sc, extra):
        try:
            return frontend.extract(sc.name, list(sc.defs) + list(extra)), ''
        except Exception as e:
            return None, str(e)

    def take(self, r, mode, k, w):
        sc = self.scs[k][2]
        p, d, it = w
        tag = '%s %s%s%s' % (sc.name, json.dumps(p), ' dims ' + json.dumps(d) if d else '', ' ' + json.dumps(it) if it else '')
        self.used |= set(r.get('used') or [])
        self.assump |= set(r.get('assumptions') or [])
        for a, b in (r.get('z3') or {}).items():
            self.z3[a] = self.z3.get(a, 0) + b
        posts = r['posts'] if not self.spec.get('safety') else []
        if mode == 'U' and sc.parts and p.get('part') and p['part'] != sc.parts(p)[0]:
            # the obligations of the shared prefix are counted once
            r['obls'] = [x for x in r['obls'] if not x[0]]
        n = len(posts) + len(r['obls'])
        g = sum(1 for x in posts + r['obls'] if x[0])
        if mode == 'U':
            self.nob += n
            self.ndis += g
        else:
            self.bob += n
            self.bdis += g
        if r['error']:
            if mode == 'U':
                self.nob += 1
                self.unproved.append('%s: %s' % (tag, r['error'][:400]))
            else:
                self.bob += 1
                self.notes.append('bounded %s: %s' % (tag, r['error'][:300]))
        elif r.get('vac') or (n == 0):
            self.notes.append('vacuous: ' + tag)
            if mode == 'U':
                self.nob += 1
                self.unproved.append('vacuous: ' + tag)
        for x in posts + r['obls']:
            if not x[0]:
                (self.ufail if mode == 'U' else self.bfail).append((k, {a: b for a, b in p.items() if a != 'part'}, d, it, x[1], x[2], x[3]))

    def native_phase(self, ex, k, n, b):
        m, i, sc = self.scs[k]
        binp, err = b.result()
        if binp is None:
            self.notes.append('native build of %s failed: %s' % (sc.name, err[-600:]))
            return []
        dims = [sc.static[n]] if n >= 0 else sc.ndims
        mult = 1 if TIER == 'quick' else 10
        lines, meta = [], []
        for pi, p in enumerate(sc.cases + sc.hcases):
            for di, d in enumerate(dims):
                its = sc.intsets(p, d)
                for s in range(max(1, sc.native) * mult):
                    for q, it in enumerate(its):
                        if len(its) > 1 and s > 0 and (q + s) % 3 and TIER == 'quick':
                            continue
                        seed = SEED * 1000 + s * 17 + q + 1 + 100003 * di + 1000003 * pi
                        ov = sc.overrides(p, d, s) if sc.overrides else None
                        lines.append(native.line(p, d, it, seed, ov))
                        meta.append((p, seed))
        return [ex.submit(self.judge, k, n, binp, [c[0] for c in ch], [c[1] for c in ch]) for ch in chunks(list(zip(lines, meta)), 150)]

    def judge(self, k, n, binp, lines, meta):
        m, i, sc = self.scs[k]
        if len(self.viol) > 5 or left() < 40:
            return False
        try:
            p = call('/njob.py', dict(mod=m, idx=i, bin=binp, lines=lines, meta=meta, safety=bool(self.spec.get('safety'))), min(left(), 400))
        except subprocess.TimeoutExpired:
            self.notes.append('native driver of %s: time limit' % sc.name)
            return False
        if 'RESULT' not in p.stdout:
            self.notes.append('native driver of %s: %s' % (sc.name, p.stderr[-300:]))
            return False
        res = json.loads(p.stdout[p.stdout.rindex('RESULT[') + 6:])
        found = False
        with LOCK:
            for l, (pp, seed), r in zip(lines, meta, res):
                if r is None:
                    continue
                bad, nc = r
                if self.spec.get('safety'):
                    bad = [b for b in bad if b[0].startswith('contract') or b[0] == 'execution completes']
                self.neval += 1
                self.nchecks += nc
                self.distinct.add((sc.name, l.split(';', 1)[1]))
                if len(self.samples) < 3:
                    self.samples.append('%s: %s' % (sc.name, l))
                if bad:
                    found = True
                    self.viol.append(dict(kind='concrete', scenario=sc.name, static=n, case=l, binary=binp, failures=bad[:10], params=pp))
            if len(res) < len(lines):
                self.notes.append('native driver of %s stopped early' % sc.name)
        return found

    # -------------------------------------------------------------- failed obligations
    def replays(self, bins):
        if self.viol:
            return
        fails = self.bfail + self.ufail
        done = set()
        for (k, p, d, it, label, det, mdl) in fails:
            sc = self.scs[k][2]
            dims, ints = d, it
            over = {}
            if mdl:
                over = mdl['over']
            if d is None:
                if not mdl:
                    continue
                keys = set(sc.ndims[0]) if sc.ndims and sc.ndims[0] else set()
                dims = {x: int(v) for x, v in mdl['ints'].items() if x in keys and v is not None}
                ints = {x: int(v) for x, v in mdl['ints'].items() if x not in keys and v is not None}
                if any(v > 60 for v in dims.values()) or len(dims) != len(keys):
                    continue
            key = (k, json.dumps(p), json.dumps(dims), json.dumps(ints), json.dumps(over))
            if key in done or len(done) > 40 or left() < 60:
                continue
            done.add(key)
            b = bins.get((k, -1))
            if b is None or b.result()[0] is None:
                continue
            lines, meta = [], []
            for s in range(30):
                seed = SEED * 7919 + s
                ov = sc.overrides(p, dims, s) if sc.overrides else {}
                ov = dict(ov or {})
                if s % 4 == 3:
                    ov['grid'] = 2
                if s % 3 != 2:
                    ov.update(over)
                lines.append(native.line(p, dims, ints, seed, ov))
                meta.append((p, seed))
            if self.judge(k, -1, b.result()[0], lines, meta):
                v = self.viol[-1]
                v['obligation'] = label
                v['obligation_detail'] = det
                return
        # exact symbolic refutation of a bounded instance that depends on the values of user functions, so that no input can be replayed
        for (k, p, d, it, label, det, mdl) in self.bfail:
            if mdl and mdl.get('definite'):
                self.viol.append(dict(kind='symbolic', scenario=self.scs[k][2].name, params=p, dims=d, ints=it, obligation=label, obligation_detail=det))
                return
        for (k, p, d, it, label, det, mdl) in fails:
            self.unproved.append('%s %s %s: %s: %s' % (self.scs[k][2].name, json.dumps(p), json.dumps(d), label, det[:300]))

    # -------------------------------------------------------------- report
    def finish(self):
        pid = self.pid
        known = known_findings(pid)
        wall = time.time() - T0
        full = not self.unproved and not self.ufail and self.nob > 0 and self.nob == self.ndis
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        cov = dict(
            obligations=self.nob, discharged=self.ndis,
            checker_cmd='python3-vt vc/check.py %s' % pid,
            trusted_base=TRUSTED,
            functions_under_contract=len(self.used), functions=sorted(self.used)[:400],
            back_ends={'own VC generator (symbolic execution with inferred loop invariants) + polynomial normaliser + z3': self.ndis},
            solver_queries=self.z3.get('z3', 0), solver_seconds=round(self.z3.get('z3time', 0), 2), prover_calls=self.z3.get('queries', 0),
            bounded_obligations=self.bob, bounded_discharged=self.bdis,
            bounded_scope='exact symbolic execution at the concrete sizes %s' % json.dumps([s[2].bdims for s in self.scs])[:600],
            evaluations=self.neval, distinct_nontrivial=len(self.distinct),
            rule='native contract-checking runs of the same scenarios with hashed inputs; distinct = distinct configuration and input seed',
            runtime_checks=self.nchecks, samples=self.samples or ['none'],
            unproved=self.unproved[:20], notes=self.notes[:20],
            scenarios=[s[2].name for s in self.scs])
        ev = dict(property=pid, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level=self.spec.get('level', 'proof') if full else 'exploration',
                  coverage=cov, assumptions=ASSUMPTIONS + sorted(self.assump), wall_s=round(wall, 2), violations=len(self.viol))
        tmp = V + '/evidence/%s.json.tmp%d' % (pid, os.getpid())
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.rename(tmp, V + '/evidence/%s.json' % pid)
        print('%s: %d/%d unbounded obligations discharged over %d functions, %d/%d bounded, %d native runs (%d checks), %.0f s' % (
            pid, self.ndis, self.nob, len(self.used), self.bdis, self.bob, self.neval, self.nchecks, wall))
        for u in (self.unproved[:6] if not STOP[0] else []):
            print('UNPROVED (bounded and native checks held): ' + u[:500])
        for n in (self.notes[:6] if not STOP[0] else []):
            print('NOTE: ' + n[:400])
        newv = []
        for v in self.viol:
            f = [x for x in known if x[0] in json.dumps(v)]
            if f:
                print('KNOWN-FINDING: property=%s %s' % (pid, f[0][1]))
            else:
                newv.append(v)
        if newv:
            v = newv[0]
            path = V + '/evidence/replay/%s.json' % pid
            v['replay_cmd'] = 'echo "%s" | %s' % (v.get('case', ''), v.get('binary', '')) if v['kind'] == 'concrete' else 'python3-vt vc/check.py %s' % pid
            json.dump(v, open(path, 'w'), indent=1, default=str)
            if v['kind'] == 'concrete':
                print('failing input: scenario %s case %s' % (v['scenario'], v['case'][:400]))
                for l, d in v['failures'][:4]:
                    print('  fails: %s: %s' % (l, d))
                if v.get('obligation'):
                    print('  failed obligation: %s' % v['obligation'])
                print('VIOLATION property=%s replay=%s' % (pid, path))
            else:
                print('failed obligation: %s %s %s\n  %s' % (v['scenario'], v['params'], v['obligation'], v['obligation_detail'][:800]))
                print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
            return 1
        if self.neval == 0 and self.bob == 0 and self.nob == 0:
            print('ERROR: nothing could be checked')
            return 2
        return 0


TRUSTED = ['clang 18 front end (AST of the real code)', 'tool/astx.cpp (AST export)', 'vc/*.py (VC generator, loop summaries, normaliser)', 'z3 (python3-vt)',
           'contracts of Eigen operations in vc/eigen.py and of the C++ library', 'contract models of nlopt and OSQP in harness/mock']
ASSUMPTIONS = ['floating point arithmetic treated as real arithmetic; infinity as a symbolic bound', 'machine integers treated as mathematical integers; unsigned wrap-around is an obligation',
               'Eigen, the C++ library and the solvers behave as their contracts say', 'user callbacks are deterministic total functions of their arguments',
               'dimensions: nx,nu>=1, ny,ineq,eq>=0, 1<=ch<=ph; scalings positive', 'logging calls have no effect on the results (except in the logger property)']


def known_findings(pid):
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                w = l.split(' ', 2)[2]
                m, t = w.split(' :: ', 1)
                out.append((m, t))
    return out


def main():
    pid = sys.argv[1]
    c = Check(pid)
    c.run()
    r = c.finish()
    sys.stdout.flush()
    os._exit(r)


if __name__ == '__main__':
    main()

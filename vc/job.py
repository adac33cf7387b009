"""One verification job in its own process: symbolic (U) or bounded (B) interpretation plus the specification."""
import importlib
import json
import os
import sys
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(400000)


def run_scenario(ast, sc, params, dims, ints, budget=600):
    """returns dict(status, ...): all obligations and postconditions over every fork"""
    import terms as TT
    import smt
    import values as VV
    import interp
    import env
    import norm
    import loops
    t0 = time.time()
    res = dict(posts=[], obls=[], used=set(), forks=0, error=None, paths=0, vac=True, loops=0)
    prog = interp.Program(ast)
    work = [()]
    while work:
        forks = work.pop()
        TT._fresh[0] = 0
        smt.reset()
        smt.S.ctx = smt.Ctx()
        loops.reset()
        VV.DEFS.clear()
        VV.INLOOP[0] = 0
        del norm.FAIL[:]
        cfg = dict(dims=dims, params=params, ints=ints, logger=sc_logger(sc), generic=getattr(sc, 'generic', None))
        I = interp.Interp(prog, cfg)
        I.inputs = {}
        for f in forks:
            I.base_facts.append(f)
            smt.S.ctx = smt.S.ctx.add(f)
        try:
            exc = None
            try:
                I.run('scenario')
            except interp.CppThrow as e:
                exc = e.v
            ctx = smt.Ctx()
            for f in I.base_facts:
                ctx = ctx.add(f)
            smt.S.ctx = ctx
            if smt.ctx_inconsistent(ctx):
                continue
            res['vac'] = False
            E = env.Sym(I, params)
            if exc is not None:
                E.check('no exception escapes', TT.FALSE)
            try:
                sc.post(E)
            except env.Missing as e:
                E.check('output %s is produced' % e, TT.FALSE)
        except VV.ForkNeeded as e:
            res['forks'] += 1
            c = e.cond
            known = {f.id for f in forks}
            if res['forks'] > 64 or c.id in known or TT.not_(c).id in known or any(n.startswith(('it!', 'sk!', 'pre')) for n in c.fv):
                res['error'] = 'path split not possible: ' + TT.show(c)[:200] + ' @ ' + ' > '.join(getattr(e, 'stack', [])[-4:])
                break
            for cc in (TT.not_(c), c):
                with smt.assume(*forks):
                    if smt.decide(cc) is not False:
                        work.append(forks + (cc,))
            continue
        except VV.Unsupported as e:
            res['error'] = 'outside the verified fragment: %s @ %s' % (e, ' > '.join(getattr(e, 'stack', [])[-4:]))
            break
        except RecursionError:
            res['error'] = 'recursion limit'
            break
        res['paths'] += 1
        res['used'] |= I.used
        names = {n: TT.ivar(n) for n, v in I.inputs.items() if v in ('dim', 'int')} if dims is None else {}
        for q, (ok, label, det, ctx, goal) in enumerate(E.results):
            m = None
            if not ok:
                m = counterexample(goal if goal is not TT.FALSE else None, ctx, names, res, t0)
                if m and dims is not None and q not in E.approx and m['goal'] and m['soft'] == ['app']:
                    m['definite'] = True
            res['posts'].append((ok, label, det, m))
        seen = set()
        for ok, kind, fn, line, cond, ctx in I.obls:
            if not ok:
                k = (kind, fn, line)
                if k in seen:
                    continue
                seen.add(k)
                m = counterexample(cond, ctx, names, res, t0)
                res['obls'].append((ok, '%s at %s:%s' % (kind, fn, line), 'requires %s' % TT.show(cond)[:600] + (' under ' + '; '.join(TT.show(f) for f in ctx.facts)[:900] if os.environ.get('CTXSHOW') else ''), m))
            else:
                res['obls'].append((True, '%s at %s:%s' % (kind, fn, line), '', None))
        res['assumptions'] = sorted(I.assumptions)
    res['used'] = sorted('%s (%s)' % (a, b) for a, b in res['used'])
    res['time'] = time.time() - t0
    res['z3'] = dict(smt.STATS)
    return res


def counterexample(goal, ctx, names, res, t0):
    import witness
    res['tried'] = res.get('tried', 0) + 1
    if res['tried'] > (3 if names else 8):
        return None
    try:
        return witness.witness(goal, ctx, names)
    except Exception:
        return None


def sc_logger(sc):
    return getattr(sc, 'logger', False)


def child(args, conn):
    ast, modname, idx, params, dims, ints = args
    try:
        mod = importlib.import_module('props.' + modname)
        r = run_scenario(ast, mod.SCENARIOS[idx], params, dims, ints)
    except Exception:
        import traceback
        r = dict(error='internal: ' + traceback.format_exc()[-1500:], posts=[], obls=[], used=[], time=0, z3={}, paths=0, forks=0, vac=True)
    conn.append(r)


def main_thread(f, *a):
    """run f in a thread with a large stack"""
    out = []
    threading.stack_size(1 << 29)
    t = threading.Thread(target=f, args=a + (out,))
    t.start()
    t.join()
    return out[0]


def child_many(args, conn):
    """several bounded jobs sharing one process"""
    ast, modname, idx, lst = args
    out = []
    for params, dims, ints in lst:
        o = []
        child((ast, modname, idx, params, dims, ints), o)
        out.append(o[0])
    conn.append(out)


if __name__ == '__main__':
    a = json.load(sys.stdin)
    if a['many']:
        r = main_thread(child_many, (a['ast'], a['mod'], a['idx'], a['list']))
    else:
        r = main_thread(child, (a['ast'], a['mod'], a['idx'], a['params'], a['dims'], a['ints']))
    sys.stdout.write('RESULT' + json.dumps(r, default=str) + '\n')

"""Native contract-check and replay driver: the same scenario compiled against the real code."""
import hashlib
import os
import subprocess
import env
import frontend

CXX = 'g++'


def binary(sc, static=None, extra=()):
    defs = list(sc.defs) + ['-DV_NATIVE'] + list(extra)
    if getattr(sc, 'sanitize', False):
        defs += ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-divide-by-zero,vptr,nonnull-attribute']
    if static:
        defs += ['-DVS_%s=%d' % (k.upper(), v) for k, v in static.items()]
    if frontend._th[0] is None:
        frontend._th[0] = frontend.tree_hash()
    key = hashlib.sha256((sc.name + '|' + '|'.join(defs) + frontend._th[0]).encode()).hexdigest()[:16]
    d = frontend.BUILD + '/native'
    os.makedirs(d, exist_ok=True)
    out = '%s/%s-%s' % (d, sc.name, key)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        cmd = [CXX, '-std=c++20', '-O0', '-w', '-ftrivial-auto-var-init=pattern'] + defs + frontend.INCS + [frontend.V + '/harness/scen/%s.cpp' % sc.name, '-o', tmp]
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if r.returncode:
            return None, ' '.join(cmd) + '\n' + r.stderr[-3000:]
        os.rename(tmp, out)
    return out, ''


def line(params, dims, ints, seed, over=None):
    kv = dict(seed=seed)
    kv.update(params)
    kv.update(dims or {})
    kv.update(ints or {})
    kv.update(over or {})
    return ';'.join('%s=%s' % (k, repr(v) if isinstance(v, float) else v) for k, v in kv.items())


def run(binp, lines, timeout=400):
    p = subprocess.run([binp], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=timeout, errors='replace', env=dict(os.environ, MALLOC_PERTURB_='173'))
    return env.parse_log(p.stdout)


def judge(sc, params, seed, case):
    """list of failures [(label, detail)] of one concrete case; None when the preconditions exclude it"""
    if case['status'] == 77 or not case['assumed']:
        return None
    bad = []
    if case['sig'] or case['status'] or not case['done']:
        bad.append(('execution completes', 'process ended with status %d signal %d (failed assertion, exception or crash)' % (case['status'], case['sig'])))
        return bad
    for f in case['fails']:
        bad.append(('contract: ' + f, 'violated at the solver boundary'))
    E = env.Num(case, params, seed)
    if sc.tol:
        E.tol = sc.tol
    try:
        sc.post(E)
    except env.Missing as e:
        bad.append(('output is produced', str(e)))
    except (KeyError, AssertionError, IndexError) as e:
        bad.append(('output is produced', repr(e)))
    for ok, label, det in E.results:
        if not ok:
            bad.append((label, det))
    case['nchecks'] = len(E.results)
    return bad

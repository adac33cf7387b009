"""Extraction of the real code: clang AST -> JSON, cached by content within one process tree."""
import hashlib
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MPC_REPO', '/repo')
BUILD = os.path.join(V, 'build')
INCS = ['-I' + REPO + '/include', '-I' + V + '/harness', '-I' + V + '/harness/mock', '-isystem', '/usr/include/eigen3']


def astx():
    src = V + '/tool/astx.cpp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = '%s/astx-%s' % (BUILD, h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        fl = subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags'], text=True).split()
        fl = [f for f in fl if f.startswith('-I') or f.startswith('-D')]
        tmp = out + '.%d' % os.getpid()
        subprocess.check_call(['clang++', '-std=c++17', '-O1', '-fno-rtti'] + fl + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'])
        os.rename(tmp, out)
    return out


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO + '/include', V + '/harness'):
        for dp, dn, fn in sorted(os.walk(base)):
            for f in sorted(fn):
                p = os.path.join(dp, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


_th = [None]


def extract(scen, defs=(), outdir=None):
    x = astx()
    if _th[0] is None:
        _th[0] = tree_hash()
    src = V + '/harness/scen/%s.cpp' % scen
    key = hashlib.sha256((scen + '|' + '|'.join(defs) + _th[0] + x).encode()).hexdigest()[:16]
    d = outdir or (BUILD + '/ast')
    os.makedirs(d, exist_ok=True)
    out = '%s/%s-%s.json' % (d, scen, key)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run([x, tmp, src, REPO + '/include/mpc,' + V + '/harness', '--', '-std=c++20', '-w'] + list(defs) + INCS, capture_output=True, text=True,
                           env=dict(os.environ, ASTX_GENERIC='1') if '-DV_GENERIC' in defs else None)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise RuntimeError('extraction of %s failed:\n%s' % (scen, r.stderr[-4000:]))
        os.rename(tmp, out)
    return out

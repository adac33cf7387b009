"""Write the planted bugs (seeded/<id>/) from edits and demonstrations; each is confirmed in a scratch copy by tool/tryseed.sh"""
import os, subprocess, json, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = V + '/tool/seedkit'
S = {}
def seed(id, prop, needs, breaks, edits, demo, kit):
    S[id] = (prop, needs, breaks, edits, demo, kit)
I = 'include/mpc/'
NL = '#include "demo.hpp"\n#include <mpc/NLMPC.hpp>\nusing namespace mpc;\n'
LP = '#include "demo.hpp"\n#include <mpc/LMPC.hpp>\nusing namespace mpc;\n'
exec(open(V + '/tool/seeds_def.py').read())
only = sys.argv[1:]
for id, (prop, needs, breaks, edits, demo, kit) in S.items():
    if only and id not in only: continue
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedwork/' + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    for f in {e[0] for e in edits}:
        for side in 'ab':
            os.makedirs(os.path.dirname(w + '/' + side + '/' + f), exist_ok=True)
            shutil.copy('/repo/' + f, w + '/' + side + '/' + f)
    for f, old, new in edits:
        s = open(w + '/b/' + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(w + '/b/' + f, 'w').write(s.replace(old, new))
    p = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=w, capture_output=True, text=True).stdout
    out = []
    for l in p.splitlines():
        if l.startswith('diff --git a/'):
            l = 'diff --git a/' + l.split(' ')[2][2:] + ' b/' + l.split(' ')[2][2:]
        out.append(l)
    open(d + '/patch.diff', 'w').write('\n'.join(out) + '\n')
    shutil.copy(K + '/demo.sh', d + '/demo.sh')
    shutil.copy(K + '/demo.hpp', d + '/demo.hpp')
    if 'n' in kit: shutil.copy(K + '/nlopt.hpp', d + '/nlopt.hpp')
    if 'q' in kit:
        os.makedirs(d + '/osqp', exist_ok=True)
        shutil.copy(K + '/osqp/osqp.h', d + '/osqp/osqp.h')
    open(d + '/demo.cpp', 'w').write((LP if 'q' in kit else NL if 'n' in kit else '#include "demo.hpp"\n') + demo.strip() + '\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
print(len(S), 'seeds')

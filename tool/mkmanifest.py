"""MANIFEST.json from the registry and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vc')
import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    r = registry.PROPS.get(p['id'])
    if r:
        checks.append(dict(property=p['id'], quick_cmd='python3-vt vc/check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt vc/check.py ' + p['id'],
                           technique=r.get('technique', registry.TECH), level=r.get('level', 'proof'), level_note=r.get('note', registry.NOTE)))
    else:
        na.append(dict(property=p['id'], reason=registry.NA.get(p['id'], 'contract check not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='Contract-based deductive verification of the C++ templates as compiled: clang AST of the real code, own VC generator, z3. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

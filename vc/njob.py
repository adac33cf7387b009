"""Native contract checking of a list of concrete cases: runs the compiled scenario and evaluates the specification on what it printed."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import native


def main():
    a = json.load(sys.stdin)
    sc = importlib.import_module('props.' + a['mod']).SCENARIOS[a['idx']]
    cases = native.run(a['bin'], a['lines'])
    res = []
    for l, (p, seed), c in zip(a['lines'], a['meta'], cases):
        bad = native.judge(sc, p, seed, c)
        res.append(None if bad is None else [bad[:10] if not a['safety'] else bad, c.get('nchecks', 0)])
    print('RESULT' + json.dumps(res, default=str))


main()

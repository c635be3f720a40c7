"""fixed.py PROP WHAT [COMMIT]: record /repo's HEAD as the repair of a genuine defect in KNOWN_FINDINGS.json."""
import json, os, subprocess, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.json')
d = json.load(open(f))
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'], text=True).strip()
d['findings'].append(dict(property=sys.argv[1], status='fixed', commit=c, what=sys.argv[2], line='fixed: property=%s %s %s' % (sys.argv[1], c, sys.argv[2])))
json.dump(d, open(f, 'w'), indent=1)

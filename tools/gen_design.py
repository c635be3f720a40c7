"""Write DESIGN.md from design_head.md, design_notes.py, the contract files, KNOWN_FINDINGS.json and seed_results.json."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from design_notes import NOTES

out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
found = json.load(open(os.path.join(V, 'KNOWN_FINDINGS.json')))['findings']
try:
    results = json.load(open(os.path.join(V, 'tools', 'seed_results.json')))
except OSError:
    results = {}
seeds = {}
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
out.append('## 5. Properties\n')
for p in props:
    c = p['id']
    f = glob.glob(os.path.join(V, 'contracts', 'c%s_*.py' % c[1:]))
    m = importlib.import_module('contracts.' + os.path.basename(f[0])[:-3])
    out.append('### %s %s\n\n%s\n' % (c, p['title'], p['statement']))
    out.append('Contract `%s`, harness `harness/h%s.py`; anchored in %s.\n' % (os.path.relpath(f[0], V), c[1:], ', '.join('`%s`' % x for x in p['anchors']['files'])))
    out.append('Why tests cannot settle it: %s.\n' % p['why_tests_cant'].rstrip('.'))
    out.append('Proved units (all inputs and histories; machine-checked on every run):\n')
    groups = []
    for u in m.U.units:
        claim = u.get('claim') or ''
        if groups and groups[-1][1] == claim:
            groups[-1][0].append(u['name'])
        else:
            groups.append(([u['name']], claim))
    for names, claim in groups:
        out.append('* %s: %s' % (', '.join(names) if len(names) < 4 else '%s ... %s (%d units)' % (names[0], names[-1], len(names)), claim))
    out.append('\nUnchecked assumptions of this property: %s.\n' % '; '.join(m.ASSUMPTIONS))
    h, note = NOTES[c]
    out.append('Bounded part (harness): %s.%s\n' % (h, ' Reading: ' + note if note else ''))
    if seeds.get(c):
        out.append('Planted bugs: ' + '; '.join('`%s` (%s)' % (i, results.get(i, 'not run')) for i, _ in seeds[c]) + '.\n')
out.append('## 6. Genuine defects found (all repaired)\n')
for f in found:
    out.append('* ' + f['line'])
out.append('''
Noted, outside the statements and left alone: `SampleVoice` is unfinished; `Envelope.__init__` does not
validate (a sustain above 1 is taken); deleting an envelope attribute crashes the interpreter on PyPy; `Note.from_dict` removes the 'type' entry of the dictionary
it is given; `Sample.trim` takes stop=0 as the end; the last frames of a resampled file may be lost to prefetching; a step sequencer with one
step sends it once; a channel mismatch in offline rendering repeats without advancing the clock; copies of an FM oscillator start their modulator anew.

## 7. Planted bugs and what catches them

%d bugs are kept in `seeded/`. Results of `tools/seedcheck.sh`: *input* means that the check names a failing input, *obligation* that a failed obligation
is all it has (`no-failing-input-found`).
''' % sum(map(len, seeds.values())))
for c, l in sorted(seeds.items()):
    for i, m in l:
        out.append('* `%s` -> %s: %s. Needs: %s.' % (i, results.get(i, 'not run'), m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.')))
out.append('''
## 8. Edits that keep the behaviour

`tools/mut.py` runs a check against a copy with a textual change. Besides the bugs, behaviour-preserving rewrites were tried: helpers extracted or inlined,
conditions inverted, loops turned into `while`, comprehensions and pointer loops, renamed locals, hoisted attributes, early returns. A check that alarmed there was changed: contracts are
stated on observable state (results, ends, queues, samples), loop invariants on round numbers and logs; private helper names are used only as optional
summaries, and where they vanish the real code is executed instead. What still does not fit is bounded in that run (section 2).
''')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))

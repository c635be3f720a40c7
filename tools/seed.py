"""seed.py SPEC.json : make /verif/seeded/<id>/ from a spec and confirm it.

SPEC: {"id", "property", "needs", "what_it_breaks", "edits": [[file, old, new], ...], "demo": python text}
Applies the edits to /repo, takes the diff, builds, runs the stable tests and the demonstration, undoes everything,
and keeps the folder only when the demonstration passes on the unchanged tree, fails with the patch and all stable tests pass.
Then runs the property's check against the patched tree (--no-check to skip)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


spec = json.load(open(sys.argv[1]))
d = os.path.join(V, 'seeded', spec['id'])
assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
os.makedirs(d, exist_ok=True)
open(d + '/demo.py', 'w').write(spec['demo'])
open(d + '/demo.sh', 'w').write('''#!/bin/bash
. /opt/vp/env.sh
cd /repo || exit 2
exec $PY "$(dirname "$(realpath "$0")")/demo.py"
'''.replace('cd /repo || exit 2\n', '') if False else '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
exec timeout 250 $PY "$here/demo.py"
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
ok = False
try:
    p = sh('bash %s/demo.sh' % d, cwd='/repo')
    print('demo unchanged rc', p.returncode, (p.stdout + p.stderr)[-400:])
    good = p.returncode == 0
    for f, old, new in spec['edits']:
        f = os.path.join('/repo', f)
        s = open(f).read()
        assert s.count(old) >= 1, ('text not found', f, old)
        assert s.count(old) == 1, ('text not unique', f, old)
        open(f, 'w').write(s.replace(old, new, 1))
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    sh('bash /opt/vp/build.sh')
    b = sh('bash /opt/vp/test.sh /tmp/seed_out.json', cwd='/repo')
    res = json.load(open('/tmp/seed_out.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(res.get('passed', res) if isinstance(res, dict) else res)
    miss = [t for t in stable if t not in passed]
    print('stable tests failing with patch:', miss[:5])
    p = sh('bash %s/demo.sh' % d, cwd='/repo')
    print('demo patched rc', p.returncode, (p.stdout + p.stderr)[-300:])
    good = good and p.returncode != 0 and not miss
    if good and '--no-check' not in sys.argv:
        p = sh('python3-vt %s/run.py %s --no-evidence' % (V, spec['property']), cwd=V)
        print('check rc', p.returncode, (p.stdout)[-400:], p.stderr[-200:])
    ok = good
finally:
    subprocess.run('git -C /repo checkout -q -- .', shell=True)
    sh('. /opt/vp/env.sh; build_ext', executable='/bin/bash') if any(e[0].endswith('.c') for e in spec['edits']) else None
    if not ok:
        shutil.rmtree(d)
        print('NOT KEPT')
    else:
        print('KEPT', spec['id'])

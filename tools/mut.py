"""mut.py PROP FILE OLD NEW [--tests] [run.py options]: run a check against a scratch copy with one textual change."""
import os
import shutil
import subprocess
import sys
import tempfile

prop, path, old, new = sys.argv[1:5]
opts = sys.argv[5:]
d = tempfile.mkdtemp(prefix='mut-')
try:
    shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git'))
    f = os.path.join(d, 'r', path)
    s = open(f).read()
    if old not in s:
        sys.exit('text not found')
    open(f, 'w').write(s.replace(old, new, 1))
    env = dict(os.environ, KLANG_REPO=d + '/r')
    if '--tests' in opts:
        opts.remove('--tests')
        e = dict(env, PYTHONPATH=d + '/r')
        p = subprocess.run('. /opt/vp/env.sh; export PYTHONPATH=%s; cd %s && /opt/pypyvenv/bin/pypy3 -m pytest -q -x tests 2>&1 | tail -3' % (d + '/r', d + '/r'), shell=True, env=e, capture_output=True, text=True)
        print(p.stdout)
    r = subprocess.run(['python3-vt', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'run.py'), prop, '--no-evidence'] + opts, env=env)
    print('rc', r.returncode)
finally:
    shutil.rmtree(d, ignore_errors=True)

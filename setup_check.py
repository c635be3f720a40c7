"""Setup: nothing is built ahead of the checks; make sure the tools they need answer."""
import os
import subprocess
import sys

import z3

os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'evidence', 'replays'), exist_ok=True)
s = z3.Solver()
x = z3.Int('x')
s.add(x > 1, x < 2)
assert s.check() == z3.unsat
r = subprocess.run(['/opt/pypyvenv/bin/pypy3', '-c', 'import numpy'], env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
sys.exit(r.returncode)

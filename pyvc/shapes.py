"""Loop structure of functions.

Invariants are written for the loops a function has.  When the kind, number or nesting of its loops has changed, an
obligation that no longer goes through may only mean that the invariants do not fit the new loops; such a unit is
reported as outside the verified fragment (bounded) in that run.  contracts/loops.json: structure at the time of writing.
"""
import ast
import json
import os

from .values import Unsupported

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'loops.json')


def shape(node):
    """Nested kinds of loops directly in a function, e.g. 'F(W)F'."""
    out = ''
    for c in ast.iter_child_nodes(node):
        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        s = shape(c)
        if isinstance(c, (ast.For, ast.While)):
            out += ('F' if isinstance(c, ast.For) else 'W') + ('(%s)' % s if s else '')
        else:
            out += s
    return out


def shapes(root):
    """qualified name -> structure, for all functions of the package."""
    out = {}

    def walk(node, q):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                n = q + '.' + c.name
                if isinstance(c, ast.FunctionDef):
                    out[n] = shape(c)
                walk(c, n)
            elif not isinstance(c, ast.Lambda):
                walk(c, q)
    for d, _, files in os.walk(os.path.join(root, 'klang')):
        for f in files:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                q = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                if q.endswith('.__init__'):
                    q = q[:-9]
                try:
                    with open(p) as fh:
                        walk(ast.parse(fh.read()), q)
                except SyntaxError:
                    pass
            elif f.endswith('.c'):
                from . import cfront
                try:
                    out.update({'c.%s.%s' % (f[:-2], k): v for k, v in cfront.File(f[:-2]).shapes().items()})
                except Unsupported:
                    pass
    return out


def rewritten(root, functions):
    """Functions among these whose loops were rewritten."""
    try:
        with open(PATH) as f:
            base = json.load(f)
    except OSError:
        return []
    now = shapes(root)
    return sorted(f for f in functions if now.get(f, '') != base.get(f, ''))


if __name__ == '__main__':
    d = {k: v for k, v in shapes(os.environ.get('KLANG_REPO', '/repo')).items() if v}
    with open(PATH, 'w') as f:
        json.dump(d, f, indent=0, sort_keys=True)

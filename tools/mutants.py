"""mutants.py OUT.jsonl [--per N] [--jobs J] [--modules a,b] [--seed S]: mutation testing of the checks.

Makes small changes to the functions the contracts execute (their list is in the evidence files), drops the mutants that
the repository's own tests notice, and runs the checks of the properties a function belongs to on the others.
Everything happens in copies of /repo under /tmp.  One line per mutant is appended to OUT.jsonl.
"""
import argparse
import ast
import copy
import glob
import json
import multiprocessing
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KLANG_BASE', '/repo')


def coverage():
    out = {}

    def find(o, p):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == 'functions_executed_from_source':
                    for q in v:
                        out.setdefault(q, set()).add(p)
                else:
                    find(v, p)
        elif isinstance(o, list):
            for x in o:
                find(x, p)
    for f in glob.glob(HERE + '/evidence/C*.json'):
        find(json.load(open(f)), os.path.basename(f)[:3])
    return out


def functions(path):
    """(qualified name, node) of all functions of a file."""
    mod = os.path.relpath(path, REPO)[:-3].replace('/', '.').replace('.__init__', '')
    tree = ast.parse(open(path).read())

    def rec(n, q):
        for c in getattr(n, 'body', []):
            if isinstance(c, ast.FunctionDef):
                yield q + '.' + c.name, c
                yield from rec(c, q + '.' + c.name)
            elif isinstance(c, ast.ClassDef):
                yield from rec(c, q + '.' + c.name)
                yield q + '.' + c.name + '.<class>', c
    return list(rec(tree, mod))


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div, ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def changes(n):
    """Replacements of one node."""
    def alt(**kw):
        m = copy.copy(n)
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    if isinstance(n, ast.Compare):
        for o in CMP.get(type(n.ops[0]), []):
            yield alt(ops=[o()] + n.ops[1:])
    elif isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
            yield alt(op=o())
        if isinstance(n.op, (ast.Add, ast.Mult, ast.Sub)):
            yield n.left
            yield n.right
    elif isinstance(n, ast.AugAssign):
        for o in BIN.get(type(n.op), [])[:1]:
            yield alt(op=o())
        yield ast.Pass()
    elif isinstance(n, ast.BoolOp):
        yield alt(op=ast.And() if isinstance(n.op, ast.Or) else ast.Or())
        for i in range(len(n.values)):
            rest = n.values[:i] + n.values[i + 1:]
            yield rest[0] if len(rest) == 1 else alt(values=rest)
    elif isinstance(n, ast.UnaryOp):
        yield n.operand
    elif isinstance(n, ast.Constant):
        if n.value is True or n.value is False:
            yield alt(value=not n.value)
        elif isinstance(n.value, int):
            yield alt(value=n.value + 1)
            if n.value > 0:
                yield alt(value=n.value - 1)
        elif isinstance(n.value, float):
            yield alt(value=n.value + 1.)
            yield alt(value=n.value / 2)
    elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
        if isinstance(n, ast.If):
            yield alt(test=ast.UnaryOp(ast.Not(), n.test))
            yield alt(test=ast.Constant(False))
            yield alt(test=ast.Constant(True))
        elif isinstance(n, ast.IfExp):
            yield n.body
            yield n.orelse
    elif isinstance(n, ast.Expr):
        if not isinstance(n.value, ast.Constant):
            yield ast.Pass()
    elif isinstance(n, ast.Assign):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            yield ast.Pass()
    elif isinstance(n, ast.Call):
        if len(n.args) == 2 and not n.keywords:
            yield alt(args=n.args[::-1])
        if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
            yield alt(func=ast.Name('max' if n.func.id == 'min' else 'min', ast.Load()))
        if isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'set', 'list', 'tuple', 'int', 'abs', 'float', 'round') and len(n.args) == 1:
            yield n.args[0]
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'copy':
            yield n.func.value
        if n.keywords:
            for i in range(len(n.keywords)):
                yield alt(keywords=n.keywords[:i] + n.keywords[i + 1:])
    elif isinstance(n, ast.Slice):
        if n.lower is not None:
            yield alt(lower=None)
        if n.upper is not None:
            yield alt(upper=None)
    elif isinstance(n, ast.Return):
        if n.value is not None and not isinstance(n.value, ast.Constant):
            pass
    elif isinstance(n, (ast.Break, ast.Continue)):
        yield ast.Pass()
        yield ast.Continue() if isinstance(n, ast.Break) else ast.Break()


def own(fn):
    """Nodes of a function outside its docstring, annotations and nested functions."""
    todo = list(fn.body)
    if todo and isinstance(todo[0], ast.Expr) and isinstance(todo[0].value, ast.Constant):
        todo = todo[1:]
    if isinstance(fn, ast.ClassDef):
        todo = [s for s in todo if isinstance(s, (ast.Assign, ast.AnnAssign))]
    else:
        todo += [d for d in fn.args.defaults + fn.args.kw_defaults if d is not None]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Raise)):
            continue
        yield n
        if isinstance(n, ast.JoinedStr):
            continue
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns'):
                continue
            todo += [x for x in (v if isinstance(v, list) else [v]) if isinstance(x, ast.AST)]


def mutants(path, fn):
    src = open(path, encoding='utf8').read()
    lines = src.encode().split(b'\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    raw = src.encode()
    for n in own(fn):
        for m in changes(n):
            if not hasattr(n, 'lineno'):
                continue
            a, b = starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
            try:
                if isinstance(n, ast.If):       # only the test
                    t = n.test
                    a, b = starts[t.lineno - 1] + t.col_offset, starts[t.end_lineno - 1] + t.end_col_offset
                    text = ast.unparse(m.test)
                elif isinstance(n, ast.While):
                    continue
                else:
                    text = ast.unparse(ast.fix_missing_locations(m))
            except Exception:
                continue
            if isinstance(m, ast.expr) and not isinstance(m, (ast.Constant, ast.Name, ast.Call, ast.Attribute, ast.Slice)):
                text = '(%s)' % text
            if '\n' in text:
                continue
            new = raw[:a] + text.encode() + raw[b:]
            try:
                if ast.dump(ast.parse(new)) == ast.dump(ast.parse(raw)):
                    continue
            except SyntaxError:
                continue
            yield n.lineno, raw[a:b].decode(), text, new


def work(job):
    q, path, line, old, text, new, props = job
    d = tempfile.mkdtemp(prefix='mt-')
    out = dict(function=q, file=os.path.relpath(path, REPO), line=line, old=old, new=text)
    try:
        r = d + '/r'
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns('.git', 'samples', 'docs'))
        open(os.path.join(r, os.path.relpath(path, REPO)), 'wb').write(new)
        env = {'PATH': '/opt/pypyvenv/bin:/usr/bin:/bin'}
        try:
            p = subprocess.run('. /opt/vp/env.sh; export PYTHONPATH=%s; cd %s && exec $PY -m pytest -q -x tests -p no:cacheprovider' % (r, r), shell=True, env=env, capture_output=True, text=True, timeout=90)
            out['tests'] = p.returncode
        except subprocess.TimeoutExpired:
            out['tests'] = 'timeout'
        if out['tests'] != 0:
            return out
        e = dict(os.environ, KLANG_REPO=r)
        out['checks'] = {}
        for prop in props:
            try:
                c = subprocess.run(['python3-vt', HERE + '/run.py', prop, '--no-evidence'], env=e, capture_output=True, text=True, timeout=600)
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                out['checks'][prop] = ('obligation' if 'no-failing' in v[0] else 'input') if v else ('quiet' if c.returncode == 0 else 'rc %d' % c.returncode)
                if not v and 'bounded' in c.stdout.lower() and ' 0 bounded' not in c.stdout:
                    out['checks'][prop] += ' bounded'
            except subprocess.TimeoutExpired:
                out['checks'][prop] = 'timeout'
            if out['checks'][prop] == 'input':
                break
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--per', type=int, default=6)
    ap.add_argument('--jobs', type=int, default=5)
    ap.add_argument('--modules')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--props', type=int, default=4)
    a = ap.parse_args()
    cov = coverage()
    rng = random.Random(a.seed)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            o = json.loads(l)
            done.add((o['function'], o['line'], o['old'], o['new']))
    jobs = []
    for path in sorted(glob.glob(REPO + '/klang/**/*.py', recursive=True)):
        mod = os.path.relpath(path, REPO)[:-3].replace('/', '.').replace('.__init__', '')
        if a.modules and not any(m in mod for m in a.modules.split(',')):
            continue
        for q, fn in functions(path):
            props = cov.get(q)
            if q.endswith('.<class>'):
                props = set().union(*[p for n, p in cov.items() if n.startswith(q[:-7])] or [set()])
            if not props:
                continue
            ms = [m for m in mutants(path, fn)]
            rng.shuffle(ms)
            for line, old, text, new in ms[:a.per]:
                if (q, line, old, text) not in done:
                    # the properties that execute the fewest functions know it best
                    jobs.append((q, path, line, old, text, new, sorted(props, key=lambda p: sum(p in v for v in cov.values()))[:a.props]))
    rng.shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    with multiprocessing.Pool(a.jobs) as pool, open(a.out, 'a') as f:
        for o in pool.imap_unordered(work, jobs):
            f.write(json.dumps(o) + '\n')
            f.flush()


if __name__ == '__main__':
    main()

"""C front end: the functions of the C extensions, executed symbolically from the AST clang gives for the current source.

The Python and numpy C API is declared by the headers in cstubs/ (plain functions); what the calls mean is written down
here.  Obligations generated on the way: memory accesses inside the block and before its release, no null dereference,
no division by zero, no signed overflow, values in range at conversions, no read of an uninitialised variable, argument
formats that fit the variables they fill, references released only when owned.
"""
import ast
import json
import os
import subprocess
from fractions import Fraction

import z3

from .values import *
from . import ops, models
from .engine import Env, UNBOUND, PathEnd, ReturnEx, BreakEx, ContinueEx, REPO, LoopState
from .ops import arith

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cstubs')
INTS = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False), 'int': (32, True),
        'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
        'unsigned long long': (64, False), '_Bool': (8, False), 'bool': (8, False)}


class GotoEx(Exception):
    def __init__(self, label):
        self.label = label


class Type:
    def __init__(self, kind, of=None, n=None, name=None):
        self.kind, self.of, self.n, self.name = kind, of, n, name     # int bool double ptr array struct void func

    def __repr__(self):
        return '%s%s' % (self.kind, '(%r)' % (self.of,) if self.of is not None else (' ' + self.name if self.name else ''))

    def same(self, o):
        return self.kind == o.kind and self.name == o.name and self.n == o.n and (self.of.same(o.of) if isinstance(self.of, Type) and isinstance(o.of, Type) else self.of == o.of)


class File:
    """One translation unit."""
    cache = {}

    @staticmethod
    def load(name):
        if name not in File.cache:
            File.cache[name] = File(name)
        return File.cache[name]

    def __init__(self, name):
        self.name = name
        path = os.path.join(REPO, 'klang', 'audio', name + '.c')
        if not os.path.exists(path):
            raise Unsupported('%s does not exist' % path)
        r = subprocess.run(['clang', '-w', '-ferror-limit=3', '-I' + STUBS, '-Xclang', '-ast-dump=json', '-fsyntax-only', path], capture_output=True, text=True)
        if r.returncode != 0:
            raise Unsupported('C front end: ' + r.stderr.strip()[:300])
        self.functions, self.vars, self.typedefs, self.records, self.enums, self.byid = {}, {}, {}, {}, {}, {}
        self.locals, self.enumnames = None, {}
        for n in json.loads(r.stdout)['inner']:
            self.top(n)

    def top(self, n):
        k = n.get('kind')
        if k == 'FunctionDecl':
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', ())):
                self.functions[n['name']] = n
        elif k == 'VarDecl':
            if n.get('name') not in self.vars or 'init' in n:
                self.vars[n['name']] = n
        elif k == 'RecordDecl':
            fields = [(c.get('name'), c['type'].get('desugaredQualType', c['type']['qualType']), c['type']['qualType']) for c in n.get('inner', ()) if c['kind'] == 'FieldDecl']
            if n.get('completeDefinition'):
                self.byid[n['id']] = fields
                if n.get('name'):
                    self.records[n['name']] = fields
        elif k == 'EnumDecl':
            self.byid[n['id']] = 'enum'
            v = -1
            for c in n.get('inner', ()):
                if c['kind'] == 'EnumConstantDecl':
                    lit = next((x for x in walk(c) if x.get('kind') == 'ConstantExpr' and 'value' in x), None)
                    v = int(lit['value']) if lit else v + 1
                    self.enums[c['id']] = v
                    self.enumnames[c['name']] = v
        elif k == 'TypedefDecl':
            tag = next((d['decl'] for d in walk(n) if d.get('kind') in ('RecordType', 'EnumType') and 'decl' in d), None)
            q = n['type'].get('desugaredQualType', n['type']['qualType'])
            if tag is not None and not any(c in q for c in '*(['):
                if self.byid.get(tag['id']) == 'enum' or tag.get('kind') == 'EnumDecl':
                    self.typedefs[n['name']] = 'int' if any(v < 0 for v in ()) else 'unsigned int'
                else:
                    nm = tag.get('name') or n['name']
                    if tag['id'] in self.byid:
                        self.records[nm] = self.byid[tag['id']]
                    self.typedefs[n['name']] = 'struct ' + nm
            else:
                self.typedefs[n['name']] = q

    def local(self, n):
        """Name of a local variable: the declared name, numbered when the function declares several of it."""
        if self.locals is None:
            self.locals = {}
            for f in self.functions.values():
                seen = {}
                for x in walk(f):
                    if x.get('kind') in ('VarDecl', 'ParmVarDecl'):
                        name = x.get('name', '_')
                        seen[name] = seen.get(name, -1) + 1
                        self.locals[x['id']] = name + ('~%d' % seen[name] if seen[name] else '')
        return self.locals[n['id']]

    def shapes(self):
        """Loop structure of every function: kinds and nesting, and what the loops assign and call."""
        def of(n):
            out = ''
            for c in n.get('inner', ()):
                s = of(c)
                if c.get('kind') in LOOPS:
                    s = '%s(%s)%s' % (c['kind'][0], s, '' if n.get('kind') in LOOPS else ','.join(sorted(effects(c))))
                out += s
            return out

        def effects(n):
            out = set()
            for x in walk(n):
                k, target = x.get('kind'), None
                if k == 'CompoundAssignOperator' or k == 'BinaryOperator' and x['opcode'] == '=' or k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
                    target = x['inner'][0]
                    while target['kind'] == 'ParenExpr':
                        target = target['inner'][0]
                    out.add({'MemberExpr': '.' + target.get('name', ''), 'DeclRefExpr': target.get('referencedDecl', {}).get('name', '')}.get(target['kind'], '[]'))
                elif k == 'CallExpr':
                    out |= {c['referencedDecl']['name'] + '()' for c in walk(x['inner'][0]) if c.get('kind') == 'DeclRefExpr'}
            return out
        return {f: of(n) for f, n in self.functions.items()}

    def type(self, q):
        q = q.strip()
        for w in ('const ', 'volatile ', 'static ', 'register '):
            while q.startswith(w):
                q = q[len(w):]
        for w in (' const', ' volatile', '*const', '*restrict', ' restrict'):
            while q.endswith(w):
                q = q[:-len(w)] + ('*' if w.startswith('*') else '')
        q = q.strip()
        if q.endswith(']'):
            i = q.index('[')
            n = q[i + 1:q.index(']')]
            return Type('array', self.type(q[:i] + q[q.index(']') + 1:]), int(n) if n.isdigit() else None)
        if '(' in q:
            return Type('func')
        if q.endswith('*'):
            return Type('ptr', self.type(q[:-1]))
        if q in ('_Bool', 'bool'):
            return Type('bool')
        if q in INTS:
            return Type('int', INTS[q])
        if q in ('double',):
            return Type('double')
        if q == 'void':
            return Type('void')
        if q.startswith('enum '):
            return Type('int', (32, False))
        if q.startswith('struct '):
            return Type('struct', name=q[7:].strip())
        if q in self.typedefs and self.typedefs[q] != q:
            return self.type(self.typedefs[q])
        if q in self.records:
            return Type('struct', name=q)
        if q == '__va_list_tag':
            return Type('void')
        raise Unsupported('C type %s' % q)

    def of(self, n):
        t = n['type']
        return self.type(t['qualType'])

    def sizeof(self, t):
        if t.kind == 'int':
            return t.of[0] // 8
        if t.kind == 'bool':
            return 1
        if t.kind in ('double', 'ptr'):
            return 8
        if t.kind == 'array':
            return (t.n or 0) * self.sizeof(t.of)
        if t.kind == 'struct':
            off, al = 0, 1
            for _, q, q2 in self.records[t.name]:
                ft = self.type(q2)
                a = self.align(ft)
                off = (off + a - 1) // a * a + self.sizeof(ft)
                al = max(al, a)
            return (off + al - 1) // al * al
        raise Unsupported('sizeof %r' % t)

    def align(self, t):
        if t.kind == 'array':
            return self.align(t.of)
        if t.kind == 'struct':
            return max([1] + [self.align(self.type(q2)) for _, q, q2 in self.records[t.name]])
        return self.sizeof(t)

    def field(self, record, name):
        for f, q, q2 in self.records[record]:
            if f == name:
                return self.type(q2)
        raise Unsupported('field %s of %s' % (name, record))

    # ---- entry points
    def table(self, var):
        """Rows of an initialised table: lists of constants (text, numbers, names of functions)."""
        n = self.vars.get(var)
        init = n and next((c for c in n.get('inner', ()) if c['kind'] == 'InitListExpr'), None)
        if init is None:
            raise Unsupported('table %s' % var)
        return [[plain(c) for c in row.get('inner', ())] for row in init['inner']]

    def exported(self):
        """Python name -> variable of the type object, from the calls that add the types to the module."""
        out = {}
        for f in self.functions.values():
            for c in walk(f):
                if c.get('kind') == 'CallExpr' and plain(c['inner'][0]) == 'PyModule_AddObject':
                    out[plain(c['inner'][2])] = plain(c['inner'][3])
        return out

    def slots(self, typevar):
        n = self.vars[typevar]
        init = next(c for c in n['inner'] if c['kind'] == 'InitListExpr')
        return dict(zip([f for f, _, _ in self.records['_typeobject']], [plain(c) for c in init['inner']]))

    def entry(self, cls, name):
        """C function behind a Python-visible method, property ('get:x', 'set:x') or slot ('tp_init')."""
        t = self.exported().get(cls)
        if t is None:
            raise Unsupported('%s does not export %s' % (self.name, cls))
        s = self.slots(t)
        if name.startswith('tp_'):
            f = s.get(name)
        elif ':' in name:
            k, nm = name.split(':')
            f = next((r[1 if k == 'get' else 2] for r in self.table(s['tp_getset']) if r and r[0] == nm), None)
        else:
            f = next((r[1] for r in self.table(s['tp_methods']) if r and r[0] == name), None)
        if f not in self.functions:
            raise Unsupported('no C function for %s.%s' % (cls, name))
        return f

    def member(self, cls, name):
        """Row of the member table of an exported type: (member type, field, flags), None if there is none."""
        t = self.exported().get(cls)
        if t is None:
            raise Unsupported('%s does not export %s' % (self.name, cls))
        var = self.slots(t).get('tp_members')
        if not isinstance(var, str):
            return None
        return next(((r[1], r[2], r[3] or 0) for r in self.table(var) if r and r[0] == name), None)


def plain(n):
    """Constant behind casts: text, number, referenced name."""
    k = n.get('kind')
    if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr', 'ConstantExpr'):
        return plain(n['inner'][0])
    if k == 'UnaryOperator' and n['opcode'] == '&':
        return plain(n['inner'][0])
    if k == 'StringLiteral':
        return ast.literal_eval(n['value'])
    if k == 'IntegerLiteral':
        return int(n['value'])
    if k == 'DeclRefExpr':
        return n['referencedDecl']['name']
    if k == 'MemberExpr':
        return n['name']
    return None


def walk(n):
    yield n
    for c in n.get('inner', ()):
        yield from walk(c)


# ---- values

class Mem:
    """A block of equally typed elements."""

    def __init__(self, arr, ctype, what='memory'):
        self.arr, self.ctype, self.what = arr, ctype, what
        self.freed = False
        self.readonly = False


class Raw:
    """Untyped block fresh from the allocator."""

    def __init__(self, size, zero):
        self.size, self.zero, self.typed = size, zero, None


class Elem:
    """Pointer to an element of a block."""

    def __init__(self, mem, off):
        self.mem, self.off = mem, off


class FieldPtr:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class VarPtr:
    def __init__(self, env, key, ctype):
        self.env, self.key, self.ctype = env, key, ctype


class TextPtr:
    def __init__(self, s):
        self.s = s


class FuncPtr:
    def __init__(self, name):
        self.name = name


class Const:
    """Address of a static object (type, exception, None ...)."""

    def __init__(self, name):
        self.name = name


class PyV:
    """A Python object; owned: references the C code holds."""

    def __init__(self, what, value=None, borrowed=False):
        self.what, self.value, self.owned, self.borrowed = what, value, 0 if borrowed else 1, borrowed


class CErr(Exception):
    pass


class FakeLoop:
    def __init__(self, node):
        self.body = [ast.parse('return')] if any(c.get('kind') in ('BreakStmt', 'ReturnStmt', 'GotoStmt') for c in walk(node)) else []


class FakeFunc:
    def __init__(self, qual):
        self.qual = qual


class C:
    """Interpreter of one file's functions on a path of V."""

    def __init__(self, V, name):
        self.V, self.file = V, File.load(name)
        self.name = 'c.' + name
        self.py = []               # Python objects seen by the C code
        self.error = None          # pending exception
        self.blocks = []
        self.classes = {}
        self.conversion_failed = False
        self.given = None          # arguments of the Python call: (positional list, keyword dict)
        self.fn = None
        self.index = []
        self.api = dict(API)
        V.unit.assumed.add('C doubles as reals; semantics of the Python/numpy C API calls as written in pyvc/cfront.py')

    # ---- objects
    def cls(self, record):
        if record not in self.classes:
            if record not in self.file.records:
                raise Unsupported('struct %s' % record)
            self.classes[record] = ClassV(record, 'c.struct.' + record)
        return self.classes[record]

    def struct(self, record, **fields):
        """A struct with the given fields; the others hold arbitrary values."""
        o = self.V.mkobj(self.cls(record))
        for f, q, q2 in self.file.records[record]:
            t = self.file.type(q2)
            o.fields[f] = fields.pop(f) if f in fields else self.arbitrary(t, record + '.' + str(f))
        if fields:
            raise Unsupported('struct %s has no field %s' % (record, ', '.join(fields)))
        o.record = record
        o.freed = False
        return o

    def arbitrary(self, t, name):
        if t.kind == 'double':
            return self.V.real(name)
        if t.kind == 'bool':
            return self.V.bool(name)
        if t.kind == 'int':
            v = self.V.int(fresh_name(name))
            lo, hi = bounds(t)
            self.V.assume(z3.And(v >= lo, v <= hi))
            return v
        return UNBOUND

    def zero(self, t):
        return {'double': 0, 'bool': False, 'int': 0, 'ptr': None}.get(t.kind, UNBOUND)

    def doubles(self, n, get=None, what='memory'):
        m = Mem(self.V.mkarr((n,), get or KReal().uf('garbage', 1), 'float'), Type('double'), what)
        self.blocks.append(m)
        return m

    def array(self, n, get, what='array'):
        """A Python numpy array of n doubles passed to or made by C."""
        o = PyV('array', borrowed=True)
        o.nd, o.n, o.get = 1, n, get
        o.mem = self.doubles(n, get, what)
        self.py.append(o)
        return o

    def new(self, what, value=None, borrowed=False):
        o = PyV(what, value, borrowed)
        self.py.append(o)
        return o

    def raise_(self, exc):
        self.error = exc

    def check(self, label, f):
        self.V.check('%s: %s' % (self.fn or self.name, label), f)

    # ---- calls
    def call(self, name, *args):
        V = self.V
        qual = self.name + '.' + name
        h = V.contracts.get(qual)
        if h is not None and V.inline_once != qual:
            V.unit.contracts_used.add(qual)
            return h(V, *args)
        V.inline_once = None
        node = self.file.functions.get(name)
        if node is None:
            h = self.api.get(name)
            if h is None:
                raise Unsupported('C function %s is not known' % name)
            return h(self, *args)
        V.unit.functions.add(qual)
        if V.stack.count(qual) > 8 or len(V.stack) > 60:
            raise Unsupported('recursion in %s' % qual)
        env = Env(None, None, FakeFunc(qual))
        env.ids, env.types = {}, {}
        V.alloc(env)
        V.cells[env.oid] = env
        params = [c for c in node.get('inner', ()) if c['kind'] == 'ParmVarDecl']
        if len(params) != len(args):
            raise Unsupported('call of %s with %d arguments' % (name, len(args)))
        for p, a in zip(params, args):
            self.declare(p, env, self.convert(a, self.file.of(p)))
        old = self.fn
        self.fn = qual
        loops = [c for c in walk(node) if c.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt')]
        env.loops = [c['id'] for c in loops]
        V.stack.append(qual)
        V.envs.append(env)
        try:
            self.stmt(next(c for c in node['inner'] if c['kind'] == 'CompoundStmt'), env)
            rt = node['type']['qualType'].split('(')[0].strip()
            if rt != 'void':
                return UNBOUND
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.fn = old
            V.stack.pop()
            V.envs.pop()

    def declare(self, n, env, v):
        key = self.file.local(n)
        env.ids[n['id']] = key
        env.types[key] = self.file.of(n)
        self.setvar(env, key, v)

    def setvar(self, env, key, v):
        V = self.V
        if v is not UNBOUND and not is_num(v):
            if V.frames:
                V.wrote(env, key, None)
            env.vars[key] = v
        else:
            V.setvar(env, key, v)

    # ---- statements
    def stmt(self, n, env):
        if not n or 'kind' not in n:
            return
        m = getattr(self, 's_' + n['kind'], None)
        if m is not None:
            return m(n, env)
        self.value(n, env)

    def s_CompoundStmt(self, n, env):
        body = n.get('inner', [])
        i = 0
        while i < len(body):
            try:
                self.stmt(body[i], env)
                i += 1
            except GotoEx as g:
                at = next((j for j, c in enumerate(body) if any(x.get('kind') == 'LabelStmt' and x.get('declId') == g.label for x in walk(c)
                                                                if c.get('kind') == 'LabelStmt')), None)
                if at is None or at <= i:
                    raise
                i = at

    def s_LabelStmt(self, n, env):
        for c in n.get('inner', ()):
            self.stmt(c, env)

    def s_GotoStmt(self, n, env):
        raise GotoEx(n.get('targetLabelDeclId'))

    def s_DeclStmt(self, n, env):
        for c in n.get('inner', ()):
            if c['kind'] != 'VarDecl':
                continue
            t = self.file.of(c)
            init = c.get('inner', [None])[0] if 'init' in c else None
            if c.get('storageClass') == 'static' and not (init is not None and t.kind == 'array' and t.of.kind == 'ptr') and not c['type']['qualType'].startswith('const '):
                raise Unsupported('static variable %s' % c['name'])
            self.declare(c, env, self.initial(t, init, env))

    def initial(self, t, init, env):
        if t.kind == 'array':
            if t.of.kind == 'ptr':
                if init is None:
                    raise Unsupported('array of pointers')
                return [self.value(x, env) for x in init.get('inner', [])]
            if t.n is None or t.of.kind not in ('int', 'double'):
                raise Unsupported('array variable')
            vals = [self.convert(self.value(x, env), t.of) for x in init.get('inner', [])] if init is not None else []
            u = (KReal() if t.of.kind == 'double' else KInt()).uf('garbage', 1)

            def get(i, vals=vals):
                r = (0 if init is not None else u(i))
                for j, v in enumerate(vals):
                    r = ite(simp_eq(i, j), v, r) if not isinstance(simp_eq(i, j), bool) else (v if simp_eq(i, j) else r)
                return r
            return Mem(self.V.mkarr((t.n,), get, 'float' if t.of.kind == 'double' else 'int'), t.of, 'local array')
        if t.kind == 'struct':
            raise Unsupported('struct variable')
        if init is None:
            return UNBOUND
        return self.convert(self.value(init, env), t)

    def s_NullStmt(self, n, env):
        pass

    def s_IfStmt(self, n, env):
        inner = n['inner']
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with declaration')
        if self.V.decide(self.cond(inner[0], env)):
            self.stmt(inner[1], env)
        elif n.get('hasElse'):
            self.stmt(inner[2], env)

    def s_ReturnStmt(self, n, env):
        raise ReturnEx(self.value(n['inner'][0], env) if n.get('inner') else None)

    def s_BreakStmt(self, n, env):
        raise BreakEx()

    def s_ContinueStmt(self, n, env):
        raise ContinueEx()

    def s_SwitchStmt(self, n, env):
        v = self.value(n['inner'][0], env)
        body = n['inner'][-1]
        if body['kind'] != 'CompoundStmt':
            raise Unsupported('switch body')
        flat = []          # (labels, statement)

        def add(st):
            labels = []
            while st['kind'] in ('CaseStmt', 'DefaultStmt'):
                if st['kind'] == 'CaseStmt':
                    if len(st['inner']) != 2:
                        raise Unsupported('case range')
                    labels.append(self.value(st['inner'][0], env))
                    st = st['inner'][1]
                else:
                    labels.append(None)
                    st = st['inner'][0]
            flat.append((labels, st))
        for st in body.get('inner', []):
            add(st)
        start = None
        for i, (labels, _) in enumerate(flat):
            for l in labels:
                if l is not None and start is None and self.V.decide(simp_eq(v, l)):
                    start = i
        if start is None:
            start = next((i for i, (labels, _) in enumerate(flat) if None in labels), None)
            if start is None:
                return
        try:
            for _, st in flat[start:]:
                self.stmt(st, env)
        except BreakEx:
            pass

    def loop(self, n, env, cond, body, inc, first=False):
        V = self.V
        key = '%s#%d' % (env.func.qual, env.loops.index(n['id']))
        spec = V.loops.get(key)
        if spec is not None and not spec.unroll and not first:
            V.unit.loops.add(key)

            def go(L):
                try:
                    self.stmt(body, env)
                except ContinueEx:
                    pass
                if inc:
                    self.value(inc, env)
            V.cut_loop(FakeLoop(n), env, LoopWrap(self, spec, inc, env, cond, body), key, None, lambda L: V.decide(self.cond(cond, env)) if cond else True, go)
            return
        k = 0
        while True:
            if cond and not (first and k == 0):
                c = self.cond(cond, env)
                if const_bool(c) is None and k >= 12:
                    raise Unsupported('loop without invariant: %s' % key)
                if not V.decide(c):
                    return
            k += 1
            if k > V.MAX_UNROLL:
                raise Unsupported('loop without invariant: %s' % key)
            try:
                self.stmt(body, env)
            except ContinueEx:
                pass
            except BreakEx:
                return
            if inc:
                self.value(inc, env)

    def s_ForStmt(self, n, env):
        init, var, cond, inc, body = n['inner']
        if var:
            raise Unsupported('declaration in a for condition')
        self.stmt(init, env)
        self.loop(n, env, cond if 'kind' in cond else None, body, inc if 'kind' in inc else None)

    def s_WhileStmt(self, n, env):
        if len(n['inner']) != 2:
            raise Unsupported('declaration in a while condition')
        self.loop(n, env, n['inner'][0], n['inner'][1], None)

    def s_DoStmt(self, n, env):
        self.loop(n, env, n['inner'][1], n['inner'][0], None, True)

    # ---- expressions
    def cond(self, n, env):
        return self.bool(self.value(n, env))

    def bool(self, v):
        if v is UNBOUND:
            self.check('no value is read before it is set', False)
        if v is None:
            return False
        if is_bool(v):
            return v
        if is_num(v):
            c = const_num_(v)
            return c != 0 if c is not None else Z(v) != 0
        return True

    def value(self, n, env):
        m = getattr(self, 'e_' + n['kind'], None)
        if m is None:
            raise Unsupported('C expression %s' % n['kind'])
        return m(n, env)

    def e_ParenExpr(self, n, env):
        return self.value(n['inner'][0], env)

    def e_ConstantExpr(self, n, env):
        return self.value(n['inner'][0], env)

    def e_IntegerLiteral(self, n, env):
        return int(n['value'])

    def e_CharacterLiteral(self, n, env):
        return int(n['value'])

    def e_FloatingLiteral(self, n, env):
        if 'double' not in n['type']['qualType']:
            raise Unsupported('floating literal')
        return Fraction(repr(float(n['value'])))

    def e_StringLiteral(self, n, env):
        return TextPtr(ast.literal_eval(n['value']))

    def e_ImplicitValueInitExpr(self, n, env):
        return self.zero(self.file.of(n))

    def e_InitListExpr(self, n, env):
        if len(n.get('inner', ())) == 1:
            return self.value(n['inner'][0], env)
        raise Unsupported('initialiser list')

    def e_UnaryExprOrTypeTraitExpr(self, n, env):
        if n['name'] != 'sizeof':
            raise Unsupported(n['name'])
        t = self.file.type(n['argType']['qualType']) if 'argType' in n else self.file.of(n['inner'][0])
        return self.file.sizeof(t)

    def e_DeclRefExpr(self, n, env):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return self.file.enums[d['id']]
        if d['kind'] == 'FunctionDecl':
            return FuncPtr(d['name'])
        raise Unsupported('reference to %s' % d.get('name'))

    def e_CallExpr(self, n, env):
        f = self.value(n['inner'][0], env)
        args = [self.value(a, env) for a in n['inner'][1:]]
        for a in args:
            if a is UNBOUND:
                self.check('no value is read before it is set', False)
        if isinstance(f, FuncPtr):
            return self.call(f.name, *args)
        if callable(f):
            return f(self, *args)
        if f is None:
            self.check('no call of a null function', False)
        raise Unsupported('call of %r' % (f,))

    def e_ConditionalOperator(self, n, env):
        a, b, c = n['inner']
        k = self.cond(a, env)
        if const_bool(k) is not None:
            return self.value(b if const_bool(k) else c, env)
        if pure(b) and pure(c) and self.file.of(n).kind in ('int', 'double', 'bool'):
            # both sides may carry obligations of their own: those hold under the condition only
            if simple(b) and simple(c):
                return ite(k, self.num(self.value(b, env)), self.num(self.value(c, env)))
        return self.value(b if self.V.decide(k) else c, env)

    def num(self, v):
        return v

    def e_BinaryOperator(self, n, env):
        op = n['opcode']
        a, b = n['inner']
        if op == ',':
            self.value(a, env)
            return self.value(b, env)
        if op == '=':
            loc = self.lvalue(a, env)
            v = self.value(b, env)
            self.store(loc, v)
            return v
        if op in ('&&', '||'):
            x = self.cond(a, env)
            if const_bool(x) is not None:
                if const_bool(x) == (op == '||'):
                    return op == '||'
                return self.cond(b, env)
            if pure(b) and simple(b):
                y = self.cond(b, env)
                return And(x, y) if op == '&&' else Or(x, y)
            if self.V.decide(x):
                return self.cond(b, env) if op == '&&' else True
            return self.cond(b, env) if op == '||' else False
        x = self.value(a, env)
        y = self.value(b, env)
        return self.binary(op, x, y, self.file.of(n), self.file.of(a), self.file.of(b))

    def binary(self, op, x, y, t, ta, tb):
        for v in (x, y):
            if v is UNBOUND:
                self.check('no value is read before it is set', False)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if is_num(x) and is_num(y):
                if is_bool(x):
                    x = to_int(x)
                if is_bool(y):
                    y = to_int(y)
                c, d = const_num_(x), const_num_(y)
                if c is not None and d is not None:
                    return dict([('==', c == d), ('!=', c != d), ('<', c < d), ('<=', c <= d), ('>', c > d), ('>=', c >= d)])[op]
                if is_real(x) or is_real(y):
                    x, y = to_real(x), to_real(y)
                x, y = Z(x), Z(y)
                return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y}[op]()
            if isinstance(x, Elem) and isinstance(y, Elem) and x.mem is y.mem:
                return self.binary(op, x.off, y.off, t, Type('int', (64, True)), Type('int', (64, True)))
            if op in ('==', '!='):
                same = x is y or (isinstance(x, Const) and isinstance(y, Const) and x.name == y.name)
                return same if op == '==' else not same
            raise Unsupported('comparison of pointers')
        if isinstance(x, Mem):
            x = Elem(x, 0)
        if isinstance(y, Mem):
            y = Elem(y, 0)
        if isinstance(x, Elem) and is_num(y) and op in '+-':
            return Elem(x.mem, arith(self.V, 'add' if op == '+' else 'sub', x.off, to_int(y)))
        if isinstance(y, Elem) and is_num(x) and op == '+':
            return Elem(y.mem, arith(self.V, 'add', y.off, to_int(x)))
        if isinstance(x, Elem) and isinstance(y, Elem) and op == '-' and x.mem is y.mem:
            return arith(self.V, 'sub', x.off, y.off)
        if not is_num(x) or not is_num(y):
            raise Unsupported('pointer arithmetic')
        if is_bool(x):
            x = to_int(x)
        if is_bool(y):
            y = to_int(y)
        V = self.V
        if t.kind == 'double':
            x, y = to_real(x), to_real(y)
            if op == '/':
                self.check('no division by zero', y != 0)
                return arith(V, 'truediv', x, y)
            if op in '+-*':
                return arith(V, {'+': 'add', '-': 'sub', '*': 'mul'}[op], x, y)
            raise Unsupported('operator %s on doubles' % op)
        if t.kind not in ('int', 'bool'):
            raise Unsupported('operator %s' % op)
        if op in '+-*':
            return self.wrap(arith(V, {'+': 'add', '-': 'sub', '*': 'mul'}[op], x, y), t)
        if op in '/%':
            self.check('no division by zero', neq0(y))
            neg = t.of[1] and (self.may(Z(x) < 0) or self.may(Z(y) < 0))
            if neg:
                ax, ay = z3.If(Z(x) < 0, -Z(x), Z(x)), z3.If(Z(y) < 0, -Z(y), Z(y))
                q = arith(V, 'floordiv', ax, ay)
                q = z3.If((Z(x) < 0) != (Z(y) < 0), -q, q)
                if op == '/':
                    return self.wrap(q, t)
                return Z(x) - q * Z(y)
            return arith(V, 'floordiv' if op == '/' else 'mod', x, y)
        c, d = const_int(x), const_int(y)
        if c is not None and d is not None and c >= 0 and d >= 0:
            return self.wrap({'&': lambda: c & d, '|': lambda: c | d, '^': lambda: c ^ d, '<<': lambda: c << d, '>>': lambda: c >> d}[op](), t)
        if op == '<<' and d is not None and 0 <= d < t.of[0]:
            return self.wrap(arith(V, 'mul', x, 2 ** d), t)
        if op == '>>' and d is not None and 0 <= d < t.of[0] and not self.may(Z(x) < 0):
            return arith(V, 'floordiv', x, 2 ** d)
        if op == '&' and d is not None and d >= 0 and d & (d + 1) == 0 and not self.may(Z(x) < 0):
            return arith(V, 'mod', x, d + 1)
        raise Unsupported('operator %s' % op)

    def may(self, f):
        f = simp_(f)
        if isinstance(f, bool):
            return f
        return self.V.feasible(f)

    def wrap(self, v, t):
        """Result of integer arithmetic in type t."""
        lo, hi = bounds(t)
        c = const_int(v)
        if c is not None:
            if lo <= c <= hi:
                return c
            if t.of[1]:
                self.check('no signed overflow', False)
            return c % (hi + 1)
        inside = z3.And(Z(v) >= lo, Z(v) <= hi)
        if t.of[1]:
            self.check('no signed overflow', inside)
            return v
        if not self.V.feasible(z3.Not(inside)):
            return v
        return Z(v) % (hi + 1)

    def convert(self, v, t):
        """Implicit conversion of a value when it is stored in type t."""
        if v is UNBOUND:
            self.check('no value is read before it is set', False)
        if t.kind == 'double':
            return to_real_(v) if is_num(v) else self.bad(v, t)
        if t.kind == 'bool':
            return self.bool(v)
        if t.kind == 'int':
            if not is_num(v):
                return self.bad(v, t)
            if is_bool(v):
                v = to_int(v)
            if is_real(v):
                raise Unsupported('implicit conversion of a double')
            return self.intcast(v, t)
        if t.kind == 'ptr':
            if isinstance(v, Mem):
                return Elem(v, 0)
            if isinstance(v, Raw) and t.of.kind != 'void':
                return self.typed(v, t.of)
            if is_num(v):
                return self.bad(v, t)
        return v

    def bad(self, v, t):
        raise Unsupported('conversion of %r to %r' % (v, t))

    def intcast(self, v, t):
        lo, hi = bounds(t)
        c = const_int(v)
        if c is not None:
            if lo <= c <= hi:
                return c
            c = c % 2 ** t.of[0]
            return c - 2 ** t.of[0] if t.of[1] and c >= 2 ** (t.of[0] - 1) else c
        inside = z3.And(Z(v) >= lo, Z(v) <= hi)
        if not self.V.feasible(z3.Not(inside)):
            return v
        m = 2 ** t.of[0]
        if not t.of[1]:
            return Z(v) % m
        return (Z(v) + m // 2) % m - m // 2

    def e_CompoundAssignOperator(self, n, env):
        a, b = n['inner']
        loc = self.lvalue(a, env)
        ct = self.file.type(n['computeResultType']['qualType']) if 'computeResultType' in n else self.file.of(n)
        lt = self.file.type(n['computeLHSType']['qualType']) if 'computeLHSType' in n else ct
        y = self.value(b, env)
        x = self.load(loc)
        if ct.kind == 'double' and is_num(x):
            x = to_real_(x)
        elif lt.kind == 'int' and is_num(x):
            x = self.intcast(to_int(x), lt)
        v = self.binary(n['opcode'][:-1], x, y, ct, lt, self.file.of(b))
        t = self.file.of(a)
        if t.kind == 'int' and is_real(v):
            v = self.truncate(v, t)
        self.store(loc, v)
        return self.load(loc)

    def e_UnaryOperator(self, n, env):
        op, a = n['opcode'], n['inner'][0]
        if op == '&':
            d = a
            while d['kind'] == 'ParenExpr':
                d = d['inner'][0]
            if d['kind'] == 'DeclRefExpr' and d['referencedDecl']['kind'] == 'FunctionDecl':
                return FuncPtr(d['referencedDecl']['name'])
            return self.address(self.lvalue(a, env))
        if op == '*':
            return self.load(self.lvalue(n, env))
        if op in ('++', '--'):
            loc = self.lvalue(a, env)
            old = self.load(loc)
            t = self.file.of(a)
            new = self.binary('+' if op == '++' else '-', old, 1, t if t.kind in ('int', 'double') else t, t, t)
            self.store(loc, new)
            return old if n.get('isPostfix') else new
        v = self.value(a, env)
        if op == '!':
            return Not(self.bool(v))
        if op == '-':
            if self.file.of(n).kind == 'double':
                return -to_real_(v) if not is_z3(v) else -v
            return self.wrap(arith(self.V, 'sub', 0, to_int(v)), self.file.of(n))
        if op == '+':
            return v
        raise Unsupported('operator %s' % op)

    def e_ImplicitCastExpr(self, n, env):
        k, a = n['castKind'], n['inner'][0]
        if k == 'LValueToRValue':
            return self.load(self.lvalue(a, env))
        if k == 'FunctionToPointerDecay' or k == 'BuiltinFnToFnPtr':
            return self.value(a, env)
        if k == 'ArrayToPointerDecay':
            if a['kind'] == 'StringLiteral':
                return self.value(a, env)
            v = self.load(self.lvalue(a, env))
            return Elem(v, 0) if isinstance(v, Mem) else v
        if k in ('NullToPointer',):
            return None
        v = self.value(a, env)
        if k in ('NoOp',):
            return v
        if v is UNBOUND:
            self.check('no value is read before it is set', False)
        if k == 'BitCast':
            t = self.file.of(n)
            if isinstance(v, Raw) and t.of is not None and t.of.kind != 'void':
                return self.typed(v, t.of)
            return v
        if k == 'ToVoid':
            return None
        if k == 'IntegralCast':
            t = self.file.of(n)
            if t.kind == 'bool':
                return self.bool(v)
            return self.intcast(to_int(v), t)
        if k == 'IntegralToFloating':
            return to_real_(to_int(v) if is_bool(v) else v)
        if k in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.bool(v)
        if k == 'FloatingToIntegral':
            return self.truncate(v, self.file.of(n))
        raise Unsupported('cast %s' % k)

    e_CStyleCastExpr = e_ImplicitCastExpr

    def truncate(self, v, t):
        c = const_num_(v)
        if c is not None:
            return self.wrap(int(c), t)
        r = z3.If(Z(v) >= 0, z3.ToInt(Z(v)), -z3.ToInt(-Z(v)))
        lo, hi = bounds(t)
        self.check('no overflow in a conversion to an integer', z3.And(r >= lo, r <= hi))
        return r

    def lvexpr(self, n, env):
        return self.load(self.lvalue(n, env))

    e_MemberExpr = e_ArraySubscriptExpr = lvexpr

    # ---- memory
    def lvalue(self, n, env):
        k = n['kind']
        if k == 'ParenExpr':
            return self.lvalue(n['inner'][0], env)
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            key = env.ids.get(d['id'])
            if key is not None:
                return VarPtr(env, key, env.types[key])
            if d['kind'] == 'VarDecl':
                g = self.file.vars.get(d['name'])
                if g is None:
                    raise Unsupported('variable %s' % d['name'])
                return ('global', d['name'], g)
            raise Unsupported('reference to %s' % d['name'])
        if k == 'MemberExpr':
            base = n['inner'][0]
            if n.get('isArrow'):
                o = self.value(base, env)
            else:
                b = self.lvalue(base, env)
                o = self.load(b) if not isinstance(b, tuple) else b
            if isinstance(o, FieldPtr):
                o = self.load(o)
            if o is None:
                self.check('no null pointer is dereferenced', False)
            if isinstance(o, tuple):
                raise Unsupported('global struct')
            if isinstance(o, TypeObj):
                return ('type', o, n['name'])
            if not isinstance(o, Obj):
                raise Unsupported('member of %r' % (o,))
            if o.freed:
                self.check('no use after release', False)
            if n['name'] not in o.fields:
                raise Unsupported('field %s' % n['name'])
            want = self.file.of(base)
            want = want.of if want.kind == 'ptr' else want
            if want.kind != 'struct' or want.name != o.record:
                raise Unsupported('%s used as %r' % (o.record, want))
            return FieldPtr(o, n['name'])
        if k == 'ArraySubscriptExpr':
            a, b = [self.value(x, env) for x in n['inner']]
            if isinstance(a, Mem):
                a = Elem(a, 0)
            if isinstance(a, Elem):
                return self.binary('+', a, b, Type('ptr'), None, None)
            if isinstance(a, list):
                return ('list', a, b)
            if a is None:
                self.check('no null pointer is dereferenced', False)
            raise Unsupported('subscript of %r' % (a,))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.value(n['inner'][0], env)
            if p is None:
                self.check('no null pointer is dereferenced', False)
            if isinstance(p, Mem):
                return Elem(p, 0)
            return p
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n['castKind'] in ('NoOp', 'BitCast'):
            return self.lvalue(n['inner'][0], env)
        raise Unsupported('C lvalue %s' % k)

    def address(self, loc):
        if isinstance(loc, tuple):
            if loc[0] == 'global':
                return Const(loc[1])
            raise Unsupported('address')
        if isinstance(loc, FieldPtr) and isinstance(loc.obj.fields[loc.name], Mem):
            return Elem(loc.obj.fields[loc.name], 0)
        return loc

    def typed(self, raw, t):
        """The block from the allocator as an object of type t."""
        V = self.V
        if raw.typed is not None:
            return raw.typed
        f = self.file
        if t.kind == 'double':
            n = arith(V, 'floordiv', raw.size, 8)
            raw.typed = Elem(self.doubles(n, (lambda i: z3.RealVal(0)) if raw.zero else None), 0)
            return raw.typed
        if t.kind != 'struct' or t.name not in f.records:
            raise Unsupported('allocation of %r' % t)
        size = f.sizeof(t)
        self.check('the allocated block is large enough', Z(raw.size) >= size)
        vals = {}
        for nm, q, q2 in f.records[t.name]:
            ft = f.type(q2)
            if ft.kind == 'array':
                if ft.n is not None or ft.of.kind != 'double':
                    raise Unsupported('array field')
                n = arith(V, 'floordiv', arith(V, 'sub', raw.size, size), 8)
                vals[nm] = self.doubles(n, (lambda i: z3.RealVal(0)) if raw.zero else None, t.name + '.' + nm)
            elif raw.zero:
                vals[nm] = self.zero(ft)
        o = self.struct(t.name, **vals)
        raw.typed = o
        return o

    def access(self, e):
        m = e.mem
        if m.freed:
            self.check('no use after release', False)
        self.check('access inside the %s' % m.what, z3.And(Z(e.off) >= 0, Z(e.off) < Z(m.arr.shape[0])))
        return m

    def load(self, loc):
        if isinstance(loc, VarPtr):
            return loc.env.vars.get(loc.key, UNBOUND)
        if isinstance(loc, FieldPtr):
            if loc.obj.freed:
                self.check('no use after release', False)
            return loc.obj.fields[loc.name]
        if isinstance(loc, Elem):
            m = self.access(loc)
            return m.arr.at(loc.off)
        if isinstance(loc, Obj):
            return loc
        if isinstance(loc, tuple):
            if loc[0] == 'global':
                return self.global_(loc[1], loc[2])
            if loc[0] == 'type':
                return loc[1].get(loc[2])
            if loc[0] == 'list':
                i = const_int(loc[2])
                self.check('access inside the table', i is not None and 0 <= i < len(loc[1]))
                return loc[1][i]
        raise Unsupported('read of %r' % (loc,))

    def store(self, loc, v):
        V = self.V
        if v is UNBOUND:
            self.check('no value is read before it is set', False)
        if isinstance(loc, VarPtr):
            return self.setvar(loc.env, loc.key, self.convert(v, loc.ctype))
        if isinstance(loc, FieldPtr):
            if loc.obj.freed:
                self.check('no use after release', False)
            t = self.file.field(loc.obj.record, loc.name)
            return V.setfield(loc.obj, loc.name, self.convert(v, t))
        if isinstance(loc, Elem):
            m = self.access(loc)
            if m.readonly:
                self.check('the input array is not written', False)
            v = self.convert(v, m.ctype)
            st = m.arr.storage
            V.wrote(st, None, st.kind)
            old, at = st.get, loc.off
            v = to_real(v) if m.ctype.kind == 'double' else v
            st.get = lambda i: ite_(simp_eq(i, at), lambda: v, lambda: old(i))
            return
        raise Unsupported('write to %r' % (loc,))

    def global_(self, name, node):
        t = node['type']['qualType']
        if name.startswith('PyExc_'):
            return Const(name)
        if name in ('stdout', 'stderr'):
            return Const(name)
        if 'init' in node and t.startswith('const ') or t.endswith('const'):
            init = next((c for c in node.get('inner', ()) if 'kind' in c and not c['kind'].endswith('Attr')), None)
            env = Env(None, None, FakeFunc(self.name))
            env.ids, env.types = {}, {}
            return self.convert(self.value(init, env), self.file.of(node))
        if 'init' not in node and name.startswith('_Py_'):
            return Const(name)
        raise Unsupported('variable %s outside of functions' % name)


LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')
CONDITIONAL = ('IfStmt', 'ConditionalOperator', 'SwitchStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'BinaryConditionalOperator')


def stepped(cond, body, inc):
    """Variables (declaration ids) that every round of a loop changes exactly once by a constant, with that constant."""
    def changes(n, sure):
        k = n.get('kind')
        if k in CONDITIONAL or k == 'BinaryOperator' and n.get('opcode') in ('&&', '||'):
            sure = False
        target = None
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            target, step = n['inner'][0], 1 if n['opcode'] == '++' else -1
        elif k == 'CompoundAssignOperator':
            target, step = n['inner'][0], None
            r = n['inner'][1]
            while r['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ConstantExpr'):
                r = r['inner'][0]
            if r['kind'] == 'IntegerLiteral' and n['opcode'] in ('+=', '-='):
                step = int(r['value']) if n['opcode'] == '+=' else -int(r['value'])
        elif k == 'BinaryOperator' and n['opcode'] == '=':
            target, step = n['inner'][0], None
        elif k == 'UnaryOperator' and n['opcode'] == '&':
            target, step = n['inner'][0], None
        if target is not None:
            while target['kind'] == 'ParenExpr':
                target = target['inner'][0]
            if target['kind'] == 'DeclRefExpr':
                found.setdefault(target['referencedDecl']['id'], []).append(step if sure else None)
        for c in n.get('inner', ()):
            changes(c, sure)
    found = {}
    skips = any(c.get('kind') in ('ContinueStmt', 'GotoStmt') for c in walk(body))
    changes(body, not skips)
    if inc:
        changes(inc, True)
    if cond:
        changes(cond, True)
    return {d: v[0] for d, v in found.items() if len(v) == 1 and v[0] is not None}


class LoopWrap:
    """Adds to the invariant that variables changed by a constant in every round hold their first value plus that constant times
    the number of rounds, and passes the counter of the loop to the contract as L.i."""

    def __init__(self, c, spec, inc, env, cond, body):
        self.c, self.spec, self.env = c, spec, env
        self.steps = {env.ids[d]: v for d, v in stepped(cond, body, inc).items() if d in env.ids and is_step(env.vars.get(env.ids[d]))}
        self.start = {key: env.vars[key] for key in self.steps}
        self.hints = dict(spec.hints)
        for key in self.steps:
            old = self.start[key]
            if isinstance(old, Elem):
                self.hints[key] = lambda V, L, old=old: Elem(old.mem, V.int('offset'))
            else:
                self.hints.setdefault(key, lambda V, L, key=key: V.int(key))
        self.incvar = None
        for x in walk(inc or {}):
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] in env.ids:
                self.incvar = env.ids[x['referencedDecl']['id']]
        self.variant, self.on_entry, self.unroll = spec.variant, spec.on_entry, None
        self.after_body, self.ghost = spec.after_body, spec.ghost

    def inv(self, V, L):
        L.i = self.env.vars.get(self.incvar)
        out = []
        for key, step in self.steps.items():
            now, old = self.env.vars[key], self.start[key]
            if isinstance(old, Elem):
                if not isinstance(now, Elem) or now.mem is not old.mem:
                    raise Unsupported('pointer %s in a loop' % key)
                now, old = now.off, old.off
            out.append(('%s moves by %d' % (key, step), Z(now) == Z(old) + step * Z(L.k)))
        return out + self.spec.inv(V, L)


def is_step(v):
    return isinstance(v, Elem) or is_int(v) and not is_bool(v)


class TypeObj:
    """The type object handed to tp_new / found by Py_TYPE."""

    def __init__(self, c, record):
        self.c, self.record = c, record

    def get(self, name):
        if name == 'tp_alloc':
            return tp_alloc(self.record)
        if name == 'tp_free':
            return tp_free
        raise Unsupported('slot %s' % name)


def tp_alloc(record):
    def alloc(c, t, n):
        if c.V.decide(c.V.bool('allocation of the object fails')):
            c.raise_('MemoryError')
            return None
        o = c.struct(record, **{f: c.zero(c.file.type(q2)) for f, q, q2 in c.file.records[record]})
        o.py = PyV('object')
        o.py.owned = 1
        return o
    return alloc


def tp_free(c, o):
    if o.freed:
        c.check('nothing is released twice', False)
    o.freed = True


def bounds(t):
    if t.kind == 'bool':
        return 0, 1
    bits, signed = t.of
    return (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)


def const_num_(v):
    if isinstance(v, (int, Fraction)):
        return v
    if is_z3(v) and z3.is_int_value(v):
        return v.as_long()
    if is_z3(v) and z3.is_rational_value(v):
        return v.as_fraction()
    return None


def simp_(f):
    if isinstance(f, bool):
        return f
    f = z3.simplify(f)
    return True if z3.is_true(f) else False if z3.is_false(f) else f


def simp_eq(a, b):
    return simp_(Z(a) == Z(b)) if not (isinstance(a, int) and isinstance(b, int)) else a == b


def ite_(c, a, b):
    if isinstance(c, bool):
        return a() if c else b()
    return z3.If(c, Z(a()), Z(b()))


def neq0(y):
    c = const_int(y)
    return c != 0 if c is not None else Z(y) != 0


def to_real_(v):
    return v if is_real(v) else (Fraction(v) if isinstance(v, int) and not isinstance(v, bool) else to_real(v))


def pure(n):
    return not any(x.get('kind') in ('CallExpr', 'CompoundAssignOperator') or x.get('kind') == 'BinaryOperator' and x['opcode'] == '='
                   or x.get('kind') == 'UnaryOperator' and x['opcode'] in ('++', '--') for x in walk(n))


def simple(n):
    """Evaluation generates no obligation."""
    return not any(x.get('kind') in ('ArraySubscriptExpr',) or x.get('kind') == 'BinaryOperator' and x['opcode'] in ('/', '%', '+', '-', '*', '<<')
                   and x['type']['qualType'] not in ('double',) or x.get('kind') == 'BinaryOperator' and x['opcode'] == '/'
                   or x.get('kind') == 'UnaryOperator' and x['opcode'] == '*' or x.get('castKind') == 'FloatingToIntegral' for x in walk(n))


# ---- C library and Python API

def malloc(c, size, zero=False):
    if c.V.decide(c.V.bool('malloc fails')):
        return None
    return Raw(size, zero)


def c_free(c, p):
    if p is None:
        return
    if isinstance(p, Raw):
        p = p.typed or p
    if isinstance(p, Elem):
        c.check('only whole blocks are released', simp_eq(p.off, 0))
        p = p.mem
    if getattr(p, 'freed', False):
        c.check('nothing is released twice', False)
    p.freed = True


def nbytes(c, m, count):
    size = 8
    k = arith(c.V, 'floordiv', count, size)
    c.check('whole elements are set', simp_(Z(count) == Z(arith(c.V, 'mul', k, size))))
    return k


def c_memset(c, p, v, count):
    if isinstance(p, Mem):
        p = Elem(p, 0)
    if not isinstance(p, Elem) or const_int(v) != 0 or p.mem.ctype.kind != 'double':
        raise Unsupported('memset')
    k = nbytes(c, p.mem, count)
    m, off = p.mem, p.off
    c.check('memset stays inside the %s' % m.what, Or(Z(k) == 0, z3.And(Z(off) >= 0, Z(off) + Z(k) <= Z(m.arr.shape[0]))))
    if m.freed:
        c.check('no use after release', False)
    if m.readonly:
        c.check('the input array is not written', False)
    st = m.arr.storage
    c.V.wrote(st, None, st.kind)
    old = st.get
    st.get = lambda i: ite_(simp_(z3.And(Z(i) >= Z(off), Z(i) < Z(off) + Z(k))), lambda: z3.RealVal(0), lambda: old(i))
    return p


def c_memcpy(c, d, s, count):
    d, s = [Elem(p, 0) if isinstance(p, Mem) else p for p in (d, s)]
    if not isinstance(d, Elem) or not isinstance(s, Elem) or d.mem.ctype.kind != 'double' or s.mem.ctype.kind != 'double' or d.mem is s.mem:
        raise Unsupported('memcpy')
    k = nbytes(c, d.mem, count)
    for p, w in ((d, 'written'), (s, 'read')):
        c.check('memcpy stays inside the %s (%s)' % (p.mem.what, w), Or(Z(k) == 0, z3.And(Z(p.off) >= 0, Z(p.off) + Z(k) <= Z(p.mem.arr.shape[0]))))
        if p.mem.freed:
            c.check('no use after release', False)
    if d.mem.readonly:
        c.check('the input array is not written', False)
    st = d.mem.arr.storage
    c.V.wrote(st, None, st.kind)
    old, src, off, soff = st.get, s.mem.arr.storage.get, d.off, s.off
    st.get = lambda i: ite_(simp_(z3.And(Z(i) >= Z(off), Z(i) < Z(off) + Z(k))), lambda: src(Z(i) - Z(off) + Z(soff)), lambda: old(i))
    return d


def c_exit(c, *a):
    c.V.unit.assumed.add('the process ends when the C code finds no memory left')
    raise PathEnd()


def c_minmax(big):
    def f(c, a, b):
        a, b = to_real(a), to_real(b)
        return z3.If(a >= b, a, b) if big else z3.If(a <= b, a, b)
    return f


def c_exp(c, x):
    return models.real_fn(c.V, 'exp', x, True)


def c_log(c, x):
    c.check('log of a positive number', to_real(x) > 0)
    return models.real_fn(c.V, 'log', x, True)


def c_fabs(c, x):
    x = to_real(x)
    return z3.If(x >= 0, x, -x)


def set_string(c, exc, text):
    if not isinstance(exc, Const) or not exc.name.startswith('PyExc_'):
        raise Unsupported('exception class')
    c.raise_(exc.name[6:])


def err_format(c, exc, *a):
    set_string(c, exc, None)
    return None


def no_memory(c):
    c.raise_('MemoryError')
    return None


def parse_keywords(c, args, kwargs, fmt, names, *ptrs):
    """PyArg_ParseTupleAndKeywords on the arguments c.given = (positional, keywords)."""
    if not isinstance(fmt, TextPtr) or not isinstance(names, list) or c.given is None:
        raise Unsupported('argument parsing')
    f = fmt.s.split(':')[0].split(';')[0]
    names = [n.s if isinstance(n, TextPtr) else n for n in names]
    if names[-1] is not None:
        c.check('the list of argument names is terminated', False)
    names = names[:-1]
    units = [u for u in f if u not in '|$']
    need = len([u for u in f.split('|')[0] if u != '$'])
    c.check('as many names, formats and variables', len(names) == len(units) == len(ptrs))
    c.V.unit.assumed.add('argument parsing of the Python C API (PyArg_ParseTupleAndKeywords)')
    return fill(c, units, need, names, ptrs)


WIDTH = {'i': ('int', (32, True)), 'I': ('int', (32, False)), 'l': ('int', (64, True)), 'k': ('int', (64, False)), 'n': ('int', (64, True)), 'L': ('int', (64, True)),
         'd': ('double', None), 'p': ('int', (32, True))}


def fill(c, units, need, names, ptrs):
    pos, kw = c.given
    vals = dict(zip(names, pos))
    if len(pos) > len(names) or any(k not in names or k in vals for k in kw):
        c.raise_('TypeError')
        return 0
    vals.update(kw)
    done = 0
    for i, (u, nm, p) in enumerate(zip(units, names, ptrs)):
        if u not in WIDTH and u != 'O':
            raise Unsupported('argument format %s' % u)
        if u != 'O':
            t = pointee(c, p)
            k, of = WIDTH[u]
            c.check('format unit %s fits the variable for %s' % (u, nm), t.kind == k and (of is None or t.of[0] == of[0]))
        if nm not in vals:
            if i < need:
                c.raise_('TypeError')
                return 0
            continue
        v = vals[nm]
        if v is BAD or (u == 'i' and is_int(v) and const_int(v) is None and not c.V.decide(z3.And(v >= -2 ** 31, v < 2 ** 31))):
            c.raise_('TypeError' if v is BAD else 'OverflowError')
            return 0
        if u == 'p':
            v = to_int(c.bool(v))
        if u in 'iIlknL' and not is_int(v):
            c.raise_('TypeError')
            return 0
        c.store(p, v)
    return 1


BAD = object()


def pointee(c, p):
    if isinstance(p, VarPtr):
        return p.ctype
    if isinstance(p, FieldPtr):
        return c.file.field(p.obj.record, p.name)
    if isinstance(p, Elem):
        return p.mem.ctype
    raise Unsupported('variable of an argument')


def parse_one(c, arg, fmt, *ptrs):
    if not isinstance(fmt, TextPtr) or fmt.s != 'O' or len(ptrs) != 1:
        raise Unsupported('argument parsing')
    c.store(ptrs[0], arg)
    return 1


def ref(o):
    return o.py if isinstance(o, Obj) and hasattr(o, 'py') else o


def incref(c, o):
    o = ref(o)
    if isinstance(o, Const):
        return
    if o is None:
        c.check('no null pointer is dereferenced', False)
    if c.V.frames:
        raise Unsupported('reference counting in a loop')
    o.owned += 1


def decref(c, o):
    if isinstance(o, Const):
        return
    if o is None:
        c.check('no null pointer is dereferenced', False)
    o = ref(o)
    if c.V.frames:
        raise Unsupported('reference counting in a loop')
    c.check('only own references are released', o.owned > 0)
    o.owned -= 1
    if o.owned == 0 and not o.borrowed and getattr(o, 'mem', None) is not None:
        o.mem.freed = True


def xdecref(c, o):
    if o is not None:
        decref(c, o)


def from_any(c, o, typ, flags=0, *more):
    """The object as an array of doubles: itself if it is one that satisfies the flags, else a new one; or an error."""
    V = c.V
    if o is None:
        c.check('no null pointer is dereferenced', False)
    if not isinstance(o, PyV):
        raise Unsupported('conversion to an array')
    if const_int(typ) != 12:
        raise Unsupported('element type')
    flags = const_int(flags)
    if flags is None or flags & ~0x733:
        raise Unsupported('array flags')
    if V.decide(V.bool('the argument is no array of numbers')):
        c.raise_('ValueError')
        return None
    if V.decide(V.bool('the argument has another number of dimensions')):
        a = PyV('array')
        a.nd = V.int('dimensions')
        V.assume(z3.And(a.nd >= 0, a.nd != 1, a.nd <= 32))
        a.n, a.mem = None, None
        a.dims = Mem(V.mkarr((a.nd,), KInt().uf('dim', 1), 'int'), Type('int', (64, True)), 'dimensions')
        c.py.append(a)
        return a
    contiguous = flags & 1 or flags & 2
    same = not flags & 0x20 and V.decide(V.bool('the argument is such an array already'))
    if same:
        o.owned += 1
        a = o
    else:
        a = PyV('array')
        c.py.append(a)
    a.nd, a.n, a.get = 1, o.n, o.get
    lay = 'the contiguous argument' if contiguous else 'the argument'
    if contiguous or V.decide(V.bool('the argument is contiguous')):
        a.mem = c.doubles(o.n, o.get, 'input array')
    else:
        a.mem = c.doubles(o.n, KReal().uf('between the elements', 1), 'input array')
    a.mem.readonly = same
    a.dims = Mem(V.mkarr((1,), lambda i, n=o.n: Z(n), 'int'), Type('int', (64, True)), 'dimensions')
    return a


def simple_new(c, nd, dims, typ, *more):
    V = c.V
    if const_int(nd) != 1 or const_int(typ) != 12:
        raise Unsupported('new array')
    if isinstance(dims, VarPtr):
        n = c.load(dims)
    else:
        d = Elem(dims, 0) if isinstance(dims, Mem) else dims
        n = c.load(d)
    if c.may(Z(n) < 0) and V.decide(Z(n) < 0):
        c.raise_('ValueError')
        return None
    if V.decide(V.bool('allocation of the array fails')):
        c.raise_('MemoryError')
        return None
    a = PyV('array')
    c.py.append(a)
    a.nd, a.n = 1, n
    a.mem = c.doubles(n, None, 'output array')
    a.dims = Mem(V.mkarr((1,), lambda i: Z(n), 'int'), Type('int', (64, True)), 'dimensions')
    return a


def zeros(c, nd, dims, typ, fortran):
    a = simple_new(c, nd, dims, typ)
    if a is not None:
        a.mem.arr.storage.get = lambda i: z3.RealVal(0)
    return a


def arr(c, a):
    if a is None:
        c.check('no null pointer is dereferenced', False)
    if not isinstance(a, PyV) or a.what != 'array' or not hasattr(a, 'dims'):
        raise Unsupported('array access')
    return a


def data(c, a):
    a = arr(c, a)
    if a.mem is None:
        raise Unsupported('data of an array with other dimensions')
    return Elem(a.mem, 0)


def as_double(c, o):
    if o is None:
        c.check('no null pointer is dereferenced', False)
    if c.V.decide(c.V.bool('the value is no number')):
        c.conversion_failed = True
        c.raise_('TypeError')
        return -1
    return to_real(o.value)


def as_size(c, o):
    if c.V.decide(c.V.bool('the value is no size')):
        c.raise_('TypeError')
        return 2 ** 64 - 1
    return o.value


def as_long(c, o):
    if c.V.decide(c.V.bool('the value is no integer')):
        c.raise_('TypeError')
        return -1
    return o.value


def is_true(c, o):
    return to_int(c.bool(o.value))


def type_of(c, o):
    if isinstance(o, Obj):
        return TypeObj(c, o.record)
    raise Unsupported('Py_TYPE')


nop = lambda c, *a: 0
API = dict(
    malloc=malloc, PyMem_Malloc=malloc, calloc=lambda c, n, s: malloc(c, c.wrap(arith(c.V, 'mul', n, s), Type('int', (64, False))), True),
    PyMem_Calloc=lambda c, n, s: malloc(c, arith(c.V, 'mul', n, s), True), free=c_free, PyMem_Free=c_free, memset=c_memset, memcpy=c_memcpy, exit=c_exit, abort=c_exit,
    perror=nop, printf=nop, fprintf=nop, puts=nop, fputs=nop, fflush=nop,
    fmin=c_minmax(False), fmax=c_minmax(True), exp=c_exp, log=c_log, log1p=lambda c, x: c_log(c, to_real(x) + 1), expm1=lambda c, x: c_exp(c, x) - 1, fabs=c_fabs,
    PyErr_SetString=set_string, PyErr_Format=err_format, PyErr_NoMemory=no_memory, PyErr_Occurred=lambda c: None if c.error is None else Const('PyExc_' + c.error),
    PyErr_Clear=lambda c: c.raise_(None),
    PyArg_ParseTupleAndKeywords=parse_keywords, PyArg_Parse=parse_one, Py_INCREF=incref, Py_DECREF=decref, Py_XDECREF=xdecref,
    Py_XINCREF=lambda c, o: None if o is None else incref(c, o), Py_TYPE=type_of,
    PyArray_FROM_OT=lambda c, o, t: from_any(c, o, t), PyArray_FROM_OTF=lambda c, o, t, f: from_any(c, o, t, f),
    PyArray_ContiguousFromAny=lambda c, o, t, lo, hi: from_any(c, o, t, 0x101),
    PyArray_SimpleNew=simple_new, PyArray_EMPTY=simple_new, PyArray_ZEROS=zeros, PyArray_Return=lambda c, a: a,
    PyArray_NDIM=lambda c, a: arr(c, a).nd, PyArray_DIMS=lambda c, a: Elem(arr(c, a).dims, 0), PyArray_SHAPE=lambda c, a: Elem(arr(c, a).dims, 0),
    PyArray_DIM=lambda c, a, i: c.load(Elem(arr(c, a).dims, i)), PyArray_DATA=data,
    PyFloat_AsDouble=as_double, PyLong_AsSize_t=as_size, PyLong_AsSsize_t=as_long, PyLong_AsLong=as_long, PyObject_IsTrue=is_true,
    PyFloat_FromDouble=lambda c, v: c.new('float', v), PyLong_FromSsize_t=lambda c, v: c.new('int', v), PyLong_FromSize_t=lambda c, v: c.new('int', v),
    PyLong_FromLong=lambda c, v: c.new('int', v), PyLong_FromUnsignedLong=lambda c, v: c.new('int', v), PyBool_FromLong=lambda c, v: c.new('bool', c.bool(v)),
)


def array_size(c, a):
    a = arr(c, a)
    if a.n is None:
        raise Unsupported('size')
    return a.n


API['PyArray_SIZE'] = array_size

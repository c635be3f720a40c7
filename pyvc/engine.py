"""PyVC: path-exploring symbolic interpreter for the Python source of the repository.

Every function body is executed from the current source (ast) over symbolic values; branches are explored path by
path, loops over symbolic ranges are cut by invariants, callees are replaced by contracts (if one is registered) or
executed from their own source.  Obligations are discharged by z3 (cvc5 as second opinion).
"""
import ast
import os
import time
from fractions import Fraction

import os
import traceback

import z3

from .values import *
from . import values as VAL

REPO = os.environ.get('KLANG_REPO', '/repo')


class PathEnd(Exception):
    """This path is finished (infeasible, or loop body proved)."""


class Restart(Exception):
    """A loop modifies something that was not havocked: run the unit again."""


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class GenStop(Exception):
    """Consumer of an inlined generator stopped early (break / return)."""

    def __init__(self, exc):
        self.exc = exc


class All:
    """Universally quantified formula: for all integers lo_i <= x_i < hi_i: body(x...)."""

    def __init__(self, ranges, body, pat=None, kinds=None):
        if isinstance(ranges, tuple) and len(ranges) == 2 and not isinstance(ranges[0], tuple):
            ranges = [ranges]
        if ranges is None:
            ranges = [None]
        self.ranges, self.body, self.pat, self.kinds = list(ranges), body, pat, kinds

    def empty(self):
        for r in self.ranges:
            if r is not None and r[0] is not None and r[1] is not None:
                lo, hi = const_int(r[0]), const_int(r[1])
                if lo is not None and hi is not None and lo >= hi:
                    return True
        return False


class Env:
    def __init__(self, module, parent=None, func=None, cls=None):
        self.vars, self.parent, self.module, self.func, self.cls = {}, parent, module, func, cls
        self.nonlocals, self.globals = set(), set()
        self.oid = None
        self.on_yield = None
        self.args = ()

    def find(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None


UNBOUND = object()


class LoopSpec:
    """Contract of a loop: inv(V, L) -> list of (label, formula | All); hints: name -> kind or maker for havoc."""

    def __init__(self, inv, hints=None, variant=None, before=None, after_body=None, ghost=None, on_entry=None, unroll=None):
        self.inv, self.hints, self.variant = inv, hints or {}, variant
        self.on_entry, self.after_body, self.ghost = on_entry, after_body, ghost
        self.unroll = unroll


class LoopState:
    def __init__(self, V, env, seq):
        self.V, self.env, self.seq = V, env, seq
        self.k = 0
        self.pre = {}
        self.g = {}

    def __getitem__(self, name):
        e = self.env.find(name)
        if e is None or e.vars.get(name) is UNBOUND:
            raise MissingVar(name)
        return e.vars[name]

    def has(self, name):
        e = self.env.find(name)
        return e is not None and e.vars.get(name) is not UNBOUND

    @property
    def n(self):
        return self.seq.n


class MissingVar(Unsupported):
    pass


class Unit:
    """Result of verifying one unit."""

    def __init__(self, name):
        self.name = name
        self.obligations = {}      # label -> dict(status, instances, time, model, detail)
        self.unsupported = None
        self.paths = 0
        self.live_paths = 0
        self.functions = set()
        self.contracts_used = set()
        self.assumed = set()
        self.loops = set()
        self.solver_time = 0.
        self.time = 0.
        self.backend = {}

    def add(self, label, status, dt, model=None, detail='', backend='z3'):
        o = self.obligations.setdefault(label, dict(status='proved', instances=0, time=0., model=None, detail=''))
        o['instances'] += 1
        o['time'] += dt
        order = ['proved', 'unknown', 'refuted']
        if order.index(status) > order.index(o['status']):
            o['status'], o['model'], o['detail'] = status, model, detail
        self.backend[backend] = self.backend.get(backend, 0) + 1

    def summary(self):
        n = len(self.obligations)
        ok = sum(o['status'] == 'proved' for o in self.obligations.values())
        return n, ok


class Frame:
    def __init__(self, key, mark, havoc):
        self.key, self.mark, self.havoc = key, mark, havoc
        self.pending = None     # writes of the current iteration, if it may leave the loop for good


# ------------------------------------------------------------------------------------------------ interpreter
class V:
    TIMEOUT = int(os.environ.get('PYVC_TIMEOUT_MS', '8000'))
    SCALE = 1       # of all limits when a unit is tried again
    MAX_PATHS = 600
    MAX_UNROLL = 200

    def __init__(self, unit, overlay=None):
        self.unit = unit
        self.contracts = {}
        self.loops = {}
        self.overlay = overlay or {}       # 'module.name' -> value (spec-provided globals)
        self.havoc_db = {}
        self.solved = {}
        self.feas = {}
        self.stack = []
        self.deadline = None
        self.reset([])

    # ---- path management
    def reset(self, prefix):
        self.prefix, self.pos, self.trace, self.alts = prefix, 0, [], []
        self.pc = []
        self.axioms = []
        self.fsolver = z3.Solver()
        self.fsolver.set('timeout', 400)
        self.nonlinear = False
        self.next_oid = 1
        self.frames = []
        self.envs = []
        self.collecting = []
        self.modules = {}
        self.heap = {}
        self.stack = []
        self.depth = 0
        self.class_codes = {}
        self.ghost = {}
        self.cells = {}
        self.lazy = set()
        self.creating = None
        self.pure = 0
        self.no_raise = False
        VAL._counter = VAL.itertools.count()
        self.mod_seen = set()
        self.hooks = {}
        self.local_inputs = []
        self.pi_done = False

    def assume(self, f):
        if isinstance(f, All):
            f = self.quantify(f)
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        if z3.is_true(f):
            return
        self.pc.append(f)
        if not has_quantifier(f):
            self.fadd(f)

    def axiom(self, f):
        """A fact valid by definition (about an uninterpreted symbol introduced by the encoding)."""
        if isinstance(f, bool):
            return
        self.axioms.append(f)
        if not has_quantifier(f):
            self.fadd(f)

    def finish(self):
        """End of the unit's argument on this path, from inside a nested call."""
        if self.unit.live_paths or not self.contradictory():
            self.unit.live_paths += 1
        raise PathEnd()

    def contradictory(self):
        """Do the facts of this path (with their quantifiers) refute themselves?"""
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(*self.pc)
        s.add(*self.axioms)
        return s.check() == z3.unsat

    def fadd(self, f):
        if not is_z3(f):
            f = z3.BoolVal(bool(f))
        g, ch = linearised(f)
        if ch:
            self.nonlinear = True
        self.fsolver.add(g)

    def feasible(self, c):
        c = Z(c)
        g, _ = linearised(c)
        self.fsolver.push()
        self.fsolver.add(g)
        r = self.fsolver.check()
        self.fsolver.pop()
        if r == z3.unsat:
            return False
        if not self.nonlinear and g is c:
            return True
        fs = [f for f in self.pc + self.axioms if not has_quantifier(f)] + [c]
        key = tuple(f.get_id() for f in fs)
        hit = self.feas.get(key)
        if hit is None:
            s = z3.Solver()
            s.set('timeout', 150)
            s.add(*fs)
            hit = self.feas[key] = (fs, s.check() != z3.unsat)
        return hit[1]

    def decide(self, cond):
        c = const_bool(cond)
        if c is not None:
            return c
        if not is_z3(cond) or not z3.is_bool(cond):
            raise Unsupported('branch on %r' % (cond,))
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the unit')
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond)) if t else True
            if t and f:
                choice = True
                self.alts.append(self.trace + [False])
            else:
                choice = t
        self.pos += 1
        self.trace.append(choice)
        self.assume(cond if choice else z3.Not(cond))
        return choice

    def decide_all(self, a):
        """Fork on a universally quantified condition; the negative branch gets a counterexample as fresh constants."""
        if a.empty() or self.decide(z3.Bool(fresh_name('all'))):
            self.assume(a)
            return True
        xs = [k.fresh('cex') for k in a.kinds or [KInt()] * len(a.ranges)]
        for x, r in zip(xs, a.ranges):
            if r is not None:
                self.assume(And(*[c for c in (r[0] is not None and (Z(r[0]) <= Z(x)), r[1] is not None and (Z(x) < Z(r[1]))) if c is not False]))
        f = self.merged(lambda: self.formula(a.body(*xs)))
        if isinstance(f, bool):
            if f:
                raise PathEnd()
            return False
        self.assume(z3.Not(f))
        if not self.feasible(z3.BoolVal(True)):
            raise PathEnd()
        return False

    def merged(self, thunk):
        """Evaluate thunk over all its internal paths and merge the results (must not mutate older state)."""
        saved = (self.prefix, self.pos, self.trace, self.alts)
        npc = len(self.pc)
        results, work = [], [[]]
        fs = self.fsolver
        try:
            while work:
                self.prefix, self.pos, self.trace, self.alts = work.pop(), 0, [], []
                nax = len(self.axioms)
                self.fsolver = z3.Solver()
                self.fsolver.set('timeout', 400)
                for f in self.pc[:npc] + self.axioms:
                    if not has_quantifier(f):
                        self.fadd(f)
                self.pure += 1
                try:
                    v = thunk()
                    results.append((And(*self.pc[npc:]), v))
                except PathEnd:
                    pass
                except PyRaise:
                    if not self.no_raise:
                        raise
                finally:
                    self.pure -= 1
                    del self.pc[npc:]
                work.extend(self.alts)
                if len(results) > 64:
                    raise Unsupported('too many paths in an expression')
        finally:
            self.prefix, self.pos, self.trace, self.alts = saved
            self.fsolver = fs
            for f in self.axioms[-0:] if False else []:
                pass
        if not results:
            raise PathEnd()
        v = results[-1][1]
        for c, w in reversed(results[:-1]):
            v = ite(c, w, v) if not isinstance(c, bool) else (w if c else v)
        return v

    # ---- quantifiers
    def quantify(self, a):
        if a.empty():
            return True
        kinds = a.kinds or [KInt()] * len(a.ranges)
        xs = [k.fresh('q') for k in kinds]
        nax = len(self.axioms)
        rng = []
        for x, r in zip(xs, a.ranges):
            if r is not None:
                lo, hi = r
                if lo is not None:
                    rng.append(Z(lo) <= Z(x))
                if hi is not None:
                    rng.append(Z(x) < Z(hi))
        body = self.merged(lambda: self.formula(a.body(*xs)))
        new_ax = self.axioms[nax:]
        del self.axioms[nax:]
        flat = [t for x in xs for t in flatten(x)]
        keep = []
        for f in new_ax:
            if any(contains(f, t) for t in flat):
                keep.append(f)
            else:
                self.axioms.append(f)
        body = And(body, *keep)
        f = Implies(And(*rng), body)
        if isinstance(f, bool):
            return f
        pats = []
        if a.pat is not None:
            p = a.pat(*xs)
            if not isinstance(p, list):
                p = [p]
            p = [q for q in p if all(self.good_pattern(t) for t in (q if isinstance(q, (list, tuple)) else [q]))]
            pats = [z3.MultiPattern(*q) if isinstance(q, (list, tuple)) and len(q) > 1 else (q[0] if isinstance(q, (list, tuple)) else q) for q in p]
        return z3.ForAll(flat, f, patterns=pats) if pats else z3.ForAll(flat, f)

    @staticmethod
    def good_pattern(t):
        bad = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT}
        todo, uf = [t], False
        while todo:
            x = todo.pop()
            if not z3.is_app(x):
                return False
            if x.decl().kind() in bad:
                return False
            if x.num_args() and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
                uf = True
            todo.extend(x.children())
        return uf

    def formula(self, f):
        if isinstance(f, All):
            return self.quantify(f)
        if isinstance(f, (list, tuple)):
            return And(*[self.formula(x) for x in f])
        if isinstance(f, bool):
            return f
        return f

    def exists(self, lo, hi, body, pat=None):
        x = z3.Int(fresh_name('e'))
        nax = len(self.axioms)
        b = self.merged(lambda: self.formula(body(x)))
        keep = []
        for f in self.axioms[nax:]:
            if contains(f, x):
                keep.append(f)
        self.axioms[nax:] = [f for f in self.axioms[nax:] if not contains(f, x)]
        if keep:
            self.axioms.append(z3.ForAll([x], And(*keep)))
        f = And(Z(lo) <= x if lo is not None else True, x < Z(hi) if hi is not None else True, b)
        if isinstance(f, bool):
            return f
        return z3.Exists([x], f, patterns=[pat(x)]) if pat else z3.Exists([x], f)

    # ---- obligations
    def check(self, label, f, assume_after=True, hints=()):
        if isinstance(f, All):
            if f.empty():
                self.unit.add(label, 'proved', 0., backend='syntactic')
                return
            kinds = f.kinds or [KInt()] * len(f.ranges)
            xs = [k.fresh('sk') for k in kinds]
            n = len(self.pc)
            extra = []
            for x, r in zip(xs, f.ranges):
                if r is not None:
                    lo, hi = r
                    if lo is not None:
                        extra.append(Z(lo) <= Z(x))
                    if hi is not None:
                        extra.append(Z(x) < Z(hi))
            pos = len(self.fsolver.assertions())
            self.fsolver.push()
            for e in extra:
                if not is_bool(e) or is_z3(e):
                    self.pc.append(e)
                    if not has_quantifier(e):
                        self.fadd(e)
            try:
                body = f.body(*xs)
                if isinstance(body, All):
                    self.check(label, body, assume_after=False, hints=hints)
                else:
                    body = self.merged(lambda: self.formula(f.body(*xs)))
                    self._prove(label, body)
            finally:
                self.fsolver.pop()
                del self.pc[n:]
            if assume_after:
                self.assume(f)
            return
        if isinstance(f, (list, tuple)):
            for i, g in enumerate(f):
                self.check('%s.%d' % (label, i), g, assume_after)
            return
        self._prove(label, f)
        if assume_after:
            if f is False:
                raise PathEnd()
            self.assume(f)

    def _prove(self, label, f):
        if f is True or (is_z3(f) and z3.is_true(f)):
            self.unit.add(label, 'proved', 0., backend='syntactic')
            return
        t0 = time.time()
        status, model, backend, detail = self.solve(z3.Not(Z(f)))
        dt = time.time() - t0
        self.unit.solver_time += dt
        self.unit.add(label, {'unsat': 'proved', 'sat': 'refuted'}.get(status, 'unknown'), dt, model, '' if status == 'unsat' else detail or str(f)[:600], backend)

    def solve(self, goal):
        fs = self.pc + self.axioms + [goal]
        # queries repeat: paths share prefixes and units restart when write sets grow
        key = tuple(f.get_id() for f in fs)
        hit = self.solved.get(key)
        if hit is None:
            hit = self.solved[key] = (fs, self.solve_(fs, goal))
        return hit[1]

    def solve_(self, fs, goal):
        abstracted, nonlinear = lin_all(fs)
        if nonlinear:
            # weaker hypotheses first: the goal alone, then the quantifier-free facts
            for part, limit in (([goal], 300 * self.SCALE), ([f for f in fs if not has_quantifier(f)], 1000 * self.SCALE)):
                s = z3.Solver()
                s.set('timeout', limit)
                s.add(*part)
                if s.check() == z3.unsat:
                    return 'unsat', None, 'z3', ''
            s = z3.Solver()
            s.set('timeout', min(2500, self.TIMEOUT) * self.SCALE)
            s.add(*abstracted)
            if s.check() == z3.unsat:
                return 'unsat', None, 'z3', ''
        s = z3.Solver()
        s.set('timeout', self.TIMEOUT * self.SCALE)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None, 'z3', ''
        if r == z3.sat:
            m = s.model()
            return 'sat', self.describe(m), 'z3', str(goal)[:600]
        # second opinions: other tactics / solver
        for opt in ({'smt.arith.solver': 2}, {'smt.mbqi': False, 'smt.case_split': 0}, {'smt.random_seed': 7, 'smt.qi.eager_threshold': 100.}):
            s = z3.Solver()
            s.set('timeout', self.TIMEOUT // 2 * self.SCALE)
            try:
                for k, v in opt.items():
                    s.set(k, v)
            except z3.Z3Exception:
                continue
            s.add(*fs)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None, 'z3', ''
            if r == z3.sat and 'smt.mbqi' not in opt:
                return 'sat', self.describe(s.model()), 'z3', str(goal)[:600]
        r2 = cvc5_check(fs, self.TIMEOUT * self.SCALE)
        if r2 == 'unsat':
            return 'unsat', None, 'cvc5', ''
        return 'unknown', None, 'z3', 'reason: %s; goal: %s' % (s.reason_unknown(), str(goal)[:500])

    def describe(self, m):
        out = {}
        try:
            for d in m.decls():
                if d.arity() == 0:
                    out[d.name()] = str(m[d])[:80]
        except z3.Z3Exception:
            pass
        return dict(sorted(out.items())[:60])

    # ---- mutation tracking
    def alloc(self, obj):
        obj.oid = self.next_oid
        self.next_oid += 1
        return obj

    def wrote(self, obj, key, kind=None):
        """Called before every mutation of obj (key: field name or None)."""
        if self.creating is not None and obj.oid is not None and obj.oid < self.creating:
            raise Unsupported('constructor of a symbolic number of objects changes another object')
        if isinstance(obj, Storage) and obj.frozen:
            raise Unsupported('write to an array in a list of symbolic length')
        if obj.oid in self.lazy:
            raise Unsupported('change of an object of a symbolic number of objects in a loop')
        if not self.frames:
            return
        for fr in self.frames:
            if obj.oid is not None and obj.oid < fr.mark:
                if fr.pending is not None:
                    fr.pending.append(((obj.oid, key), kind))
                else:
                    self.commit(fr, (obj.oid, key), kind)

    def escapes(self, a):
        """Array a becomes part of a list: in a loop it must be new in every round, or never change."""
        if self.frames and not a.readonly and not a.storage.frozen and (a.storage.oid is None or any(a.storage.oid < fr.mark for fr in self.frames)):
            raise Unsupported('an array from outside the loop is put into a list')

    def commit(self, fr, hk, kind):
        cur = self.havoc_db.setdefault(fr.key, {})
        if hk not in cur:
            cur[hk] = kind
            raise Restart()
        if kind is not None:
            cur[hk] = self.local_kind(cur[hk])
            try:
                j = join_kind(cur[hk], kind)
            except Unsupported:
                j = cur[hk]
            if j != cur[hk]:
                cur[hk] = j
                raise Restart()

    def commit_pending(self, fr):
        todo, fr.pending = fr.pending or [], None
        for hk, kind in todo:
            self.commit(fr, hk, kind)

    def mklist(self, items, typ='list', maxlen=None):
        seq = items if isinstance(items, Seq) else Seq.of(items)
        l = SList(seq, typ, maxlen)
        self.alloc(l)
        self.cells[l.oid] = l
        return l

    def setseq(self, l, seq):
        if l.frozen:
            raise Unsupported('modification of a list rebound in a loop')
        self.wrote(l, None, seq.kind)
        l.seq = seq

    def mkset(self, items=None, mem=None, kind=None):
        s = SSet(items, mem, kind)
        self.alloc(s)
        self.cells[s.oid] = s
        return s

    def mkdict(self, items=None, default=None):
        d = SDict(items, default)
        self.alloc(d)
        self.cells[d.oid] = d
        return d

    def mkobj(self, cls, **fields):
        if isinstance(cls, str):
            cls = self.lookup(cls)
        o = Obj(cls, fields)
        self.alloc(o)
        self.cells[o.oid] = o
        return o

    def mkarr(self, shape, get, dtype='float', readonly=False):
        a = Arr.make(shape, get, dtype)
        a.readonly = readonly
        self.track(a)
        return a

    def track(self, a):
        if a.storage.oid is None:
            self.alloc(a.storage)
            self.cells[a.storage.oid] = a.storage
        return a

    def setfield(self, o, name, value):
        if o.oid is not None:
            k = None
            try:
                k = kind_of(value)
            except Unsupported:
                pass
            self.wrote(o, name, k)
        o.fields[name] = value

    def setvar(self, env, name, value):
        if isinstance(value, (Mutable, Arr)) and env.vars.get(name) is value:
            return
        if env.oid is not None and self.frames:
            k = None
            if value is not UNBOUND:
                k = KList(value.seq.kind, value) if isinstance(value, SList) and value.typ == 'list' else kind_of(value)
            self.wrote(env, name, k)
        env.vars[name] = value

    # ---- loading source
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not name.startswith('klang') or not os.path.exists(path):
            m = ModuleV(name)
            self.modules[name] = m
            return m
        with open(path) as f:
            tree = ast.parse(f.read())
        m = ModuleV(name, tree)
        m.is_pkg = path.endswith('__init__.py')
        self.modules[name] = m
        env = Env(m)
        m.env = env
        m.index = {}
        for st in tree.body:
            for nm in bound_names(st):
                m.index.setdefault(nm, []).append(st)
        return m

    def module_attr(self, m, name):
        if isinstance(m, str):
            m = self.module(m)
        full = m.name + '.' + name
        if full in self.overlay and self.overlay[full] is not ABSENT:
            v = self.overlay[full]
            return v(self) if callable(v) and not isinstance(v, (Builtin, ClassV, Func)) else v
        if name in m.cache:
            return m.cache[name]
        if m.tree is None:
            from . import models
            v = models.external(self, m.name, name)
            m.cache[name] = v
            return v
        if name not in m.index:
            if name == '__name__':
                return m.name
            sub = os.path.join(REPO, *m.name.split('.'), name)
            if os.path.exists(sub + '.py') or os.path.isdir(sub):
                return self.module(m.name + '.' + name)
            return None if name == '__doc__' else self._no(m, name)
        frames, self.frames = self.frames, []
        try:
            for st in m.index[name][-1:]:
                self.exec_top(st, m, name)
        finally:
            self.frames = frames
        return m.cache[name]

    def _no(self, m, name):
        raise KeyError(name)

    def exec_top(self, st, m, name):
        env = m.env
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            m.cache[name] = self.define(st, env, m.name)
        elif isinstance(st, ast.ImportFrom):
            for al in st.names:
                if (al.asname or al.name) == name:
                    m.cache[name] = self.import_from(st, al, m)
        elif isinstance(st, ast.Import):
            for al in st.names:
                nm = al.asname or al.name.split('.')[0]
                if nm == name:
                    m.cache[name] = self.module(al.name if al.asname else al.name.split('.')[0])
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            if st.value is None:
                raise Unsupported('declaration without value: ' + name)
            v = self.eval(st.value, env)
            targets = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in targets:
                self.assign_top(t, v, m)
        elif isinstance(st, (ast.Try, ast.If)):
            self.exec_top_compound(st, m, name)
        else:
            raise Unsupported('module level %s for %s' % (type(st).__name__, name))
        if name not in m.cache:
            raise Unsupported('module name %s' % name)

    def exec_top_compound(self, st, m, name):
        if isinstance(st, ast.Try):
            done, failed = self.imports_ok(st.body, m)
            blocks = [done] + ([h.body for h in st.handlers] if failed else [])
        else:
            c = const_bool(self.truth(self.eval(st.test, m.env)))
            blocks = [st.body if c else st.orelse]
        for b in blocks:
            for s in b:
                if name in bound_names(s):
                    return self.exec_top(s, m, name)
        # bound earlier
        for s in reversed(m.index[name][:-1]):
            return self.exec_top(s, m, name)

    def imports_ok(self, body, m):
        """Statements of a try block that run before its first failing import, and whether one fails.

        An import fails iff the unit says so: its name is ABSENT in the overlay."""
        for i, s in enumerate(body):
            if isinstance(s, ast.ImportFrom) and any(self.overlay.get('%s.%s' % (s.module, a.name)) is ABSENT for a in s.names):
                return body[:i], True
        return body, False

    def assign_top(self, t, v, m):
        if isinstance(t, ast.Name):
            m.cache[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x, y in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign_top(x, y, m)
        else:
            raise Unsupported('module level target')

    def import_from(self, st, al, m):
        modname = st.module or ''
        if st.level:
            base = m.name.split('.') if getattr(m, 'is_pkg', False) else m.name.split('.')[:-1]
            modname = '.'.join(base[:len(base) - st.level + 1] + ([modname] if modname else []))
        mod = self.module(modname)
        try:
            return self.module_attr(mod, al.name)
        except KeyError:
            return self.module(modname + '.' + al.name)

    def lookup(self, dotted):
        """'klang.math.lcm', 'klang.graph.find_back_edges', 'klang.connections.Input.value' ..."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            name = '.'.join(parts[:i])
            path = os.path.join(REPO, *parts[:i])
            if os.path.isfile(path + '.py') or os.path.isdir(path):
                v = self.module(name)
                for p in parts[i:]:
                    if isinstance(v, ModuleV):
                        try:
                            v = self.module_attr(v, p)
                        except KeyError:
                            raise Unsupported('no such name in the source: %s' % dotted)
                    elif isinstance(v, ClassV):
                        w, _ = v.lookup(p)
                        if w is None:
                            raise Unsupported('no such name in the source: %s' % dotted)
                        v = w
                return v
        raise Unsupported('no such name in the source: %s' % dotted)

    # ---- definitions
    def define(self, node, env, qualprefix, cls=None):
        if isinstance(node, ast.FunctionDef):
            defaults = [self.eval(d, env) for d in node.args.defaults]
            kwdefaults = {a.arg: self.eval(d, env) for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
            f = Func(node, env.module, qualprefix + '.' + node.name, env, cls, defaults, kwdefaults, is_generator(node))
            v = f
            for dec in reversed(node.decorator_list):
                v = self.decorate(dec, v, env, node)
            return v
        if isinstance(node, ast.ClassDef):
            bases = [self.eval(b, env) for b in node.bases]
            bases = [b if isinstance(b, ClassV) else self._badbase(b) for b in bases] or [self.builtin('object')]
            c = ClassV(node.name, qualprefix + '.' + node.name, bases, node, env.module)
            c.code = 1000 + len(self.class_codes)
            self.class_codes[c.qual] = c
            cenv = Env(env.module, env, cls=c)
            for st in node.body:
                if isinstance(st, ast.FunctionDef):
                    old = cenv.vars.get(st.name)
                    v = self.define(st, cenv_outer(cenv), c.qual, c)
                    if isinstance(v, tuple) and v[0] == 'setter':
                        v = PropertyV(old.fget if isinstance(old, PropertyV) else None, v[1])
                    cenv.vars[st.name] = v
                elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                    if st.value is None:
                        continue
                    v = self.eval(st.value, cenv)
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        if not isinstance(t, ast.Name):
                            raise Unsupported('class level target')
                        cenv.vars[t.id] = v
                elif isinstance(st, (ast.Expr, ast.Pass)):
                    pass
                else:
                    raise Unsupported('class level %s' % type(st).__name__)
            c.attrs = cenv.vars
            for b in c.mro[1:]:
                if 'nt_fields' in b.attrs and 'nt_fields' not in c.attrs:
                    pass
            return c
        raise Unsupported('definition')

    def _badbase(self, b):
        raise Unsupported('base class %r' % (b,))

    def decorate(self, dec, v, env, node):
        d = dec.func if isinstance(dec, ast.Call) else dec
        name = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)
        if name == 'property' or name == 'cached_property':
            return PropertyV(v)
        if name == 'setter':
            return ('setter', v)
        if name == 'classmethod':
            return ClassMethodV(v)
        if name == 'staticmethod':
            return StaticV(v)
        if name in ('lru_cache', 'wraps', 'abstractmethod', 'cache'):
            return v
        if name == 'contextmanager':
            v.is_ctx = True
            return v
        raise Unsupported('decorator %s' % name)

    def builtin(self, name):
        from . import models
        return models.builtin(self, name)

    # ---- names
    def load(self, name, env):
        e = env.find(name)
        if e is not None:
            v = e.vars[name]
            if v is UNBOUND:
                raise Unsupported('variable %s may be unbound (assigned in a loop body)' % name)
            return v
        try:
            return self.module_attr(env.module, name)
        except KeyError:
            pass
        v = self.builtin(name)
        if v is None:
            raise Unsupported('name %s' % name)
        return v

    def store(self, name, value, env):
        if name in env.nonlocals:
            e = env.parent.find(name)
            self.setvar(e, name, value)
        elif name in env.globals:
            self.wrote_global(env.module, name)
            env.module.cache[name] = value
        else:
            self.setvar(env, name, value)

    def wrote_global(self, module, name):
        if self.frames:
            raise Unsupported('global %s assigned in a loop' % name)

    # ---- statements
    def block(self, stmts, env):
        for st in stmts:
            self.stmt(st, env)

    def stmt(self, st, env):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %d)' % (type(st).__name__, st.lineno))
        m(st, env)

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Global(self, st, env):
        env.globals.update(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def s_Import(self, st, env):
        for al in st.names:
            self.store(al.asname or al.name.split('.')[0], self.module(al.name if al.asname else al.name.split('.')[0]), env)

    def s_ImportFrom(self, st, env):
        for al in st.names:
            self.store(al.asname or al.name, self.import_from(st, al, env.module), env)

    def s_FunctionDef(self, st, env):
        q = env.func.qual if env.func else env.module.name
        self.store(st.name, self.define(st, env, q), env)

    def s_ClassDef(self, st, env):
        self.store(st.name, self.define(st, env, env.func.qual if env.func else env.module.name), env)

    def s_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        from . import ops
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load(t.id, env)
            new = ops.augmented(self, st.op, cur, self.eval(st.value, env))
            self.store(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            new = ops.augmented(self, st.op, cur, self.eval(st.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            cur = self.getitem(o, i)
            new = ops.augmented(self, st.op, cur, self.eval(st.value, env))
            self.setitem(o, i, new)
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                s = self.seq_of(v)
                i, m = star[0], len(t.elts)
                n = s.n
                if not self.decide(Z(n) >= m - 1):
                    self.throw('ValueError', 'not enough values to unpack')
                for j in range(i):
                    self.assign(t.elts[j], s[j], env)
                tail = m - 1 - i
                self.assign(t.elts[i].value, self.mklist(s.slice(i, Z(n) - tail if not isinstance(n, int) else n - tail)), env)
                for j in range(tail):
                    idx = (n - tail + j) if isinstance(n, int) else Z(n) - tail + j
                    self.assign(t.elts[i + 1 + j], s[idx], env)
            else:
                for x, y in zip(t.elts, self.unpack(v, len(t.elts))):
                    self.assign(x, y, env)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.throw('ValueError', 'unpack')
            return list(v)
        if isinstance(v, NT):
            if len(v.vals) != n:
                self.throw('ValueError', 'unpack')
            return list(v.vals)
        s = self.seq_of(v)
        c = const_int(s.n)
        if c is None:
            if not self.decide(Z(s.n) == n):
                self.throw('ValueError', 'unpack')
        elif c != n:
            self.throw('ValueError', 'unpack')
        return [s[i] for i in range(n)]

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval_index(t.slice, env))
            elif isinstance(t, ast.Name):
                self.setvar(env, t.id, UNBOUND)
            else:
                raise Unsupported('del')

    def s_If(self, st, env):
        if self.decide(self.truth(self.eval(st.test, env))):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_Assert(self, st, env):
        if not self.decide(self.truth(self.eval(st.test, env))):
            self.throw('AssertionError')

    def s_Raise(self, st, env):
        if st.exc is None:
            if self.handling:
                raise PyRaise(self.handling[-1])
            raise Unsupported('bare raise')
        e = self.eval(st.exc, env)
        if isinstance(e, ClassV):
            e = self.call(e, [], {})
        raise PyRaise(e)

    handling = []

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except PyRaise as p:
                for h in st.handlers:
                    if h.type is None or self.exc_match(p.exc, self.eval(h.type, env)):
                        if h.name:
                            self.store(h.name, p.exc, env)
                        self.handling = self.handling + [p.exc]
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling = self.handling[:-1]
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        except (PathEnd, Restart, Unsupported):
            raise
        except BaseException:
            self.block(st.finalbody, env)
            raise
        else:
            self.block(st.finalbody, env)

    def exc_match(self, exc, cls):
        classes = cls if isinstance(cls, tuple) else (cls,)
        ec = exc.cls
        return any(ec.issub(c) for c in classes)

    def throw(self, name, *args):
        raise PyRaise(ExcV(self.builtin(name), args))

    def s_With(self, st, env):
        if len(st.items) != 1:
            inner = ast.With(items=st.items[1:], body=st.body)
            st = ast.copy_location(ast.With(items=st.items[:1], body=[ast.copy_location(inner, st)]), st)
        item = st.items[0]
        ctx = self.eval(item.context_expr, env)
        if isinstance(ctx, GenV):
            state = {'n': 0}

            def on_yield(v):
                state['n'] += 1
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, env)
                try:
                    self.block(st.body, env)
                except (ReturnEx, BreakEx, ContinueEx) as e:
                    # leaving the body normally: generator continues after its yield
                    state['exc'] = e
            self.run_gen(ctx, on_yield)
            if state['n'] != 1:
                self.check('context manager yields once', state['n'] == 1)
            if 'exc' in state:
                raise state['exc']
            return
        try:
            leave = self.getattr(ctx, '__exit__')
            enter = self.getattr(ctx, '__enter__')
        except PyRaise:
            raise Unsupported('with %r' % (ctx,))
        v = self.call(enter, [], {})
        try:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
            self.block(st.body, env)
        except (PathEnd, Restart, Unsupported):
            raise
        except PyRaise as p:
            if not self.decide(self.truth(self.call(leave, [p.exc.cls, p.exc, Opaque('traceback')], {}))):
                raise
        except BaseException:
            self.call(leave, [None, None, None], {})
            raise
        else:
            self.call(leave, [None, None, None], {})

    def s_While(self, st, env):
        spec, key = self.loop_spec(st, env)
        if spec is None:
            n = 0
            while True:
                cond = self.truth(self.eval(st.test, env))
                c = const_bool(cond)
                if c is None:
                    # follow only decided guards: unroll while the path decides them
                    if n > self.MAX_UNROLL // 4:
                        raise Unsupported('loop without invariant: %s' % (key,))
                    c = self.decide(cond)
                    if c and not self.pc_bounded(n):
                        raise Unsupported('loop without invariant: %s' % (key,))
                if not c:
                    break
                n += 1
                if n > self.MAX_UNROLL:
                    raise Unsupported('loop without invariant: %s' % (key,))
                try:
                    self.block(st.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.block(st.orelse, env)
            return
        self.cut_loop(st, env, spec, key, None,
                      lambda L: self.decide(self.truth(self.eval(st.test, env))),
                      lambda L: self.block(st.body, env))

    def pc_bounded(self, n):
        return n < 12

    def s_For(self, st, env):
        it = self.eval(st.iter, env)
        if isinstance(it, GenV):
            def body(v):
                self.assign(st.target, v, env)
                try:
                    self.block(st.body, env)
                except ContinueEx:
                    pass
                except BreakEx as e:
                    raise GenStop(e)
                except ReturnEx as e:
                    raise GenStop(e)
            try:
                self.run_gen(it, body)
            except GenStop as g:
                if isinstance(g.exc, BreakEx):
                    return
                raise g.exc
            self.block(st.orelse, env)
            return
        seq = self.seq_of(it)
        spec, key = self.loop_spec(st, env)
        c = const_int(seq.n)
        if c is not None and (spec is None or spec.unroll or c == 0):
            if c > 5000:
                raise Unsupported('long loop')
            for i in range(c):
                self.assign(st.target, seq[i], env)
                try:
                    self.block(st.body, env)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            self.block(st.orelse, env)
            return
        if spec is None:
            raise Unsupported('loop without invariant: %s' % (key,))

        def body(L):
            self.assign(st.target, seq[L.k], env)
            self.block(st.body, env)
        self.cut_loop(st, env, spec, key, seq, lambda L: self.decide(Z(L.k) < Z(seq.n)), body)

    def loop_spec(self, st, env):
        fn = env.func
        qual = fn.qual if fn else env.module.name
        loops = getattr(fn, '_loops', None)
        if loops is None:
            loops = [n for n in ast.walk(fn.node) if isinstance(n, (ast.For, ast.While))] if fn else []
            loops.sort(key=lambda n: (n.lineno, n.col_offset))
            nested = [f for f in ast.walk(fn.node) if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f is not fn.node] if fn else []
            loops = [l for l in loops if not any(l in list(ast.walk(f)) for f in nested)]
            if fn:
                fn._loops = loops
        i = loops.index(st) if st in loops else 0
        key = '%s#%d' % (qual, i)
        spec = self.loops.get(key)
        if spec is None:
            spec = self.fallback_spec(st, env, key)
        if spec is not None:
            self.unit.loops.add(key)
        return spec, key

    def fallback_spec(self, st, env, key):
        return None

    def cut_loop(self, st, env, spec, key, seq, guard, body):
        fk = (key, tuple(self.trace))
        L = LoopState(self, env, seq)
        L.pre = snapshot(self, env)
        if spec.on_entry:
            spec.on_entry(self, L)
        for label, f in self.inv(spec, L):
            self.check('%s: invariant "%s" holds initially' % (key, label), f, assume_after=False)
        mark = self.next_oid
        frame = Frame(fk, mark, None)
        self.havoc(fk, spec, L)
        L.k = z3.Int(fresh_name('k'))
        self.assume(L.k >= 0)
        if seq is not None:
            self.assume(L.k <= Z(seq.n))
        deferred = None
        try:
            for label, f in self.inv(spec, L):
                self.assume(f)
        except (PathEnd, Restart):
            raise
        except Exception as e:
            # the write set of the loop may not be known yet: the unit restarts at the first new write in the body
            deferred = e
        self.frames.append(frame)
        try:
            v0 = None
            if guard(L):
                if spec.variant:
                    v0 = spec.variant(self, L)
                if any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for y in getattr(st, 'body', ()) if isinstance(y, ast.AST) for x in ast.walk(y)):
                    frame.pending = []
                try:
                    body(L)
                except ContinueEx:
                    pass
                except (BreakEx, ReturnEx, PyRaise) as e:
                    # what the last iteration did before leaving needs no generalisation
                    if deferred:
                        self.commit_pending(frame)
                        raise deferred
                    if isinstance(e, BreakEx):
                        return
                    raise
                except (PathEnd, Restart):
                    raise
                except Exception:
                    self.commit_pending(frame)
                    raise
                self.commit_pending(frame)
                if deferred:
                    raise deferred
                L.k = L.k + 1
                if spec.after_body:
                    spec.after_body(self, L)
                for label, f in self.inv(spec, L):
                    self.check('%s: invariant "%s" is preserved' % (key, label), f, assume_after=False)
                if spec.variant:
                    v1 = spec.variant(self, L)
                    if not isinstance(v0, tuple):
                        v0, v1 = (v0,), (v1,)
                    less, eq = False, True
                    for a, b in zip(v0, v1):
                        less = Or(less, And(eq, Z(b) < Z(a), Z(a) > 0 if False else Z(a) >= 0))
                        eq = And(eq, Z(a) == Z(b))
                    self.check('%s: variant decreases (termination)' % key, less, assume_after=False)
                raise PathEnd()
        finally:
            self.frames.remove(frame)
        if deferred:
            raise deferred
        if isinstance(st, (ast.For, ast.While)):
            self.block(st.orelse, env)

    def inv(self, spec, L):
        r = spec.inv(self, L)
        return r

    def havoc(self, fk, spec, L):
        for (oid, key), kind in sorted(self.havoc_db.get(fk, {}).items(), key=lambda x: (x[0][0], str(x[0][1]))):
            cell = self.cells[oid]
            kind = self.local_kind(kind)
            if isinstance(cell, Env):
                hint = spec.hints.get(key)
                if hint is not None:
                    v = hint(self, L) if callable(hint) and not isinstance(hint, Kind) else hint.fresh(key)
                elif key not in cell.vars or cell.vars[key] is UNBOUND:
                    v = UNBOUND
                else:
                    old = cell.vars[key]
                    lists = isinstance(old, SList) and old.typ == 'list' and isinstance(kind, KList)
                    k = join_kind_safe(KList(old.seq.kind, old) if lists else kind_of(old), kind)
                    if lists and isinstance(k, KList) and k.obj is not None:
                        v = k.obj
                    elif lists and isinstance(k, KList) and isinstance(k.elem, (KInt, KReal, KBool)) and not any(o == old.oid for o, _ in self.havoc_db.get(fk, {})):
                        # rebound to a new list in every round: an arbitrary list that nobody may modify in place
                        v = self.mklist(Seq.fresh(key, k.elem))
                        self.assume(Z(v.seq.n) >= 0)
                        v.frozen = True
                    elif k is None or isinstance(k, KConst) and not (isinstance(kind, KConst) and kind == kind_of(old)):
                        v = self.bad_havoc(key)
                    else:
                        v = k.fresh(key)
                for fr in self.frames:
                    self.wrote(cell, key, kind)
                cell.vars[key] = v
            elif isinstance(cell, Obj):
                hint = spec.hints.get('.' + key)
                old = cell.fields.get(key, UNBOUND)
                if hint is not None:
                    v = hint(self, L) if callable(hint) and not isinstance(hint, Kind) else hint.fresh(key)
                else:
                    if old is UNBOUND:
                        v = UNBOUND
                    else:
                        k = join_kind_safe(kind_of(old), kind)
                        if k is None or isinstance(k, KConst):
                            v = self.bad_havoc(key)
                        else:
                            v = k.fresh(key)
                self.wrote(cell, key, kind)
                cell.fields[key] = v
            elif isinstance(cell, SList):
                k = kind or cell.seq.kind
                if k is None:
                    v = cell.seq
                    if const_int(cell.seq.n) != 0:
                        raise Unsupported('havoc of a list of unknown kind')
                else:
                    if cell.seq.kind is not None:
                        k = join_kind(k, cell.seq.kind)
                    self.wrote(cell, None, k)
                    cell.seq = Seq.fresh('list', k)
                    self.assume(cell.seq.n >= 0)
            elif isinstance(cell, SSet):
                self.wrote(cell, None, kind)
                self.havoc_set(cell, kind)
            elif isinstance(cell, Storage):
                self.wrote(cell, None, kind)
                n = cell.arity if hasattr(cell, 'arity') else 1
                cell.get = cell.kind.uf('mem', n)
            elif isinstance(cell, HeapField):
                self.wrote(cell, None, kind)
                cell.arr = z3.Const(fresh_name('H.' + cell.name), cell.arr.sort())
            elif isinstance(cell, SDict):
                raise Unsupported('havoc of a dict')
            elif isinstance(cell, GhostCell):
                self.wrote(cell, None, kind)
                cell.havoc(self)
            else:
                raise Unsupported('havoc of %r' % (cell,))

    def local_kind(self, kind):
        """Kinds recorded on an earlier run of the unit refer to that run's classes."""
        if isinstance(kind, KTuple):
            return KTuple(*[self.local_kind(k) for k in kind.kinds])
        if isinstance(kind, KNT) and kind.cls is not None and kind.cls.module is not None:
            return KNT(self.lookup(kind.cls.qual), [self.local_kind(k) for k in kind.kinds])
        if isinstance(kind, KRef) and kind.cls is not None:
            again = lambda c: self.lookup(c.qual) if isinstance(c, ClassV) and c.module is not None else c
            return KRef(tuple(again(c) for c in kind.cls) if isinstance(kind.cls, tuple) else again(kind.cls), kind.maybe_none)
        return kind

    def bad_havoc(self, key):
        raise Unsupported('loop changes %s in an unsupported way' % key)

    def havoc_set(self, s, kind):
        k = kind or s.kind
        if k is None:
            raise Unsupported('havoc of a set of unknown kind')
        s.kind = k
        s.items = None
        flat = len(flatten(k.fresh('x')))
        p = KBool().uf('in', flat) if flat else None
        from .ops import flat_ints
        s.mem = lambda v, p=p: p(*flat_ints(v))

    def s_Break(self, st, env):
        raise BreakEx()

    def s_Continue(self, st, env):
        raise ContinueEx()

    # ---- generators
    def run_gen(self, g, on_yield):
        if g.thunk is not None:
            return g.thunk(on_yield)
        env = g.env
        env.on_yield = on_yield
        self.depth += 1
        try:
            self.block(g.func.node.body, env)
        except ReturnEx:
            pass
        finally:
            self.depth -= 1

    def do_yield(self, v, env):
        e = env
        if e.on_yield is None:
            raise Unsupported('yield outside a consumed generator')
        cb = e.on_yield
        cb(v)
        return None

    # ---- expressions
    def eval(self, node, env):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(node).__name__)
        return m(node, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return Z(Fraction(repr(v)))
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, n, env):
        return self.load(n.id, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Tuple(self, n, env):
        return tuple(self.eval_list(n.elts, env))

    def e_List(self, n, env):
        return self.mklist(self.eval_list(n.elts, env))

    def e_Set(self, n, env):
        s = self.mkset([])
        from .ops import set_add
        for x in self.eval_list(n.elts, env):
            set_add(self, s, x)
        return s

    def e_Dict(self, n, env):
        d = self.mkdict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported('** in dict display')
            self.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def eval_list(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.seq_of(self.eval(x.value, env))
                if not s.concrete:
                    c = const_int(s.n)
                    if c is None:
                        raise Unsupported('* of symbolic length')
                    out.extend(s[i] for i in range(c))
                else:
                    out.extend(s.items)
            else:
                out.append(self.eval(x, env))
        return out

    def e_BinOp(self, n, env):
        from . import ops
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return ops.binop(self, n.op, a, b)

    def e_UnaryOp(self, n, env):
        from . import ops
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            return Not(self.truth(v))
        if isinstance(n.op, ast.USub):
            return ops.neg(self, v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return ops.invert(self, v)
        raise Unsupported('unary')

    def e_BoolOp(self, n, env):
        # short circuit: value semantics
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if is_bool(v) and all(pure_expr(y) for y in n.values[i + 1:]) and const_bool(t) is None:
                rest = ast.BoolOp(op=n.op, values=n.values[i + 1:]) if len(n.values) - i > 2 else n.values[i + 1]
                ast.copy_location(rest, n)
                n0 = len(self.pc)
                try:
                    w = self.eval(rest, env)
                    if is_bool(w) and len(self.pc) == n0:
                        return And(v, w) if isand else Or(v, w)
                except PyRaise:
                    pass
            if self.decide(t) != isand:
                return v
        return v

    def e_Compare(self, n, env):
        from . import ops
        left = self.eval(n.left, env)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env)
            c = ops.compare(self, op, left, right)
            if len(n.ops) == 1:
                return c
            res = And(res, self.truth(c))
            if res is False:
                return False
            left = right
        return res

    def e_IfExp(self, n, env):
        c = self.truth(self.eval(n.test, env))
        k = const_bool(c)
        if k is None:
            if self.decide(c):
                return self.eval(n.body, env)
            return self.eval(n.orelse, env)
        return self.eval(n.body if k else n.orelse, env)

    def e_Lambda(self, n, env):
        fn = ast.FunctionDef(name='<lambda>', args=n.args, body=[ast.Return(value=n.body)], decorator_list=[], lineno=n.lineno, col_offset=0)
        ast.copy_location(fn.body[0], n)
        defaults = [self.eval(d, env) for d in n.args.defaults]
        return Func(fn, env.module, (env.func.qual if env.func else env.module.name) + '.<lambda>', env, None, defaults, {}, False)

    def e_JoinedStr(self, n, env):
        parts = [self.eval(x, env) for x in n.values]
        return Text.make(parts) if all(isinstance(p, (str, Text)) for p in parts) else Opaque('text')

    def e_FormattedValue(self, n, env):
        v = self.eval(n.value, env)
        if n.format_spec is None and n.conversion in (-1, 115) and (isinstance(v, (str, Text)) or (is_num(v) and is_int(v))):
            return models._str_new(self, None, v)
        return Opaque('text')

    def e_Starred(self, n, env):
        raise Unsupported('starred expression')

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        return self.getitem(self.eval(n.value, env), self.eval_index(n.slice, env))

    def eval_index(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in n.elts)
        return self.eval(n, env)

    def e_Call(self, n, env):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            e = env
            while e is not None and e.func is None:
                e = e.parent
            return Super(e.func.cls, e.args[0])
        fn = self.eval(f, env)
        args = []
        if len(n.args) == 1 and isinstance(n.args[0], ast.Starred) and not n.keywords:
            from . import models
            if isinstance(fn, models.ChainV):
                return models.it_flatten(self, self.eval(n.args[0].value, env))
        for x in n.args:
            if isinstance(x, ast.Starred):
                args.extend(self.eval_list([x], env))
            else:
                args.append(self.eval(x, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, SDict):
                    raise Unsupported('** of %r' % (d,))
                for kk, vv in d.items:
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(fn, args, kwargs)

    def e_Yield(self, n, env):
        return self.do_yield(self.eval(n.value, env) if n.value is not None else None, fenv(env))

    def e_YieldFrom(self, n, env):
        v = self.eval(n.value, env)
        if isinstance(v, GenV):
            self.run_gen(v, lambda x: self.do_yield(x, fenv(env)))
            return None
        s = self.seq_of(v)
        c = const_int(s.n)
        if c is None:
            many = getattr(fenv(env).on_yield, 'many', None)
            if many is None:
                raise Unsupported('yield from symbolic sequence')
            many(s)
            return None
        for i in range(c):
            self.do_yield(s[i], fenv(env))

    # comprehensions
    def e_ListComp(self, n, env):
        r = self.comp(n, env)
        return self.mklist(r)

    def e_GeneratorExp(self, n, env):
        return CompV(n, env)

    def e_SetComp(self, n, env):
        from .ops import set_of_seq
        return set_of_seq(self, self.comp(n, env))

    def e_DictComp(self, n, env):
        pair = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        ast.copy_location(pair, n)
        m = ast.ListComp(elt=pair, generators=n.generators)
        s = self.comp(m, env)
        if not s.concrete:
            from .models import dict_comp
            return dict_comp(self, s)
        d = self.mkdict()
        for k, v in s.items:
            self.setitem(d, k, v)
        return d

    def comp(self, n, env, first=None):
        g = n.generators[0]
        it = self.eval(g.iter, env) if first is None else first
        seq = self.seq_of(it)
        rest = n.generators[1:]
        c = const_int(seq.n)
        if c is not None and c <= 5000:
            out = []
            for i in range(c):
                e2 = Env(env.module, env, None)
                self.assign(g.target, seq[i], e2)
                if all(self.decide(self.truth(self.eval(x, e2))) for x in g.ifs):
                    if rest:
                        m = ast.ListComp(elt=n.elt, generators=rest)
                        r = self.comp(m, e2)
                        if not r.concrete:
                            raise Unsupported('nested comprehension')
                        out.extend(r.items)
                    else:
                        out.append(self.eval(n.elt, e2))
            return Seq.of(out)
        if rest:
            raise Unsupported('nested comprehension over symbolic sequence')

        def bind(x):
            e2 = Env(env.module, env, None)
            self.assign(g.target, x, e2)
            return e2

        def quiet(th):
            # exceptions were the business of the probe below
            was, self.no_raise = self.no_raise, self.no_raise or raises[0]
            try:
                return self.merged(th)
            finally:
                self.no_raise = was

        def elt(x):
            return quiet(lambda: self.eval(n.elt, bind(x)))

        def cond(x):
            return quiet(lambda: And(*[self.truth(self.eval(y, bind(x))) for y in g.ifs]))
        raises = [False]
        if not self.pure:
            i0 = z3.Int(fresh_name('probe'))

            def one(whole=True):
                self.assume(And(i0 >= 0, i0 < Z(seq.n)))
                e2 = bind(seq[i0])
                if all(self.decide(self.truth(self.eval(y, e2))) for y in g.ifs):
                    self.eval(n.elt, e2)
            try:
                self.merged(lambda: one())
            except PathEnd:
                pass
            except PyRaise:
                # some element may raise: that path, and the one where none does
                raises[0] = True
                if self.decide(Z(seq.n) > 0):
                    one()
        if not g.ifs:
            probe = elt(seq[z3.Int(fresh_name('probe'))])
            if isinstance(probe, Mutable):
                return self.fresh_objects(n, env, g, seq)
            return Seq(seq.n, lambda i: elt(seq[i]), None, kind_of(probe))
        probe = elt(seq[z3.Int(fresh_name('probe'))])
        return self.filtered(seq, cond, elt, kind_of(probe))

    def fresh_objects(self, n, env, g, seq):
        """A symbolic number of new distinct objects, created when first looked at (by index)."""
        e0 = Env(env.module, env, None)
        e = env
        while e is not None:
            for k, v in e.vars.items():
                e0.vars.setdefault(k, v)
            e = e.parent
        memo = []

        def get(t):
            if self.pure:
                raise Unsupported('element of a symbolic number of objects inside an expression')
            for t0, o in memo:
                if self.decide(simp(Z(t) == Z(t0))):
                    return o
            lo = self.next_oid
            e2 = Env(env.module, e0, None)
            self.assign(g.target, seq[t], e2)
            frames, self.frames = self.frames, []
            was, self.creating = self.creating, lo
            try:
                o = self.eval(n.elt, e2)
            finally:
                self.frames, self.creating = frames, was
            if frames:
                self.lazy.update(range(lo, self.next_oid))
            memo.append((t, o))
            return o
        return Seq(seq.n, get, None, None)

    def filtered(self, seq, cond, elt, kind):
        """Order preserving filter of a symbolic sequence."""
        m = z3.Int(fresh_name('flt.len'))
        pos = z3.Function(fresh_name('flt.pos'), z3.IntSort(), z3.IntSort())
        inv = z3.Function(fresh_name('flt.inv'), z3.IntSort(), z3.IntSort())
        self.assume(And(m >= 0, m <= Z(seq.n)))
        self.assume(All((0, m), lambda j: And(pos(j) >= 0, pos(j) < Z(seq.n), inv(pos(j)) == j, cond(seq[pos(j)])), pat=lambda j: pos(j)))
        self.assume(All([(0, m), (0, m)], lambda a, b: Implies(a < b, pos(a) < pos(b)), pat=lambda a, b: [[pos(a), pos(b)]]))
        self.assume(All((0, seq.n), lambda i: Implies(cond(seq[i]), And(inv(i) >= 0, inv(i) < m, pos(inv(i)) == i)), pat=lambda i: inv(i)))
        r = Seq(m, lambda j: elt(seq[pos(j)]), None, kind)
        r.filter = (pos, inv)
        return r

    # ---- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Obj):
            m, _ = f.cls.lookup('__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kwargs)
        if isinstance(f, (StaticV, ClassMethodV)):
            return self.call(f.func, args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.what)
        if callable(f) and not isinstance(f, type):
            return f(self, *args, **kwargs)
        raise Unsupported('call of %r' % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = Env(f.module, f.closure if f.closure is not None and f.closure.vars is not None else None, f)
        self.alloc(env)
        self.cells[env.oid] = env
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        extra = list(args[len(names):])
        if extra and not a.vararg:
            self.throw('TypeError', 'too many arguments')
        kw = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in vals:
                    self.throw('TypeError', 'multiple values')
                vals[k] = v
            else:
                kw[k] = v
        if kw and not a.kwarg:
            self.throw('TypeError', 'unexpected keyword %s' % sorted(kw))
        for nm, d in zip(names[len(names) - len(f.defaults):], f.defaults):
            vals.setdefault(nm, d)
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in f.kwdefaults:
                    self.throw('TypeError', 'missing argument')
                vals[x.arg] = f.kwdefaults[x.arg]
        for nm in names:
            if nm not in vals:
                self.throw('TypeError', 'missing argument ' + nm)
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        if a.kwarg:
            vals[a.kwarg.arg] = self.mkdict(list(kw.items()))
        env.vars.update(vals)
        env.args = [vals[nm] for nm in names] if names else list(extra)
        return env

    def call_func(self, f, args, kwargs):
        c = self.contracts.get(f.qual)
        if c is not None and not (self.inline_once == f.qual):
            self.unit.contracts_used.add(f.qual)
            self.callee = f
            env = self.bind(f, args, kwargs)
            return c(self, dict(env.vars))
        self.inline_once = None
        env = self.bind(f, args, kwargs)
        self.unit.functions.add(f.qual)
        if f.is_gen:
            return GenV(f, env)
        if self.stack.count(f.qual) > 12:
            raise Unsupported('deep recursion in %s' % f.qual)
        if len(self.stack) > 80:
            raise Unsupported('call depth')
        self.stack.append(f.qual)
        self.envs.append(env)
        try:
            self.block(f.node.body, env)
            return None
        except ReturnEx as r:
            return r.value
        finally:
            self.stack.pop()
            self.envs.pop()

    def caller_var(self, qual, name):
        """Variable of an active call of the named function (for loop invariants of its callees)."""
        for e in reversed(self.envs):
            if e.func is not None and e.func.qual == qual:
                return LoopState(self, e, None)[name]
        raise MissingVar(name)

    inline_once = None

    def run(self, f, args, kwargs=None):
        """Execute the body of the function under verification (recursive calls use its contract)."""
        if isinstance(f, str):
            f = self.lookup(f)
        if isinstance(f, PropertyV):
            f = f.fget
        if isinstance(f, (StaticV, ClassMethodV)):
            f = f.func
        if isinstance(f, Bound):
            args = [f.self_] + list(args)
            f = f.func
        if isinstance(f, Func):
            self.inline_once = f.qual
        r = self.call(f, args, kwargs or {})
        return r

    def outcome(self, f, args, kwargs=None):
        """('ok', value) or ('raise', exception)."""
        try:
            return 'ok', self.run(f, args, kwargs)
        except PyRaise as p:
            return 'raise', p.exc

    def instantiate(self, c, args, kwargs):
        new, owner = c.lookup('__new__')
        if isinstance(new, Builtin):
            v = new.fn(self, c, *args, **kwargs)
        elif new is not None:
            v = self.call(new, [c] + list(args), kwargs)
        else:
            v = self.mkobj(c)
        init, _ = c.lookup('__init__')
        if init is not None and not isinstance(init, Builtin):
            if isinstance(v, (Obj,)) or getattr(v, 'cls', None) is not None and not isinstance(v, NT):
                self.call(init, [v] + list(args), kwargs)
            elif isinstance(v, NT):
                self.call(init, [v] + list(args), kwargs)
        elif isinstance(init, Builtin):
            init.fn(self, v, *args, **kwargs)
        return v

    # ---- attributes
    def getattr(self, o, name):
        from . import models
        if isinstance(o, ModuleV):
            try:
                return self.module_attr(o, name)
            except KeyError:
                raise Unsupported('module attribute %s.%s' % (o.name, name))
        if isinstance(o, Obj):
            a, owner = o.cls.lookup(name)
            if isinstance(a, PropertyV):
                return self.call(a.fget, [o])
            if name in o.fields:
                v = o.fields[name]
                if v is UNBOUND:
                    raise Unsupported('field %s may be unset' % name)
                return v
            if a is not None or owner is not None:
                return self.bind_attr(a, o, o.cls)
            if name == '__class__':
                return o.cls
            m = models.builtin_attr(self, o, name)
            if m is not None:
                return m
            self.throw('AttributeError', name)
        if isinstance(o, Ref):
            return self.ref_getattr(o, name)
        if isinstance(o, ClassV):
            a, owner = o.lookup(name)
            if owner is not None:
                if isinstance(a, ClassMethodV):
                    return Bound(a.func, o)
                if isinstance(a, StaticV):
                    return a.func
                return a
            if name in ('__name__', '__qualname__'):
                return o.name
            return models.class_attr(self, o, name)
        if isinstance(o, TypeOf) and name in ('__name__', '__qualname__'):
            return Opaque('class name')
        if isinstance(o, Super):
            self_ = o.self_
            cls = self_ if isinstance(self_, ClassV) else models.class_of(self, self_)
            mro = cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.attrs:
                    a = c.attrs[name]
                    if name == '__new__':
                        return a
                    return self.bind_attr(a, self_, cls)
            if name == '__init__':
                return Builtin('object.__init__', lambda V, *a, **k: None)
            if name == '__new__':
                return Builtin('object.__new__', lambda V, c, *a, **k: V.mkobj(c))
            raise Unsupported('super().%s' % name)
        if isinstance(o, (NT, FracV)) and o.cls is not None:
            if isinstance(o, NT):
                fields = models.nt_fields(o.cls)
                if name in fields:
                    return o.vals[fields.index(name)]
            a, owner = o.cls.lookup(name)
            if owner is not None:
                if isinstance(a, PropertyV):
                    return self.call(a.fget, [o])
                return self.bind_attr(a, o, o.cls)
        if isinstance(o, (HeapView, Token)):
            return o.attr(self, name)
        if isinstance(o, models.ChainV) and name == 'from_iterable':
            return Builtin('chain.from_iterable', models.it_flatten)
        v = models.builtin_attr(self, o, name)
        if v is None:
            if o is None:
                self.throw('AttributeError', name)
            raise Unsupported('attribute %s of %r' % (name, o))
        return v

    def bind_attr(self, a, o, cls):
        if isinstance(a, PropertyV):
            return self.call(a.fget, [o])
        if isinstance(a, Func):
            return Bound(a, o)
        if isinstance(a, ClassMethodV):
            return Bound(a.func, cls)
        if isinstance(a, StaticV):
            return a.func
        if isinstance(a, Builtin) and getattr(a, 'method', False):
            return Bound(a, o)
        return a

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            a, _ = o.cls.lookup(name)
            if isinstance(a, PropertyV):
                if a.fset is None:
                    self.throw('AttributeError', name)
                self.call(a.fset, [o, v])
                return
            self.setfield(o, name, v)
            return
        if isinstance(o, Ref):
            return self.ref_setattr(o, name, v)
        if isinstance(o, ClassV):
            if self.frames:
                raise Unsupported('class attribute assigned in a loop')
            o.attrs[name] = v
            return
        if isinstance(o, FracV):
            return
        if isinstance(o, (HeapView, Token)) and hasattr(o, 'assign'):
            return o.assign(self, name, v)
        raise Unsupported('attribute assignment on %r' % (o,))

    # ---- symbolic heap
    def heap_field(self, name, kind, init=None):
        hf = HeapField(name, kind)
        self.alloc(hf)
        self.cells[hf.oid] = hf
        self.heap[name] = hf
        return hf

    def ref_class(self, o, allow=None):
        """Resolve the dynamic class of a Ref (forking over the declared possibilities)."""
        classes = o.cls if isinstance(o.cls, (list, tuple)) else None
        if classes is None:
            return o.cls
        t = self.heap['__type__'].get(o.term)
        for c in classes[:-1]:
            if self.decide(t == c.code):
                return c
        self.assume(t == classes[-1].code)
        return classes[-1]

    def ref_getattr(self, o, name):
        if o.maybe_none:
            if self.decide(o.term == NONE):
                self.throw('AttributeError', name)
        if name in self.heap:
            hf = self.heap[name]
            if not self.has_field(hf, o):
                self.throw('AttributeError', name)
            return hf.value(self, o)
        cls = self.ref_class(o)
        if cls is None:
            raise Unsupported('attribute %s of an untyped reference' % name)
        a, owner = cls.lookup(name)
        if isinstance(a, PropertyV):
            return self.call(a.fget, [o])
        if owner is None:
            if any(c.node is not None and any(isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) for n in ast.walk(c.node)) for c in cls.mro):
                raise Unsupported('attribute %s of a reference' % name)
            self.throw('AttributeError', name)
        return self.bind_attr(a, o, cls)

    def ref_setattr(self, o, name, v):
        if o.maybe_none and self.decide(o.term == NONE):
            self.throw('AttributeError', name)
        cls = None
        if name not in self.heap:
            cls = self.ref_class(o)
            a, _ = cls.lookup(name) if cls else (None, None)
            if isinstance(a, PropertyV):
                if a.fset is None:
                    self.throw('AttributeError', name)
                return self.call(a.fset, [o, v])
            raise Unsupported('assignment of %s on a reference' % name)
        hf = self.heap[name]
        if not self.has_field(hf, o):
            raise Unsupported('new attribute %s on a reference' % name)
        self.wrote(hf, None, None)
        hf.set(o.term, v)

    def has_field(self, hf, o):
        """Objects of only some classes may have the field (hf.classes)."""
        if getattr(hf, 'classes', None) is None or o.cls is None:
            return True
        if not isinstance(o.cls, (list, tuple)):
            return o.cls in hf.classes
        if all(c in hf.classes for c in o.cls):
            return True
        return self.decide(Or(*[self.heap['__type__'].get(o.term) == c.code for c in o.cls if c in hf.classes]))

    # ---- items, truth, iteration: see ops
    def getitem(self, o, i):
        from . import ops
        return ops.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import ops
        return ops.setitem(self, o, i, v)

    def delitem(self, o, i):
        from . import ops
        return ops.delitem(self, o, i)

    def truth(self, v):
        from . import ops
        return ops.truth(self, v)

    def seq_of(self, v):
        from . import ops
        return ops.seq_of(self, v)

    def eq(self, a, b):
        from . import ops
        return ops.eq(self, a, b)

    # ---- conveniences for contracts
    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        if lo is not None:
            self.assume(x >= Z(lo))
        if hi is not None:
            self.assume(x <= Z(hi))
        return x

    def bool(self, name):
        return z3.Bool(name)

    def real(self, name, lo=None, hi=None):
        x = z3.Real(name)
        if lo is not None:
            self.assume(x >= to_real(lo))
        if hi is not None:
            self.assume(x <= to_real(hi))
        return x

    def seq(self, name, kind, n=None):
        s = Seq.fresh(name, kind, n)
        if n is None:
            self.assume(s.n >= 0)
        return s

    def list(self, name, kind, n=None, typ='list', maxlen=None):
        return self.mklist(self.seq(name, kind, n), typ, maxlen)

    def farray(self, name, n, dtype='float'):
        k = {'float': KReal(), 'int': KInt(), 'bool': KBool()}[dtype]
        return self.mkarr((n,), k.uf(name), dtype)

    def expect_ok(self, label, f, args, kwargs=None):
        """Call; an exception is a failed obligation."""
        st, v = self.outcome(f, args, kwargs)
        if st == 'raise':
            self.check('%s: no %s is raised' % (label, getattr(getattr(v, 'cls', None), 'name', 'exception')), False)
            raise PathEnd()
        return v


class HeapField(Mutable):
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        I = z3.IntSort()
        if isinstance(kind, str) and kind == 'refset':
            self.arr = z3.Const(fresh_name('H.' + name), z3.ArraySort(I, z3.ArraySort(I, z3.BoolSort())))
        elif isinstance(kind, (KInt, KRef, KText)) and not isinstance(kind, (KReal, KBool, KFrac)):
            self.arr = z3.Const(fresh_name('H.' + name), z3.ArraySort(I, I))
        elif isinstance(kind, KReal):
            self.arr = z3.Const(fresh_name('H.' + name), z3.ArraySort(I, z3.RealSort()))
        elif isinstance(kind, KBool):
            self.arr = z3.Const(fresh_name('H.' + name), z3.ArraySort(I, z3.BoolSort()))
        elif isinstance(kind, z3.SortRef):
            self.arr = z3.Const(fresh_name('H.' + name), z3.ArraySort(I, kind))
        elif isinstance(kind, tuple) and kind[0] == 'view':
            self.arr = z3.Const(fresh_name('H.' + name), z3.ArraySort(I, kind[1]))
        else:
            raise Unsupported('heap field kind')

    def havoc(self, V):
        V.wrote(self, None, None)
        self.arr = z3.Const(fresh_name('H.' + self.name), self.arr.sort())

    def get(self, t):
        return z3.Select(self.arr, t)

    def value(self, V, o):
        x = z3.Select(self.arr, o.term)
        if isinstance(self.kind, KRef):
            return Ref(x, self.kind.cls, self.kind.maybe_none)
        if isinstance(self.kind, KText):
            return AnyText(x)
        if isinstance(self.kind, str) and self.kind == 'refset':
            return HeapSet(self, o)
        if isinstance(self.kind, tuple):
            return self.kind[2](self, o)
        return x

    def set(self, t, v):
        if isinstance(self.kind, KRef):
            v = NONE if v is None else v.term
        elif isinstance(self.kind, str) and self.kind == 'refset':
            if isinstance(v, SSet) and v.items == []:
                v = z3.K(z3.IntSort(), z3.BoolVal(False))
            elif isinstance(v, HeapSet):
                v = v.term
        elif isinstance(self.kind, KReal):
            v = to_real(v)
        self.arr = z3.Store(self.arr, t, Z(v))


class HeapView(Mutable):
    pass


class HeapSet(HeapView):
    """The set stored in field `hf` of reference `o` (a live view)."""

    def __init__(self, hf, o):
        self.hf, self.o = hf, o

    @property
    def term(self):
        return z3.Select(self.hf.arr, self.o.term)

    def mem(self, x):
        return z3.Select(self.term, x)

    def write(self, V, term):
        V.wrote(self.hf, None, None)
        self.hf.arr = z3.Store(self.hf.arr, self.o.term, term)

    def attr(self, V, name):
        if name == 'add':
            return Builtin('add', lambda V, x: self.write(V, z3.Store(self.term, x.term, True)))
        if name == 'discard':
            return Builtin('discard', lambda V, x: self.write(V, z3.Store(self.term, x.term, False)))
        if name == 'remove':
            def remove(V, x):
                if not V.decide(self.mem(x.term)):
                    V.throw('KeyError', x)
                self.write(V, z3.Store(self.term, x.term, False))
            return Builtin('remove', remove)
        if name == 'copy':
            return Builtin('copy', lambda V: HeapSetSnapshot(self.term, self.hf))
        raise Unsupported('set method %s' % name)


class HeapSetSnapshot:
    def __init__(self, term, hf):
        self.term, self.hf = term, hf

    def mem(self, x):
        return z3.Select(self.term, x)


class GhostCell(Mutable):
    """Ghost state of a contract (e.g. an output log); havoc(V) must forget it."""

    def __init__(self, V, value, havoc):
        V.alloc(self)
        V.cells[self.oid] = self
        self.value, self._havoc = value, havoc

    def havoc(self, V):
        self.value = self._havoc(V)

    def set(self, V, v):
        V.wrote(self, None, None)
        self.value = v


class CompV:
    """Unevaluated generator expression."""

    def __init__(self, node, env):
        self.node, self.env = node, env


# ------------------------------------------------------------------------------------------------ helpers
def fenv(env):
    e = env
    while e is not None and e.func is None:
        e = e.parent
    return e


def cenv_outer(cenv):
    """Methods do not see class-level names: closure is the environment around the class."""
    return cenv.parent


def is_generator(node):
    for n in walk_function(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


ABSENT = object()   # overlay value: importing this name fails


def walk_function(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def bound_names(st):
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, ast.Import):
        return [a.asname or a.name.split('.')[0] for a in st.names]
    if isinstance(st, ast.ImportFrom):
        return [a.asname or a.name for a in st.names]
    if isinstance(st, ast.Assign):
        out = []
        for t in st.targets:
            out += [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
        return out
    if isinstance(st, ast.AnnAssign):
        return [st.target.id] if isinstance(st.target, ast.Name) and st.value is not None else []
    if isinstance(st, ast.Try):
        return [x for b in [st.body] + [h.body for h in st.handlers] for s in b for x in bound_names(s)]
    if isinstance(st, ast.If):
        return [x for b in (st.body, st.orelse) for s in b for x in bound_names(s)]
    return []


def pure_expr(n):
    for x in ast.walk(n):
        if isinstance(x, (ast.Call, ast.Yield, ast.NamedExpr, ast.Await, ast.Subscript)):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance', 'abs', 'min', 'max', 'int', 'float'):
                continue
            return False
    return True


def flatten(v):
    """z3 terms making up a value."""
    if is_z3(v):
        return [v]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in flatten(x)]
    if isinstance(v, NT):
        return [t for x in v.vals for t in flatten(x)]
    if isinstance(v, Ref):
        return [v.term]
    if isinstance(v, FracV):
        return [Z(v.num), Z(v.den)]
    if isinstance(v, (int, bool, Fraction)):
        return [Z(v)]
    return []


_q_cache = {}


_hasq = {}


def has_quantifier(f):
    if not is_z3(f):
        return False
    i = f.get_id()
    r = _hasq.get(i)
    if r is None:
        r = _hasq[i] = (f, has_quantifier_(f))
    return r[1]


def has_quantifier_(f):
    todo, seen = [f], set()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


NLI = z3.Function('NLMULI', z3.IntSort(), z3.IntSort(), z3.IntSort())
NLR = z3.Function('NLMULR', z3.RealSort(), z3.RealSort(), z3.RealSort())
NLD = z3.Function('NLDIVR', z3.RealSort(), z3.RealSort(), z3.RealSort())
NLQ = z3.Function('NLDIVI', z3.IntSort(), z3.IntSort(), z3.IntSort())
NLM = z3.Function('NLMODI', z3.IntSort(), z3.IntSort(), z3.IntSort())
_lin = {}


def is_num_const(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def linearised(f):
    """(g, changed): f with products of non-constants replaced by uninterpreted functions (an over-approximation)."""
    i = f.get_id()
    r = _lin.get(i)
    if r is not None:
        return r[1]
    if z3.is_quantifier(f):
        if f.is_lambda():
            out = (f, False)
        else:
            b, ch = linearised(f.body())
            if ch:
                vs = [z3.Const(f.var_name(j), f.var_sort(j)) for j in range(f.num_vars())]
                vs = [z3.FreshConst(v.sort(), 'v') for v in vs]
                sub = lambda t: z3.substitute_vars(t, *reversed(vs))
                pats = []
                for j in range(f.num_patterns()):
                    p = f.pattern(j)
                    cs = [sub(linearised(c)[0]) for c in p.children()]
                    pats.append(z3.MultiPattern(*cs) if len(cs) > 1 else cs[0])
                q = z3.ForAll if f.is_forall() else z3.Exists
                out = (q(vs, sub(b), patterns=pats), True)
            else:
                out = (f, False)
    elif not z3.is_app(f) or not f.num_args():
        out = (f, False)
    else:
        ch, args = False, []
        for c in f.children():
            g, k = linearised(c)
            ch = ch or k
            args.append(g)
        k = f.decl().kind()
        if k == z3.Z3_OP_MUL:
            nc = [a for a in args if not is_num_const(a)]
            if len(nc) > 1:
                # sort factors so that equal products get equal names
                nc.sort(key=lambda a: a.get_id())
                m = NLI if f.sort() == z3.IntSort() else NLR
                t = nc[0]
                for a in nc[1:]:
                    t = m(t, a)
                for a in args:
                    if is_num_const(a):
                        t = a * t
                out = (t, True)
            else:
                out = (f.decl()(*args), True) if ch else (f, False)
        elif k == z3.Z3_OP_DIV and not is_num_const(args[1]):
            out = (NLD(*args), True)
        elif k == z3.Z3_OP_IDIV and not is_num_const(args[1]):
            out = (NLQ(*args), True)
        elif k == z3.Z3_OP_MOD and not is_num_const(args[1]):
            out = (NLM(*args), True)
        elif ch:
            if k == z3.Z3_OP_ADD:
                t = args[0]
                for a in args[1:]:
                    t = t + a
                out = (t, True)
            elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                out = ((z3.And if k == z3.Z3_OP_AND else z3.Or)(*args), True)
            elif k == z3.Z3_OP_DISTINCT:
                out = (z3.Distinct(*args), True)
            else:
                out = (f.decl()(*args), True)
        else:
            out = (f, False)
    _lin[i] = (f, out)
    return out


def lin_all(fs):
    ch, out = False, []
    for f in fs:
        if not is_z3(f):
            out.append(f)
            continue
        g, k = linearised(f)
        ch = ch or k
        out.append(g)
    return out, ch


def contains(f, t):
    todo, seen = [f], set()
    tid = t.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i == tid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo.extend(x.children())
    return False


def join_kind_safe(a, b):
    try:
        return join_kind(a, b)
    except Unsupported:
        return None


def snapshot(V, env):
    """Values of all visible locals at loop entry (lists as immutable sequences)."""
    out = {}
    e = env
    while e is not None:
        for k, v in e.vars.items():
            if k not in out:
                if isinstance(v, SList):
                    out[k] = v.seq
                elif isinstance(v, SSet):
                    s = SSet(v.items, v.mem, v.kind)
                    out[k] = s
                elif isinstance(v, Arr):
                    out[k] = v.copy() if v.dtype != 'obj' else v
                else:
                    out[k] = v
        e = e.parent
    return out


def cvc5_check(fs, timeout):
    """Second opinion: cvc5 on the SMT-LIB text of the query."""
    import subprocess
    s = z3.Solver()
    s.add(*fs)
    text = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '--quiet', '-'], input=text, capture_output=True, text=True, timeout=timeout / 1000 + 5)
    except Exception:
        return 'unknown'
    out = p.stdout.strip().split('\n')[0] if p.stdout else ''
    return out if out in ('sat', 'unsat') else 'unknown'


def verify(name, body, setup=None, time_limit=240, overlay=None):
    """Run a verification unit: body(V) over all paths. Returns a Unit."""
    u = Unit(name)
    t0 = time.time()
    v = V(u, overlay)
    v.deadline = t0 + time_limit
    restarts = 0
    while True:
        u.obligations, u.paths, u.live_paths = {}, 0, 0
        u.solver_time = 0.
        u.backend = {}
        v.contracts, v.loops = {}, {}
        work = [[]]
        try:
            while work:
                prefix = work.pop()
                v.reset(prefix)
                v.contracts, v.loops = {}, {}
                u.paths += 1
                if u.paths > v.MAX_PATHS:
                    raise Unsupported('more than %d paths' % v.MAX_PATHS)
                try:
                    body(v)
                    if u.live_paths or v.fsolver.check() != z3.unsat and not v.contradictory():
                        u.live_paths += 1
                except PathEnd:
                    pass
                except PyRaise as p:
                    e = p.exc
                    v._prove('no uncaught %s' % getattr(getattr(e, 'cls', None), 'name', e), False)
                work.extend(v.alts)
        except Restart:
            restarts += 1
            if restarts > 60:
                u.unsupported = 'write sets do not stabilise'
                break
            continue
        except Unsupported as e:
            u.unsupported = str(e) or type(e).__name__
        except RecursionError:
            u.unsupported = 'recursion limit'
        except z3.Z3Exception as e:
            u.unsupported = 'z3: %s' % e
            if os.environ.get('PYVC_TB'):
                traceback.print_exc()
        break
    u.time = time.time() - t0
    if u.unsupported is None and u.live_paths == 0:
        u.add('vacuity: some path reaches the end', 'unknown', 0., detail='no live path')
    return u

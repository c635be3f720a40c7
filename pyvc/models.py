"""Contracts of builtins and of the external libraries the repository uses (trusted; listed in the evidence)."""
import ast
import math
import re as _re
import itertools
from fractions import Fraction

import z3

from .values import *
from .values import _cases
from . import ops
from .ops import Z, const_num, arith, cmp, eq, length, seq_of, truth, pick, R, I

_cls = {}


def cls(name, *bases, new=None, attrs=None):
    if name in _cls:
        return _cls[name]
    b = [_cls[x] for x in bases] if bases else ([_cls['object']] if name != 'object' else [])
    c = ClassV(name, 'builtins.' + name, b, None, None, dict(attrs or {}))
    c.code = 100 + len(_cls)
    if new is not None:
        c.attrs['__new__'] = Builtin(name + '.__new__', new)
    _cls[name] = c
    return c


cls('object')


def _exc_new(V, c, *args, **kw):
    return ExcV(c, args)


cls('BaseException', new=_exc_new)
cls('Exception', 'BaseException')
cls('KeyboardInterrupt', 'BaseException')
cls('GeneratorExit', 'BaseException')
for _n, _b in [('ArithmeticError', 'Exception'), ('ZeroDivisionError', 'ArithmeticError'), ('OverflowError', 'ArithmeticError'),
               ('LookupError', 'Exception'), ('IndexError', 'LookupError'), ('KeyError', 'LookupError'), ('ValueError', 'Exception'),
               ('TypeError', 'Exception'), ('AttributeError', 'Exception'), ('AssertionError', 'Exception'), ('StopIteration', 'Exception'),
               ('RuntimeError', 'Exception'), ('NotImplementedError', 'RuntimeError'), ('RecursionError', 'RuntimeError'), ('ImportError', 'Exception'),
               ('OSError', 'Exception'), ('IOError', 'OSError'), ('BlockingIOError', 'OSError'), ('FileNotFoundError', 'OSError'),
               ('UnicodeDecodeError', 'ValueError'), ('Warning', 'Exception'), ('DeprecationWarning', 'Warning'), ('LinAlgError', 'Exception'),
               ('JSONDecodeError', 'ValueError'), ('MemoryError', 'Exception')]:
    cls(_n, _b)


# ---- builtin types
def _int_new(V, c, x=0, base=None):
    if isinstance(x, str):
        try:
            return int(x) if base is None else int(x, const_int(base))
        except ValueError:
            V.throw('ValueError', 'int')
    if isinstance(x, CharV) and base is None:
        if V.decide(And(x.code >= 48, x.code < 58)):
            return x.code - 48
        if V.decide(x.code < 128):
            V.throw('ValueError', 'int')
        raise Unsupported('int of a character beyond ASCII')
    if isinstance(x, Text):
        if len(x.parts) == 1 and base is None:
            return x.parts[0]
        raise Unsupported('int of a text')
    if isinstance(x, FracV):
        n, d = x.num, x.den
        if const_int(n) is not None and const_int(d) is not None:
            return int(Fraction(const_int(n), const_int(d)))
        return ops.trunc(V, x.real)
    if is_num(x):
        return ops.trunc(V, x)
    if isinstance(x, Arr) and x.ndim == 0:
        return ops.trunc(V, x.at())
    if x is None:
        V.throw('TypeError', 'int()')
    raise Unsupported('int of %r' % (x,))


def _float_new(V, c, x=0):
    if isinstance(x, str):
        if x in ('inf', '-inf', 'nan'):
            if x == 'inf':
                return inf(V)
            raise Unsupported('float(%r)' % x)
        try:
            return Z(Fraction(x))
        except ValueError:
            V.throw('ValueError', 'float')
    if is_num(x) or isinstance(x, FracV):
        return to_real(x)
    if isinstance(x, Arr) and x.ndim == 0:
        return to_real(x.at())
    if x is None:
        V.throw('TypeError', 'float()')
    raise Unsupported('float of %r' % (x,))


def inf(V):
    t = z3.Real('INF')
    if not any(f.eq(t > 10 ** 300) for f in V.axioms):
        V.axiom(t > 10 ** 300)
        V.unit.assumed.add('infinity is a real above 1e300')
    return t


def _bool_new(V, c, x=False):
    return truth(V, x)


def _str_new(V, c, x='', *a, **k):
    if isinstance(x, str):
        return x
    if isinstance(x, bool):
        return str(x)
    if isinstance(x, int):
        return str(x)
    if x is None:
        return 'None'
    ci = const_int(x)
    if ci is not None and is_int(x):
        return str(ci)
    if isinstance(x, Text):
        return x
    if is_num(x) and is_int(x) and not is_bool(x):
        return Text([x])
    if isinstance(x, Builtin) and x.name.startswith('dtype:'):
        return DtypeName(x.name[6:])
    return Opaque('text')


def _list_new(V, c, x=()):
    return V.mklist(seq_of(V, x))


def _tuple_new(V, c, x=()):
    if isinstance(x, (tuple,)):
        return x
    s = seq_of(V, x)
    n = const_int(s.n)
    if n is None:
        l = V.mklist(s, 'tuple')
        return l
    return tuple(s[i] for i in range(n))


def _set_new(V, c, x=()):
    from .engine import HeapSet, HeapSetSnapshot
    if isinstance(x, SSet):
        return V.mkset(None if x.items is None else list(x.items), x.mem, x.kind)
    if isinstance(x, HeapSet):
        return HeapSetSnapshot(x.term, x.hf)
    if isinstance(x, Range) and const_int(x.step) == 1 and (const_int(x.start) is None or const_int(x.stop) is None):
        lo, hi = Z(x.start), Z(x.stop)
        return V.mkset(None, lambda v: And(Z(v) >= lo, Z(v) < hi), KInt())
    return ops.set_of_seq(V, seq_of(V, x))


def _dict_new(V, c, x=None, **kw):
    d = V.mkdict()
    fill_dict(V, d, x)
    for k, v in kw.items():
        V.setitem(d, k, v)
    return d


def fill_dict(V, d, x):
    if x is None:
        return
    if isinstance(x, SDict):
        if x.sym is not None:
            raise Unsupported('dict(symbolic)')
        for k, v in x.items:
            V.setitem(d, k, v)
        return
    s = seq_of(V, x)
    n = const_int(s.n)
    if n is None:
        return dict_of_pairs(V, d, s)
    for i in range(n):
        k, v = V.unpack(s[i], 2)
        V.setitem(d, k, v)


def dict_of_pairs(V, d, s):
    """A dictionary of symbolic size: the last pair with a key decides."""
    from .engine import All, flatten
    if d.items or d.sym is not None or d.default is not None:
        raise Unsupported('dict of symbolic length')
    probe = s[z3.Int(fresh_name('probe'))]
    if not (isinstance(probe, tuple) and len(probe) == 2):
        raise Unsupported('dict of symbolic length')
    kind = kind_of(probe[0])
    flat = max(1, len(flatten(probe[0])))
    if type(kind) not in (KInt, KRef):
        raise Unsupported('dict of symbolic length with keys of %r' % (kind,))
    where = KInt().uf('dict.pos', flat)
    pos = lambda k: where(*ops.flat_ints(k))
    n = Z(s.n)
    key = lambda i: s[i][0]
    mem = lambda k: And(pos(k) >= 0, pos(k) < n, eq(V, key(pos(k)), k))

    def pat(i):
        t = ops.flat_ints(key(i))
        return pos(key(i)) if any(z3.is_const(x) for x in t) else t[0]
    V.assume(All((0, n), lambda i: And(mem(key(i)), pos(key(i)) >= i), pat=pat))
    V.wrote(d, None, None)
    d.sym = (mem, lambda k: s[pos(k)][1], kind)


def ordered_dict(V, d, keys, value):
    """Make d the dictionary of value(i) for the (symbolic number of, pairwise different) keys, in this order."""
    from .engine import All
    where = KInt().uf('dict.pos', max(1, len(ops.flat_ints(keys[z3.Int(fresh_name('probe'))]))))
    pos = lambda k: where(*ops.flat_ints(k))
    n = Z(keys.n)
    mem = lambda k: And(pos(k) >= 0, pos(k) < n, eq(V, keys[pos(k)], k))
    V.assume(All((0, n), lambda i: pos(keys[i]) == i, pat=lambda i: ops.flat_ints(keys[i])[0]))
    V.wrote(d, None, None)
    d.sym = (mem, lambda k: value(pos(k)), keys.kind)
    d.order = (d.sym, keys, value)
    return d


def dict_comp(V, s):
    """Dictionary comprehension of symbolic length."""
    i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
    key = lambda i: s[i][0]
    if V.solve(And(0 <= i, i < j, j < Z(s.n), eq(V, key(i), key(j))))[0] == 'unsat':
        return ordered_dict(V, V.mkdict(), Seq(s.n, key, None, kind_of(key(i))), lambda k: s[k][1])
    d = V.mkdict()
    dict_of_pairs(V, d, s)
    return d


def order_of(d):
    """Keys of a dictionary of symbolic size in their order, and the values by place."""
    o = getattr(d, 'order', None)
    if o is None or o[0] is not d.sym:
        raise Unsupported('iteration over a symbolic dict')
    return o[1], o[2]


def dict_views(V, d, what):
    if d.sym is None:
        return Seq.of([k if what == 'keys' else v if what == 'values' else (k, v) for k, v in d.items])
    keys, value = order_of(d)
    if what == 'keys':
        return keys
    get = value if what == 'values' else lambda i: (keys[i], value(i))
    return Seq(keys.n, get, None, kind_of(get(z3.Int(fresh_name('probe')))))


def _deque_new(V, c, x=(), maxlen=None):
    s = seq_of(V, x)
    if maxlen is not None:
        n = s.n
        over = fold_gt(V, n, maxlen)
        if over is True:
            s = s.slice(Z(n) - Z(maxlen), n)
        elif over is None:
            if V.decide(Z(n) > Z(maxlen)):
                s = s.slice(Z(n) - Z(maxlen), n)
    return V.mklist(s, 'deque', maxlen)


def fold_gt(V, a, b):
    return ops.known(V, simp(Z(a) > Z(b)))


def simp(c):
    k = const_bool(c)
    return c if k is None else k


def _range_new(V, c, a, b=None, s=1):
    for x in (a, b, s):
        if x is not None and not is_int(x) and not is_bool(x):
            if is_num(x):
                V.throw('TypeError', 'range() needs integers')
            raise Unsupported('range of %r' % (x,))
    return Range(0, a, 1) if b is None else Range(a, b, s)


def _type_new(V, c, x, *rest):
    if rest:
        raise Unsupported('type() with three arguments')
    if isinstance(x, Ref):
        return TypeOf(V.heap['__type__'].get(x.term), x.cls) if isinstance(x.cls, (list, tuple)) else x.cls
    return class_of(V, x)


def _frac_new(V, c, num=0, den=None, _normalize=True):
    sub = c if c is not _cls['Fraction'] else None
    if isinstance(num, str):
        f = Fraction(num)
        return FracV(f.numerator, f.denominator, sub)
    if is_real(num):
        cn = const_num(num)
        if cn is None:
            r = FracV(z3.Int(fresh_name('num')), z3.Int(fresh_name('den')), sub)     # every float is a fraction
            V.axiom(And(r.den >= 1, to_real(r.num) == to_real(num) * to_real(r.den)))
            r.value_only = True
            return r
        return FracV(cn.numerator, cn.denominator, sub)
    if den is None:
        if isinstance(num, FracV):
            r = FracV(num.num, num.den, sub)
            r.value_only = getattr(num, 'value_only', False)
            return r
        return FracV(to_int(num), 1, sub)
    norm = const_bool(_normalize)
    if isinstance(num, FracV) or isinstance(den, FracV):
        r = arith(V, 'truediv', num if isinstance(num, FracV) else FracV(num, 1), den)
        r.cls = sub
        return r
    num, den = to_int(num), to_int(den)
    cn, cd = const_int(num), const_int(den)
    if (cd == 0) if cd is not None else V.decide(Z(den) == 0):
        V.throw('ZeroDivisionError')
    if cn is not None and cd is not None:
        if norm:
            f = Fraction(cn, cd)
            cn, cd = f.numerator, f.denominator
        return FracV(cn, cd, sub)
    r = FracV(num, den, sub)
    if norm:
        if cd is None and not V.decide(Z(den) > 0):
            r = FracV(-Z(num), -Z(den), sub)
        r.value_only = True
    return r


cls('int', new=_int_new)
cls('bool', 'int', new=_bool_new)
cls('float', new=_float_new)
cls('str', new=_str_new)
cls('bytes')
cls('list', new=_list_new)
cls('tuple', new=_tuple_new)
cls('set', new=_set_new)
cls('frozenset', new=_set_new)
cls('dict', new=_dict_new)
cls('defaultdict', 'dict', new=lambda V, c, factory=None, x=None: _defaultdict(V, factory, x))
cls('deque', new=_deque_new)
cls('range', new=_range_new)
cls('type', new=_type_new)
cls('NoneType')
cls('function')
cls('generator')
cls('Fraction', new=_frac_new)
cls('ndarray')
cls('ABC')
cls('Enum')
cls('Iterator')
cls('slice')
cls('nullclass')


def _defaultdict(V, factory, x):
    d = V.mkdict([], factory)
    fill_dict(V, d, x)
    return d


def _seq_contains(V, o, x):
    return truth(V, V.exists(0, length(V, o), lambda i: eq(V, V.getitem(o, i), x))) if const_int(length(V, o)) is None else \
        Or(*[eq(V, V.getitem(o, i), x) for i in range(const_int(length(V, o)))])


cls('Sequence', attrs={})
cls('Iterable', attrs={})
cls('Callable', attrs={})
cls('Hashable', attrs={})
cls('Mapping', attrs={})


def class_of(V, v):
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, NT):
        return v.cls
    if isinstance(v, FracV):
        return v.cls or _cls['Fraction']
    if isinstance(v, ExcV):
        return v.cls
    if is_bool(v):
        return _cls['bool']
    if is_int(v):
        return _cls['int']
    if is_real(v):
        return _cls['float']
    if isinstance(v, str):
        return _cls['str']
    if isinstance(v, SList):
        return _cls[v.typ]
    if isinstance(v, tuple):
        return _cls['tuple']
    if isinstance(v, SSet):
        return _cls['set']
    if isinstance(v, SDict):
        return _cls['defaultdict' if v.default is not None else 'dict']
    if isinstance(v, Arr):
        return _cls['ndarray']
    if v is None:
        return _cls['NoneType']
    if isinstance(v, ClassV):
        return _cls['type']
    if isinstance(v, (Func, Bound, Builtin)):
        return _cls['function']
    if isinstance(v, Range):
        return _cls['range']
    if isinstance(v, GenV):
        return _cls['generator']
    if isinstance(v, Ref):
        c = V.ref_class(v)
        if c is not None:
            return c
    raise Unsupported('class of %r' % (v,))


def isinstance_(V, v, c):
    if isinstance(c, tuple):
        return Or(*[isinstance_(V, v, x) for x in c])
    if isinstance(c, (TypeOf,)) or not isinstance(c, ClassV):
        if isinstance(c, Opaque):
            raise Unsupported('isinstance with a typing construct')
        raise Unsupported('isinstance(_, %r)' % (c,))
    if isinstance(v, Ref):
        none = (v.term == NONE) if v.maybe_none else False
        if isinstance(v.cls, (list, tuple)):
            t = V.heap['__type__'].get(v.term)
            return And(Not(none), Or(*[t == k.code for k in v.cls if k.issub(c)]))
        if v.cls is None:
            raise Unsupported('isinstance of an untyped reference')
        return And(Not(none), v.cls.issub(c))
    if isinstance(v, (Text, CharV)):
        return c.name in ('str', 'object')
    if isinstance(v, Opaque):
        raise Unsupported('isinstance of an unknown value')
    n = c.name
    if c is _cls.get(n):
        if n == 'Sequence':
            if isinstance(v, Obj):
                return v.cls.issub(c)
            return isinstance(v, (tuple, NT, str, Range, SList))
        if n == 'Iterable':
            if isinstance(v, Obj):
                return v.cls.lookup('__iter__')[1] is not None or v.cls.issub(_cls['Sequence'])
            return isinstance(v, (tuple, NT, str, Range, SList, SSet, SDict, Arr, GenV))
        if n == 'Callable':
            return isinstance(v, (Func, Bound, Builtin, ClassV)) or isinstance(v, Obj) and v.cls.lookup('__call__')[1] is not None
        if n == 'tuple':
            return isinstance(v, (tuple, NT))
        if n == 'Mapping':
            return isinstance(v, SDict)
    return class_of(V, v).issub(c)


def nt_fields(c):
    for k in c.mro:
        if '_fields' in k.attrs:
            return list(k.attrs['_fields'])
    raise Unsupported('fields of %r' % c)


def make_namedtuple(V, name, fields, defaults=(), **kw):
    if isinstance(fields, str):
        fields = tuple(fields.replace(',', ' ').split())
    else:
        fields = tuple(seq_of(V, fields).items)
    defaults = tuple(defaults.items if isinstance(defaults, Seq) else seq_of(V, defaults).items) if defaults else ()

    def new(V, c, *args, **kwargs):
        vals = dict(zip(fields, args))
        if len(args) > len(fields):
            V.throw('TypeError', 'too many arguments')
        for k, v in kwargs.items():
            if k not in fields or k in vals:
                V.throw('TypeError', 'argument ' + k)
            vals[k] = v
        for k, d in zip(fields[len(fields) - len(defaults):], defaults):
            vals.setdefault(k, d)
        for k in fields:
            if k not in vals:
                V.throw('TypeError', 'missing argument ' + k)
        return NT(c, [vals[k] for k in fields])
    c = ClassV(name, 'namedtuple.' + name, [_cls['tuple']], None, None, {'_fields': fields, '__new__': Builtin(name, new)})
    c.attrs['_make'] = ClassMethodV(Builtin('_make', lambda V, cc, it: NT(cc, seq_of(V, it).items)))
    V.class_codes[c.qual] = c
    c.code = 1000 + len(V.class_codes)
    return c


# ---------------------------------------------------------------------------------------------- builtin functions
def _minmax(V, which, args, key=None, default=None):
    op = 'lt' if which == 'min' else 'gt'
    if len(args) == 1:
        s = seq_of(V, args[0])
        n = const_int(s.n)
        if n is None:
            if key is not None:
                raise Unsupported('min/max with key over a symbolic sequence')
            if V.decide(Z(s.n) == 0):
                if default is not None:
                    return default
                V.throw('ValueError', 'empty sequence')
            from .engine import All
            kind = s.kind or kind_of(s[0])
            m = kind.fresh(which)
            w = z3.Int(fresh_name('arg' + which))
            V.assume(And(w >= 0, w < Z(s.n), eq(V, s[w], m)))
            V.assume(All((0, s.n), lambda i: Not(cmp(V, op, s[i], m))))
            return m
        args = [s[i] for i in range(n)]
        if not args:
            if default is not None:
                return default
            V.throw('ValueError', 'empty sequence')
    best = args[0]
    kb = V.call(key, [best]) if key else best
    for x in args[1:]:
        kx = V.call(key, [x]) if key else x
        c = cmp(V, op, kx, kb)
        k = ops.known(V, c)
        if k is True:
            best, kb = x, kx
        elif k is None:
            if is_num(x) and is_num(best) and not key:
                best = ite(c, x, best)
                kb = best
            elif V.decide(c):
                best, kb = x, kx
    return best


def b_sum(V, x, start=0):
    s = seq_of(V, x)
    n = const_int(s.n)
    if n is not None:
        r = start
        for i in range(n):
            r = ops.binop(V, ast.Add(), r, s[i])
        return r
    if isinstance(s[z3.Int(fresh_name('probe'))], FracV):
        if V.decide(s.n == 0):
            return start
        total = arith(V, 'add', to_real(start), prefix_sum(V, s)(s.n))
        r = FracV(z3.Int(fresh_name('num')), z3.Int(fresh_name('den')))     # a finite sum of fractions is a fraction
        V.axiom(And(r.den >= 1, to_real(r.num) == total * to_real(r.den)))
        r.value_only = True
        return r
    S = prefix_sum(V, s)
    return arith(V, 'add', start, S(s.n)) if const_num(start) != 0 else S(s.n)


def prefix_sum(V, s):
    """S(0) = 0, S(k+1) = S(k) + s[k]."""
    from .engine import All
    probe = s[z3.Int('PROBE')]
    real = is_real(probe) or isinstance(probe, FracV)
    if is_z3(probe):
        for t, S in V.ghost.get('sums', []):
            p = t[z3.Int('PROBE')]
            if is_z3(p) and z3.eq(p, probe) and z3.eq(z3.simplify(Z(t.n)), z3.simplify(Z(s.n))):
                return lambda k: S(Z(k))     # the same numbers have the same sums
    S = z3.Function(fresh_name('SUM'), I, R if real else I)
    conv = to_real if real else lambda v: Z(to_int(v))
    V.assume(S(0) == 0)
    V.assume(All((0, s.n), lambda k: S(k + 1) == S(k) + conv(s[k]), pat=lambda k: [S(k + 1)]))
    V.ghost.setdefault('sums', []).append((s, S))
    return lambda k: S(Z(k))


def line_sums(V, get, n, m, real=True):
    """S(0, j) = 0, S(k+1, j) = S(k, j) + get(k, j) for j < m: the sums of columns; the same numbers have the same sums."""
    from .engine import All
    probe = get(z3.Int('PROBE'), z3.Int('PROBE2'))
    for p, k, S in V.ghost.get('line sums', []):
        if is_z3(probe) and z3.eq(p, probe) and z3.eq(z3.simplify(k), z3.simplify(Z(n))):
            return S
    F = z3.Function(fresh_name('SUM'), I, I, R if real else I)
    conv = to_real if real else lambda v: Z(to_int(v))
    V.assume(All((0, m), lambda j: F(0, j) == 0, pat=lambda j: F(0, j)))
    V.assume(All([(0, n), (0, m)], lambda k, j: F(k + 1, j) == F(k, j) + conv(get(k, j)), pat=lambda k, j: F(k + 1, j)))
    S = lambda k, j: F(Z(k), Z(j))
    if is_z3(probe):
        V.ghost.setdefault('line sums', []).append((probe, Z(n), S))
    return S


def b_anyall(V, x, isall):
    from .engine import CompV, All
    s = seq_of(V, x) if not isinstance(x, CompV) else None
    if s is None:
        g = x.node.generators[0]
        seq = V.seq_of(V.eval(g.iter, x.env))
        if const_int(seq.n) is not None or len(x.node.generators) > 1:
            s = V.comp(x.node, x.env)
        else:
            from .engine import Env

            def elt(i):
                def th():
                    e2 = Env(x.env.module, x.env, None)
                    V.assign(g.target, seq[i], e2)
                    c = And(*[V.truth(V.eval(y, e2)) for y in g.ifs])
                    v = V.truth(V.eval(x.node.elt, e2))
                    return Implies(c, v) if isall else And(c, v)
                return V.merged(th)
            if isall:
                return V.formula(All((0, seq.n), elt))
            return V.exists(0, seq.n, elt)
    n = const_int(s.n)
    if n is not None:
        ts = [truth(V, s[i]) for i in range(n)]
        return And(*ts) if isall else Or(*ts)
    if isall:
        return V.formula(All((0, s.n), lambda i: truth(V, s[i])))
    return V.exists(0, s.n, lambda i: truth(V, s[i]))


def b_zip(V, *its):
    ss = [seq_of(V, x) for x in its]
    if not ss:
        return Seq.of([])
    cs = [const_int(s.n) for s in ss]
    if all(c is not None for c in cs):
        n = min(cs)
        return Seq.of([tuple(s[i] for s in ss) for i in range(n)])
    n = ss[0].n
    for s in ss[1:]:
        n = pick(V, simp(Z(s.n) < Z(n)), s.n, n)
    c = const_int(n)
    if c is not None:
        return Seq.of([tuple(s[i] for s in ss) for i in range(c)])
    kinds = [s.kind for s in ss]
    kind = KTuple(*kinds) if all(k is not None for k in kinds) else None
    return Seq(n, lambda i: tuple(s[i] for s in ss), None, kind)


def b_enumerate(V, x, start=0):
    s = seq_of(V, x)
    n = const_int(s.n)
    if n is not None:
        return Seq.of([(arith(V, 'add', start, i), s[i]) for i in range(n)])
    return Seq(s.n, lambda i: (arith(V, 'add', start, i), s[i]), None, KTuple(KInt(), s.kind) if s.kind is not None else None)


def permutation(V, s, name='perm'):
    """A fresh sequence that is a rearrangement of s."""
    from .engine import All
    p = KInt().uf(name)
    q = KInt().uf(name + '.inv')
    n = s.n
    kind = s.kind or kind_of(s[z3.Int(fresh_name('probe'))])
    t = Seq.fresh(name, kind, n)
    V.assume(All((0, n), lambda i: And(p(i) >= 0, p(i) < Z(n), q(p(i)) == i, eq(V, t[i], s[p(i)])), pat=lambda i: p(i)))
    V.assume(All((0, n), lambda i: And(q(i) >= 0, q(i) < Z(n), p(q(i)) == i, eq(V, t[q(i)], s[i])), pat=lambda i: q(i)))
    # make the index maps appear wherever elements are read
    fl = ops.flat_ints(t[z3.IntVal(0)])
    V.assume(All((0, n), lambda i: And(p(i) >= 0, p(i) < Z(n), q(p(i)) == i, eq(V, t[i], s[p(i)])), pat=lambda i: ops.flat_ints(t[i])[0]))
    t.perm, t.base = (p, q), s
    return t


def b_sorted(V, x, key=None, reverse=False):
    s = seq_of(V, x)
    n = const_int(s.n)
    rev = const_bool(reverse)
    if rev is None:
        raise Unsupported('sorted with symbolic reverse')
    if n is not None and n <= 6:
        items = [s[i] for i in range(n)]
        keys = [V.call(key, [i]) if key else i for i in items]
        out = []
        for k, x in zip(keys, items):      # stable insertion
            j = len(out)
            while j > 0:
                c = cmp(V, 'lt', k, out[j - 1][0]) if not rev else cmp(V, 'gt', k, out[j - 1][0])
                if not V.decide(c):
                    break
                j -= 1
            out.insert(j, (k, x))
        return V.mklist([x for _, x in out])
    if n is not None and all(const_num(s[i]) is not None for i in range(n)) and key is None:
        return V.mklist(sorted(s.items, key=const_num, reverse=rev))
    from .engine import All
    t = permutation(V, s, 'sorted')
    f = (lambda v: V.merged(lambda: V.call(key, [v]))) if key else (lambda v: v)
    op = 'le' if not rev else 'ge'
    V.assume(All([(0, n or s.n), (0, n or s.n)], lambda i, j: Implies(i < j, cmp(V, op, f(t[i]), f(t[j]))),
                 pat=lambda i, j: [[ops.flat_ints(t[i])[0], ops.flat_ints(t[j])[0]]]))
    r = V.mklist(t)
    return r


def b_iter(V, x):
    if isinstance(x, IterV):
        return x
    if isinstance(x, GenV):
        raise Unsupported('explicit generator iteration')
    it = IterV(seq_of(V, x))
    V.alloc(it)
    V.cells[it.oid] = it
    return it


_nodefault = object()


def b_next(V, it, default=_nodefault):
    from .engine import CompV
    if isinstance(it, CompV):
        s = seq_of(V, it)
        if const_int(s.n) == 0 or (const_int(s.n) is None and V.decide(Z(s.n) == 0)):
            if default is _nodefault:
                V.throw('StopIteration')
            return default
        return s[0]
    if isinstance(it, Obj):
        m, _ = it.cls.lookup('__next__')
        if m is not None:
            return V.call(m, [it])
    if isinstance(it, GenV):
        class Stop(Exception):
            pass
        got = []

        def oy(v):
            got.append(v)
            raise Stop()
        # only a generator whose remaining part is never resumed
        raise Unsupported('next() of a generator')
    if not isinstance(it, IterV):
        raise Unsupported('next of %r' % (it,))
    s = it.seq
    if s.n is not None:
        if not V.decide(simp(Z(it.pos) < Z(s.n))):
            if default is _nodefault:
                V.throw('StopIteration')
            return default
    v = s[it.pos]
    V.wrote(it, 'pos', KInt())
    it.pos = arith(V, 'add', it.pos, 1)
    return v


def infinite(V, get, kind):
    it = IterV(Seq(None, get, None, kind))
    V.alloc(it)
    V.cells[it.oid] = it
    return it


def b_abs(V, x):
    if isinstance(x, Arr):
        return ops.elementwise(V, lambda v: absv(V, v), x.dtype, x)
    if isinstance(x, FracV):
        return FracV(absv(V, x.num), x.den)
    return absv(V, x)


def absv(V, x):
    c = const_num(x)
    if c is not None:
        return Z(abs(c)) if is_real(x) else int(abs(c))
    if not is_num(x):
        raise Unsupported('abs of %r' % (x,))
    return z3.If(x >= 0, x, -x)


def b_round(V, x, nd=None):
    c = const_num(x)
    if c is not None and nd is None:
        return round(c)
    if nd is None and is_real(x):
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        return z3.If(d < Z(Fraction(1, 2)), f, z3.If(d > Z(Fraction(1, 2)), f + 1, z3.If(f % 2 == 0, f, f + 1)))
    if is_int(x):
        return x
    raise Unsupported('round')


def b_divmod(V, a, b):
    if isinstance(a, (Arr, SList)) or isinstance(b, Arr):
        return np_divmod(V, a, b)
    if is_real(a) or is_real(b) or isinstance(a, FracV) or isinstance(b, FracV):
        q, r = ops.real_divmod(V, a, b)
        return to_real(q), r
    return ops.int_divmod(V, a, b)


def b_map(V, f, *its):
    s = b_zip(V, *its)
    n = const_int(s.n)
    if n is not None:
        return Seq.of([V.call(f, list(s[i])) for i in range(n)])
    probe = V.merged(lambda: V.call(f, list(s[z3.Int(fresh_name('probe'))])))
    return Seq(s.n, lambda i: V.merged(lambda: V.call(f, list(s[i]))), None, kind_of(probe))


def b_filter(V, f, it):
    s = seq_of(V, it)
    n = const_int(s.n)
    p = (lambda v: truth(V, V.call(f, [v]))) if f is not None else (lambda v: truth(V, v))
    if n is not None:
        return Seq.of([s[i] for i in range(n) if V.decide(p(s[i]))])
    return V.filtered(s, lambda v: V.merged(lambda: p(v)), lambda v: v, s.kind)


def b_hasattr(V, o, name):
    if isinstance(o, Obj):
        return name in o.fields or o.cls.lookup(name)[1] is not None
    if isinstance(o, Ref):
        if name in V.heap:
            raise Unsupported('hasattr on a reference')
        return V.ref_class(o).lookup(name)[1] is not None
    raise Unsupported('hasattr')


def b_getattr(V, o, name, *d):
    try:
        return V.getattr(o, name)
    except PyRaise as p:
        if d and p.exc.cls.name == 'AttributeError':
            return d[0]
        raise


NI = Builtin('NotImplemented', None)

BUILTINS = {
    'len': lambda V, x: length(V, x),
    'min': lambda V, *a, key=None, default=None: _minmax(V, 'min', list(a), key, default),
    'max': lambda V, *a, key=None, default=None: _minmax(V, 'max', list(a), key, default),
    'abs': b_abs,
    'round': b_round,
    'sum': b_sum,
    'any': lambda V, x: b_anyall(V, x, False),
    'all': lambda V, x: b_anyall(V, x, True),
    'zip': b_zip,
    'enumerate': b_enumerate,
    'reversed': lambda V, x: seq_of(V, x).reverse(),
    'sorted': b_sorted,
    'isinstance': lambda V, v, c: isinstance_(V, v, c),
    'issubclass': lambda V, a, b: (Or(*[a.term == k.code for k in a.classes if any(k.issub(x) for x in (b if isinstance(b, tuple) else (b,)))]) if isinstance(a, TypeOf)
                                   else any(a.issub(x) for x in (b if isinstance(b, tuple) else (b,)))),
    'iter': b_iter,
    'next': b_next,
    'print': lambda V, *a, **k: None,
    'divmod': b_divmod,
    'map': b_map,
    'filter': b_filter,
    'hasattr': b_hasattr,
    'getattr': b_getattr,
    'setattr': lambda V, o, n, v: V.setattr(o, n, v),
    'callable': lambda V, x: isinstance_(V, x, _cls['Callable']),
    'repr': lambda V, x: Opaque('text'),
    'id': lambda V, x: _id(V, x),
    'hash': lambda V, x: Opaque('hash'),
    'ord': lambda V, x: ord(x),
    'chr': lambda V, x: chr(const_int(x)),
    'vars': lambda V, x: Opaque('vars'),
    'bin': lambda V, x: bin(const_int(x)) if const_int(x) is not None else Opaque('text'),
    'pow': lambda V, a, b: arith(V, 'pow', a, b),
    'slice': lambda V, *a: slice(None, a[0], None) if len(a) == 1 else slice(*(list(a) + [None] * (3 - len(a)))),
    'input': lambda V, *a: Opaque('text'),
    'open': lambda V, *a, **k: Opaque('file'),
}
_bcache = {}


def _id(V, x):
    if isinstance(x, Ref):
        return x.term
    if isinstance(x, Mutable) and x.oid is not None:
        return x.oid
    raise Unsupported('id')


def builtin(V, name):
    if name in _cls and name not in ('Fraction', 'ndarray', 'deque', 'defaultdict', 'Sequence', 'Iterable', 'Callable', 'ABC', 'Enum', 'LinAlgError', 'JSONDecodeError', 'Mapping', 'nullclass', 'Iterator'):
        return _cls[name]
    if name == 'NotImplemented':
        return NI
    if name in BUILTINS:
        if name not in _bcache:
            _bcache[name] = Builtin(name, BUILTINS[name])
        return _bcache[name]
    if name in ('True', 'False', 'None'):
        return {'True': True, 'False': False, 'None': None}[name]
    if name == '__name__':
        return 'module'
    if name in _cls:
        return _cls[name]
    return None


# ---------------------------------------------------------------------------------------------- attributes of builtin values
def builtin_attr(V, o, name):
    f = None
    if isinstance(o, SList):
        f = LIST.get(name)
        if name == 'maxlen':
            return o.maxlen
    elif isinstance(o, SSet):
        f = SET.get(name)
    elif isinstance(o, SDict):
        f = DICT.get(name)
    elif isinstance(o, Arr):
        return arr_attr(V, o, name)
    elif isinstance(o, str):
        return str_attr(V, o, name)
    elif isinstance(o, NT):
        f = NTM.get(name)
        if name == '_fields':
            return tuple(nt_fields(o.cls))
        if name == '__class__':
            return o.cls
    elif isinstance(o, tuple):
        f = TUPLE.get(name)
    elif isinstance(o, Seq):
        f = TUPLE.get(name)
    elif isinstance(o, FracV):
        if name in ('numerator', 'denominator'):
            if getattr(o, 'value_only', False) and (const_int(o.num) is None or const_int(o.den) is None):
                raise Unsupported('numerator of a computed fraction')
            return o.num if name == 'numerator' else o.den
        if name == '__class__':
            return class_of(V, o)
    elif isinstance(o, ExcV):
        if name == 'args':
            return tuple(o.args)
    elif isinstance(o, Text):
        if name in ('upper', 'lower', 'title', 'strip', 'capitalize'):
            return Builtin(name, lambda V: text_map(o, name))
        raise Unsupported('text method ' + name)
    elif isinstance(o, RegexV):
        if name in ('match', 'fullmatch'):
            return Builtin(name, lambda V, t: regex_match(V, o, name, t))
        raise Unsupported('regex method ' + name)
    elif isinstance(o, MatchV):
        if name == 'groups':
            return Builtin(name, lambda V: tuple(o.groups))
        if name == 'group':
            return Builtin(name, lambda V, *i: o.whole if not i or const_int(i[0]) == 0 else o.groups[const_int(i[0]) - 1])
        raise Unsupported('match method ' + name)
    elif isinstance(o, BytesV):
        if name == 'decode' and o.text:
            return Builtin(name, lambda V, *a: o)
        raise Unsupported('attribute %s of bytes' % name)
    elif isinstance(o, Opaque):
        return Opaque(o.what + '.' + name)
    elif is_num(o):
        if name == 'is_integer' and is_real(o):
            return Builtin(name, lambda V: z3.IsInt(to_real(o)))
        if name == 'real':
            return o
        if name == 'numerator' and is_int(o):
            return o
        if name == 'denominator' and is_int(o):
            return 1
        if name in ('copy', 'squeeze', 'item'):
            return Builtin(name, lambda V: o)
        if name == 'ndim':
            return 0
        if name == 'shape':
            return ()
        if name == 'sum' or name == 'max' or name == 'min':
            return Builtin(name, lambda V: o)
        if name == 'clip':
            return Builtin(name, lambda V, a, b: np_clip(V, o, a, b))
    elif isinstance(o, (Func, Bound)):
        if name in ('__name__', '__qualname__'):
            fn = o.func if isinstance(o, Bound) else o
            return getattr(getattr(fn, 'node', None), 'name', 'f')
        if name == 'cache_clear':
            return Builtin(name, lambda V: None)
        if name == '__self__' and isinstance(o, Bound):
            return o.self_
    elif isinstance(o, Obj):
        if name == '__dict__':
            raise Unsupported('__dict__')
        if o.cls.issub(_cls['Sequence']):
            if name == '__contains__':
                return Builtin(name, lambda V, x: _seq_contains(V, o, x))
            if name in ('index', 'count'):
                return Builtin(name, lambda V, x: TUPLE[name](V, seq_of(V, o), x))
    elif isinstance(o, IterV):
        if name == '__next__':
            return Builtin(name, lambda V: b_next(V, o))
    if f is None:
        return None
    return Builtin(name, lambda V, *a, **k: f(V, o, *a, **k))


def class_attr(V, c, name):
    if name == '__new__':
        return Builtin('object.__new__', lambda V, k, *a, **kw: V.mkobj(k))
    if name == '__init__':
        return Builtin('object.__init__', lambda V, *a, **k: None)
    if name == 'fromkeys' and c.name == 'dict':
        return Builtin(name, lambda V, ks, v=None: _dict_new(V, None, Seq.of([(k, v) for k in seq_of(V, ks).items])))
    if name == 'from_iterable':
        pass
    if c.name in ('list', 'set', 'dict', 'deque', 'str', 'tuple'):
        return Builtin(name, lambda V, o, *a, **k: V.call(builtin_attr(V, o, name), list(a), k))
    if c.name == 'float' and name == 'is_integer':
        return Builtin(name, lambda V, x: z3.IsInt(to_real(x)))
    if c.name == 'Fraction' and name == 'from_float':
        raise Unsupported('Fraction.from_float')
    V.throw('AttributeError', name)


def l_append(V, l, x):
    if isinstance(x, Arr):
        V.escapes(x)
    if l.maxlen is not None:
        full = ops.known(V, simp(Z(l.seq.n) >= Z(l.maxlen)))
        if full is None:
            full = V.decide(Z(l.seq.n) >= Z(l.maxlen))
        if full:
            if const_int(l.maxlen) == 0:
                return
            V.setseq(l, l.seq.slice(1, l.seq.n).append(x))
            return
    V.setseq(l, l.seq.append(x))


def l_appendleft(V, l, x):
    if l.maxlen is not None:
        if V.decide(simp(Z(l.seq.n) >= Z(l.maxlen))):
            V.setseq(l, l.seq.slice(0, Z(l.seq.n) - 1).prepend(x))
            return
    V.setseq(l, l.seq.prepend(x))


def l_extend(V, l, it):
    s = seq_of(V, it)
    if l.maxlen is not None:
        n = const_int(s.n)
        if n is None:
            raise Unsupported('extend of a bounded deque')
        for i in range(n):
            l_append(V, l, s[i])
        return
    V.setseq(l, l.seq.concat(s))


def l_extendleft(V, l, it):
    if l.maxlen is not None:
        raise Unsupported('extendleft of a bounded deque')
    V.setseq(l, seq_of(V, it).reverse().concat(l.seq))


def l_pop(V, l, i=None):
    n = l.seq.n
    if not V.decide(simp(Z(n) > 0)):
        V.throw('IndexError', 'pop from empty')
    if i is None:
        v = l.seq[(n - 1) if isinstance(n, int) else Z(n) - 1]
        V.setseq(l, l.seq.slice(0, (n - 1) if isinstance(n, int) else Z(n) - 1))
        return v
    k = ops.norm_index(V, i, n)
    v = l.seq[k]
    V.setseq(l, l.seq.slice(1, n) if const_int(k) == 0 else l.seq.delete(k))
    return v


def l_popleft(V, l):
    n = l.seq.n
    if not V.decide(simp(Z(n) > 0)):
        V.throw('IndexError', 'pop from an empty deque')
    v = l.seq[0]
    V.setseq(l, l.seq.slice(1, n))
    return v


def first_index(V, s, x):
    """Index of the first element equal to x (None if absent: raises ValueError)."""
    n = const_int(s.n)
    if n is not None:
        for i in range(n):
            if V.decide(eq(V, s[i], x)):
                return i
        V.throw('ValueError', 'not in list')
    from .engine import All
    j = z3.Int(fresh_name('idx'))
    if V.decide(V.exists(0, s.n, lambda i: eq(V, s[i], x))):
        V.assume(And(j >= 0, j < Z(s.n), eq(V, s[j], x)))
        V.assume(All((0, j), lambda i: Not(eq(V, s[i], x))))
        return j
    V.throw('ValueError', 'not in list')


def l_remove(V, l, x):
    j = first_index(V, l.seq, x)
    V.setseq(l, l.seq.delete(j))


def l_insert(V, l, i, x):
    n = l.seq.n
    k = ops.clamp_bound(V, i, n, 0)
    V.setseq(l, l.seq.insert(k, x))


def l_count(V, l, x):
    s = seq_of(V, l)
    n = const_int(s.n)
    if n is None:
        raise Unsupported('count')
    r = 0
    for i in range(n):
        e = eq(V, s[i], x)
        r = arith(V, 'add', r, ite(e, 1, 0) if not isinstance(e, bool) else int(e))
    return r


def l_sort(V, l, key=None, reverse=False):
    V.setseq(l, b_sorted(V, l, key, reverse).seq)


def l_rotate(V, l, k=1):
    s = l.seq
    n = const_int(s.n)
    c = const_int(k)
    if n is not None and c is not None:
        if n:
            c %= n
            V.setseq(l, Seq.of(s.items[n - c:] + s.items[:n - c]))
        return
    if V.decide(Z(s.n) == 0):
        return
    sh = ops.int_divmod(V, k, s.n)[1]
    V.setseq(l, Seq(s.n, lambda i: _cases(Z(i) < Z(sh), lambda: s[Z(i) - Z(sh) + Z(s.n)], lambda: s[Z(i) - Z(sh)]), None, s.kind))


LIST = {
    'append': l_append, 'appendleft': l_appendleft, 'extend': l_extend, 'extendleft': l_extendleft, 'pop': l_pop, 'popleft': l_popleft, 'remove': l_remove, 'insert': l_insert,
    'index': lambda V, l, x: first_index(V, l.seq, x), 'count': l_count, 'sort': l_sort, 'rotate': l_rotate,
    'clear': lambda V, l: V.setseq(l, Seq(0, None, [], l.seq.kind)),
    'reverse': lambda V, l: V.setseq(l, l.seq.reverse()),
    'copy': lambda V, l: V.mklist(l.seq, l.typ, l.maxlen),
    '__len__': lambda V, l: l.seq.n,
}
TUPLE = {'index': lambda V, t, x: first_index(V, seq_of(V, t), x), 'count': l_count}


def s_pop(V, s):
    if s.items is not None:
        if not s.items:
            V.throw('KeyError')
        V.unit.assumed.add('set.pop of concrete sets takes the first element')
        x = s.items[0]
        ops.set_remove(V, s, x)
        return x
    x = s.kind.fresh('popped')
    if not V.decide(truth(V, s)):
        V.throw('KeyError')
    V.assume(s.mem(x))
    ops.set_remove(V, s, x)
    return x


def s_update(V, s, *its):
    for it in its:
        if isinstance(it, SSet) and (it.items is None or s.items is None):
            r = ops.set_union(V, s, it)
            V.wrote(s, None, r.kind)
            s.items, s.mem, s.kind = r.items, r.mem, r.kind
            continue
        q = seq_of(V, it)
        n = const_int(q.n)
        if n is not None:
            for i in range(n):
                ops.set_add(V, s, q[i])
            continue
        r = ops.set_union(V, s, ops.set_of_seq(V, q))
        V.wrote(s, None, r.kind)
        s.items, s.mem, s.kind = r.items, r.mem, r.kind


SET = {
    'add': ops.set_add,
    'discard': lambda V, s, x: ops.set_remove(V, s, x),
    'remove': lambda V, s, x: ops.set_remove(V, s, x, True),
    'copy': lambda V, s: V.mkset(None if s.items is None else list(s.items), s.mem, s.kind),
    'clear': lambda V, s: _set_clear(V, s),
    'pop': s_pop,
    'update': s_update,
    'union': lambda V, s, *o: _set_op(V, ast.BitOr(), s, o),
    'intersection': lambda V, s, *o: _set_op(V, ast.BitAnd(), s, o),
    'difference': lambda V, s, *o: _set_op(V, ast.Sub(), s, o),
    'issubset': lambda V, s, o: cmp(V, 'le', s, _set_new(V, None, o)),
    'isdisjoint': lambda V, s, o: Not(truth(V, ops.binop(V, ast.BitAnd(), s, _set_new(V, None, o)))),
}


def _set_clear(V, s):
    V.wrote(s, None, s.kind)
    s.items, s.mem = [], None


def _set_op(V, op, s, others):
    for o in others:
        s = ops.binop(V, op, s, _set_new(V, None, o))
    return s


def d_get(V, d, k, default=None):
    if d.sym is not None:
        mem, get, kind = d.sym
        if V.decide(mem(k)):
            return get(k)
        return default
    for kk, v in d.items:
        e = ops.key_eq(V, kk, k)
        if e is False:
            continue
        if V.decide(e):
            return v
    return default


def d_pop(V, d, k, *default):
    if d.sym is not None:
        mem, get, kind = d.sym
        if V.decide(mem(k)):
            v = get(k)
            V.wrote(d, None, None)
            d.sym = (lambda x: And(Not(ops.key_eq(V, k, x)), mem(x)), get, kind)
            return v
        if default:
            return default[0]
        V.throw('KeyError', k)
    for j, (kk, v) in enumerate(d.items):
        e = ops.key_eq(V, kk, k)
        if e is False:
            continue
        if V.decide(e):
            V.wrote(d, None, None)
            d.items = d.items[:j] + d.items[j + 1:]
            return v
    if default:
        return default[0]
    V.throw('KeyError', k)


def d_setdefault(V, d, k, default=None):
    if V.decide(simp(ops.contains(V, d, k))):
        return V.getitem(d, k)
    V.setitem(d, k, default)
    return default


def d_update(V, d, x=None, **kw):
    fill_dict(V, d, x)
    for k, v in kw.items():
        V.setitem(d, k, v)


DICT = {
    'get': d_get, 'pop': d_pop, 'setdefault': d_setdefault, 'update': d_update,
    'keys': lambda V, d: dict_views(V, d, 'keys'),
    'values': lambda V, d: dict_views(V, d, 'values'),
    'items': lambda V, d: dict_views(V, d, 'items'),
    'copy': lambda V, d: V.mkdict(list(_conc(d)), d.default),
    'clear': lambda V, d: _d_clear(V, d),
}


def _d_clear(V, d):
    V.wrote(d, None, None)
    d.items, d.sym = [], None


def _conc(d):
    if d.sym is not None:
        raise Unsupported('iteration over a symbolic dict')
    return d.items


NTM = {
    '_replace': lambda V, o, **kw: V.throw('ValueError', 'unexpected field') if set(kw) - set(nt_fields(o.cls)) else NT(o.cls, [kw.get(f, v) for f, v in zip(nt_fields(o.cls), o.vals)]),
    '_asdict': lambda V, o: V.mkdict(list(zip(nt_fields(o.cls), o.vals))),
    'index': lambda V, o, x: first_index(V, Seq.of(o.vals), x),
    'count': l_count,
}


def str_attr(V, o, name):
    def m(V, *a, **k):
        args = []
        for x in a:
            if isinstance(x, (SList, tuple)):
                s = seq_of(V, x)
                if not s.concrete or not all(isinstance(y, str) for y in s.items):
                    return Opaque('text')
                args.append(list(s.items))
            elif isinstance(x, Opaque):
                return Opaque('text')
            elif isinstance(x, str):
                args.append(x)
            elif const_int(x) is not None:
                args.append(const_int(x))
            elif isinstance(x, Seq) and x.concrete:
                if not all(isinstance(y, str) for y in x.items):
                    return Opaque('text')
                args.append(x.items)
            else:
                return Opaque('text')
        if k:
            return Opaque('text')
        r = getattr(o, name)(*args)
        return V.mklist(r) if isinstance(r, list) else r
    if name in ('encode',):
        return Builtin(name, lambda V, *a: Opaque('bytes'))
    if hasattr(str, name):
        return Builtin(name, m)
    return None


# ---------------------------------------------------------------------------------------------- numpy arrays
def parse_dtype(V, d, default='float'):
    if d is None:
        return default
    if isinstance(d, ClassV):
        if d.name in ('int', 'float', 'bool'):
            return d.name
        if d.name == 'object':
            return 'obj'
    if isinstance(d, str):
        if d in ('float', 'int', 'bool') or d in ops.NARROW:
            return d
        if d in ('float64', 'int64'):
            return d[:-2]
        if d in ('object', 'O'):
            return 'obj'
    if isinstance(d, Builtin) and d.name.startswith('dtype:'):
        return d.name[6:]
    raise Unsupported('dtype %r' % (d,))


def asarray(V, x, dtype=None, copy=False):
    if isinstance(x, Arr):
        want = parse_dtype(V, dtype, x.dtype)
        if want != x.dtype:
            return astype(V, x, want)
        return V.track(x.copy()) if copy else x
    if is_num(x) or isinstance(x, FracV):
        want = parse_dtype(V, dtype, 'bool' if is_bool(x) else 'int' if is_int(x) else 'float')
        v = ops.coerce_assign(V, x, want)
        return V.mkarr((), lambda: v, want)
    s = seq_of(V, x)
    n = const_int(s.n)
    if n is None:
        kind = s.kind or kind_of(s[z3.Int(fresh_name('probe'))])
        dt = 'int' if type(kind) is KInt else 'float' if type(kind) is KReal else 'bool' if type(kind) is KBool else None
        if dt is None:
            if isinstance(kind, KTuple) and all(type(k) in (KInt, KReal) for k in kind.kinds):
                dt = 'int' if all(type(k) is KInt for k in kind.kinds) else 'float'
                want = parse_dtype(V, dtype, dt)
                return V.mkarr((s.n, len(kind.kinds)), lambda i, j: ops.coerce_assign(V, Seq.of(list(s[i]))[j], want), want)
            raise Unsupported('array of %r' % kind)
        want = parse_dtype(V, dtype, dt)
        return V.mkarr((s.n,), lambda i: ops.coerce_assign(V, s[i], want), want)
    items = [s[i] for i in range(n)]
    if not items:
        want = parse_dtype(V, dtype, 'float')
        return V.mkarr((0,), lambda i: z3.RealVal(0) if want == 'float' else 0, want)
    if all(is_num(v) or isinstance(v, FracV) for v in items):
        dt = 'bool' if all(is_bool(v) for v in items) else 'int' if all(is_int(v) or is_bool(v) for v in items) else 'float'
        want = parse_dtype(V, dtype, dt)
        seq = Seq.of([ops.coerce_assign(V, v, want) for v in items])
        return V.mkarr((n,), lambda i: seq[i], want)
    if all(isinstance(v, (Arr, SList, tuple)) for v in items):
        rows = [asarray(V, v) for v in items]
        nd = rows[0].ndim
        if any(r.ndim != nd for r in rows):
            raise Unsupported('ragged array')
        for r in rows[1:]:
            for a, b in zip(rows[0].shape, r.shape):
                same = True if (const_int(a) is not None and const_int(a) == const_int(b)) else ops.known(V, Z(a) == Z(b))
                if same is not True:
                    if not V.decide(Z(a) == Z(b)):
                        raise Unsupported('ragged array')
        dts = set(r.dtype for r in rows)
        dt = 'float' if 'float' in dts else 'int' if 'int' in dts else 'bool'
        want = parse_dtype(V, dtype, dt)
        accs = [(r.storage.get, r.imap) for r in rows]

        def get(i, *j):
            c = const_int(i)
            if c is not None:
                g, m = accs[min(max(c, 0), len(accs) - 1)]
                return ops.coerce_assign(V, g(*m(*j)), want)
            r = None
            for k in range(len(accs) - 1, -1, -1):
                g, m = accs[k]
                v = ops.coerce_assign(V, g(*m(*j)), want)
                r = v if r is None else ite(Z(i) == k, v, r)
            return r
        return V.mkarr((n,) + rows[0].shape, get, want)
    if dtype is not None and parse_dtype(V, dtype) == 'obj':
        pass
    raise Unsupported('array of %r' % (items[:3],))


def astype(V, a, want):
    if want == 'obj':
        raise Unsupported('object array')
    get, imap, src = a.storage.get, a.imap, a.dtype
    if want == src:
        return V.track(a.copy())
    return V.mkarr(a.shape, lambda *i: ops.coerce_assign(V, get(*imap(*i)), want), want)


def arr_size(V, a):
    n = 1
    for s in a.shape:
        n = arith(V, 'mul', n, s)
    return n


def np_reduce(V, a, what, axis=None, keepdims=False):
    a = asarray(V, a)
    if a.ndim == 0:
        return a.at()
    if axis is not None:
        ax = const_int(axis)
        ax = ax + a.ndim if ax < 0 else ax
        if a.ndim == 2:
            n = const_int(a.shape[ax])
            other = 1 - ax
            get, imap = a.storage.get, a.imap
            line = lambda j: (lambda i: get(*imap(*((i, j) if ax == 0 else (j, i)))))
            if n is not None and what in ('sum', 'mean'):
                def f(j):
                    r = z3.RealVal(0) if a.dtype == 'float' else 0
                    for i in range(n):
                        r = arith(V, 'add', r, line(j)(i))
                    return arith(V, 'truediv', r, n) if what == 'mean' else r
                return V.mkarr((a.shape[other],), f, 'float' if what == 'mean' else a.dtype)
            if what in ('sum', 'mean') and a.dtype in ('float', 'int'):
                S, m = line_sums(V, lambda i, j: line(j)(i), a.shape[ax], a.shape[other], a.dtype == 'float'), a.shape[ax]
                return V.mkarr((a.shape[other],), (lambda j: S(m, j)) if what == 'sum' else (lambda j: arith(V, 'truediv', S(m, j), m, np=True)),
                               'float' if what == 'mean' else a.dtype)
        elif a.ndim == 1 and ax == 0:
            return np_reduce(V, a, what)
        raise Unsupported('reduction along an axis')
    if a.ndim > 1:
        if what in ('any', 'all'):
            from .engine import All
            rng = [(0, s) for s in a.shape]
            if what == 'all':
                return V.formula(All(rng, lambda *i: truth(V, a.at(*i))))
            return Not(V.formula(All(rng, lambda *i: Not(truth(V, a.at(*i))))))
        if what in ('max', 'min'):
            from .engine import All
            m = a.storage.kind.fresh(what)
            w = [z3.Int(fresh_name('w')) for _ in a.shape]
            V.assume(And(*[And(x >= 0, x < Z(s)) for x, s in zip(w, a.shape)], a.at(*w) == m))
            V.assume(All([(0, s) for s in a.shape], lambda *i: (a.at(*i) <= m) if what == 'max' else (a.at(*i) >= m)))
            return m
        n = const_int(a.shape[0])
        if n is not None and what == 'sum':
            r = 0
            for i in range(n):
                r = arith(V, 'add', r, np_reduce(V, a.row(i), 'sum'))
            return r
        raise Unsupported('reduction of a matrix')
    s = a.seq()
    if what == 'sum':
        if a.dtype == 'bool':
            s = s.map(lambda v: to_int(v), KInt())
        n = const_int(s.n)
        if n is not None and n == 0:
            return z3.RealVal(0) if a.dtype == 'float' else 0
        return b_sum(V, s)
    if what == 'mean':
        return arith(V, 'truediv', np_reduce(V, a, 'sum'), a.shape[0], np=True)
    if what in ('max', 'min'):
        return _minmax(V, what, [s])
    if what in ('any', 'all'):
        return b_anyall(V, s, what == 'all')
    if what == 'cumsum':
        return np_cumsum(V, a)
    raise Unsupported('reduction ' + what)


def np_cumsum(V, a, axis=None):
    a = asarray(V, a)
    if a.ndim != 1:
        raise Unsupported('cumsum of a matrix')
    s = a.seq()
    n = const_int(s.n)
    if n is not None and n <= 16:
        out, acc = [], 0
        for i in range(n):
            acc = s[i] if i == 0 else arith(V, 'add', acc, s[i])
            out.append(acc)
        q = Seq.of(out)
        return V.mkarr((n,), lambda i: q[i], a.dtype)
    S = prefix_sum(V, s)
    return V.mkarr((s.n,), lambda i: S(Z(i) + 1), a.dtype)


def shape_of(V, x):
    if isinstance(x, (tuple, SList)):
        return tuple(to_int(v) for v in seq_of(V, x).items)
    if is_int(x):
        return (x,)
    if is_num(x):
        V.throw('TypeError', 'float shape')
    raise Unsupported('shape %r' % (x,))


def check_shape(V, sh):
    for s in sh:
        c = const_int(s)
        if c is not None:
            if c < 0:
                V.throw('ValueError', 'negative dimensions')
        elif V.decide(Z(s) < 0):
            V.throw('ValueError', 'negative dimensions')
    return sh


def np_full(V, shape, value, dtype=None):
    sh = check_shape(V, shape_of(V, shape))
    if isinstance(value, Arr):
        a = np_full(V, shape, 0, dtype or Builtin('dtype:' + value.dtype, None))
        ops.arr_write(V, a, value)
        return a
    dt = parse_dtype(V, dtype, 'bool' if is_bool(value) else 'int' if is_int(value) else 'float')
    v = ops.coerce_assign(V, value, dt)
    return V.mkarr(sh, lambda *i: v, dt)


def np_empty(V, shape, dtype=None):
    sh = check_shape(V, shape_of(V, shape))
    dt = parse_dtype(V, dtype)
    f = {'float': KReal(), 'int': KInt(), 'bool': KBool()}[dt].uf('uninit', max(1, len(sh)))
    return V.mkarr(sh, lambda *i: f(*(i or (0,))), dt)


def np_zeros(V, shape, dtype=None):
    dt = parse_dtype(V, dtype)
    z = {'float': z3.RealVal(0), 'int': 0, 'bool': False}[dt]
    sh = check_shape(V, shape_of(V, shape))
    return V.mkarr(sh, lambda *i: z, dt)


def np_arange(V, *a, dtype=None):
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if any(is_real(x) for x in (start, stop, step)):
        d = arith(V, 'truediv', arith(V, 'sub', stop, start), step)
        c = const_num(d)
        if c is not None:
            n = max(0, math.ceil(c))
        else:
            n = -z3.ToInt(-to_real(d))
            n = pick(V, n >= 0, n, 0)
        return V.mkarr((n,), lambda i: arith(V, 'add', to_real(start), arith(V, 'mul', step, i)), 'float')
    s = ops.range_seq(V, Range(start, stop, step))
    dt = parse_dtype(V, dtype, 'int')
    if const_int(start) == 0 and const_int(step) == 1:
        return V.mkarr((s.n,), lambda i: ops.coerce_assign(V, i, dt), dt)
    return V.mkarr((s.n,), lambda i: ops.coerce_assign(V, arith(V, 'add', start, arith(V, 'mul', step, i)), dt), dt)


def np_linspace(V, a, b, num=50, endpoint=True, dtype=None, retstep=False):
    ep = const_bool(endpoint)
    if ep is None:
        raise Unsupported('linspace endpoint')
    if is_real(num):
        V.throw('TypeError', 'num must be an integer')
    check_shape(V, (num,))
    if isinstance(a, Arr) or isinstance(b, Arr):
        raise Unsupported('linspace of arrays')
    a_, b_ = to_real(a), to_real(b)
    cn = const_int(num)
    div = arith(V, 'sub', num, 1) if ep else num
    if cn is not None:
        one = cn == 1 and ep
    else:
        one = V.decide(Z(num) == 1) if ep else False
    if one:
        r = V.mkarr((num,), lambda i: a_, 'float')
        step = z3.RealVal(0)
    else:
        if cn == 0:
            return V.mkarr((0,), lambda i: a_, 'float')
        step = arith(V, 'truediv', arith(V, 'sub', b_, a_), to_real(div), np=True)
        r = V.mkarr((num,), lambda i: arith(V, 'add', a_, arith(V, 'mul', to_real(i), step)), 'float')
    return (r, step) if retstep is True else r


def np_vstack(V, x):
    many = x if isinstance(x, Arr) else seq_of(V, x)
    if isinstance(many, Seq):
        if const_int(many.n) == 0:
            V.throw('ValueError', 'need at least one array to concatenate')
        first = many.kind if many.items is None else many.items[0] if many.items else None
        if isinstance(first, KArr) and len(first.shape) == 2 or isinstance(first, Arr) and first.ndim == 2:
            return np_concatenate(V, x)
    return asarray(V, x)


def np_concatenate(V, arrs, axis=0):
    ax = const_int(axis)
    many = seq_of(V, arrs)
    if many.items is None:
        if not isinstance(many.kind, KArr) or ax != 0:
            raise Unsupported('concatenation of a symbolic number of these')
        if V.decide(Z(many.n) == 0):
            V.throw('ValueError', 'need at least one array to concatenate')
        shape, m = many.kind.shape, const_int(many.kind.shape[0])
        if m is None or m <= 0:
            raise Unsupported('concatenation of arrays of symbolic length')
        return V.mkarr((arith(V, 'mul', many.n, m),) + shape[1:], lambda i, *j: many[ops.fold(Z(i) / m)].at(ops.fold(Z(i) % m), *j), many.kind.dtype)
    xs = [asarray(V, x) for x in many.items]
    if not xs:
        V.throw('ValueError', 'need at least one array to concatenate')
    if any(x.ndim == 0 for x in xs):
        V.throw('ValueError', 'zero-dimensional arrays cannot be concatenated')
    nd = xs[0].ndim
    if any(x.ndim != nd for x in xs):
        V.throw('ValueError', 'all the input array dimensions must match')
    ax = ax + nd if ax < 0 else ax
    dts = set(x.dtype for x in xs)
    dt = 'float' if 'float' in dts else 'int' if 'int' in dts else 'bool'
    accs = [(x.storage.get, x.imap, x.shape[ax]) for x in xs]
    offs, total = [], 0
    for x in xs:
        offs.append(total)
        total = arith(V, 'add', total, x.shape[ax])

    def get(*i):
        k = i[ax]

        def go(j):
            g, m, n = accs[j]
            val = lambda: ops.coerce_assign(V, g(*m(*(i[:ax] + (ops.fold(Z(k) - Z(offs[j])),) + i[ax + 1:]))), dt)
            if j == len(accs) - 1:
                return val()
            return _cases(simp(Z(k) < Z(offs[j + 1])), val, lambda: go(j + 1))
        return go(0)
    return V.mkarr(xs[0].shape[:ax] + (total,) + xs[0].shape[ax + 1:], get, dt)


def ufunc(V, name, x, f, dtype='float'):
    if isinstance(x, (SList, tuple)):
        x = asarray(V, x)
    if isinstance(x, Arr):
        return ops.elementwise(V, f, dtype if dtype != 'same' else x.dtype, x)
    return f(x)


UFS = {n: z3.Function(n.upper(), R, R) for n in ('sin', 'cos', 'tan', 'exp', 'log', 'log2', 'log10', 'tanh', 'sqrt', 'arctan')}


def PI(V):
    p = z3.Real('PI')
    if not V.pi_done:
        V.pi_done = True
        V.axiom(z3.And(p > Z(Fraction(31415926, 10 ** 7)), p < Z(Fraction(31415927, 10 ** 7))))
    return p


def real_fn(V, name, x, np=False):
    f = UFS[name]
    t = to_real(x)
    y = f(t)
    A = V.axiom
    V.unit.assumed.add('real functions (%s) by their defining inequalities' % name)
    if name in ('sin', 'cos'):
        s, c = UFS['sin'](t), UFS['cos'](t)
        A(z3.And(y >= -1, y <= 1))
        A(s * s + c * c == 1)
        p = PI(V)
        A(z3.Implies(t == p / 4, z3.And(s == c, s > Z(Fraction(7, 10)), s < Z(Fraction(71, 100)))))
        A(z3.Implies(t == 0, z3.And(s == 0, c == 1)))
        A(z3.Implies(t == p / 2, z3.And(s == 1, c == 0)))
        A(z3.Implies(z3.And(t > 0, t < p / 2), z3.And(s > 0, c > 0)))
        z = const_num(t)
        if z == 0:
            return z3.RealVal(0 if name == 'sin' else 1)
    elif name == 'tanh':
        A(z3.And(y > -1, y < 1))
        A(z3.Implies(t >= 0, y >= 0))
        A(z3.Implies(t <= 0, y <= 0))
    elif name == 'exp':
        A(y > 0)
        A(z3.Implies(t <= 0, y <= 1))
        A(z3.Implies(t >= 0, y >= 1))
        A(z3.Implies(t < 0, y < 1))
        A(z3.Implies(t > 0, y > 1))
    elif name == 'sqrt':
        c = const_num(x)
        if c is not None and c >= 0:
            r = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
                return Z(Fraction(r[0], r[1]))
        if not np and c is None and V.decide(t < 0):
            V.throw('ValueError', 'math domain error')
        A(z3.Implies(t >= 0, z3.And(y >= 0, y * y == t)))
    elif name.startswith('log'):
        c = const_num(x)
        if c is not None and c <= 0 and not np:
            V.throw('ValueError', 'math domain error')
        if c is None and not np and V.decide(t <= 0):
            V.throw('ValueError', 'math domain error')
        if c is not None and name == 'log2' and c.denominator == 1 and c.numerator & (c.numerator - 1) == 0:
            return z3.RealVal(c.numerator.bit_length() - 1)
        if name == 'log2':
            A(z3.Implies(t > 0, ops.RPOW(z3.RealVal(2), y) == t))
        A(z3.Implies(t == 1, y == 0))
        A(z3.Implies(t > 1, y > 0))
        A(z3.Implies(z3.And(t > 0, t < 1), y < 0))
    return y


def np_divmod(V, a, b):
    a, b = ops.as_operand(V, a), ops.as_operand(V, b)
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        if is_real(a) or is_real(b):
            q, r = ops.real_divmod(V, a, b, np=True)
            return to_real(q), r
        return ops.int_divmod(V, a, b, np=True)
    return ops.arr_binop(V, 'floordiv', a, b), ops.arr_binop(V, 'mod', a, b)


def np_where(V, c, *ab):
    c = asarray(V, c)
    if not ab:
        return np_nonzero(V, c)
    a, b = ops.as_operand(V, ab[0]), ops.as_operand(V, ab[1])
    dt = ops.out_dtype('add', a, b)
    return ops.elementwise(V, lambda k, x, y: If(simp(truth(V, k)), ops.coerce_elem(x, dt), ops.coerce_elem(y, dt)), dt, c, a, b)


def np_minimum(V, a, b, op):
    a, b = ops.as_operand(V, a), ops.as_operand(V, b)
    dt = ops.out_dtype('add', a, b)

    def f(x, y):
        c = ops.num_cmp(op, x, y)
        return If(simp(c) if not isinstance(c, bool) else c, ops.coerce_elem(x, dt), ops.coerce_elem(y, dt))
    return ops.elementwise(V, f, dt, a, b)


def np_clip(V, x, lo, hi, out=None):
    r = x
    if lo is not None:
        r = np_minimum(V, r, lo, 'ge')
    if hi is not None:
        r = np_minimum(V, r, hi, 'le')
    if out is not None:
        ops.arr_write(V, out, r)
        return out
    return r


def np_searchsorted(V, a, v, side='left', sorter=None):
    """First index whose element is not below (left) / is above (right) v; the array has to be sorted."""
    from .engine import All
    a = asarray(V, a)
    if sorter is not None or a.ndim != 1 or not is_num(v):
        raise Unsupported('searchsorted')
    n, v = Z(a.shape[0]), to_real(v)
    V.check('searchsorted: the array is sorted', All((0, n - 1), lambda i: to_real(a.at(i)) <= to_real(a.at(i + 1)), pat=lambda i: a.at(i + 1)), assume_after=False)
    k = z3.Int(fresh_name('found'))
    V.assume(And(0 <= k, k <= n))
    below = (lambda x: to_real(x) < v) if side == 'left' else (lambda x: to_real(x) <= v)
    V.assume(Implies(k > 0, below(a.at(k - 1))))
    V.assume(Implies(k < n, z3.Not(below(a.at(k)))))
    return k


def np_repeat(V, a, reps, axis=None):
    a = asarray(V, a)
    if a.ndim == 0:
        return np_full(V, reps, a.at())
    if a.ndim == 2 and axis is not None and const_int(axis) in (-1, 1) and not isinstance(reps, (Arr, SList)):
        g, m = a.storage.get, a.imap
        n = arith(V, 'mul', a.shape[1], reps)
        return V.mkarr((a.shape[0], n), lambda j, i: g(*m(j, ops.int_divmod(V, i, reps, np=True)[0])), a.dtype)
    if a.ndim != 1 or isinstance(reps, (Arr, SList)):
        raise Unsupported('np.repeat')
    g, m = a.storage.get, a.imap
    n = arith(V, 'mul', a.shape[0], reps)
    return V.mkarr((n,), lambda i: g(*m(ops.int_divmod(V, i, reps, np=True)[0])), a.dtype)


def np_roll(V, a, shift):
    k = shift
    a = asarray(V, a)
    if a.ndim != 1:
        raise Unsupported('np.roll')
    g, m, n = a.storage.get, a.imap, a.shape[0]
    return V.mkarr((n,), lambda i: g(*m(ops.int_divmod(V, arith(V, 'sub', i, k), n, np=True)[1])), a.dtype)


def np_diff(V, a, prepend=None, append=None):
    a = asarray(V, a)
    if prepend is not None or append is not None:
        a = np_concatenate(V, tuple(([np_atleast(V, prepend, 1)] if prepend is not None else []) + [a] + ([np_atleast(V, append, 1)] if append is not None else [])))
    g, m = a.storage.get, a.imap
    return V.mkarr((arith(V, 'sub', a.shape[0], 1),), lambda i: arith(V, 'sub', g(*m(arith(V, 'add', i, 1))), g(*m(i))), a.dtype)


def np_sort(V, a):
    a = asarray(V, a)
    if a.ndim != 1:
        raise Unsupported('np.sort')
    s = b_sorted(V, a.seq()).seq
    return V.mkarr((a.shape[0],), lambda i: s[i], a.dtype)


def np_unique(V, a):
    a = asarray(V, a)
    if a.ndim != 1:
        raise Unsupported('np.unique')
    n = const_int(a.shape[0])
    vals = None if n is None else [const_int(simp(Z(a.at(i)))) for i in range(n)]
    if vals is None or any(v is None for v in vals):
        raise Unsupported('np.unique of unknown values')
    vals = sorted(set(vals))
    return asarray(V, V.mklist([Z(v) for v in vals])) if vals else V.mkarr((0,), lambda i: z3.IntVal(0), a.dtype)


def np_solve(V, A, b):
    A, b = asarray(V, A), asarray(V, b)
    if [const_int(x) for x in A.shape] != [2, 2]:
        raise Unsupported('linalg.solve')
    a11, a12, a21, a22 = [to_real(A.at(i, j)) for i in (0, 1) for j in (0, 1)]
    b1, b2 = to_real(b.at(0)), to_real(b.at(1))
    mul, sub = lambda x, y: arith(V, 'mul', x, y), lambda x, y: arith(V, 'sub', x, y)
    det = sub(mul(a11, a22), mul(a12, a21))
    if V.decide(simp(to_real(det) == 0)):
        V.throw('LinAlgError', 'Singular matrix')
    x = arith(V, 'truediv', sub(mul(b1, a22), mul(a12, b2)), det, np=True)
    y = arith(V, 'truediv', sub(mul(a11, b2), mul(b1, a21)), det, np=True)
    s = Seq.of([x, y])
    return V.mkarr((2,), lambda i: s[i], 'float')


def np_random(V, size=None):
    if size is None:
        x = z3.Real(fresh_name('rnd'))
        V.assume(z3.And(x >= 0, x < 1))
        return x
    sh = shape_of(V, size)
    f = KReal().uf('rnd', len(sh))
    from .engine import All
    V.assume(All([(0, s) for s in sh], lambda *i: And(f(*i) >= 0, f(*i) < 1)))
    return V.mkarr(sh, f, 'float')


def np_randint(V, lo, hi=None, size=None):
    if hi is None:
        lo, hi = 0, lo
    if size is None:
        x = z3.Int(fresh_name('rnd'))
        V.assume(z3.And(x >= Z(lo), x < Z(hi)))
        return x
    sh = shape_of(V, size)
    f = KInt().uf('rnd', len(sh))
    from .engine import All
    V.assume(All([(0, s) for s in sh], lambda *i: And(f(*i) >= Z(lo), f(*i) < Z(hi))))
    return V.mkarr(sh, f, 'int')


def np_atleast(V, x, d):
    a = asarray(V, x)
    if a.ndim >= d:
        return a
    if a.ndim == 0:
        v = a.at()
        return V.mkarr((1,) * d, lambda *i: v, a.dtype)
    g, m = a.storage, a.imap
    return Arr(a.storage, (1,) + a.shape, lambda i, *j: m(*j), a.dtype, a.readonly)


def np_like(V, a, value, dtype=None):
    a = asarray(V, a)
    dt = parse_dtype(V, dtype, a.dtype)
    v = ops.coerce_assign(V, value, dt) if value is not None else None
    if value is None:
        return np_empty(V, a.shape, Builtin('dtype:' + dt, None))
    return V.mkarr(a.shape, lambda *i: v, dt)


def np_interp(V, x, xp, fp, left=None, right=None, *a, **k):
    """Linear interpolation; the grid must be provably increasing (numpy does not check)."""
    grid = V.seq_of(xp) if isinstance(xp, (SList, tuple)) else None
    if grid is not None and grid.items is not None and 2 <= len(grid.items) <= 6 and not a and not k:
        xs, fs, q = [to_real(v) for v in grid.items], [to_real(v) for v in V.seq_of(fp).items], asarray(V, x)
        if len(xs) != len(fs):
            V.throw('ValueError', 'fp and xp')
        if V.solve(z3.Not(z3.And(*[c <= d for c, d in zip(xs, xs[1:])])))[0] != 'unsat':
            raise Unsupported('np.interp on a grid not known to increase')
        left, right = (fs[0] if left is None else to_real(left)), (fs[-1] if right is None else to_real(right))

        def value(t):
            r = z3.If(t == xs[-1], fs[-1], right)
            for j in range(len(xs) - 2, -1, -1):
                r = z3.If(t < xs[j + 1], fs[j] + (t - xs[j]) * (fs[j + 1] - fs[j]) / (xs[j + 1] - xs[j]), r)
            return z3.If(t < xs[0], left, r)
        get, im = q.storage.get, q.imap
        return V.mkarr(q.shape, lambda *i: value(to_real(get(*im(*i)))), 'float')
    if left is not None or right is not None:
        raise Unsupported('np.interp options')
    if a or k:
        raise Unsupported('np.interp options')
    x, xp, fp = (asarray(V, q) for q in (x, xp, fp))
    if len(x.shape) != 1 or len(xp.shape) != 1 or len(fp.shape) != 1:
        raise Unsupported('np.interp of this shape')
    n, m = Z(xp.shape[0]), Z(x.shape[0])
    if V.decide(simp(Z(fp.shape[0]) != n)) or V.decide(simp(n == 0)):
        V.throw('ValueError', 'fp and xp')
    X, XP, FP = (lambda i: to_real(x.at(i))), (lambda i: to_real(xp.at(i))), (lambda i: to_real(fp.at(i)))
    i_ = z3.Int(fresh_name('interp_i'))
    if V.solve(z3.Not(V.merged(lambda: Z(V.formula(z3.Implies(z3.And(i_ >= 0, i_ < n - 1), XP(i_) < XP(i_ + 1)))))))[0] != 'unsat':
        raise Unsupported('np.interp on a grid not known to increase')
    R = z3.Function(fresh_name('interp'), z3.IntSort(), z3.RealSort())
    J = z3.Function(fresh_name('interp_cell'), z3.IntSort(), z3.IntSort())

    def fact(i):
        j = J(i)
        inside = z3.And(X(i) > XP(0), X(i) < XP(n - 1))
        return z3.And(z3.Implies(X(i) <= XP(0), R(i) == FP(0)), z3.Implies(X(i) >= XP(n - 1), R(i) == FP(n - 1)),
                      z3.Implies(inside, z3.And(j >= 0, j < n - 1, XP(j) <= X(i), X(i) < XP(j + 1),
                                                R(i) == FP(j) + (X(i) - XP(j)) * (FP(j + 1) - FP(j)) / (XP(j + 1) - XP(j)))))
    from .engine import All
    V.assume(All((0, m), fact, pat=lambda i: R(i)))
    return V.mkarr((x.shape[0],), lambda i: R(Z(i)), 'float')


def np_stack(V, arrs, axis=0):
    items = list(seq_of(V, arrs).items)
    a = asarray(V, V.mklist(items))
    if const_int(axis) == 0:
        return a
    return transpose(V, a)


def transpose(V, a):
    m = a.imap
    return Arr(a.storage, tuple(reversed(a.shape)), lambda *i: m(*reversed(i)), a.dtype, a.readonly)


def np_array_split(V, *a):
    raise Unsupported('array_split')


class RIndexer:
    pass


def np_binary(op):
    def f(V, a, b, out=None):
        a, b = ops.as_operand(V, a), ops.as_operand(V, b)
        r = ops.arr_binop(V, op, a, b)
        if out is not None:
            ops.arr_write(V, out, r)
            return out
        return r
    return f


def np_cmp(op):
    return lambda V, a, b: cmp(V, op, a, b)


def np_allclose(V, a, b, **k):
    raise Unsupported('np.allclose')


def np_where1(V, *a):
    return np_where(V, *a)


def np_nonzero(V, a):
    a = asarray(V, a)
    if a.ndim != 1:
        raise Unsupported('nonzero of %d dimensions' % a.ndim)
    c = const_int(a.shape[0])
    nz = lambda i: truth(V, a.at(i))
    if c is not None and c <= 16:
        hits = [i for i in range(c) if V.decide(nz(i))]
        return (V.mkarr((len(hits),), lambda i, q=Seq.of(hits): q[i], 'int'),)
    from .engine import All
    get, im, n = a.storage.get, a.imap, a.shape[0]
    nz = lambda i: simp(get(*im(i)) != 0) if a.dtype != 'bool' else get(*im(i))
    m = z3.Int(fresh_name('nonzero.len'))
    at, pos = KInt().uf('nonzero'), KInt().uf('nonzero.pos')
    V.assume(And(m >= 0, m <= Z(n)))
    V.assume(All((0, m), lambda i: And(at(i) >= 0, at(i) < Z(n), nz(at(i)), pos(at(i)) == i), pat=lambda i: at(i)))
    V.assume(All([(0, m), (0, m)], lambda i, j: Implies(i < j, at(i) < at(j)), pat=lambda i, j: [[at(i), at(j)]]))
    V.assume(All((0, n), lambda x: Implies(nz(x), And(pos(x) >= 0, pos(x) < m, at(pos(x)) == x)), pat=lambda x: [p for p in [Z(get(*im(x)))] if is_z3(p) and z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED] or [pos(x)]))
    return (V.mkarr((m,), lambda i: at(i), 'int'),)


def np_copyto(V, dst, src):
    ops.arr_write(V, dst, src)


def np_issubdtype(V, d, t):
    d = parse_dtype(V, d)
    if isinstance(t, ClassV) and t.name == 'int':
        return d == 'int' or d in ops.NARROW
    if isinstance(t, ClassV) and t.name == 'float':
        return d == 'float'
    raise Unsupported('np.issubdtype')


def np_iinfo(V, d):
    d = parse_dtype(V, d)
    if d == 'int':
        lo, hi = -2 ** 63, 2 ** 63 - 1
    elif d in ops.NARROW:
        lo, hi = ops.NARROW[d]
    else:
        V.throw('ValueError', 'Invalid integer data type')
    return V.mkobj(_cls['object'], min=lo, max=hi, bits=(hi - lo + 1).bit_length() - 1)


def lfilter(V, b, a, x, axis=-1, zi=None):
    """First order scipy.signal.lfilter: y[i] = b0 x[i] + z[i]; z[i+1] = b1 x[i] - a1 y[i] (a0 = 1)."""
    from .engine import All
    b, a, x = asarray(V, b), asarray(V, a), asarray(V, x)
    lb, la = const_int(b.shape[0]), const_int(a.shape[0])
    if zi is None or x.ndim != 1 or lb not in (1, 2) or la not in (1, 2) or max(la, lb) != 2:
        raise Unsupported('scipy.signal.lfilter')
    zi = asarray(V, zi)
    V.unit.assumed.add('scipy.signal.lfilter: first order difference equation')
    V.check('lfilter: leading coefficient is 1', to_real(a.at(0)) == 1)
    if const_int(zi.shape[0]) != 1:
        V.throw('ValueError', 'zi')
    b0, b1, a1 = to_real(b.at(0)), to_real(b.at(1)) if lb == 2 else z3.RealVal(0), to_real(a.at(1)) if la == 2 else z3.RealVal(0)
    y, z = KReal().uf('lfilter', 1), KReal().uf('lfilter_z', 1)
    n = Z(x.shape[0])
    V.assume(z(0) == to_real(zi.at(0)))
    step = lambda i: And(y(i) == b0 * to_real(x.at(i)) + z(i), z(i + 1) == b1 * to_real(x.at(i)) - a1 * y(i))
    V.assume(All((0, n), step, pat=lambda i: y(i)))
    V.ghost['lfilter'] = (y, lambda i: V.axiom(Implies(And(0 <= Z(i), Z(i) < n), step(Z(i)))), a1, x)
    return (V.mkarr((x.shape[0],), lambda i: y(i), 'float'), V.mkarr((1,), lambda i: z(n), 'float'))


NP = {
    'zeros': np_zeros, 'ones': lambda V, s, dtype=None: np_full(V, s, 1, dtype or _cls['float']), 'full': np_full, 'empty': np_empty,
    'arange': np_arange, 'linspace': np_linspace, 'concatenate': np_concatenate, 'hstack': np_concatenate,
    'asarray': lambda V, x, dtype=None: asarray(V, x, dtype), 'array': lambda V, x, dtype=None, copy=True: asarray(V, x, dtype, True),
    'ascontiguousarray': lambda V, x, dtype=None: asarray(V, x, dtype),
    'sin': lambda V, x: ufunc(V, 'sin', x, lambda v: real_fn(V, 'sin', v, True)),
    'cos': lambda V, x: ufunc(V, 'cos', x, lambda v: real_fn(V, 'cos', v, True)),
    'exp': lambda V, x: ufunc(V, 'exp', x, lambda v: real_fn(V, 'exp', v, True)),
    'tanh': lambda V, x: ufunc(V, 'tanh', x, lambda v: real_fn(V, 'tanh', v, True)),
    'sqrt': lambda V, x: ufunc(V, 'sqrt', x, lambda v: real_fn(V, 'sqrt', v, True)),
    'log': lambda V, x: ufunc(V, 'log', x, lambda v: real_fn(V, 'log', v, True)),
    'log2': lambda V, x: ufunc(V, 'log2', x, lambda v: real_fn(V, 'log2', v, True)),
    'log10': lambda V, x: ufunc(V, 'log10', x, lambda v: real_fn(V, 'log10', v, True)),
    'abs': b_abs, 'absolute': b_abs, 'fabs': b_abs,
    'floor': lambda V, x: ufunc(V, 'floor', x, lambda v: to_real(ops.floor(V, v))),
    'ceil': lambda V, x: ufunc(V, 'ceil', x, lambda v: to_real(arith(V, 'mul', -1, ops.floor(V, ops.neg(V, v))))),
    'round': lambda V, x: ufunc(V, 'round', x, lambda v: to_real(b_round(V, v))),
    'sign': lambda V, x: ufunc(V, 'sign', x, lambda v: z3.If(to_real(v) > 0, z3.RealVal(1), z3.If(to_real(v) < 0, z3.RealVal(-1), z3.RealVal(0)))),
    'mod': np_binary('mod'), 'remainder': np_binary('mod'), 'add': np_binary('add'), 'subtract': np_binary('sub'), 'multiply': np_binary('mul'),
    'divide': np_binary('truediv'), 'true_divide': np_binary('truediv'), 'floor_divide': np_binary('floordiv'), 'power': np_binary('pow'),
    'divmod': np_divmod, 'where': np_where, 'clip': np_clip, 'searchsorted': np_searchsorted,
    'minimum': lambda V, a, b: np_minimum(V, a, b, 'le'), 'maximum': lambda V, a, b: np_minimum(V, a, b, 'ge'),
    'nonzero': np_nonzero, 'flatnonzero': lambda V, a: np_nonzero(V, a)[0],
    'cumsum': np_cumsum, 'sum': lambda V, a, axis=None: np_reduce(V, a, 'sum', axis), 'mean': lambda V, a, axis=None: np_reduce(V, a, 'mean', axis),
    'max': lambda V, a, axis=None: np_reduce(V, a, 'max', axis), 'min': lambda V, a, axis=None: np_reduce(V, a, 'min', axis),
    'amax': lambda V, a, axis=None: np_reduce(V, a, 'max', axis), 'amin': lambda V, a, axis=None: np_reduce(V, a, 'min', axis),
    'any': lambda V, a: np_reduce(V, a, 'any'), 'all': lambda V, a: np_reduce(V, a, 'all'),
    'repeat': np_repeat, 'roll': np_roll, 'diff': np_diff, 'sort': np_sort, 'interp': np_interp,
    'atleast_1d': lambda V, x: np_atleast(V, x, 1), 'atleast_2d': lambda V, x: np_atleast(V, x, 2),
    'ndim': lambda V, x: asarray(V, x).ndim, 'shape': lambda V, x: asarray(V, x).shape, 'size': lambda V, x: arr_size(V, asarray(V, x)),
    'zeros_like': lambda V, a, dtype=None: np_like(V, a, 0, dtype), 'ones_like': lambda V, a, dtype=None: np_like(V, a, 1, dtype),
    'empty_like': lambda V, a, dtype=None: np_like(V, a, None, dtype), 'full_like': lambda V, a, v, dtype=None: np_like(V, a, v, dtype),
    'unique': np_unique, 'stack': np_stack, 'vstack': lambda V, x: np_vstack(V, x), 'column_stack': lambda V, x: transpose(V, asarray(V, x)),
    'transpose': lambda V, a: transpose(V, asarray(V, a)), 'copy': lambda V, a: V.track(asarray(V, a).copy()), 'copyto': np_copyto,
    'squeeze': lambda V, a: arr_squeeze(V, asarray(V, a)),
    'isscalar': lambda V, x: is_num(x) or isinstance(x, FracV),
    'less': np_cmp('lt'), 'greater': np_cmp('gt'), 'equal': np_cmp('eq'),
    'gcd': lambda V, a, b: m_gcd(V, a, b), 'issubdtype': np_issubdtype, 'iinfo': np_iinfo,
    'flip': lambda V, a: ops.arr_getitem(V, asarray(V, a), slice(None, None, -1)),
}


def arr_squeeze(V, a):
    keep = [k for k, s in enumerate(a.shape) if const_int(s) != 1]
    if len(keep) == a.ndim:
        return a
    if any(const_int(a.shape[k]) is None for k in keep):
        V.unit.assumed.add('squeeze: symbolic dimensions are not 1')
    m, nd = a.imap, a.ndim

    def im(*i):
        full = [0] * nd
        for k, x in zip(keep, i):
            full[k] = x
        return m(*full)
    return Arr(a.storage, tuple(a.shape[k] for k in keep), im, a.dtype, a.readonly)


def arr_reshape(V, a, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, SList)):
        shape = tuple(seq_of(V, shape[0]).items)
    total = arr_size(V, a)
    if any(const_int(s) == -1 for s in shape):
        known_ = 1
        for s in shape:
            if const_int(s) != -1:
                known_ = arith(V, 'mul', known_, s)
        if const_int(known_) == 1:
            rest = total
        else:
            rest, r = ops.int_divmod(V, total, known_)
            if not V.decide(simp(Z(r) == 0)):
                V.throw('ValueError', 'cannot reshape')
        shape = tuple(rest if const_int(s) == -1 else s for s in shape)
    else:
        t2 = 1
        for s in shape:
            t2 = arith(V, 'mul', t2, s)
        if not V.decide(simp(Z(t2) == Z(total))):
            V.throw('ValueError', 'cannot reshape')
    if a.ndim == 1 and len(shape) == 2:
        m, w = a.imap, shape[1]
        return Arr(a.storage, shape, lambda i, j: m(ops.fold(arith(V, 'add', arith(V, 'mul', i, w), j))), a.dtype, a.readonly)
    if a.ndim == 2 and len(shape) == 1:
        m, w = a.imap, a.shape[1]

        def im(i):
            q, r = ops.int_divmod(V, i, w, np=True)
            return m(q, r)
        return Arr(a.storage, shape, im, a.dtype, a.readonly)
    if len(shape) == a.ndim == 1:
        return a
    raise Unsupported('reshape')


def arr_attr(V, o, name):
    if name == 'shape':
        return tuple(o.shape)
    if name == 'ndim':
        return o.ndim
    if name == 'size':
        return arr_size(V, o)
    if name == 'T':
        return transpose(V, o)
    if name == 'dtype':
        return Builtin('dtype:' + o.dtype, None)
    if name == 'flags':
        return Opaque('flags')
    if name == 'data':
        # the elements in memory order, which is only known to be their C order for arrays laid out so
        return arr_bytes(V, o) if getattr(o, 'c_order', False) else Opaque('memory of the array')
    f = ARRM.get(name)
    if f is None:
        raise Unsupported('array attribute ' + name)
    return Builtin(name, lambda V, *a, **k: f(V, o, *a, **k))


def arr_iter_list(V, o):
    return V.mklist(o.seq() if o.ndim == 1 else Seq.of([arr_iter_list(V, o.row(i)) for i in range(const_int(o.shape[0]))]))


def arr_setflags(V, o, write=None):
    """Only write=False (for this array object and views taken of it later)."""
    if write is not False:
        raise Unsupported('setflags')
    o.readonly = True


ARRM = {
    'copy': lambda V, o: V.track(o.copy()),
    'astype': lambda V, o, d, **k: astype(V, o, parse_dtype(V, d)),
    'setflags': lambda V, o, **k: arr_setflags(V, o, **k),
    'sum': lambda V, o, axis=None: np_reduce(V, o, 'sum', axis), 'mean': lambda V, o, axis=None: np_reduce(V, o, 'mean', axis),
    'max': lambda V, o, axis=None: np_reduce(V, o, 'max', axis), 'min': lambda V, o, axis=None: np_reduce(V, o, 'min', axis),
    'any': lambda V, o: np_reduce(V, o, 'any'), 'all': lambda V, o: np_reduce(V, o, 'all'),
    'cumsum': lambda V, o: np_cumsum(V, o),
    'nonzero': lambda V, o: np_nonzero(V, o),
    'reshape': arr_reshape, 'tolist': arr_iter_list,
    'ravel': lambda V, o: o if o.ndim == 1 else arr_reshape(V, o, -1), 'flatten': lambda V, o: V.track((o if o.ndim == 1 else arr_reshape(V, o, -1)).copy()),
    'squeeze': lambda V, o: arr_squeeze(V, o),
    'fill': lambda V, o, v: ops.arr_write(V, o, v),
    'clip': lambda V, o, a, b: np_clip(V, o, a, b),
    'repeat': lambda V, o, n: np_repeat(V, o, n),
    'item': lambda V, o: o.at(*[0] * o.ndim),
    'transpose': lambda V, o: transpose(V, o),
    'setflags': lambda V, o, write=None: None,
    'tobytes': lambda V, o, order='C': arr_bytes(V, o) if order == 'C' else Opaque('bytes'),
    'round': lambda V, o: NP['round'](V, o),
}


# ---------------------------------------------------------------------------------------------- other libraries
GCD = z3.Function('GCD', I, I, I)
GCDA = z3.Function('GCD_COFACTOR', I, I, I)


def m_gcd(V, a, b):
    ca, cb = const_int(a), const_int(b)
    if ca is not None and cb is not None:
        return math.gcd(ca, cb)
    a, b = Z(to_int(a)), Z(to_int(b))
    g = GCD(a, b)
    V.axiom(g >= 0)
    V.axiom(z3.Implies(z3.Or(a != 0, b != 0), g >= 1))
    V.axiom(a == g * GCDA(a, b))
    V.axiom(b == g * GCDA(b, a))
    V.axiom(GCD(b, a) == g)
    V.axiom(z3.Implies(a == 0, g == z3.If(b >= 0, b, -b)))
    V.axiom(z3.Implies(b == 0, g == z3.If(a >= 0, a, -a)))
    V.axiom(z3.Implies(b > 0, g <= b))
    V.axiom(z3.Implies(a > 0, g <= a))
    V.unit.assumed.add('math.gcd: divides both arguments, positive unless both are 0')
    return g


def m_ceil(V, x):
    if isinstance(x, FracV):
        x = x.real
    c = const_num(x)
    if c is not None:
        return math.ceil(c)
    if is_int(x):
        return x
    return -z3.ToInt(-to_real(x))


def m_floor(V, x):
    if isinstance(x, FracV):
        x = x.real
    return ops.floor(V, x)


def m_copysign(V, a, b):
    a = absv(V, to_real(a))
    if const_num(b) is not None:
        return a if const_num(b) >= 0 else ops.neg(V, a)
    return z3.If(to_real(b) >= 0, a, -a)


MATH = {
    'gcd': m_gcd, 'ceil': m_ceil, 'floor': m_floor, 'copysign': m_copysign,
    'trunc': lambda V, x: ops.trunc(V, to_real(x)), 'fabs': lambda V, x: absv(V, to_real(x)),
    'isclose': lambda V, *a, **k: _unsup('math.isclose'),
    'fmod': lambda V, a, b: _unsup('fmod'),
    'pow': lambda V, a, b: arith(V, 'pow', to_real(a), b),
    'isinf': lambda V, x: to_real(x) == inf(V), 'isqrt': lambda V, x: _isqrt(V, x),
}
for _f in ('sin', 'cos', 'tan', 'exp', 'log2', 'log10', 'tanh', 'sqrt'):
    MATH[_f] = (lambda n: lambda V, x: real_fn(V, n, x))(_f)
MATH['log'] = lambda V, x, b=None: real_fn(V, 'log', x) if b is None else (real_fn(V, 'log2', x) if const_int(b) == 2 else _unsup('log base'))


def _isqrt(V, x):
    c = const_int(x)
    if c is not None:
        return math.isqrt(c)
    if V.decide(Z(x) < 0):
        V.throw('ValueError')
    r = z3.Int(fresh_name('isqrt'))
    V.assume(z3.And(r >= 0, r * r <= Z(x), (r + 1) * (r + 1) > Z(x)))
    return r


def _unsup(what):
    raise Unsupported(what)


def sorted_obligation(V, seq, what):
    from .engine import All
    n = const_int(seq.n)
    if n is not None:
        for i in range(n - 1):
            V.check('%s: argument is sorted' % what, cmp(V, 'le', seq[i], seq[i + 1]))
        return
    V.check('%s: argument is sorted' % what, All([(0, seq.n), (0, seq.n)], lambda i, j: Implies(i < j, cmp(V, 'le', seq[i], seq[j]))), assume_after=False)


def bisect_pos(V, seq, x, right=True, lo=None, hi=None):
    from .engine import All
    if lo is not None or hi is not None:
        raise Unsupported('bisect with bounds')
    sorted_obligation(V, seq, 'bisect')
    n = const_int(seq.n)
    if n is not None and n <= 16:
        for i in range(n):
            c = cmp(V, 'lt', x, seq[i]) if right else Not(cmp(V, 'lt', seq[i], x))
            if V.decide(simp(c) if not isinstance(c, bool) else c):
                return i
        return n
    p = z3.Int(fresh_name('bisect'))
    V.assume(And(p >= 0, p <= Z(seq.n)))
    pat = lambda i: ops.flat_ints(seq[i])[0]
    if right:
        V.assume(All((0, p), lambda i: Not(cmp(V, 'lt', x, seq[i]))))
        V.assume(All((p, seq.n), lambda i: cmp(V, 'lt', x, seq[i])))
    else:
        V.assume(All((0, p), lambda i: cmp(V, 'lt', seq[i], x)))
        V.assume(All((p, seq.n), lambda i: Not(cmp(V, 'lt', seq[i], x))))
    return p


def h_insort(V, l, x, right=True):
    p = bisect_pos(V, l.seq, x, right)
    V.setseq(l, l.seq.insert(p, x))


def heapified(V, s, heap=True):
    """A rearrangement of s, whose first element is smallest when it is a heap (what heapq yields from a heap)."""
    from .engine import All
    n = const_int(s.n)
    if n is not None and n <= 1:
        s = Seq(s.n, s._get, s.items, s.kind)
        s.heap = True
        return s
    t = permutation(V, s, 'heap')
    if n is None and V.decide(Z(s.n) == 0):
        t = Seq(0, None, [], s.kind)
    elif heap:
        V.assume(All((0, s.n), lambda i: Not(cmp(V, 'lt', t[i], t[0]))))
    t.heap = heap
    return t


def is_heap(s):
    return getattr(s, 'heap', False) or const_int(s.n) in (0, 1)


def heappush(V, l, x):
    """The new first element is the smaller of the old first one and x, provided no element is smaller than the old first one."""
    s = l.seq
    n = const_int(s.n)
    if n == 0 or n is None and V.decide(Z(s.n) == 0):
        t = Seq.of([x])
        t.heap = True
        V.setseq(l, t)
        return
    t = heapified(V, s.append(x), False)
    j = z3.Int(fresh_name('smaller'))
    less = cmp(V, 'lt', x, s[0])
    first = And(Implies(less, eq(V, t[0], x)), Implies(Not(less), eq(V, t[0], s[0])))
    V.assume(first if is_heap(s) else Or(And(j >= 0, j < Z(s.n), cmp(V, 'lt', s[j], s[0])), first))
    t.heap = is_heap(s)
    V.setseq(l, t)


def heappop(V, l):
    if not V.decide(simp(Z(l.seq.n) > 0)):
        V.throw('IndexError')
    v = l.seq[0]
    V.setseq(l, heapified(V, l.seq.slice(1, l.seq.n), is_heap(l.seq)))
    return v


def r_shuffle(V, l):
    V.setseq(l, permutation(V, l.seq, 'shuffled'))


def r_randint(V, a, b):
    x = z3.Int(fresh_name('rnd'))
    V.assume(z3.And(x >= Z(a), x <= Z(b)))
    return x


def it_count(V, start=0, step=1):
    return infinite(V, lambda i: arith(V, 'add', start, arith(V, 'mul', step, i)), KInt())


def it_cycle(V, x):
    s = seq_of(V, x)
    return infinite(V, lambda i: s[ops.int_divmod(V, i, s.n, np=True)[1]], s.kind)


def it_chain(V, *its):
    r = Seq.of([])
    for x in its:
        r = r.concat(seq_of(V, x))
    return r


def it_flatten(V, x):
    """chain(*x): all elements of the elements of x."""
    s = seq_of(V, x)
    if s.concrete or const_int(s.n) is not None:
        return it_chain(V, *[s[i] for i in range(const_int(s.n))])
    k = s.kind
    if not isinstance(k, KTuple) or not k.kinds:
        raise Unsupported('flattening of a symbolic number of sequences')
    t, kind = len(k.kinds), None
    for e in k.kinds:
        kind = join_kind(kind, e)

    def get(i):
        if t == 1:
            return s[i][0]
        c = const_int(i)
        if c is not None:
            return s[c // t][c % t]
        row, col = s[z3.simplify(Z(i) / t)], z3.simplify(Z(i) % t)
        r = row[-1]
        for j in range(t - 2, -1, -1):
            r = ite(col == j, row[j], r)
        return r
    return Seq(z3.simplify(Z(s.n) * t), get, None, kind)


def it_accumulate(V, x):
    s = seq_of(V, x)
    n = const_int(s.n)
    if n is not None:
        out = []
        for i in range(n):
            out.append(s[i] if i == 0 else ops.binop(V, ast.Add(), out[-1], s[i]))
        return Seq.of(out)
    S = prefix_sum(V, s)
    return Seq(s.n, lambda i: S(Z(i) + 1), None, s.kind)


def it_islice(V, x, *a):
    if isinstance(x, IterV) and x.seq.n is None and len(a) == 1:
        n = const_int(a[0])
        if n is not None:
            return Seq.of([b_next(V, x) for _ in range(n)])
    s = seq_of(V, x)
    return ops.slice_seq(V, s, slice(*a) if len(a) > 1 else slice(None, a[0], None))


def it_product(V, *its, repeat=1):
    ss = [list(seq_of(V, x).items) for x in its] * repeat
    return Seq.of([tuple(p) for p in itertools.product(*ss)])


def it_tee(V, x, n=2):
    s = seq_of(V, x)
    return tuple(b_iter(V, s) for _ in range(n))


def deepcopy(V, x, memo=None):
    if isinstance(x, Obj):
        d, _ = x.cls.lookup('__deepcopy__')
        if d is not None:
            return V.call(d, [x, memo])
        raise Unsupported('deepcopy of an object')
    if is_num(x) or isinstance(x, (str, tuple, NT, FracV)) or x is None:
        return x
    if isinstance(x, SList):
        return V.mklist(x.seq.map(lambda v: deepcopy(V, v), x.seq.kind), x.typ, x.maxlen)
    if isinstance(x, Arr):
        return V.track(x.copy())
    raise Unsupported('deepcopy of %r' % (x,))


def shallow(V, x):
    if isinstance(x, SList):
        return V.mklist(x.seq, x.typ, x.maxlen)
    if isinstance(x, SSet):
        return V.mkset(None if x.items is None else list(x.items), x.mem, x.kind)
    if isinstance(x, SDict):
        return V.mkdict(list(_conc(x)), x.default)
    if isinstance(x, Obj):
        return V.mkobj(x.cls, **x.fields)
    return x


class ItFunc:
    pass


EXT = {
    'heapq': {'heapify': lambda V, l: V.setseq(l, heapified(V, l.seq)), 'heappush': heappush,
              'heappop': heappop},
    'bisect': {'insort': h_insort, 'insort_right': h_insort, 'insort_left': lambda V, l, x: h_insort(V, l, x, False),
               'bisect': lambda V, s, x, lo=None, hi=None: bisect_pos(V, seq_of(V, s), x, True, lo, hi), 'bisect_right': lambda V, s, x, lo=None, hi=None: bisect_pos(V, seq_of(V, s), x, True, lo, hi),
               'bisect_left': lambda V, s, x, lo=None, hi=None: bisect_pos(V, seq_of(V, s), x, False, lo, hi)},
    'random': {'shuffle': r_shuffle, 'randint': r_randint, 'random': lambda V: np_random(V), 'choice': lambda V, s: seq_of(V, s)[_choice(V, s)]},
    'itertools': {'count': it_count, 'cycle': it_cycle, 'chain': it_chain, 'accumulate': it_accumulate, 'islice': it_islice, 'product': it_product, 'tee': it_tee,
                  'repeat': lambda V, x, n: Seq(n, lambda i: x, None, kind_of(x)) if const_int(n) is None else Seq.of([x] * const_int(n))},
    'copy': {'deepcopy': deepcopy, 'copy': shallow},
    'functools': {'reduce': lambda V, f, s, *a: _reduce(V, f, s, *a), 'partial': lambda V, f, *a, **k: Builtin('partial', lambda V, *b, **kk: V.call(f, list(a) + list(b), dict(k, **kk)))},
    'time': {'sleep': lambda V, *a: None, 'time': lambda V: z3.Real(fresh_name('time')), 'perf_counter': lambda V: z3.Real(fresh_name('time'))},
    'numpy.linalg': {'solve': np_solve},
    'numpy.random': {'random': np_random, 'randint': np_randint, 'rand': lambda V, *s: np_random(V, tuple(s)), 'random_sample': np_random},
    'scipy.signal': {'lfilter': lfilter},
    'logging': {},
    'warnings': {'warn': lambda V, *a, **k: None},
}


def _choice(V, s):
    n = length(V, s)
    if V.decide(simp(Z(n) == 0)):
        V.throw('IndexError')
    i = z3.Int(fresh_name('choice'))
    V.assume(z3.And(i >= 0, i < Z(n)))
    return i


def _reduce(V, f, s, *a):
    s = seq_of(V, s)
    n = const_int(s.n)
    if n is None:
        raise Unsupported('reduce over a symbolic sequence')
    items = [s[i] for i in range(n)]
    acc = a[0] if a else items.pop(0)
    for x in items:
        acc = V.call(f, [acc, x])
    return acc


SAMPLES = ['0', '7', '10', '395', '-1', '-8', '-27']


def text_map(t, name):
    """Case mapping of a text: decimals contain no letters, so each literal piece is mapped as in every sample rendering."""
    outs = []
    for d in SAMPLES:
        full = getattr(t.render(lambda i: d), name)()
        if len(full) != len(t.render(lambda i: d)):
            raise Unsupported('text method changes the length')
        pieces, p = [], 0
        for q in t.parts:
            n = len(q) if isinstance(q, str) else len(d)
            pieces.append(full[p:p + n])
            p += n
        outs.append(pieces)
    parts = []
    for j, q in enumerate(t.parts):
        if isinstance(q, str):
            if len({o[j] for o in outs}) != 1:
                raise Unsupported('text method depends on the digits')
            parts.append(outs[0][j])
        else:
            parts.append(q)
    return Text.make(parts)


class RegexV(Opaque):
    known = True

    def __init__(self, pattern):
        super().__init__('regex')
        self.pattern = pattern


class MatchV(Opaque):
    known = True

    def __init__(self, whole, groups):
        super().__init__('match')
        self.whole, self.groups = whole, groups


def regex_match(V, rx, how, t):
    """Match of a text ending in one decimal number.  Contract of re: the match treats all decimals of a sign alike, checked on sample renderings."""
    import re
    f = getattr(re.compile(rx.pattern), how)
    if isinstance(t, str):
        m = f(t)
        return None if m is None else MatchV(m.group(), m.groups())
    if not isinstance(t, Text) or sum(not isinstance(p, str) for p in t.parts) != 1:
        raise Unsupported('regex on other text')
    at, num = next((i, p) for i, p in enumerate(t.parts) if not isinstance(p, str))
    V.unit.assumed.add('contract of re: a pattern treats all decimal numbers of the same sign alike (checked on samples)')
    neg = V.decide(Z(num) < 0)
    seen = []
    for d in SAMPLES:
        if d.startswith('-') != neg:
            continue
        s = t.render(lambda i: d)
        lo = len(''.join(p for p in t.parts[:at]))
        hi = lo + len(d)
        m = f(s)
        if m is None:
            seen.append(None)
            continue
        parts = []
        for g in range(0, len(m.groups()) + 1):
            a, b = m.span(g)
            if a < 0:
                parts.append(None)
            elif b <= lo or a >= hi:
                parts.append(s[a:b])
            elif a <= lo and b >= hi:
                parts.append((s[a:lo], s[hi:b]))
            else:
                raise Unsupported('a group splits the number')
        seen.append(parts)
    if any(x != seen[0] for x in seen):
        raise Unsupported('the match depends on the number')
    if seen[0] is None:
        return None
    conv = lambda p: p if p is None or isinstance(p, str) else Text.make([p[0], num, p[1]])
    return MatchV(conv(seen[0][0]), [conv(p) for p in seen[0][1:]])


class BytesV(Opaque):
    """The elements of an array in C order, as bytes; base64 text of them."""
    known = True

    def __init__(self, arr, shape, dtype, text=False):
        super().__init__('bytes')
        self.arr, self.shape, self.dtype, self.text = arr, shape, dtype, text


def arr_bytes(V, a):
    get, imap = a.storage.get, a.imap
    return BytesV(lambda *i: get(*imap(*i)), tuple(a.shape), a.dtype)


def b64encode(V, b, altchars=None):
    if not isinstance(b, BytesV) or altchars is not None:
        raise Unsupported('base64 of %r' % (b,))
    return BytesV(b.arr, b.shape, b.dtype, True)


def b64decode(V, t, altchars=None, validate=False):
    if not isinstance(t, BytesV) or not t.text or altchars is not None:
        raise Unsupported('base64 text %r' % (t,))
    return BytesV(t.arr, t.shape, t.dtype)


def np_frombuffer(V, b, dtype=None, count=-1, offset=0):
    if not isinstance(b, BytesV) or b.text or const_int(count) != -1 or const_int(offset) != 0:
        raise Unsupported('frombuffer')
    want = dtype.what if isinstance(dtype, DtypeName) else parse_dtype(V, dtype or _cls['float'])
    V.check('frombuffer: the type the bytes were written with', want == b.dtype)
    return FlatV(b)


class DtypeName(Opaque):
    """Name of an array's element type, str(a.dtype)."""
    known = True


class JsonText(Opaque):
    """JSON text of a value.  Contract: loads gives back an equal value made of fresh containers."""

    def __init__(self, value):
        super().__init__('json')
        self.value = value


def json_value(V, x, where):
    if is_num(x) or isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, SDict):
        d = _conc(x)
        if d is None or not all(isinstance(k, str) for k, _ in d):
            raise Unsupported('json of a dict with symbolic keys')
        return V.mkdict([(k, json_value(V, v, where)) for k, v in d])
    if isinstance(x, (SList, tuple, NT)):
        vals = x.vals if isinstance(x, NT) else x
        s = seq_of(V, vals)
        n = const_int(s.n)
        if n is None:
            raise Unsupported('json of a list of symbolic length')
        return V.mklist([json_value(V, s[i], where) for i in range(n)])
    raise Unsupported('json of %r' % (x,))


def json_dumps(V, x, *a, **k):
    if k or a:
        raise Unsupported('json.dumps with options')
    return JsonText(json_value(V, x, 'dumps'))


def json_loads(V, x, *a, **k):
    if k or a or not isinstance(x, JsonText):
        raise Unsupported('json.loads of other text')
    return json_value(V, x.value, 'loads')


def external(V, module, name):
    V.unit.assumed.add('contract of %s.%s' % (module, name))
    full = module + '.' + name
    if module == 'math':
        if name == 'pi':
            return PI(V)
        if name == 'tau':
            return 2 * PI(V)
        if name == 'inf':
            return inf(V)
        if name in MATH:
            return Builtin(full, MATH[name])
    if module == 'scipy' and name in ('signal', 'interpolate', 'io', 'linalg'):
        return V.module('scipy.' + name)
    if full == 'scipy.io.wavfile':
        return V.module(full)
    if module == 'numpy':
        if name in ('linalg', 'random', 'core', 'testing', 'fft'):
            return V.module('numpy.' + name)
        if name in ('ndarray',):
            return _cls['ndarray']
        if name in ('float', 'float64', 'float32', 'floating', 'double'):
            return _cls['float']
        if name in ('int', 'int64', 'int32', 'integer', 'int_', 'int16', 'uint8', 'uint16', 'int8', 'uint32'):
            if name in ('int16', 'uint8', 'uint16', 'int8', 'uint32', 'int32'):
                return Builtin('dtype:' + name, None)
            return _cls['int']
        if name in ('bool', 'bool_'):
            return _cls['bool']
        if name == 'object':
            return _cls['object']
        if name == 'newaxis':
            return None
        if name == 'pi':
            return PI(V)
        if name == 'inf':
            return inf(V)
        if name == 'r_':
            return RView()
        if name in NP:
            return Builtin(full, NP[name])
    if module == 'fractions' and name == 'Fraction':
        return _cls['Fraction']
    if module == 'collections':
        if name == 'namedtuple':
            return Builtin(full, make_namedtuple)
        if name == 'deque':
            return _cls['deque']
        if name == 'defaultdict':
            return _cls['defaultdict']
        if name == 'abc':
            return V.module('collections.abc')
        if name == 'OrderedDict':
            return _cls['dict']
    if module == 'collections.abc':
        if name in ('Sequence', 'Iterable', 'Callable', 'Hashable', 'Mapping', 'Iterator'):
            return _cls[name]
    if module == 'abc':
        if name == 'ABC':
            return _cls['ABC']
        return Opaque('abc.' + name)
    if module == 'typing':
        return Opaque('typing.' + name)
    if module == 'contextlib':
        if name == 'contextmanager':
            return Opaque(name)
    if module == 'enum' and name in ('Enum', 'IntEnum'):
        return _cls['Enum']
    if module == 'string':
        import string
        return getattr(string, name)
    if full == 're.compile':
        return Builtin(full, lambda V, p, *a: RegexV(p) if not a else Opaque('regex'))
    if full == 'json.dumps':
        return Builtin(full, json_dumps)
    if full == 'json.loads':
        return Builtin(full, json_loads)
    if full in ('base64.b64encode', 'base64.b64decode'):
        return Builtin(full, b64encode if name == 'b64encode' else b64decode)
    if full == 'numpy.frombuffer':
        return Builtin(full, np_frombuffer)
    if module == 'json' and name == 'JSONDecodeError':
        return _cls['JSONDecodeError']
    if module == 'itertools' and name == 'chain':
        return ChainV()
    if module in EXT and name in EXT[module]:
        return Builtin(full, EXT[module][name])
    if full == 'pynput.keyboard.Listener':
        return Builtin(full, lambda V, *a, **k: Opaque('listener'))
    if module in ('logging', 'warnings', 'pkgutil', 'sys', 'os', 'pyaudio'):
        return Opaque(full)
    if module == 'numpy.linalg' and name == 'LinAlgError':
        return _cls['LinAlgError']
    if module == 'samplerate' and name in ('converters', 'CallbackResampler'):
        return V.module('samplerate.converters') if name == 'converters' else Builtin(full, ResamplerV)
    if full == 'samplerate.converters.ConverterType':
        return ConverterTypes()
    raise Unsupported('external %s' % full)


class ChainV(Builtin):
    def __init__(self):
        super().__init__('itertools.chain', it_chain)


from .engine import HeapView as _HV  # noqa: E402


class FlatV(_HV):
    """numpy.frombuffer(...): the elements one after the other.  Reshaped to the array's own shape they are its elements again."""

    def __init__(self, b):
        self.b = b

    def attr(self, V, name):
        if name != 'reshape':
            raise Unsupported('attribute %s of a buffer' % name)
        return Builtin(name, self.reshape)

    def reshape(self, V, *shape):
        if len(shape) == 1 and not is_num(shape[0]):
            shape = seq_of(V, shape[0]).items
        b = self.b
        if len(shape) != len(b.shape):
            V.check('reshape: dimensions', False)
        V.check('reshape: shape of the array', And(*[Z(x) == Z(y) for x, y in zip(shape, b.shape)]))
        r = V.mkarr(b.shape, lambda *i: b.arr(*i), b.dtype)
        r.readonly = True
        return r


class RView(_HV):
    """np.r_"""

    def getitem(self, V, i):
        idx = i if isinstance(i, tuple) else (i,)
        return np_concatenate(V, tuple(np_atleast(V, x, 1) if not isinstance(x, slice) else np_arange(V, x.start or 0, x.stop) for x in idx))

    def attr(self, V, name):
        raise Unsupported('np.r_.' + name)


class ConverterTypes(_HV):
    """samplerate.converters.ConverterType"""

    def attr(self, V, name):
        if name == '__members__':
            return V.mkdict([(k, i) for i, k in enumerate(('sinc_best', 'sinc_medium', 'sinc_fastest', 'zero_order_hold', 'linear'))])
        raise Unsupported('ConverterType.' + name)


class ResamplerV(_HV):
    """samplerate.CallbackResampler: what it reads is left open (callers use a contract)."""

    def __init__(self, V, callback, ratio, converter_type='sinc_fastest', channels=1):
        if V.decide(simp(Z(channels) < 1)):
            V.throw('ValueError', 'channels')
        self.callback = callback

    def attr(self, V, name):
        if name in ('set_starting_ratio', 'reset'):
            return Builtin('samplerate.' + name, lambda V, *a: None)
        raise Unsupported('CallbackResampler.' + name)

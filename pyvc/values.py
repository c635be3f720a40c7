"""Symbolic values of the verifier: numbers (z3 terms or Python constants), sequences, sets, objects, arrays."""
import itertools
from fractions import Fraction
import z3


class Unsupported(Exception):
    """Source construct (or value combination) outside the verified fragment."""


class EmptyRead(Unsupported):
    """Element of the empty sequence: never happens in a value that is used."""


class PyRaise(Exception):
    """A Python exception raised by the verified program."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


# --------------------------------------------------------------------------- numbers
def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z3(v) and z3.is_int(v))


def is_real(v):
    return isinstance(v, (Fraction, float)) or (is_z3(v) and z3.is_real(v) and not z3.is_int(v))


def is_num(v):
    return is_int(v) or is_real(v) or is_bool(v)


def Z(v):
    """Python constant -> z3 term."""
    if is_z3(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v.numerator) + '/' + str(v.denominator)) if v.denominator != 1 else z3.RealVal(v.numerator)
    if isinstance(v, float):
        return Z(Fraction(repr(v)))
    raise Unsupported('no term for %r' % (v,))


def to_real(v):
    if isinstance(v, FracV):
        return v.real
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, (Fraction, float)):
        return Z(v)
    if z3.is_bool(v):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int(v):
        return z3.ToReal(v)
    if z3.is_real(v):
        return v
    raise Unsupported('not a number: %r' % (v,))


def to_int(v):
    if isinstance(v, bool):
        return int(v)
    if is_z3(v) and z3.is_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if is_int(v):
        return v
    raise Unsupported('not an integer: %r' % (v,))


def const_int(v):
    """Concrete int value of v or None."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if is_z3(v) and z3.is_int(v):
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def const_bool(v):
    if isinstance(v, bool):
        return v
    if is_z3(v) and z3.is_bool(v):
        s = z3.simplify(v)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return None


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*[Z(x) for x in xs]) if len(xs) > 1 else xs[0]


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*[Z(x) for x in xs]) if len(xs) > 1 else xs[0]


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    return ite(c, a, b)


def ite(c, a, b):
    """Merge two values under a symbolic condition."""
    if a is b:
        return a
    if isinstance(a, (str, type(None), ClassV)) and isinstance(b, type(a)) and a == b:
        return a
    if is_bool(a) and is_bool(b):
        return z3.If(c, Z(a), Z(b))
    if is_num(a) and is_num(b):
        if is_real(a) or is_real(b):
            return z3.If(c, to_real(a), to_real(b))
        return z3.If(c, Z(to_int(a)), Z(to_int(b)))
    if isinstance(a, FracV) and isinstance(b, FracV):
        return FracV(z3.If(c, Z(a.num), Z(b.num)), z3.If(c, Z(a.den), Z(b.den)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, NT) and isinstance(b, NT) and a.cls is b.cls:
        return NT(a.cls, tuple(ite(c, x, y) for x, y in zip(a.vals, b.vals)))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return Ref(z3.If(c, a.term, b.term), a.cls if a.cls == b.cls else None, a.maybe_none or b.maybe_none)
    if isinstance(a, Ref) and b is None:
        return Ref(z3.If(c, a.term, NONE), a.cls, True)
    if isinstance(b, Ref) and a is None:
        return Ref(z3.If(c, NONE, b.term), b.cls, True)
    if isinstance(a, SList) and isinstance(b, SList):
        raise Unsupported('merge of two mutable lists')
    if isinstance(a, Arr) and isinstance(b, Arr) and a.dtype == b.dtype and same_shape(a.shape, b.shape):
        r = Arr.make(a.shape, lambda *i: ite(c, a.at(*i), b.at(*i)), a.dtype)
        r.storage.frozen = True
        return r
    raise Unsupported('cannot merge %r and %r' % (a, b))


NONE = z3.IntVal(-1)     # the null object reference


class FracV:
    """fractions.Fraction: numerator and denominator terms (not necessarily normalised), den >= 1."""

    def __init__(self, num, den, cls=None):
        self.num, self.den, self.cls = num, den, cls

    @property
    def real(self):
        return to_real(self.num) / to_real(self.den)

    def __repr__(self):
        return 'Frac(%s, %s)' % (self.num, self.den)


class NT:
    """Instance of a namedtuple class (immutable)."""

    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)

    def __repr__(self):
        return '%s%r' % (getattr(self.cls, 'name', self.cls), self.vals)


class Ref:
    """Symbolic reference to a heap object; fields live in the interpreter's heap arrays."""

    def __init__(self, term, cls=None, maybe_none=False):
        self.term, self.cls, self.maybe_none = term, cls, maybe_none

    def __repr__(self):
        return 'Ref(%s)' % self.term


class TypeOf:
    """type(ref): a symbolic class, compared through class codes."""

    def __init__(self, term, classes=()):
        self.term, self.classes = term, classes


# --------------------------------------------------------------------------- kinds
_counter = itertools.count()


def fresh_name(base):
    return '%s!%d' % (base, next(_counter))


class Kind:
    pass


class KInt(Kind):
    def fresh(self, name):
        return z3.Int(fresh_name(name))

    def uf(self, name, arity=1):
        f = z3.Function(fresh_name(name), *([z3.IntSort()] * arity), z3.IntSort())
        return lambda *i: f(*[Z(x) for x in i])

    def __eq__(self, o):
        return type(o) is type(self)

    def __hash__(self):
        return hash(type(self))

    def __repr__(self):
        return type(self).__name__


class KReal(KInt):
    def fresh(self, name):
        return z3.Real(fresh_name(name))

    def uf(self, name, arity=1):
        f = z3.Function(fresh_name(name), *([z3.IntSort()] * arity), z3.RealSort())
        return lambda *i: f(*[Z(x) for x in i])


class KBool(KInt):
    def fresh(self, name):
        return z3.Bool(fresh_name(name))

    def uf(self, name, arity=1):
        f = z3.Function(fresh_name(name), *([z3.IntSort()] * arity), z3.BoolSort())
        return lambda *i: f(*[Z(x) for x in i])


class KFrac(KInt):
    def fresh(self, name):
        return FracV(z3.Int(fresh_name(name + '.num')), z3.Int(fresh_name(name + '.den')))

    def uf(self, name, arity=1):
        a, b = KInt().uf(name + '.num', arity), KInt().uf(name + '.den', arity)
        return lambda *i: FracV(a(*i), b(*i))


class KRef(Kind):
    def __init__(self, cls=None, maybe_none=False):
        self.cls, self.maybe_none = cls, maybe_none

    def fresh(self, name):
        return Ref(z3.Int(fresh_name(name)), self.cls, self.maybe_none)

    def uf(self, name, arity=1):
        f = KInt().uf(name, arity)
        return lambda *i: Ref(f(*i), self.cls, self.maybe_none)

    def __eq__(self, o):
        return isinstance(o, KRef) and o.cls == self.cls

    def __hash__(self):
        return hash('KRef')

    def __repr__(self):
        return 'KRef(%s)' % (self.cls,)


class KText(Kind):
    """Text of which only equality is looked at."""

    def fresh(self, name):
        return AnyText(z3.Int(fresh_name(name)))

    def uf(self, name, arity=1):
        f = KInt().uf(name, arity)
        return lambda *i: AnyText(f(*i))

    def __eq__(self, o):
        return isinstance(o, KText)

    def __hash__(self):
        return hash('KText')


class KTuple(Kind):
    def __init__(self, *kinds):
        self.kinds = kinds

    def fresh(self, name):
        return tuple(k.fresh('%s.%d' % (name, i)) for i, k in enumerate(self.kinds))

    def uf(self, name, arity=1):
        fs = [k.uf('%s.%d' % (name, i), arity) for i, k in enumerate(self.kinds)]
        return lambda *i: tuple(f(*i) for f in fs)

    def __eq__(self, o):
        return isinstance(o, KTuple) and o.kinds == self.kinds

    def __hash__(self):
        return hash(self.kinds)

    def __repr__(self):
        return 'KTuple%r' % (self.kinds,)


class KNT(Kind):
    def __init__(self, cls, kinds):
        self.cls, self.kinds = cls, tuple(kinds)

    def fresh(self, name):
        return NT(self.cls, [k.fresh('%s.%d' % (name, i)) for i, k in enumerate(self.kinds)])

    def uf(self, name, arity=1):
        fs = [k.uf('%s.%d' % (name, i), arity) for i, k in enumerate(self.kinds)]
        return lambda *i: NT(self.cls, [f(*i) for f in fs])

    def __eq__(self, o):
        return isinstance(o, KNT) and o.cls is self.cls and o.kinds == self.kinds

    def __hash__(self):
        return hash(self.kinds)

    def __repr__(self):
        return 'KNT(%s)' % getattr(self.cls, 'name', self.cls)


class KConst(Kind):
    """A value that is the same Python object everywhere (strings, None, objects)."""

    def __init__(self, value):
        self.value = value

    def fresh(self, name):
        return self.value

    def uf(self, name, arity=1):
        return lambda *i: self.value

    def __eq__(self, o):
        return isinstance(o, KConst) and (o.value is self.value or (isinstance(o.value, str) and o.value == self.value))

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'KConst(%r)' % (self.value,)


class KList(Kind):
    """A local name bound to different lists (of one element kind); its loop value is a read-only list."""

    def __init__(self, elem, obj=None):
        self.elem, self.obj = elem, obj

    def fresh(self, name, arity=1):
        raise Unsupported('values of different kinds in one place (%s)' % (getattr(self,'why',''),))

    uf = fresh

    def __eq__(self, o):
        return isinstance(o, KList) and o.elem == self.elem and o.obj is self.obj

    def __hash__(self):
        return 11


def kind_of(v):
    if is_bool(v):
        return KBool()
    if is_int(v):
        return KInt()
    if is_real(v):
        return KReal()
    if isinstance(v, FracV):
        return KFrac()
    if isinstance(v, tuple):
        return KTuple(*[kind_of(x) for x in v])
    if isinstance(v, NT):
        return KNT(v.cls, [kind_of(x) for x in v.vals])
    if isinstance(v, Ref):
        return KRef(v.cls, v.maybe_none)
    if isinstance(v, Arr) and v.storage.kind is not None:
        return KArr(v)
    return KConst(v)


class KArr(Kind):
    """Arrays of one shape and element type (as elements of lists of symbolic length)."""

    def __init__(self, a):
        self.shape, self.dtype, self.kind, self.arr = a.shape, a.dtype, a.storage.kind, a

    def fresh(self, name):
        raise Unsupported('variable bound to different arrays')

    def uf(self, name, arity=1):
        f = self.kind.uf(name, arity + len(self.shape))

        def get(*i):
            a = Arr.make(self.shape, lambda *j: f(*i, *j), self.dtype)
            a.storage.frozen = True
            return a
        return get

    def __eq__(self, o):
        return isinstance(o, KArr) and o.dtype == self.dtype and same_shape(self.shape, o.shape)

    def __hash__(self):
        return 13

    def __repr__(self):
        return 'KArr(%s)' % (self.shape,)


def same_shape(a, b):
    return len(a) == len(b) and all(x is y or const_bool(z3.simplify(Z(x) == Z(y))) is True for x, y in zip(a, b))


class KMixed(Kind):
    """Concrete values of different kinds; has no symbolic representative."""

    def fresh(self, name, arity=1):
        raise Unsupported('values of different kinds in one place (%s)' % (getattr(self,'why',''),))

    uf = fresh

    def __eq__(self, o):
        return isinstance(o, KMixed)

    def __hash__(self):
        return 5


def join_kind(a, b):
    if a is None:
        return b
    if b is None or a == b and not isinstance(a, KRef):
        return a
    if isinstance(a, KRef) and isinstance(b, KRef):
        classes = lambda k: list(k.cls) if isinstance(k.cls, (list, tuple)) else [k.cls]
        none = a.maybe_none or b.maybe_none
        if a.cls == b.cls:
            return KRef(a.cls, none)
        if a.cls is None or b.cls is None:
            return KRef(None, none)
        out = classes(a)
        out += [c for c in classes(b) if not any(c.qual == x.qual for x in out)]
        return KRef(tuple(out), none)
    nums = (KInt, KReal)
    if type(a) in nums and type(b) in nums:
        return KReal()
    if isinstance(a, KTuple) and isinstance(b, KTuple) and len(a.kinds) == len(b.kinds):
        return KTuple(*[join_kind(x, y) for x, y in zip(a.kinds, b.kinds)])
    if isinstance(a, KNT) and isinstance(b, KNT) and (a.cls is b.cls or a.cls.qual == b.cls.qual):
        return KNT(a.cls, [join_kind(x, y) for x, y in zip(a.kinds, b.kinds)])
    if isinstance(a, KRef) and isinstance(b, KConst) and b.value is None:
        return KRef(a.cls, True)
    if isinstance(b, KRef) and isinstance(a, KConst) and a.value is None:
        return KRef(b.cls, True)
    if isinstance(a, KList) and isinstance(b, KList):
        return KList(join_kind(a.elem, b.elem), a.obj if a.obj is b.obj else None)
    m = KMixed()
    m.why = '%r and %r' % (a, b)
    return m


# --------------------------------------------------------------------------- sequences
class Seq:
    """Immutable sequence: either concrete (items) or symbolic (n, get)."""

    def __init__(self, n, get, items=None, kind=None):
        self.n, self._get, self.items, self.kind = n, get, items, kind

    @staticmethod
    def of(items):
        items = list(items)
        kind = None
        try:
            for x in items:
                kind = join_kind(kind, kind_of(x))
        except Unsupported:
            kind = None
        return Seq(len(items), None, items, kind)

    @staticmethod
    def fresh(name, kind, n=None):
        return Seq(n if n is not None else z3.Int(fresh_name(name + '.len')), kind.uf(name), None, kind)

    @property
    def concrete(self):
        return self.items is not None

    def __getitem__(self, i):
        if self.items is not None:
            c = const_int(i)
            if c is not None:
                if 0 <= c < len(self.items):
                    return self.items[c]
                if not self.items:
                    raise EmptyRead('read from empty sequence')
                return self.items[0] if c < 0 else self.items[-1]   # out of range: unconstrained in spec terms
            if not self.items:
                raise EmptyRead('read from empty sequence')
            r = self.items[-1]
            for j in range(len(self.items) - 2, -1, -1):
                r = ite(Z(i) == j, self.items[j], r)
            return r
        return self._get(i)

    def concat(self, other):
        if self.concrete and other.concrete:
            return Seq.of(self.items + other.items)
        if const_int(self.n) == 0:
            return other
        if const_int(other.n) == 0:
            return self
        n = self.n
        kind = None
        if self.kind is not None and other.kind is not None:
            kind = join_kind(self.kind, other.kind)
        return Seq(self.n + other.n, lambda i: _cases(Z(i) < Z(n), lambda: self[i], lambda: other[Z(i) - Z(n)]), None, kind)

    def slice(self, a, b):
        """Elements a..b (0 <= a <= b <= n assumed)."""
        ca, cb = const_int(a), const_int(b)
        if self.concrete and ca is not None and cb is not None:
            return Seq.of(self.items[ca:cb])
        if ca == 0:
            return Seq(b, lambda i: self[i], None, self.kind)
        return Seq(Z(b) - Z(a), lambda i: self[Z(i) + Z(a)], None, self.kind)

    def append(self, v):
        return self.concat(Seq.of([v]))

    def prepend(self, v):
        return Seq.of([v]).concat(self)

    def set(self, i, v):
        c = const_int(i)
        if self.concrete and c is not None:
            items = list(self.items)
            items[c] = v
            return Seq.of(items)
        return Seq(self.n, lambda j: _cases(Z(j) == Z(i), lambda: v, lambda: self[j]), None, join_kind(self.kind, kind_of(v)))

    def insert(self, i, v):
        c = const_int(i)
        if self.concrete and c is not None:
            items = list(self.items)
            items.insert(c, v)
            return Seq.of(items)
        return Seq(Z(self.n) + 1, lambda j: _cases(Z(j) < Z(i), lambda: self[j], lambda: _cases(Z(j) == Z(i), lambda: v, lambda: self[Z(j) - 1])),
                   None, join_kind(self.kind, kind_of(v)))

    def delete(self, i):
        c = const_int(i)
        if self.concrete and c is not None:
            items = list(self.items)
            del items[c]
            return Seq.of(items)
        r = Seq(Z(self.n) - 1, lambda j: _cases(Z(j) < Z(i), lambda: self[j], lambda: self[Z(j) + 1]), None, self.kind)
        r.deleted = Z(i)
        return r

    def reverse(self):
        if self.concrete:
            return Seq.of(self.items[::-1])
        return Seq(self.n, lambda i: self[Z(self.n) - 1 - Z(i)], None, self.kind)

    def map(self, f, kind=None):
        if self.concrete:
            return Seq.of([f(x) for x in self.items])
        return Seq(self.n, lambda i: f(self[i]), None, kind)

    def __repr__(self):
        return 'Seq(%s)' % (self.items if self.concrete else self.n,)


def _cases(c, a, b):
    """Value a() if c else b(), evaluating only what is needed."""
    k = const_bool(c)
    if k is not None:
        return a() if k else b()
    try:
        x = a()
    except EmptyRead:
        return b()
    try:
        y = b()
    except EmptyRead:
        return x
    return ite(c, x, y)


# --------------------------------------------------------------------------- mutable things
class Mutable:
    oid = None
    frozen = False


class SList(Mutable):
    """list / deque: a mutable cell holding a Seq."""

    def __init__(self, seq, typ='list', maxlen=None):
        self.seq, self.typ, self.maxlen = seq, typ, maxlen

    def __repr__(self):
        return 'SList(%s, %r)' % (self.typ, self.seq)


class SSet(Mutable):
    """set: concrete items, or membership predicate over values of one kind, with insertion stamps."""

    def __init__(self, items=None, mem=None, kind=None, stamp=None, clock=None):
        self.items = list(items) if items is not None else None
        self.mem, self.kind = mem, kind
        self.stamp, self.clock = stamp, clock
        self.typ = 'set'

    def __repr__(self):
        return 'SSet(%r)' % (self.items,)


class SDict(Mutable):
    """dict with concrete keys, or a symbolic map (mem, get) over int/tuple keys."""

    def __init__(self, items=None, default=None):
        self.items = list(items or [])      # list of (key, value)
        self.default = default
        self.sym = None                     # (mem, get, kind)

    def __repr__(self):
        return 'SDict(%r)' % (self.items,)


class Obj(Mutable):
    def __init__(self, cls, fields=None):
        self.cls, self.fields = cls, dict(fields or {})

    def __repr__(self):
        return '<%s>' % getattr(self.cls, 'name', self.cls)


class Storage(Mutable):
    """Backing store of numpy arrays / C memory: get(*idx) -> value."""

    frozen = False      # contents of arrays in a list of symbolic length: no known identity, must not be written

    def __init__(self, get, kind):
        self.get, self.kind = get, kind


class Arr:
    """numpy array: a (possibly strided) window into a Storage."""

    def __init__(self, storage, shape, imap=None, dtype='float', readonly=False):
        self.storage, self.shape, self.dtype = storage, tuple(shape), dtype
        self.imap = imap or (lambda *i: i)
        self.readonly = readonly

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def n(self):
        return self.shape[0]

    def at(self, *i):
        return self.storage.get(*self.imap(*i))

    @staticmethod
    def make(shape, get, dtype='float'):
        if not isinstance(shape, tuple):
            shape = (shape,)
        kind = {'float': KReal(), 'bool': KBool(), 'obj': None}.get(dtype, KInt() if dtype not in ('float', 'bool', 'obj') else None)
        st = Storage(get, kind)
        st.arity = len(shape)
        return Arr(st, shape, None, dtype)

    def seq(self):
        if self.ndim == 1:
            c = const_int(self.shape[0])
            if c is not None and c <= 64:
                return Seq.of([self.at(i) for i in range(c)])
            get = self.storage.get
            imap = self.imap
            return Seq(self.shape[0], lambda i: get(*imap(i)), None, self.storage.kind)
        c = const_int(self.shape[0])
        if c is not None and c <= 64:
            return Seq.of([self.row(i) for i in range(c)])
        return Seq(self.shape[0], lambda i: self.row(i), None, None)

    def row(self, i):
        imap = self.imap
        return Arr(self.storage, self.shape[1:], lambda *j: imap(i, *j), self.dtype, self.readonly)

    def copy(self):
        get, imap = self.storage.get, self.imap
        return Arr.make(self.shape, lambda *i: get(*imap(*i)), self.dtype) if self.dtype != 'obj' else self

    def __repr__(self):
        return 'Arr(%s)' % (self.shape,)


class Range:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step


class Opaque:
    """A value nothing is known about (formatted text, loggers...)."""
    known = False       # a real object: true and not None

    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class CharV(Opaque):
    """A string of one character with a symbolic code point."""
    known = True

    def __init__(self, code):
        super().__init__('character')
        self.code = code


class Token(Opaque):
    """An external object identified by a term (equal and identical exactly when the terms are equal)."""
    known = True

    def __init__(self, term, what='object'):
        super().__init__(what)
        self.term = term


class AnyText(Token):
    """Some text; only equality and (term 0) emptiness are known."""

    def __init__(self, term):
        super().__init__(term, 'text')


class Text(Opaque):
    """Text made of literal pieces and decimal forms of integer terms."""
    known = True

    def __init__(self, parts):
        super().__init__('text')
        self.parts = []
        for p in parts:
            for q in (p.parts if isinstance(p, Text) else [p]):
                if isinstance(q, str) and self.parts and isinstance(self.parts[-1], str):
                    self.parts[-1] += q
                elif not isinstance(q, str) or q:
                    self.parts.append(q)

    @staticmethod
    def make(parts):
        t = Text(parts)
        return t.parts[0] if len(t.parts) == 1 and isinstance(t.parts[0], str) else t if t.parts else ''

    def render(self, f):
        return ''.join(p if isinstance(p, str) else f(i) for i, p in enumerate(self.parts))


# --------------------------------------------------------------------------- callables, classes
class ModuleV:
    def __init__(self, name, tree=None, defs=None, attrs=None):
        self.name, self.tree, self.defs = name, tree, defs or {}
        self.attrs = attrs or {}
        self.cache = {}

    def __repr__(self):
        return 'module %s' % self.name


class ClassV:
    def __init__(self, name, qual, bases=(), node=None, module=None, attrs=None, code=None):
        self.name, self.qual, self.bases, self.node, self.module = name, qual, list(bases), node, module
        self.attrs = attrs or {}
        self.code = code
        self.mro_cache = None

    @property
    def mro(self):
        if self.mro_cache is None:
            self.mro_cache = c3(self)
        return self.mro_cache

    def lookup(self, name):
        for c in self.mro:
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return 'class %s' % self.qual


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    res = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('MRO of %s' % cls.name)
        res.append(cand)
        for s in seqs:
            if s[0] is cand:
                del s[0]


class Func:
    def __init__(self, node, module, qual, closure=None, cls=None, defaults=None, kwdefaults=None, is_gen=False, decorators=()):
        self.node, self.module, self.qual, self.closure, self.cls = node, module, qual, closure, cls
        self.defaults, self.kwdefaults, self.is_gen = defaults or [], kwdefaults or {}, is_gen
        self.decorators = decorators

    def __repr__(self):
        return 'function %s' % self.qual


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return 'builtin %s' % self.name


class PropertyV:
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, func):
        self.func = func


class ClassMethodV:
    def __init__(self, func):
        self.func = func


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class GenV:
    """A generator object (not started): function, bound environment."""

    def __init__(self, func, env=None, thunk=None):
        self.func, self.env, self.thunk = func, env, thunk


class IterV(Mutable):
    """iter(x): a position in a sequence."""

    def __init__(self, seq):
        self.seq, self.pos = seq, 0


class ExcV:
    """Instance of a builtin exception."""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return '%s%r' % (self.cls.name, tuple(self.args))

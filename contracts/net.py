"""The connection graph of all ends as heap fields, shared by the contracts of C01 to C05."""
from pyvc.spec import *

C = 'klang.connections.'
FAMILY = [('OutputBase', 'RelayBase', 'InputBase'), ('Output', 'Relay', 'Input'), ('MessageOutput', 'MessageRelay', 'MessageInput')]
NAMES = [n for f in FAMILY for n in f]
OUTPUTS = [n for f in FAMILY for n in f[:2]]
INPUTS = [n for f in FAMILY for n in f[1:]]
RELAYS = [f[1] for f in FAMILY]
NULL = -1


class World:
    """All ends there are: TYPE(x), OUT(x, y), INC(y)."""

    def __init__(self, V, kinds=NAMES):
        self.V = V
        self.cls = {n: V.lookup(C + n) for n in NAMES}
        self.kinds = kinds
        code = lambda names: [self.cls[n] for n in names]
        self.type = V.heap_field('__type__', KInt())
        self.out = V.heap_field('outgoingConnections', 'refset')
        self.out.classes = code(OUTPUTS)
        self.inc = V.heap_field('incomingConnection', KRef(tuple(code(NAMES)), True))
        self.inc.classes = code(INPUTS)
        self.out.elem = tuple(code(NAMES))
        self.owner = V.heap_field('owner', KInt())
        self.types = self.type.arr
        self.save()
        V.assume(All([None], lambda x: Or(*[self.is_(x, n) for n in kinds]), pat=lambda x: self.types[x]))
        for f in self.invariant():
            V.assume(f)

    def is_(self, x, *names):
        return Or(*[self.types[Z(x)] == self.cls[n].code for n in names])

    def end(self, name):
        r = Ref(z3.Int(fresh_name(name)), tuple(self.cls[n] for n in self.kinds))
        self.V.assume(And(r.term >= 0, Or(*[self.is_(r.term, n) for n in self.kinds])))
        return r

    def save(self):
        self.out0, self.inc0 = self.out.arr, self.inc.arr

    def connectable(self, x, y):
        return Or(*[And(self.is_(x, *f[:2]), self.is_(y, *f[1:])) for f in FAMILY])

    def linked(self, x, y):
        return z3.Select(z3.Select(self.out0, x), y)

    def invariant(self):
        out, inc = self.out.arr, self.inc.arr
        lst = lambda x, y: z3.Select(z3.Select(out, x), y)
        pat = lambda x, y: [[lst(x, y)]]
        return [All([(0, None), (0, None)], lambda x, y: lst(x, y) == (z3.Select(inc, y) == x), pat=pat),
                All([None, None], lambda x, y: imp(lst(x, y), And(x >= 0, y >= 0, self.connectable(x, y))), pat=pat),
                All([(0, None)], lambda y: And(z3.Select(inc, y) >= NULL, imp(z3.Select(inc, y) >= 0, And(lst(z3.Select(inc, y), y), self.connectable(z3.Select(inc, y), y)))),
                    pat=lambda y: z3.Select(inc, y))]

    def check(self, tag):
        for label, f in zip(('double entry', 'connectable kinds', 'one source'), self.invariant()):
            self.V.check(tag + ': ' + label, f)

    def state(self, tag, out, inc):
        """The connections are as described."""
        o, i = self.out.arr, self.inc.arr
        self.V.check(tag + ': listed destinations', All([(0, None), (0, None)], lambda x, y: z3.Select(z3.Select(o, x), y) == out(x, y), pat=lambda x, y: [[z3.Select(z3.Select(o, x), y)]]))
        self.V.check(tag + ': listed sources', All([(0, None)], lambda y: z3.Select(i, y) == inc(y), pat=lambda y: z3.Select(i, y)))

    def direction(self, a, b):
        """a.connect(b) connects from which end to which."""
        V = self.V
        if V.decide(self.is_(a.term, *RELAYS)):
            return (a, b) if V.decide(self.is_(b.term, *INPUTS)) else (b, a)
        return (a, b) if V.decide(self.is_(a.term, *OUTPUTS)) else (b, a)


class View(HeapField):
    """A field whose value is computed by fn(reference); assignments are kept as they are."""

    def __init__(self, V, name, fn):
        super().__init__(name, KInt())
        self.fn, self.assigned = fn, None
        V.alloc(self)
        V.cells[self.oid] = self
        V.heap[name] = self

    def value(self, V, o):
        return self.fn(o)

    def set(self, t, v):
        self.assigned = v


class Blocks(World):
    """Blocks own ends: INP(b, i), OUTP(b, i); an end is in at most one list, once, and owned by that block."""

    def __init__(self, V, kinds=NAMES[3:], block='klang.block.Block'):
        super().__init__(V, kinds)
        I, Bo = z3.IntSort(), z3.BoolSort()
        f = lambda name, *s: z3.Function(fresh_name(name), *s)
        self.Block = V.lookup(block)
        self.owner = V.heap_field('owner', KRef(self.Block, True))
        V.assume(All([None], lambda x: self.own(x) >= NULL, pat=lambda x: self.own(x)))
        V.heap_field('name', KText())
        self.size, self.member, self.place, self.end_of = {}, {}, {}, {}
        for side, names in (('inputs', INPUTS), ('outputs', OUTPUTS)):
            n, at, mem, pos = f('n ' + side, I, I), f(side, I, I, I), f('is in ' + side, I, Bo), f('place in ' + side, I, I)
            self.size[side], self.end_of[side], self.member[side], self.place[side] = n, at, mem, pos
            V.assume(All([None], lambda b: n(b) >= 0, pat=lambda b: n(b)))
            V.assume(All([(0, None), (0, None)], lambda b, i: imp(i < n(b), And(at(b, i) >= 0, self.own(at(b, i)) == b, mem(at(b, i)), pos(at(b, i)) == i, self.is_(at(b, i), *[c for c in names if c in kinds]))), pat=lambda b, i: at(b, i)))
            V.assume(All([(0, None)], lambda x: imp(mem(x), And(self.own(x) >= 0, pos(x) >= 0, pos(x) < n(self.own(x)), at(self.own(x), pos(x)) == x)), pat=lambda x: mem(x)))
            cls = tuple(self.cls[c] for c in names if c in kinds)
            View(V, side, lambda o, n=n, at=at, cls=cls: self.frozen(Seq(n(o.term), lambda i, b=o.term: Ref(at(b, Z(i)), cls), None, KRef(cls))))

    def own(self, x):
        return self.owner.arr[Z(x)]

    def frozen(self, seq):
        l = self.V.mklist(seq)
        l.frozen = True
        return l

    def block(self, name):
        b = Ref(z3.Int(fresh_name(name)), self.Block)
        self.V.assume(b.term >= 0)
        return b

    def outside(self, b, x, y):
        """The connection x -> y joins block b with something else."""
        return And(self.linked(x, y), Or(And(self.member['inputs'](y), self.own(y) == b, self.own(x) != b),
                                         And(self.member['outputs'](x), self.own(x) == b, self.own(y) != b)))

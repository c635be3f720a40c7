"""C02: a value is that of the end reached by following the connections upstream."""
from pyvc.spec import *
from contracts.net import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['connections are consistent (C01) and no relay is, through relays, its own source (reading such a loop ends in a RecursionError)',
               'recursive reads are verified by induction on the number of connections up to the source']
VALUE = z3.DeclareSort('Value')
KINDS = ['Output', 'Relay', 'Input']
R = z3.IntSort()


class Values(World):
    def __init__(self, V):
        super().__init__(V, KINDS)
        self.val = V.heap_field('_value', VALUE)
        self.val0 = self.val.arr
        self.DEPTH = z3.Function(fresh_name('depth'), R, R)      # number of connections up to the source
        self.ROOT = z3.Function(fresh_name('root_value'), R, VALUE)
        V.assume(All([(0, None)], lambda y: And(self.DEPTH(y) >= 0, imp(self.inc0[y] != NULL, self.DEPTH(self.inc0[y]) < self.DEPTH(y))), pat=lambda y: self.DEPTH(y)))
        V.assume(All([(0, None)], lambda y: self.ROOT(y) == z3.If(self.inc0[y] != NULL, self.ROOT(self.inc0[y]), self.val0[y]), pat=lambda y: self.ROOT(y)))

    def induction(self, x, cls):
        """Reads of ends above x return their root value; methods of x that x's method uses are executed."""
        V, active = self.V, set()

        def read(V, a):
            f, y = V.callee, a['self']
            if z3.eq(y.term, x.term) and f.qual not in active:
                active.add(f.qual)
                V.inline_once = f.qual
                return V.call_func(f, [y], {})
            V.check('reads go upstream', self.DEPTH(y.term) < self.DEPTH(x.term))
            V.check('sources are ends', y.term >= 0)
            return self.ROOT(y.term)
        for q in ('Input.value', '_ValueContainer.value', 'Input.get_value', '_ValueContainer.get_value', 'Output.value', 'Output.get_value', 'Relay.value', 'Relay.get_value'):
            V.contracts[C + q] = read

    def unchanged(self, tag, val=None):
        self.state(tag, lambda x, y: self.linked(x, y), lambda y: self.inc0[y])
        new = self.val.arr
        self.V.check(tag + ': values', All([(0, None)], lambda y: z3.Select(new, y) == (val(y) if val else self.val0[y]), pat=lambda y: z3.Select(new, y)))


def read(kind):
    @U.unit('read %s' % kind, claim='value and get_value() of this kind return the value of the ultimate source and change nothing')
    def read(V):
        w = Values(V)
        x = w.end('x')
        V.assume(w.is_(x.term, kind))
        x = Ref(x.term, w.cls[kind])
        w.induction(x, w.cls[kind])
        V.check('value', V.getattr(x, 'value') == w.ROOT(x.term))
        w.induction(x, w.cls[kind])
        V.check('get_value', V.expect_ok('get_value', V.getattr(x, 'get_value'), []) == w.ROOT(x.term))
        w.unchanged('read')

    @U.unit('set %s' % kind, claim='setting a value, either way, changes the own value of this end only')
    def set_(V):
        for way in ('set_value', 'value'):
            w = Values(V)
            x = w.end('x')
            V.assume(w.is_(x.term, kind))
            x = Ref(x.term, w.cls[kind])
            v = z3.Const(fresh_name('v'), VALUE)
            if way == 'value':
                V.setattr(x, 'value', v)
            else:
                V.expect_ok('set_value', V.getattr(x, 'set_value'), [v])
            w.unchanged(way, lambda y: z3.If(y == x.term, v, w.val0[y]))

    @U.unit('own value of %s' % kind, claim='the own value survives every connect and disconnect, refused or not')
    def own(V):
        for op in ('connect', 'disconnect'):
            w = Values(V)
            x, y = w.end('x'), w.end('y')
            V.assume(w.is_(x.term, kind))
            V.outcome(V.getattr(x, op), [y])
            new = w.val.arr
            V.check(op + ': values', All([(0, None)], lambda z: z3.Select(new, z) == w.val0[z], pat=lambda z: z3.Select(new, z)))


for _k in KINDS:
    read(_k)


@U.unit('new ends', claim='a new end has the given value, unconnected')
def new(V):
    v = z3.Const(fresh_name('v'), VALUE)
    for k in ('Output', 'Input'):
        o = V.expect_ok('new ' + k, C + k, [None, v])
        V.check(k + ': value', V.getattr(o, 'value') == v)
        V.check(k + ': get_value', V.expect_ok('get', V.getattr(o, 'get_value'), []) == v)
        o = V.expect_ok('new ' + k, C + k, [], dict(value=v))
        V.check(k + ': value', V.getattr(o, 'value') == v)
    for k in KINDS:
        o = V.expect_ok('new ' + k, C + k, [])
        V.check(k + ': default', eq(V, V.getattr(o, 'value'), 0))
        u = z3.Const(fresh_name('u'), VALUE)
        V.expect_ok('set_value', V.getattr(o, 'set_value'), [u])
        V.check(k + ': set value', V.getattr(o, 'value') == u)
        V.setattr(o, 'value', v)
        V.check(k + ': assigned value', V.expect_ok('get', V.getattr(o, 'get_value'), []) == v)

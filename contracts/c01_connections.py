"""C01: the connection graph as heap fields over all ends; every operation keeps the double entry."""
from pyvc.spec import *
from contracts.net import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['ends are objects of the nine connection classes themselves (subclasses are not connectable to anything, by design)',
               'ends are compared and hashed by identity']


def receiver(name):
    @U.unit('connect of %s' % name, claim='%s.connect with any end: succeeds exactly for connectable kinds and a free destination, and enters this connection on both ends; a rejected call changes nothing' % name)
    def connect(V):
        w = World(V)
        a, b = w.end('a'), w.end('b')
        V.assume(w.is_(a.term, name))
        s, d = w.direction(a, b)
        ok = V.decide(w.connectable(s.term, d.term))
        free = ok and V.decide(w.inc0[d.term] == NULL)
        st, v = V.outcome(V.getattr(a, 'connect'), [b])
        V.check('succeeds exactly when allowed', (st == 'ok') == bool(ok and free))
        if st == 'ok':
            w.state('connected', lambda x, y: Or(w.linked(x, y), And(x == s.term, y == d.term)), lambda y: z3.If(y == d.term, s.term, w.inc0[y]))
            w.check('connected')
        else:
            V.check('error', v.cls.name == ('InputAlreadyConnected' if ok else 'IncompatibleConnection'))
            w.state('rejected', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])

    @U.unit('disconnect of %s' % name, claim='%s.disconnect removes exactly the named connection from both ends; without such a connection nothing changes' % name)
    def disconnect(V):
        w = World(V)
        a, b = w.end('a'), w.end('b')
        V.assume(w.is_(a.term, name))
        s, d = w.direction(a, b)
        there = V.decide(w.linked(s.term, d.term))
        st, v = V.outcome(V.getattr(a, 'disconnect'), [b])
        if there:
            V.check('an existing connection is removed', st == 'ok')
            w.state('disconnected', lambda x, y: And(w.linked(x, y), Not(And(x == s.term, y == d.term))), lambda y: z3.If(y == d.term, NULL, w.inc0[y]))
            w.check('disconnected')
        else:
            w.state('nothing to disconnect', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])


for _n in NAMES:
    receiver(_n)


@U.unit('queries', claim='connected, is_connected and are_connected report exactly the connections, and change nothing')
def queries(V):
    w = World(V)
    a, b, c = w.end('a'), w.end('b'), w.end('c')
    r = V.expect_ok('is_connected', C + 'is_connected', [a, b])
    V.check('is_connected', iff(V.truth(r), w.linked(a.term, b.term)))
    r = V.expect_ok('are_connected', C + 'are_connected', [a, b, c])
    V.check('are_connected', iff(V.truth(r), And(w.linked(a.term, b.term), w.linked(b.term, c.term))))
    w.state('unchanged', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])


@U.unit('connected', claim='an input or relay is connected when it has a source, an output when it has a destination')
def connected(V):
    w = World(V)
    a = w.end('a')
    r = V.truth(V.getattr(a, 'connected'))
    if V.decide(w.is_(a.term, *INPUTS)):
        V.check('connected input', iff(r, w.inc0[a.term] != NULL))
    elif V.decide(Z(r)):
        y = z3.Int(fresh_name('y'))
        V.check('connected output has a destination', z3.Exists([y], w.linked(a.term, y)))
    else:
        V.check('unconnected output has none', All([(0, None)], lambda y: Not(w.linked(a.term, y)), pat=lambda y: [w.linked(a.term, y)]))
    w.state('unchanged', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])


@U.unit('new ends', claim='a new end has no connections of its own')
def new(V):
    for n in NAMES:
        o = V.expect_ok('new ' + n, C + n, [])
        if n in OUTPUTS:
            s = o.fields['outgoingConnections']
            V.check(n + ': no destinations', isinstance(s, SSet) and s.items == [])
        if n in INPUTS:
            V.check(n + ': no source', o.fields['incomingConnection'] is None)
        p = V.expect_ok('new ' + n, C + n, [])
        if n in OUTPUTS:
            V.check(n + ': own set of destinations', p.fields['outgoingConnections'] is not o.fields['outgoingConnections'])

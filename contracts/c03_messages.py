"""C03: message delivery through relays, and the bounded queues."""
from pyvc.spec import *
from contracts.net import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['connections are consistent (C01) and no relay is, through relays, its own source (a message on such a loop never ends)',
               'recursive deliveries are verified by induction on the length of the longest way downstream',
               'one thread: no other code runs while a message is delivered']
KINDS = ['MessageOutput', 'MessageRelay', 'MessageInput']
I, Bo = z3.IntSort(), z3.BoolSort()


class Messages(World):
    """UNDER(x, y): y is reached from x through zero or more connections; CHILD(x, y): the first end on the way."""

    def __init__(self, V):
        super().__init__(V, KINDS)
        self.got = V.heap_field('number of messages received', KInt())
        self.got0 = self.got.arr
        f = lambda name, *s: z3.Function(fresh_name(name), *s)
        self.DEPTH, self.HEIGHT, self.UNDER, self.CHILD = f('depth', I, I), f('height', I, I), f('under', I, I, Bo), f('child', I, I, I)
        U, CH, inc = self.UNDER, self.CHILD, self.inc0
        V.assume(All([(0, None)], lambda y: And(self.DEPTH(y) >= 0, imp(inc[y] >= 0, self.DEPTH(inc[y]) < self.DEPTH(y))), pat=lambda y: self.DEPTH(y)))
        V.assume(All([(0, None)], lambda y: And(self.HEIGHT(y) >= 0, imp(inc[y] >= 0, self.HEIGHT(inc[y]) > self.HEIGHT(y))), pat=lambda y: self.HEIGHT(y)))

    def under(self, x, y):
        return Or(x == y, And(self.inc0[y] >= 0, self.UNDER(x, self.inc0[y])))

    def child(self, x, y):
        return z3.If(self.inc0[y] == x, y, self.CHILD(x, self.inc0[y]))

    def define(self, x, y):
        """Definitions of UNDER and CHILD at one place."""
        self.V.axiom(self.UNDER(x, y) == self.under(x, y))
        self.V.axiom(self.CHILD(x, y) == self.child(x, y))

    def above(self, c, y):
        return imp(self.UNDER(c, y), self.DEPTH(c) <= self.DEPTH(y))

    def down(self, x, y):
        c = self.CHILD(x, y)
        return imp(self.UNDER(x, y), x != y, And(self.inc0[c] == x, self.UNDER(c, y), c >= 0))

    def unique(self, x, c, y):
        return imp(self.inc0[c] == x, self.UNDER(c, y), And(self.UNDER(x, y), x != y, self.CHILD(x, y) == c))

    def facts(self):
        """Facts about the trees of connections (proved in the unit below)."""
        for f in (All([(0, None), (0, None)], self.down, pat=lambda x, y: [[self.UNDER(x, y)]]),
                  All([(0, None), (0, None), (0, None)], self.unique, pat=lambda x, c, y: [[self.UNDER(c, y), self.inc0[c], self.CHILD(x, y)]]),
                  All([(0, None), (0, None)], lambda c, y: imp(self.inc0[c] >= 0, self.unique(self.inc0[c], c, y)), pat=lambda c, y: [[self.UNDER(c, y)]]),
                  All([(0, None)], lambda x: self.UNDER(x, x), pat=lambda x: [self.inc0[x]])):
            self.V.assume(f)


@U.unit('trees of connections', claim='as every end has at most one source, exactly one connection of x leads towards each end below x')
def trees(V):
    w = Messages(V)
    x, y, c = [V.int(n) for n in 'xyc']
    V.assume(And(x >= 0, y >= 0, c >= 0))
    p = w.inc0[y]
    V.assume(p >= NULL)
    for a in (x, c, y, w.CHILD(x, y), w.CHILD(x, p)):
        for b in (y, p, x, c):
            w.define(a, b)
    V.assume(And(w.DEPTH(y) >= 0, imp(p >= 0, w.DEPTH(p) < w.DEPTH(y)), imp(w.inc0[c] >= 0, w.DEPTH(w.inc0[c]) < w.DEPTH(c))))
    for label, f in (('only downstream', lambda b: w.above(c, b)), ('first end on the way', lambda b: w.down(x, b)), ('no other end leads there', lambda b: w.unique(x, c, b))):
        if label == 'no other end leads there':
            V.assume(w.above(c, x))                    # proved above, for every pair
        V.check('induction: ' + label, imp(imp(p >= 0, f(p)), f(y)), assume_after=False)
    V.check('every end is below itself', w.UNDER(y, y))


def delivery(kind, method):
    @U.unit('%s of %s' % (method, kind), claim='the message reaches every input below exactly once, and nothing else')
    def deliver(V):
        w = Messages(V)
        w.facts()
        x = w.end('x')
        V.assume(w.is_(x.term, kind))
        x = Ref(x.term, w.cls[kind])
        m = z3.Const(fresh_name('message'), z3.DeclareSort('Message'))
        active = set()

        def arrive(z):
            """Every input below z gets one more message."""
            old = w.got.arr
            w.got.havoc(V)
            new = w.got.arr
            V.assume(All([(0, None)], lambda y: z3.Select(new, y) == z3.Select(old, y) + z3.If(And(w.is_(y, 'MessageInput'), w.UNDER(z, y)), 1, 0), pat=lambda y: z3.Select(new, y)))

        def send(V, a):
            f, z = V.callee, a['self']
            if z3.eq(z.term, x.term) and f.qual not in active:
                active.add(f.qual)
                V.inline_once = f.qual
                return V.call_func(f, [z, a['message']], {})
            V.check('forwarded message', a['message'] is m)
            V.check('only downstream', w.HEIGHT(z.term) < w.HEIGHT(x.term))
            V.check('to a relay', w.is_(z.term, 'MessageRelay', 'MessageOutput'))
            arrive(z.term)

        def push(V, a):
            z = a['self']
            V.check('message', a['message'] is m)
            V.check('into an input', w.is_(z.term, 'MessageInput'))
            V.wrote(w.got, None, None)
            w.got.set(z.term, z3.Select(w.got.arr, z.term) + 1)
        V.contracts[C + 'MessageOutput.send'] = send
        V.contracts[C + 'MessageRelay.push'] = send
        V.contracts[C + '_MessageQueue.push'] = push

        def received(y, on):
            return z3.Select(w.got.arr, y) == w.got0[y] + z3.If(And(w.is_(y, 'MessageInput'), on), 1, 0)

        def inv(V, L):
            on = lambda y: And(w.UNDER(x.term, y), x.term != y, L.seq.idx(w.CHILD(x.term, y)) < Z(L.k))
            return [('delivered so far', All([(0, None)], lambda y: received(y, on(y)), pat=lambda y: z3.Select(w.got.arr, y)))]
        for q in ('MessageOutput.send#0', 'MessageRelay.push#0'):
            V.loops[C + q] = LoopSpec(inv)
        V.expect_ok('deliver', V.getattr(x, method), [m])
        V.check('every input below got one more message', All([(0, None)], lambda y: received(y, w.UNDER(x.term, y)), pat=lambda y: z3.Select(w.got.arr, y)))
        w.state('connections', lambda a, b: w.linked(a, b), lambda b: w.inc0[b])


delivery('MessageOutput', 'send')
delivery('MessageRelay', 'push')
delivery('MessageRelay', 'send')


def queue(V):
    """An input with any number of pending messages, up to fifty."""
    o = V.expect_ok('new', C + 'MessageInput', [])
    q = o.fields['queue']
    V.check('nothing pending at first', Z(V.seq_of(q).n) == 0)
    V.check('keeps fifty messages', eq(V, q.maxlen, 50))
    s = V.seq('pending', KInt())
    V.assume(And(s.n >= 0, s.n <= 50))
    V.setseq(q, s)
    return o, q, s


@U.unit('push', claim='a message is queued behind the pending ones; only the fifty newest are kept')
def push(V):
    o, q, s = queue(V)
    m = V.int('message')
    V.expect_ok('push', V.getattr(o, 'push'), [m])
    t = V.seq_of(V.getattr(o, 'queue'))
    full = s.n == 50
    V.check('number', Z(t.n) == z3.If(full, z3.IntVal(50), s.n + 1))
    V.check('last', eq(V, t[Z(t.n) - 1], m))
    V.check('order', All((0, Z(t.n) - 1), lambda i: Z(t[i]) == Z(s[Z(i) + z3.If(full, 1, 0)])))


@U.unit('receive', claim='all pending messages, in arrival order, each once; a message leaves the queue when it is handed out')
def receive(V):
    o, q, s = queue(V)

    def inv(V, L):
        out, t = V.collecting[-1].seq, V.seq_of(V.getattr(o, 'queue'))
        r = [('each message is handed out or pending', And(Z(out.n) + Z(t.n) == s.n, Z(out.n) >= 0, Z(t.n) >= 0))]
        if const_int(out.n) != 0:
            r.append(('handed out in order', All((0, out.n), lambda i: Z(out[i]) == Z(s[i]))))
        if const_int(t.n) != 0:
            r.append(('pending in order', All((0, t.n), lambda i: Z(t[i]) == Z(s[Z(out.n) + Z(i)]))))
        return r
    V.loops[C + '_MessageQueue.receive#0'] = LoopSpec(inv, variant=lambda V, L: V.seq_of(V.getattr(o, 'queue')).n)
    r = V.seq_of(V.expect_ok('collect', V.builtin('list'), [V.expect_ok('receive', V.getattr(o, 'receive'), [])]))
    V.check('all messages', Z(r.n) == s.n)
    V.check('in order', All((0, s.n), lambda i: Z(r[i]) == Z(s[i])) if const_int(r.n) != 0 else True)
    V.check('none is left', Z(V.seq_of(V.getattr(o, 'queue')).n) == 0)


@U.unit('receive latest', claim='the newest message or None; the others are discarded')
def latest(V):
    o, q, s = queue(V)
    r = V.expect_ok('receive_latest', V.getattr(o, 'receive_latest'), [])
    if r is None:
        V.check('None only without messages', s.n == 0)
    else:
        V.check('newest message', And(s.n > 0, eq(V, r, s[s.n - 1])))
    V.check('none is left', Z(V.seq_of(V.getattr(o, 'queue')).n) == 0)


@U.unit('own queues', claim='every input has a queue of its own')
def own(V):
    a, b = V.expect_ok('new', C + 'MessageInput', []), V.expect_ok('new', C + 'MessageInput', [])
    V.check('separate queues', a.fields['queue'] is not b.fields['queue'])

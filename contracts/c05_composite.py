"""C05: composites take their outside connections away while sorting, put them back in every case, and run their inside in order."""
from pyvc.spec import *
from contracts.net import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['connections are consistent (C01); an end is in at most one list of inputs or outputs, and owned by that block',
               'connect and disconnect: contract of C01', 'determine_execution_order: contract of C04 (it changes no connection; any exception may leave it)']
B, X = 'klang.block.', 'klang.composite.'


class Index(GhostCell):
    """Ghost: where the connection leading to an input was put in the list of connections."""

    def __init__(self, V, name='index'):
        fresh = lambda V: z3.Const(fresh_name(name), z3.ArraySort(z3.IntSort(), z3.IntSort()))
        super().__init__(V, fresh(V), fresh)

    def note(self, V, seq):
        """Every entry that was added last."""
        if const_int(seq.n) != 0:
            last = Z(seq.n) - 1
            self.set(V, z3.If(last >= 0, z3.Store(self.value, seq[last][1].term, last), self.value))

    def __getitem__(self, y):
        return z3.Select(self.value, y)


def src(s, j):
    return s[j][0].term


def dst(s, j):
    return s[j][1].term


def inside(w, b, s, ix, member):
    """Every entry of list s is a connection with member(j), once."""
    if const_int(s.n) == 0:
        return True
    return All((0, s.n), lambda j: And(w.linked(src(s, j), dst(s, j)), src(s, j) >= 0, dst(s, j) >= 0, w.inc0[dst(s, j)] == src(s, j), ix[dst(s, j)] == j, member(src(s, j), dst(s, j))), pat=lambda j: dst(s, j))


def have(s, ix, y):
    if const_int(s.n) == 0:
        return z3.BoolVal(False)
    return And(ix[y] >= 0, ix[y] < Z(s.n), dst(s, ix[y]) == y)


@U.unit('connections of a block', claim='collect_connections lists every connection between the block and anything else exactly once, and no other', time_limit=240)
def collect(V):
    w = Blocks(V)
    b = w.block('b')
    t = b.term
    INP, OUTP, po = w.end_of['inputs'], w.end_of['outputs'], w.place['outputs']
    ix = Index(V)
    place = {}
    entry = lambda x, y: w.outside(t, x, y)
    isin = lambda y: And(w.member['inputs'](y), w.own(y) == t)
    isout = lambda x: And(w.member['outputs'](x), w.own(x) == t)
    pat = lambda i: INP(t, i)

    def wanted(i):
        y = INP(t, i)
        return And(w.inc0[y] >= 0, w.own(w.inc0[y]) != t)

    def ins(V, L):
        s = V.collecting[-1].seq
        return [('entries', inside(w, t, s, ix, lambda x, y: And(isin(y), w.own(x) != t, w.place['inputs'](y) < L.k))),
                ('all so far', All((0, L.k), lambda i: imp(wanted(i), have(s, ix, INP(t, i))), pat=pat))]
    V.loops[B + 'input_connections#0'] = LoopSpec(ins, after_body=lambda V, L: ix.note(V, V.collecting[-1].seq))

    def both(s, at_input, at_output):
        return [('entries', inside(w, t, s, ix, lambda x, y: Or(And(isin(y), w.own(x) != t), And(isout(x), w.own(y) != t, at_output(x, y))))),
                ('all at inputs', All((0, w.size['inputs'](t)), lambda i: imp(wanted(i), have(s, ix, INP(t, i))), pat=pat))]

    def done(s, i):
        """All connections of outputs before i."""
        return All([(0, i), (0, None)], lambda o, y: imp(w.linked(OUTP(t, o), y), w.own(y) != t, have(s, ix, y)), pat=lambda o, y: [[w.linked(OUTP(t, o), y)]])

    def outs(V, L):
        place['i'] = L.k
        s = V.collecting[-1].seq
        return both(s, True, lambda x, y: po(x) < L.k) + [('all outputs so far', done(s, L.k))]
    V.loops[B + 'output_connections#0'] = LoopSpec(outs)

    def dsts(V, L):
        s, i, e = V.collecting[-1].seq, place['i'], L.seq
        x0 = OUTP(t, i)
        here = lambda x, y: Or(po(x) < i, And(po(x) == i, e.idx(y) < L.k))
        return both(s, True, here) + [('all outputs before', done(s, i)),
                                      ('all so far', All((0, L.k), lambda k: imp(w.own(e[k].term) != t, have(s, ix, e[k].term)), pat=lambda k: e[k].term))]
    V.loops[B + 'output_connections#1'] = LoopSpec(dsts, after_body=lambda V, L: ix.note(V, V.collecting[-1].seq))
    s = V.seq_of(V.expect_ok('collect', V.builtin('list'), [V.expect_ok('collect_connections', B + 'collect_connections', [b])]))
    V.check('only connections with others, each once', inside(w, t, s, ix, entry))
    x, y = V.int('x'), V.int('y')
    V.assume(And(x >= 0, y >= 0, entry(x, y)))
    V.check('every connection with others', And(have(s, ix, y), src(s, ix[y]) == x) if const_int(s.n) != 0 else False)
    w.state('unchanged', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])


class Patched:
    """The connections of a composite, with contracts for all that changes them."""

    def __init__(self, V):
        self.V = V
        self.w = w = Blocks(V, block=X + 'Composite')
        self.b = w.block('composite')
        t = self.b.term
        cls = tuple(w.cls[n] for n in w.kinds)
        self.s = s = V.seq('connections', KTuple(KRef(cls), KRef(cls)))
        self.ix = ix = Index(V, 'index of connection')
        V.assume(inside(w, t, s, ix, lambda x, y: w.outside(t, x, y)))
        V.assume(All([(0, None), (0, None)], lambda x, y: imp(w.outside(t, x, y), And(have(s, ix, y), src(s, ix[y]) == x)), pat=lambda x, y: [[w.linked(x, y)]]))
        self.collected = 0

        def collected(V, a):
            V.check('connections of the composite', a['block'].term == t)
            V.check('collected while all are in place', True)
            w.state('when collected', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])
            return V.mklist(s)
        V.contracts[B + 'collect_connections'] = collected

        def disconnect(V, a):
            x, y = a['self'].term, a.get('input_', a.get('other')).term
            V.check('an existing connection is taken away', z3.Select(z3.Select(w.out.arr, x), y))
            V.wrote(w.out, None, None)
            V.wrote(w.inc, None, None)
            w.out.arr = z3.Store(w.out.arr, x, z3.Store(z3.Select(w.out.arr, x), y, False))
            w.inc.arr = z3.Store(w.inc.arr, y, NULL)

        def connect(V, a):
            x, y = a['self'].term, a.get('input_', a.get('other')).term
            V.check('possible connection', w.connectable(x, y))
            V.check('connected to a free end', w.inc.arr[y] == NULL)
            V.wrote(w.out, None, None)
            V.wrote(w.inc, None, None)
            w.out.arr = z3.Store(w.out.arr, x, z3.Store(z3.Select(w.out.arr, x), y, True))
            w.inc.arr = z3.Store(w.inc.arr, y, x)
        for c in ('OutputBase', 'RelayBase'):
            V.contracts[C + c + '.disconnect'] = disconnect
            V.contracts[C + c + '.connect'] = connect

        def without(gone):
            o, i = w.out.arr, w.inc.arr
            return [('listed destinations', All([(0, None), (0, None)], lambda x, y: z3.Select(z3.Select(o, x), y) == And(w.linked(x, y), Not(gone(y))), pat=lambda x, y: [[z3.Select(z3.Select(o, x), y)]])),
                    ('listed sources', All([(0, None)], lambda y: z3.Select(i, y) == z3.If(gone(y), NULL, w.inc0[y]), pat=lambda y: [z3.Select(i, y)]))]
        # as many of the connections are gone as the loop has passed
        self.loops = [LoopSpec(lambda V, L: without(lambda y: And(have(s, ix, y), ix[y] < L.k))),
                      LoopSpec(lambda V, L: without(lambda y: And(have(s, ix, y), ix[y] >= L.k)))]
        V.loops[X + 'temporarily_unpatch#0'], V.loops[X + 'temporarily_unpatch#1'] = self.loops

    def away(self, tag):
        """Exactly the outside connections are gone."""
        w, t = self.w, self.b.term
        w.state(tag, lambda x, y: And(w.linked(x, y), Not(w.outside(t, x, y))), lambda y: z3.If(And(w.inc0[y] >= 0, w.outside(t, w.inc0[y], y)), NULL, w.inc0[y]))

    def back(self, tag):
        w = self.w
        w.state(tag, lambda x, y: w.linked(x, y), lambda y: w.inc0[y])


def sorting(given):
    @U.unit('sorting the inside, %s' % ('from given blocks' if given else 'from the blocks at the relays'), time_limit=240,
            claim='while the order is computed exactly the outside connections are away; afterwards, also after a failure, all are back; the order is the computed one without the composite itself')
    def sort(V):
        p = Patched(V)
        w, b = p.w, p.b
        start = [w.block('start'), w.block('second')] if given else []
        order = V.seq('order', KRef(w.Block))
        at = z3.Function(fresh_name('place in order'), z3.IntSort(), z3.IntSort())
        V.assume(All((0, order.n), lambda i: And(at(order[i].term) == i, order[i].term >= 0), pat=lambda i: order[i].term))
        mine = z3.Bool('the composite is in its order')
        V.assume(imp(mine, And(at(b.term) >= 0, at(b.term) < order.n, order[at(b.term)].term == b.term)))
        V.assume(All((0, order.n), lambda i: imp(order[i].term == b.term, mine), pat=lambda i: order[i].term))
        k0 = at(b.term)
        found = V.mklist([])
        calls = []

        def introspect(V, a):
            V.check('looks at the composite itself', a['composite'].term == b.term)
            return found
        V.contracts[X + 'introspect'] = introspect

        def determine(V, a):
            calls.append(1)
            p.away('while sorting')
            got = a['blocks']
            if given:
                V.check('starts at the given blocks', And(*[eq(V, x, y) for x, y in zip(V.seq_of(got).items, start)]) if V.seq_of(got).concrete and len(V.seq_of(got).items) == 2 else False)
            else:
                V.check('starts at the blocks at the relays', got is found)
            if V.decide(z3.Bool('sorting fails')):
                V.throw('ValueError', 'some failure')
            return V.mklist(order)
        V.contracts['klang.execution.determine_execution_order'] = determine
        E = View(V, 'execOrder', lambda o: None)

        def removed(V, L):
            s = V.seq_of(L['execOrder'])
            r = [('taken out at most once', And(L.k <= 1, imp(L.k == 1, mine), Z(s.n) == order.n - L.k))]
            if const_int(s.n) != 0:
                r.append(('the others in order', All((0, s.n), lambda i: eq(V, s[i], order[z3.If(And(L.k == 1, i >= k0), i + 1, i)]), pat=lambda i: s[i].term)))
            return r
        V.loops[X + 'Composite.update_internal_exec_order#0'] = LoopSpec(removed, variant=lambda V, L: V.seq_of(L['execOrder']).n)
        st, v = V.outcome(V.getattr(b, 'update_internal_exec_order'), start)
        V.check('sorted once', len(calls) == 1)
        p.back('afterwards')
        if st == 'raise':
            V.check('only the failure of the sorting gets out', And(z3.Bool('sorting fails'), v.cls.name == 'ValueError'))
            V.check('a failed sorting changes nothing', E.assigned is None)
            return
        V.check('a failure is not hidden', Not(z3.Bool('sorting fails')))
        V.check('the order is kept', E.assigned is not None)
        s = V.seq_of(E.assigned)
        place = lambda i: at(s[i].term)
        if const_int(s.n) != 0:
            V.check('blocks of the computed order, not the composite', All((0, s.n), lambda i: And(s[i].term != b.term, place(i) >= 0, place(i) < order.n, order[place(i)].term == s[i].term), pat=lambda i: s[i].term))
            V.check('in the computed order', All((0, Z(s.n) - 1), lambda i: place(i) < place(i + 1), pat=lambda i: s[i].term))
        j = V.int('j')
        V.assume(And(j >= 0, j < order.n, order[j].term != b.term))
        V.check('every other block', V.exists(0, s.n, lambda i: s[i].term == order[j].term))


sorting(False)
sorting(True)


@U.unit('temporarily unpatched', claim='the same for any code running with the block unpatched, whatever exception leaves it', time_limit=240)
def unpatched(V):
    p = Patched(V)
    ctx = V.expect_ok('temporarily_unpatch', X + 'temporarily_unpatch', [p.b])
    ran = []

    def body(v):
        ran.append(v)
        p.away('in the body')
        if V.decide(z3.Bool('the body fails')):
            V.throw('KeyboardInterrupt')
    st, v = V.outcome(Builtin('with', lambda V: V.run_gen(ctx, body)), [])
    V.check('the body runs once, with the block', len(ran) == 1 and ran[0] is p.b)
    V.check('the exception of the body gets out', (st == 'raise') == V.decide(z3.Bool('the body fails')) and (st == 'ok' or v.cls.name == 'KeyboardInterrupt'))
    p.back('afterwards')


@U.unit('adjacent inner blocks', claim='introspect names the owner of every end that a relay of the composite is connected to on the inside, and nothing else', time_limit=240)
def adjacent(V):
    w = Blocks(V, block=X + 'Composite')
    b = w.block('composite')
    t = b.term
    INP, OUTP = w.end_of['inputs'], w.end_of['outputs']
    place = {}
    ix = Index(V, 'first mention')
    relay = lambda x: w.is_(x, *[r for r in RELAYS if r in w.kinds])
    nin, nout = w.size['inputs'](t), w.size['outputs'](t)
    WIT, SIDE = [z3.Function(fresh_name(n), z3.IntSort(), z3.IntSort()) for n in ('end', 'side')]
    adj_in = lambda x, y: And(w.member['inputs'](x), w.own(x) == t, relay(x), w.linked(x, y))
    adj_out = lambda x, y: And(w.member['outputs'](x), w.own(x) == t, relay(x), w.inc0[x] == y, y >= 0)

    class Mention(GhostCell):
        """Ghost: the list mentions the owner of end y at position first[y]; why[j]: the ends that made it mentioned."""

        def __init__(self, V):
            I = z3.IntSort()
            f = lambda V: [z3.Const(fresh_name('mention'), z3.ArraySort(I, I)) for _ in range(3)]
            super().__init__(V, f(V), f)

        def note(self, V, seq, x, y):
            first, wx, wy = self.value
            last = Z(seq.n) - 1
            self.set(V, [z3.Store(first, y, last), z3.Store(wx, last, x), z3.Store(wy, last, y)])
    m = Mention(V)

    def named(s, y):
        if const_int(s.n) == 0:
            return z3.BoolVal(False)
        j = z3.Select(m.value[0], y)
        return And(j >= 0, j < Z(s.n), s[j].term == w.own(y))

    def justified(s, before_in, before_out):
        if const_int(s.n) == 0:
            return True
        f, wx, wy = m.value
        return All((0, s.n), lambda j: And(s[j].term >= 0, s[j].term == w.own(wy[j]), Or(adj_in(wx[j], wy[j]), adj_out(wx[j], wy[j]))), pat=lambda j: s[j].term)

    def ins_done(s, k):
        return All([(0, k), (0, None)], lambda i, y: imp(relay(INP(t, i)), w.linked(INP(t, i), y), w.own(y) >= 0, named(s, y)), pat=lambda i, y: [[w.linked(INP(t, i), y)]])

    def ins(V, L):
        place['i'] = L.k
        s = V.collecting[-1].seq
        return [('only adjacent blocks', justified(s, 0, 0)), ('all so far', ins_done(s, L.k))]
    q = X + 'introspect'
    V.loops[q + '#0'] = LoopSpec(ins)

    def dsts(V, L):
        s, e = V.collecting[-1].seq, L.seq
        return [('only adjacent blocks', justified(s, 0, 0)), ('all before', ins_done(s, place['i'])),
                ('all so far', All((0, L.k), lambda k: imp(w.own(e[k].term) >= 0, named(s, e[k].term)), pat=lambda k: e[k].term))]

    def note_in(V, L):
        s = V.collecting[-1].seq
        y = L.seq[L.k - 1].term
        if const_int(s.n) != 0 and V.decide(w.own(y) >= 0):
            m.note(V, s, INP(t, place['i']), y)
    V.loops[q + '#1'] = LoopSpec(dsts, after_body=note_in)

    def outs(V, L):
        s = V.collecting[-1].seq
        return [('only adjacent blocks', justified(s, 0, 0)), ('all at inputs', ins_done(s, nin)),
                ('all at outputs so far', All((0, L.k), lambda i: imp(relay(OUTP(t, i)), w.inc0[OUTP(t, i)] >= 0, w.own(w.inc0[OUTP(t, i)]) >= 0, named(s, w.inc0[OUTP(t, i)])), pat=lambda i: OUTP(t, i)))]

    def note_out(V, L):
        s = V.collecting[-1].seq
        x = OUTP(t, L.k - 1)
        if const_int(s.n) != 0 and V.decide(And(relay(x), w.inc0[x] >= 0, w.own(w.inc0[x]) >= 0)):
            m.note(V, s, x, w.inc0[x])
    V.loops[q + '#2'] = LoopSpec(outs, after_body=note_out)
    s = V.seq_of(V.expect_ok('collect', V.builtin('list'), [V.expect_ok('introspect', q, [b])]))
    V.check('only adjacent blocks', justified(s, nin, nout))
    x, y = V.int('x'), V.int('y')
    V.assume(And(x >= 0, y >= 0, Or(adj_in(x, y), adj_out(x, y)), w.own(y) >= 0))
    V.check('every adjacent block', named(s, y))
    w.state('unchanged', lambda x, y: w.linked(x, y), lambda y: w.inc0[y])


class Inner(models._HV):
    """Block k of the order: update is recorded."""

    def __init__(self, k, log):
        self.k, self.log = k, log

    def attr(self, V, name):
        if name == 'update':
            return Builtin('update', lambda V: self.log.send(V, Z(self.k)))
        raise Unsupported('block attribute ' + name)


@U.unit('update', claim='updating a composite updates the blocks of its internal order, each once, in this order')
def update(V):
    c = V.expect_ok('new', X + 'Composite', [])
    V.check('a new composite has an empty order of its own', V.seq_of(V.getattr(c, 'execOrder')).concrete and not V.seq_of(V.getattr(c, 'execOrder')).items)
    n = V.int('n')
    V.assume(n >= 0)
    log = Log(V, KInt())
    V.setattr(c, 'execOrder', V.mklist(Seq(n, lambda k: Inner(k, log), None, None)))
    V.loops['klang.execution.execute#0'] = LoopSpec(lambda V, L: [('updated so far', log.n == L.k), ('in order', All((0, log.n), lambda i: log[i] == i, pat=lambda i: log[i]) if const_int(log.value.n) != 0 else True)])
    V.expect_ok('update', V.getattr(c, 'update'), [])
    V.check('all blocks', log.n == n)
    V.check('in order', All((0, n), lambda i: log[i] == i, pat=lambda i: log[i]) if const_int(log.value.n) != 0 else True)

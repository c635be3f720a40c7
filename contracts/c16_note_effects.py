"""C16: note lengthener, note limiter and message mixer."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['times, pitches, velocities and frequencies are mathematical reals; the clock does not run backwards and the duration of a lengthener is not changed while notes sound',
               'message queues deliver as in C03; what a block sends does not come back to it within the same update']
N = 'klang.note_effects.'


def note_kind(V):
    return KNT(V.lookup('klang.messages.Note'), [KReal()] * 3)


def valid(x):
    p, v, f = x.vals
    return And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0)


def on(x):
    return x.vals[1] > 0


def same(x, y):
    return And(*[to_real(a) == to_real(b) for a, b in zip(x.vals, y.vals)])


def off_of(x, y):
    """x is the note-off matching y."""
    return And(to_real(x.vals[0]) == to_real(y.vals[0]), to_real(x.vals[1]) == 0, to_real(x.vals[2]) == to_real(y.vals[2]))


def incoming(V):
    """Any messages, and C(j): note-ons among the first j of them."""
    m = V.list('messages', note_kind(V)).seq
    V.assume(All((0, m.n), lambda j: valid(m[j]), pat=lambda j: m[j].vals[0]))
    V.assume(All((0, m.n), lambda j: valid(m[j]), pat=lambda j: m[j].vals[1]))
    C = z3.Function('ons', z3.IntSort(), z3.IntSort())
    V.assume(C(0) == 0)
    V.assume(All((0, m.n), lambda j: C(j + 1) == C(j) + If(on(m[j]), 1, 0), pat=lambda j: m[j].vals[1]))
    V.assume(All((0, m.n), lambda j: C(j + 1) == C(j) + If(on(m[j]), 1, 0), pat=lambda j: C(j + 1)))
    return m, C


@U.unit('lengthener', claim='due notes get one note-off each, oldest first; note-ons pass at once and are due after the duration')
def lengthener(V):
    nk = note_kind(V)
    duration, now, n, r = V.real('duration'), V.real('now'), V.int('active'), V.int('due')
    b = V.expect_ok('new', N + 'NoteLengthener', [duration])
    V.check('nothing sounds at first', Z(V.seq_of(V.getattr(b, 'activeNotes')).n) == 0)
    V.assume(And(duration >= 0, 0 <= r, r <= n))
    V.contracts['klang.clock.ClockMixin.clock'] = lambda V, a: now
    e = Seq.fresh('active', KTuple(KReal(), nk), n)
    V.assume(All((0, n), lambda i: And(valid(e[i][1]), on(e[i][1]), e[i][0] <= now + duration), pat=lambda i: e[i][0]))
    V.assume(All([(0, n), (0, n)], lambda i, j: imp(i < j, e[i][0] <= e[j][0]), pat=lambda i, j: [[e[i][0], e[j][0]]]))
    # r: notes that are due (exists since the ends are sorted)
    V.assume(All((0, n), lambda i: (e[i][0] <= now) == (i < r), pat=lambda i: e[i][0]))
    dq = V.getattr(b, 'activeNotes')
    V.setseq(dq, e)
    m, C = incoming(V)
    log = message_ports(V, m, nk)
    held = lambda: V.seq_of(V.getattr(b, 'activeNotes'))
    ek = KTuple(KReal(), nk)

    def offs(k):
        return All((0, k), lambda i: off_of(log[i], e[i][1]))

    def inv0(V, L):
        d = held()
        gone = n - Z(d.n)
        return [('oldest notes are ended', And(gone >= 0, gone <= r, log.n == gone)),
                ('one note-off each', offs(gone)),
                ('the others stay', All((0, d.n), lambda i: And(d[i][0] == e[gone + i][0], same(d[i][1], e[gone + i][1]))))]

    def started(k):
        d = held()
        return [('the number of notes', And(C(k) >= 0, log.n == r + C(k), Z(d.n) == n - r + C(k))),
                ('one note-off each', offs(r)),
                ('notes not yet due stay', All((0, n - r), lambda i: And(at(d, i, ek)[0] == e[r + i][0], same(at(d, i, ek)[1], e[r + i][1])))),
                ('note-ons pass at once', All((0, k), lambda j: imp(on(m[j]), And(C(j) >= 0, C(j) < C(k), same(log[r + C(j)], m[j]))), pat=lambda j: m[j].vals[1])),
                ('note-ons are due after the duration', All((0, k), lambda j: imp(on(m[j]), And(C(j) >= 0, C(j) < C(k), at(d, n - r + C(j), ek)[0] == now + duration, same(at(d, n - r + C(j), ek)[1], m[j]))), pat=lambda j: m[j].vals[1]))]
    V.loops[N + 'NoteLengthener.outdated_notes#0'] = LoopSpec(inv0)
    V.loops[N + 'NoteLengthener.update#1'] = LoopSpec(lambda V, L: started(L.k))
    V.expect_ok('update', V.getattr(b, 'update'), [])
    for l, f in started(Z(m.n)):
        V.check(l, f)
    V.check('duration unchanged', eq(V, V.getattr(b, 'duration'), duration))


@U.unit('limiter', claim='every note-on passes; the oldest sounding note is ended first whenever there would be more than the maximum')
def limiter(V):
    nk = note_kind(V)
    N_, a = V.int('maximum'), V.int('active')
    V.assume(And(N_ >= 1, 0 <= a, a <= N_))
    b = V.expect_ok('new', N + 'MaxNotes', [N_])
    V.check('nothing sounds at first', Z(V.seq_of(V.getattr(b, 'activeNotes')).n) == 0)
    old = Seq.fresh('active', nk, a)
    V.assume(All((0, a), lambda i: And(valid(old[i]), on(old[i])), pat=lambda i: old[i].vals[0]))
    V.setseq(V.getattr(b, 'activeNotes'), old)
    m, C = incoming(V)
    log = message_ports(V, m, nk)
    held = lambda: V.seq_of(V.getattr(b, 'activeNotes'))
    over = lambda x: If(x > N_, x - N_, 0)

    def note(x, d, t):
        """Note x, the d-th to sound: ended with the note-on N later (if among the t ended ones), else sounding."""
        h = held()
        return And(imp(d < t, And(2 * d - a + N_ >= 0, 2 * d - a + N_ < log.n, off_of(log[2 * d - a + N_], x))), imp(d >= t, And(d - t < Z(h.n), same(at(h, d - t, nk), x))))

    def state(k, extra, t, sent):
        """k messages handled; `extra` more note-ons taken in; t notes ended."""
        h = held()
        return [('the number of notes', And(C(k) >= 0, Z(h.n) == a + C(k) + extra - t, t >= 0, log.n == C(k) + t)),
                ('sounding notes before', All((0, a), lambda i: note(old[i], i, t), pat=lambda i: old[i].vals[0])),
                ('started notes', All((0, k), lambda j: imp(on(m[j]), And(C(j) >= 0, C(j) < C(k), note(m[j], a + C(j), t))), pat=lambda j: m[j].vals[1])),
                ('every note-on passes', All((0, k), lambda j: imp(on(m[j]), And(C(j) >= 0, C(j) < C(k), same(log[C(j) + over(a + C(j) + 1)], m[j]))), pat=lambda j: m[j].vals[1]))]

    place = {}

    def outer(V, L):
        place['k'] = L.k
        return state(L.k, 0, over(a + C(L.k)), 0)

    def inner(V, L):
        k = place['k']
        t = a + C(k) + 1 - Z(held().n)
        h = held()
        return [('not too many ended', And(t >= over(a + C(k)), t <= over(a + C(k) + 1)))] + state(k, 1, t, 0) + [('the new note', And(Z(h.n) >= 1, same(at(h, Z(h.n) - 1, nk), m[k])))]
    q = N + 'MaxNotes.update'
    V.loops[q + '#0'] = LoopSpec(outer)
    V.loops[q + '#1'] = LoopSpec(inner)
    V.expect_ok('update', V.getattr(b, 'update'), [])
    k = Z(m.n)
    for l, f in state(k, 0, over(a + C(k)), 0):
        V.check(l, f)
    V.check('at most the maximum sounds', And(a + C(k) - over(a + C(k)) <= N_))
    V.check('maximum unchanged', eq(V, V.getattr(b, 'nNotes'), N_))


class Port(models._HV):
    """Input i of a mixer with its pending messages M(i, .)."""

    def __init__(self, s, taken):
        self.s, self.taken = s, taken

    def attr(self, V, name):
        if name == 'receive':
            return Builtin('receive', lambda V: V.mklist(self.s))
        raise Unsupported('input attribute ' + name)


@U.unit('mixer', claim='the messages of every input are forwarded once, in order')
def mixer(V):
    n = V.int('inputs')
    V.assume(n >= 0)
    b = V.expect_ok('new', N + 'MessageMixer', [0])
    W = z3.Function('pending', z3.IntSort(), z3.IntSort())
    M = z3.Function('message', z3.IntSort(), z3.IntSort(), z3.IntSort())
    B = z3.Function('before', z3.IntSort(), z3.IntSort())
    V.assume(All((0, n), lambda i: W(i) >= 0, pat=lambda i: W(i)))
    V.assume(B(0) == 0)
    V.assume(All((0, n), lambda i: B(i + 1) == B(i) + W(i), pat=lambda i: B(i + 1)))
    V.assume(All((0, n), lambda i: B(i + 1) == B(i) + W(i), pat=lambda i: W(i)))
    V.setattr(b, 'inputs', V.mklist(Seq(n, lambda i: Port(Seq(W(Z(i)), lambda j: M(Z(i), Z(j)), None, KInt()), None), None, None)))
    log = message_ports(V, Seq.of([]), KInt())
    place = {}

    def upto(i):
        return [('forwarded', All([(0, i), (0, None)], lambda a, j: imp(j < W(a), And(B(a) >= 0, B(a) + j < log.n, B(a + 1) <= log.n, log[B(a) + j] == M(a, j))), pat=lambda a, j: [[M(a, j)]]))]

    def outer(V, L):
        place['i'] = L.k
        return [('as many as received', And(B(L.k) >= 0, log.n == B(L.k)))] + upto(L.k)

    def inner(V, L):
        i = place['i']
        return [('as many as received', And(B(i) >= 0, log.n == B(i) + L.k))] + upto(i) + [('this input', All((0, L.k), lambda j: log[B(i) + j] == M(i, j), pat=lambda j: M(i, j)))]
    q = N + 'MessageMixer.update'
    V.loops[q + '#0'] = LoopSpec(outer)
    V.loops[q + '#1'] = LoopSpec(inner)
    V.expect_ok('update', V.getattr(b, 'update'), [])
    V.check('as many as received', log.n == B(n))
    for l, f in upto(n):
        V.check(l, f)


@U.unit('mixer channels', claim='a mixer has one queue per channel')
def channels(V):
    for k in (0, 1, 2, 3):
        b = V.expect_ok('new', N + 'MessageMixer', [k])
        s = V.seq_of(V.getattr(b, 'inputs'))
        V.check('%d inputs' % k, const_int(s.n) == k and len({id(s[i]) for i in range(k)}) == k)
        V.expect_ok('add', V.getattr(b, 'add_new_channel'), [])
        t = V.seq_of(V.getattr(b, 'inputs'))
        V.check('one more input', const_int(t.n) == k + 1 and all(t[i] is s[i] for i in range(k)) and not any(t[k] is x for x in s.items))

"""C17: note scheduling of synthesizers."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['heapq turns a list into a heap, whose first item is smallest, and keeps a heap a heap (library contract)',
               'pitches, velocities and frequencies are mathematical reals',
               'message queues deliver as in C03 (at most 50 notes per block and voice); envelopes follow their gate as in C08']
A = 'klang.audio.synthesizer.'
POLICIES = ('newest', 'oldest', 'lowest', 'highest')


def note_kind(V):
    return KNT(V.lookup('klang.messages.Note'), [KReal()] * 3)


def valid(x):
    p, v, f = x.vals
    return And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0)


def on(x):
    return to_real(x.vals[1]) > 0


def same(x, y):
    return And(*[to_real(a) == to_real(b) for a, b in zip(x.vals, y.vals)])


def pitch(x):
    return to_real(x.vals[0])


def a_note(V, name='x'):
    x = note_kind(V).fresh(name)
    V.assume(valid(x))
    return x


# ---------------------------------------------------------------- scheduler: items are (key, note)
def key_of(policy, item, arrival):
    """The key an item has by the policy; arrival: number of its note-on."""
    k, x = item
    k = to_real(k)
    return k == {'newest': lambda: -z3.ToReal(arrival), 'oldest': lambda: z3.ToReal(arrival),
                 'lowest': lambda: pitch(x), 'highest': lambda: -pitch(x)}[policy]()


def scheduler(V, policy):
    """Any reachable state: a heap of held notes; items carry the number of their note-on as ghost."""
    s = V.expect_ok('new', A + 'NoteScheduler', [policy])
    nk = note_kind(V)
    n, c = V.int('held'), V.int('note-ons')
    V.assume(And(n >= 0, c >= n))
    by_pitch = policy in ('lowest', 'highest')
    items = Seq.fresh('item', KTuple(KReal() if by_pitch else KInt(), nk), n)
    arr = KInt().uf('arrival', 1)
    V.assume(All((0, n), lambda i: And(valid(items[i][1]), on(items[i][1]), key_of(policy, items[i], arr(i)), arr(i) >= 0, arr(i) < c), pat=lambda i: items[i][1].vals[0]))
    V.assume(All([(0, n), (0, n)], lambda i, j: imp(i != j, arr(i) != arr(j)), pat=lambda i, j: [[arr(i), arr(j)]]))
    first = lambda i: Not(cmp(V, 'lt', items[i], items[0]))
    V.assume(All((0, n), first, pat=lambda i: items[i][1].vals[0]))
    V.setseq(V.getattr(s, 'notes'), items)
    if not by_pitch:
        it = V.getattr(s, 'counter')
        it.pos = c
    return s, items, arr, n, c


def rank(policy, t, a, i, j):
    """Note i is to be preferred to (or as good as) note j."""
    return {'newest': lambda: a(i) >= a(j), 'oldest': lambda: a(i) <= a(j),
            'lowest': lambda: pitch(t[i][1]) <= pitch(t[j][1]), 'highest': lambda: pitch(t[i][1]) >= pitch(t[j][1])}[policy]()


def well_formed(V, s, policy, t, arrival, c):
    """The state invariant for notes t with arrival numbers below c."""
    n = Z(t.n)
    if const_int(t.n) == 0:
        return
    V.check('keys follow the policy', All((0, n), lambda i: And(key_of(policy, t[i], arrival(i)), arrival(i) >= 0, arrival(i) < c)))
    V.check('every note-on has its own number', All([(0, n), (0, n)], lambda i, j: imp(i < j, arrival(i) != arrival(j))))
    V.check('held notes are note-ons', All((0, n), lambda i: And(valid(t[i][1]), on(t[i][1]))))
    V.check('the preferred note is first', All((0, n), lambda i: rank(policy, t, arrival, 0, i)))
    if policy in ('newest', 'oldest'):
        V.check('counted', Z(V.getattr(s, 'counter').pos) == c)


def scheduling(policy):
    @U.unit('note-on, %s' % policy, claim='the note is held and the preferred held note is returned')
    def press(V):
        s, items, arr, n, c = scheduler(V, policy)
        x = a_note(V)
        V.assume(on(x))
        r = V.expect_ok('next note', V.getattr(s, 'get_next_note'), [x])
        t = V.seq_of(V.getattr(s, 'notes'))
        V.check('one more note', Z(t.n) == n + 1)
        if const_int(t.n) == 1:
            V.check('the new note is held', same(t[0][1], x))
            V.check('the preferred note is returned', same(r, x))
            well_formed(V, s, policy, t, lambda i: c, c + 1)
            return
        if getattr(t, 'perm', None):
            p, q = t.perm
        else:
            p = q = lambda i: Z(i)
        arrival = lambda i: If(p(i) == n, c, arr(p(i)))
        V.check('held notes stay', All((0, n), lambda i: And(q(i) >= 0, q(i) <= n, same(t[q(i)][1], items[i][1]))))
        V.check('the new note is held', And(q(n) >= 0, q(n) <= n, same(t[q(n)][1], x)))
        well_formed(V, s, policy, t, arrival, c + 1)
        V.check('the preferred note is returned', same(r, t[0][1]))

    @U.unit('note-off, %s' % policy, claim='one held note of this pitch ends; the preferred remaining note is returned, the note-off if none is held')
    def release(V):
        s, items, arr, n, c = scheduler(V, policy)
        x = a_note(V)
        V.assume(Not(on(x)))
        V.loops[A + 'NoteScheduler.remove_note#0'] = LoopSpec(lambda V, L: [('not found yet', All((0, L.k), lambda i: pitch(items[i][1]) != pitch(x), pat=lambda i: items[i][1].vals[0]))])
        r = V.expect_ok('next note', V.getattr(s, 'get_next_note'), [x])
        t = V.seq_of(V.getattr(s, 'notes'))
        if t is items:
            V.check('nothing changes only when the pitch is not held', All((0, n), lambda i: pitch(items[i][1]) != pitch(x)))
            if V.decide(n == 0):
                V.check('the note-off is returned', same(r, x))
            else:
                V.check('the preferred note is returned', same(r, items[0][1]))
                V.check('it is the preferred one', All((0, n), lambda i: rank(policy, items, arr, 0, i)))
            return
        V.check('one note less', Z(t.n) == n - 1)
        if const_int(t.n) == 0:
            V.check('the note of this pitch ends', All((0, n), lambda i: pitch(items[i][1]) == pitch(x)))
            V.check('the note-off is returned', same(r, x))
            return
        p, q = getattr(t, 'perm', None) or (Z, Z)
        g = getattr(getattr(t, 'base', t), 'deleted', None)
        if g is None:
            raise Unsupported('removal other than of one list element')
        src = lambda i: If(p(i) < g, p(i), p(i) + 1)
        V.check('a note of this pitch ends', And(g >= 0, g < n, pitch(items[g][1]) == pitch(x)))
        V.check('all others stay', All((0, n), lambda i: imp(i != g, And(q(If(i < g, i, i - 1)) >= 0, q(If(i < g, i, i - 1)) < n - 1, same(t[q(If(i < g, i, i - 1))][1], items[i][1])))))
        well_formed(V, s, policy, t, lambda i: arr(src(i)), c)
        V.check('the preferred note is returned', same(r, t[0][1]))


for _p in POLICIES:
    scheduling(_p)


@U.unit('policies', claim='only the four policies exist')
def policies(V):
    st, r = V.outcome(A + 'NoteScheduler', ['loudest'])
    V.check('refused', st == 'raise')


# ---------------------------------------------------------------- voices
class Voices:
    """Ghost state of voices 0..n-1: messages pushed so far (count and last), known pitch, updates."""

    def __init__(self, V, n):
        arrs = lambda: [z3.Array(fresh_name(x), z3.IntSort(), s) for x, s in
                        (('pushed', z3.IntSort()), ('pitch', z3.RealSort()), ('last.pitch', z3.RealSort()), ('last.velocity', z3.RealSort()), ('last.frequency', z3.RealSort()), ('updates', z3.IntSort()))]
        self.cell = GhostCell(V, arrs(), lambda V: arrs())
        self.n = n

    def voice(self, V, k):
        return VoiceStub(self, k)

    def put(self, V, **kw):
        names = ('pushed', 'pitch', 'p', 'v', 'f', 'updates')
        k = kw.pop('k')
        self.cell.set(V, [z3.Store(a, k, kw[x]) if x in kw else a for x, a in zip(names, self.cell.value)])

    def get(self, name, k, old=None):
        names = ('pushed', 'pitch', 'p', 'v', 'f', 'updates')
        return z3.Select((old or self.cell.value)[names.index(name)], k)

    def last(self, k):
        return [self.get(x, k) for x in ('p', 'v', 'f')]


class VoiceStub(models._HV):
    def __init__(self, vs, k):
        self.vs, self.k = vs, Z(k)

    def attr(self, V, name):
        if name == 'currentPitch':
            return self.vs.get('pitch', self.k)
        if name == 'input':
            return InputStub(self)
        if name == 'active':
            return z3.Function('active', z3.IntSort(), z3.BoolSort())(self.k)
        if name == 'update':
            return Builtin('update', lambda V: self.vs.put(V, k=self.k, updates=self.vs.get('updates', self.k) + 1))
        if name == 'output':
            return OutputStub(self)
        raise Unsupported('voice attribute ' + name)

    def assign(self, V, name, v):
        if name != 'currentPitch':
            raise Unsupported('voice attribute ' + name)
        self.vs.put(V, k=self.k, pitch=to_real(v))


class InputStub(models._HV):
    def __init__(self, voice):
        self.voice = voice

    def attr(self, V, name):
        if name == 'push':
            return Builtin('push', self.push)
        raise Unsupported('input attribute ' + name)

    def push(self, V, x):
        vs, k = self.voice.vs, self.voice.k
        p, v, f = [to_real(y) for y in x.vals]
        vs.put(V, k=k, pushed=vs.get('pushed', k) + 1, p=p, v=v, f=f)


class OutputStub(models._HV):
    """The output of a voice: a block of samples X(k, .)."""

    def __init__(self, voice):
        self.voice = voice

    def attr(self, V, name):
        if name == 'value':
            X = z3.Function('X', z3.IntSort(), z3.IntSort(), z3.RealSort())
            return V.mkarr((V.lookup('klang.config.BUFFER_SIZE'),), lambda i: X(self.voice.k, Z(i)), 'float', readonly=True)
        raise Unsupported('output attribute ' + name)


def polyphonic(V):
    """A polyphonic synthesizer with any number of voices; each knows the pitch of its last note-on, if that was its last message."""
    n, turn = V.int('voices'), V.int('turn')
    V.assume(And(n >= 1, 0 <= turn))
    V.setattr(V.lookup(A + 'PolyphonicSynthesizer'), 'MAX_VOICES', n)

    def duplicate(V, a):
        V.check('as many voices as stated', Z(a['number']) == n)
        return V.mklist(V.ghost['all voices'])
    V.contracts[A + 'duplicate_voice'] = duplicate
    vs = Voices(V, n)
    V.ghost['all voices'] = Seq(n, lambda k: vs.voice(V, k), None, None)
    s = V.expect_ok('new', A + 'PolyphonicSynthesizer', [Template()])
    it = V.getattr(s, 'freeVoice')
    it.pos = turn
    known = All((0, n), lambda k: imp(vs.get('v', k) > 0, vs.get('pitch', k) == vs.get('p', k)), pat=lambda k: vs.get('v', k))
    V.assume(known)
    return s, vs, n, turn


class Template(models._HV):
    def attr(self, V, name):
        raise Unsupported('template voice attribute ' + name)


def knows(vs, n):
    return All((0, n), lambda k: imp(vs.get('v', k) > 0, vs.get('pitch', k) == vs.get('p', k)))


@U.unit('polyphonic note-on', claim='exactly the voice whose turn it is gets the note')
def poly_on(V):
    s, vs, n, turn = polyphonic(V)
    x = a_note(V)
    V.assume(on(x))
    old = list(vs.cell.value)
    V.expect_ok('process', V.getattr(s, 'process_note'), [x])
    g = mod(V, turn, n)
    V.check('the voice gets the note', And(vs.get('pushed', g) == vs.get('pushed', g, old) + 1, *[a == to_real(b) for a, b in zip(vs.last(g), x.vals)]))
    V.check('no other voice gets it', All((0, n), lambda k: imp(k != g, vs.get('pushed', k) == vs.get('pushed', k, old))))
    V.check('the pitch of every sounding voice is known', knows(vs, n))
    V.check('next voice is next', Z(V.getattr(s, 'freeVoice').pos) == turn + 1)


@U.unit('polyphonic note-off', claim='every voice whose last message is a note-on of this pitch gets the note-off; no voice playing another pitch does')
def poly_off(V):
    s, vs, n, turn = polyphonic(V)
    x = a_note(V)
    V.assume(Not(on(x)))
    old = list(vs.cell.value)
    hit = lambda k: And(vs.get('v', k, old) > 0, vs.get('p', k, old) == pitch(x))
    other = lambda k: And(vs.get('v', k, old) > 0, vs.get('p', k, old) != pitch(x))
    got = lambda k: And(vs.get('pushed', k) == vs.get('pushed', k, old) + 1, *[a == to_real(b) for a, b in zip(vs.last(k), x.vals)])
    none = lambda k: And(vs.get('pushed', k) == vs.get('pushed', k, old), *[vs.get(y, k) == vs.get(y, k, old) for y in ('p', 'v', 'f', 'pitch')])

    def inv(V, L):
        return [('voices of this pitch so far', All((0, L.k), lambda k: imp(hit(k), got(k)), pat=lambda k: vs.get('v', k, old))),
                ('voices of other pitches so far', All((0, L.k), lambda k: imp(other(k), none(k)), pat=lambda k: vs.get('v', k, old))),
                ('released voices', All((0, L.k), lambda k: Or(none(k), vs.get('v', k) == 0), pat=lambda k: vs.get('v', k))),
                ('remaining voices', All((L.k, n), lambda k: none(k), pat=lambda k: vs.get('v', k)))]
    V.loops[A + 'PolyphonicSynthesizer.process_note#0'] = LoopSpec(inv)
    V.expect_ok('process', V.getattr(s, 'process_note'), [x])
    V.check('every voice of this pitch is released', All((0, n), lambda k: imp(hit(k), got(k))))
    V.check('voices of other pitches go on', All((0, n), lambda k: imp(other(k), none(k))))
    V.check('the pitch of every sounding voice is known', knows(vs, n))
    V.check('rotation unchanged', Z(V.getattr(s, 'freeVoice').pos) == turn)


@U.unit('polyphonic update', claim='all messages are processed in order, then every active voice is updated once; the output is the average of all voices, inactive ones silent')
def poly_update(V):
    s, vs, n, turn = polyphonic(V)
    m = V.list('messages', note_kind(V)).seq
    message_ports(V, m, note_kind(V))
    order = handled(V, A + 'PolyphonicSynthesizer.process_note', m)
    old = list(vs.cell.value)
    B = V.lookup('klang.config.BUFFER_SIZE')
    act = z3.Function('active', z3.IntSort(), z3.BoolSort())
    V.loops[A + 'Synthesizer.update#0'] = LoopSpec(lambda V, L: [('in order', order.value == L.k)])
    X = z3.Function('X', z3.IntSort(), z3.IntSort(), z3.RealSort())
    total = models.line_sums(V, lambda k, i: If(act(k), X(k, i), 0), n, B)

    def inv(V, L):
        V.check('messages first', order.value == Z(m.n), assume_after=False)
        return [('active voices so far', All((0, L.k), lambda k: vs.get('updates', k) == vs.get('updates', k, old) + If(act(k), 1, 0), pat=lambda k: vs.get('updates', k))),
                ('remaining voices', All((L.k, n), lambda k: vs.get('updates', k) == vs.get('updates', k, old), pat=lambda k: vs.get('updates', k))),
                ('sum of the voices so far', All((0, B), lambda i: to_real(L['samples'].at(i)) == total(L.k, i), pat=lambda i: total(L.k, i)))]
    V.loops[A + 'PolyphonicSynthesizer.update#0'] = LoopSpec(inv, hints={'samples': lambda V, L: V.mkarr((B,), KReal().uf('sum', 1), 'float')})
    V.expect_ok('update', V.getattr(s, 'update'), [])
    V.check('every message is processed', order.value == Z(m.n))
    V.check('every active voice is updated once', All((0, n), lambda k: vs.get('updates', k) == vs.get('updates', k, old) + If(act(k), 1, 0)))
    y = V.getattr(V.getattr(s, 'output'), 'value')
    V.check('one block', isinstance(y, Arr) and len(y.shape) == 1 and V.truth(y.shape[0] == B))
    V.check('average of the voices', All((0, B), lambda i: to_real(y.at(i)) * to_real(n) == total(n, i), pat=lambda i: total(n, i)))


def handled(V, qual, m):
    """process_note by contract: counts the calls and checks that they are made in message order."""
    count = GhostCell(V, z3.IntVal(0), lambda V: KInt().fresh('handled'))

    def process(V, a):
        V.check('notes are processed in order', same(a['note'], m[count.value]))
        count.set(V, count.value + 1)
    V.contracts[qual] = process
    return count


@U.unit('monophonic', claim='every message is scheduled in order and the note to play is handed to the voice, which is then updated if active')
def mono(V):
    nk = note_kind(V)
    vs = Voices(V, 1)
    voice = vs.voice(V, 0)
    s = V.expect_ok('new', A + 'MonophonicSynthesizer', [voice, 'lowest'])
    V.check('scheduler of the policy', V.getattr(V.getattr(s, 'noteScheduler'), 'policy') == 'lowest')
    x, y = a_note(V, 'x'), a_note(V, 'y')

    def schedule(V, a):
        V.check('the note is scheduled', same(a['note'], x))
        return y
    V.contracts[A + 'NoteScheduler.get_next_note'] = schedule
    old = list(vs.cell.value)
    V.expect_ok('process', V.getattr(s, 'process_note'), [x])
    V.check('the note to play goes to the voice', And(vs.get('pushed', 0) == vs.get('pushed', 0, old) + 1, *[a == to_real(b) for a, b in zip(vs.last(0), y.vals)]))


@U.unit('monophonic update', claim='all messages are processed in order, then the voice is updated if active')
def mono_update(V):
    vs = Voices(V, 1)
    s = V.expect_ok('new', A + 'MonophonicSynthesizer', [vs.voice(V, 0)])
    m = V.list('messages', note_kind(V)).seq
    message_ports(V, m, note_kind(V))
    order = handled(V, A + 'MonophonicSynthesizer.process_note', m)
    V.loops[A + 'Synthesizer.update#0'] = LoopSpec(lambda V, L: [('in order', order.value == L.k)])
    old = list(vs.cell.value)
    V.expect_ok('update', V.getattr(s, 'update'), [])
    V.check('every message is processed', order.value == Z(m.n))
    act = z3.Function('active', z3.IntSort(), z3.BoolSort())(z3.IntVal(0))
    V.check('the voice is updated when active', vs.get('updates', 0) == vs.get('updates', 0, old) + If(act, 1, 0))
    y, B = V.getattr(V.getattr(s, 'output'), 'value'), V.lookup('klang.config.BUFFER_SIZE')
    X = z3.Function('X', z3.IntSort(), z3.IntSort(), z3.RealSort())
    V.check('one block', isinstance(y, Arr) and len(y.shape) == 1 and V.truth(y.shape[0] == B))
    V.check('the voice, or silence', All((0, B), lambda i: to_real(y.at(i)) == If(act, X(0, i), 0)))


# ---------------------------------------------------------------- a single voice
VO = 'klang.audio.voices.Voice'


class Envelope(models._HV):
    def __init__(self, V):
        self.log = Log(V, KBool())

    def attr(self, V, name):
        if name == 'gate':
            return Builtin('gate', lambda V, g: self.log.send(V, V.truth(g)))
        if name == 'active':
            return z3.Bool('envelope active')
        if name == 'output':
            return V.ghost['envelope output']
        raise Unsupported('envelope attribute ' + name)


def voice_of(V):
    v = V.mkobj(V.lookup(VO))
    inp = V.expect_ok('input', 'klang.connections.MessageInput', [])
    osc = V.expect_ok('oscillator', 'klang.block.Block', [0, 1])
    out = V.expect_ok('output', 'klang.connections.Output', [])
    V.setattr(v, 'outputs', V.mklist([out]))
    V.setattr(v, 'execOrder', V.mklist([osc]))
    freq = V.expect_ok('frequency', 'klang.connections.Input', [])
    V.setattr(osc, 'frequency', freq)
    env = Envelope(V)
    amp, cur, f = V.real('amplitude'), V.real('current pitch'), V.real('frequency')
    V.setattr(freq, '_value', f)
    for k, x in (('inputs', V.mklist([inp])), ('oscillator', osc), ('envelope', env), ('amplitude', amp), ('currentPitch', cur)):
        V.setattr(v, k, x)
    return v, env, freq, amp, cur, f


@U.unit('voice', claim='every message gates the envelope; the last note-on sets velocity and frequency; the pitch is known while the last message is a note-on')
def voice(V):
    v, env, freq, amp, cur, f = voice_of(V)
    m = V.list('messages', note_kind(V)).seq
    V.assume(All((0, m.n), lambda i: valid(m[i]), pat=lambda i: m[i].vals[1]))
    message_ports(V, m, note_kind(V))
    # T(k): place after the last note-on among the first k messages (0: none)
    T = z3.Function('last on', z3.IntSort(), z3.IntSort())
    V.assume(T(0) == 0)
    V.assume(All((0, m.n), lambda k: T(k + 1) == If(on(m[k]), k + 1, T(k)), pat=lambda k: m[k].vals[1]))
    n = Z(m.n)

    def state(k):
        t = T(k)
        return [('one gate per message', And(env.log.n == k, t >= 0, t <= k)),
                ('gates follow the messages', All((0, k), lambda i: env.log[i] == on(m[i]), pat=lambda i: env.log[i])),
                ('velocity of the last note-on', to_real(V.getattr(v, 'amplitude')) == If(t == 0, amp, m[t - 1].vals[1])),
                ('frequency of the last note-on', to_real(V.getattr(freq, '_value')) == If(t == 0, f, m[t - 1].vals[2])),
                ('pitch of the last note-on while it sounds', imp(k > 0, on(m[k - 1]), to_real(V.getattr(v, 'currentPitch')) == pitch(m[k - 1]))),
                ('no message, no change', imp(k == 0, to_real(V.getattr(v, 'currentPitch')) == cur))]
    V.loops[VO + '.process_incoming_notes#0'] = LoopSpec(lambda V, L: state(L.k))
    V.expect_ok('process', V.getattr(v, 'process_incoming_notes'), [])
    for l, g in state(n):
        V.check(l, g)


@U.unit('voice update', claim='a voice processes its messages before it sounds, and is active while messages are pending')
def voice_update(V):
    v, env, freq, amp, cur, f = voice_of(V)
    q = V.getattr(V.getattr(v, 'input'), 'queue')
    V.setseq(q, Seq.fresh('pending', note_kind(V)))
    V.assume(q.seq.n >= 0)
    a = V.getattr(v, 'active')
    V.check('active while messages are pending or the envelope is', iff(V.truth(a), Or(Z(q.seq.n) > 0, z3.Bool('envelope active'))))
    steps = []
    V.contracts[VO + '.process_incoming_notes'] = lambda V, a: steps.append('messages')
    V.contracts['klang.execution.execute'] = lambda V, a: steps.append('run')
    B = V.lookup('klang.config.BUFFER_SIZE')
    x, e = V.farray('wave', B), V.farray('envelope', B)
    gx, ge = x.storage.get, e.storage.get
    V.ghost['envelope output'] = V.expect_ok('output', 'klang.connections.Output', [])
    V.setattr(V.ghost['envelope output'], '_value', e)
    V.setattr(V.getattr(V.getattr(v, 'oscillator'), 'output'), '_value', x)
    V.expect_ok('update', V.getattr(v, 'update'), [])
    V.check('messages first, then sound', steps == ['messages', 'run'])
    y = V.getattr(V.getattr(v, 'output'), 'value')
    V.check('wave times envelope times velocity', All((0, B), lambda i: y.at(i) == amp * gx(i) * ge(i)))

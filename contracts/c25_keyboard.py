"""C25: debouncing keyboard and musical keyboard: one event handled in any state that keeps the invariant below."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['keys are compared by the listener library: equal keys carry the same character, different keys with characters carry different ones; a character is one code point',
               'frequency of a pitch: Temperament.pitch_2_frequency, specified in C20; velocities and frequencies are mathematical reals',
               'a note key is pressed while its pitch lies in [0, 128) (otherwise there is no such note, see C18)']
K = 'klang.keyboard.'
I = z3.IntSort()
CHAR, SPECIAL, NOCHAR = z3.Function('char', I, I), z3.Function('special', I, z3.BoolSort()), z3.Function('nochar', I, z3.BoolSort())
FREQ = z3.Function('frequency', I, z3.RealSort(), z3.RealSort())


class Key(Token):
    """A key of the listener library: character, no character (dead key) or no such attribute at all (special key)."""

    def __init__(self, term, state):
        super().__init__(term, 'key')
        self.state = state

    def attr(self, V, name):
        if name == 'char':
            if V.decide(SPECIAL(self.term)):
                V.throw('AttributeError', 'char')
            return None if V.decide(NOCHAR(self.term)) else CharV(CHAR(self.term))
        if name == 'pressed':
            if self.state is None:
                V.throw('AttributeError', 'pressed')
            return self.state
        raise Unsupported('key attribute ' + name)

    def assign(self, V, name, v):
        if name != 'pressed':
            raise Unsupported('key attribute ' + name)
        self.state = v


def has_char(t):
    return And(Not(SPECIAL(t)), Not(NOCHAR(t)))


def temperaments(V, n):
    cls = V.lookup('klang.music.tunings.Temperament')
    return [V.mkobj(cls) for _ in range(n)]


def setup(V, n=4):
    ts = []
    V.overlay['klang.music.tunings.TEMPERAMENTS'] = d = V.mkdict([])
    V.overlay['klang.music.tunings.EQUAL_TEMPERAMENT'] = None
    cls = V.lookup('klang.music.tunings.Temperament')
    ts = [V.mkobj(cls) for _ in range(n)]
    d.items = [('temperament %d' % i, t) for i, t in enumerate(ts)]
    V.overlay['klang.music.tunings.EQUAL_TEMPERAMENT'] = ts[0]

    def freq(V, a):
        i = [j for j, t in enumerate(ts) if t is a['self']]
        f = FREQ(z3.IntVal(i[0]), to_real(a['pitch']))
        V.assume(f >= 0)
        return f
    V.contracts['klang.music.tunings.Temperament.pitch_2_frequency'] = freq
    sent = []
    V.contracts['klang.connections.MessageOutput.send'] = lambda V, a: sent.append((a['self'], a['message']))
    return ts, sent


def held_map(V, name, d):
    """Any set of held keys in the (initially empty) table of the keyboard."""
    H = z3.Function(name, I, z3.BoolSort())
    M = z3.Function(name + '_known', I, z3.BoolSort())
    d.sym = (lambda k: M(k.term), lambda k: H(k.term), KBool())
    return lambda t: And(M(t), H(t))


def holds(V, b, k):
    """Does the keyboard regard key k as held?"""
    d = V.getattr(b, 'keyState')
    c = Z(ops.contains(V, d, k))
    return V.merged(lambda: And(c, Z(V.truth(d.sym[1](k) if d.sym is not None else False))))


def key(V, name, state):
    return Key(V.int(name), state)


def event(V, b, k, on):
    V.expect_ok('on_press' if on else 'on_release', V.getattr(b, 'on_press' if on else 'on_release'), [k])


def fresh_state(V, k, on):
    """The state a key object carries from before does not matter."""
    return Key(k, V.bool('stale'))


@U.unit('plain keyboard', claim='repeated presses and releases of keys not held are ignored, every other event is sent once; only that key changes state')
def plain(V):
    ts, sent = setup(V)
    for on in (True, False):
        b = V.expect_ok('new', K + 'Keyboard', [])
        d = V.getattr(b, 'keyState')
        V.check('nothing held at first', isinstance(d, SDict) and not d.items)
        H = held_map(V, 'held%d' % on, d)
        k = Key(V.int('key'), V.bool('stale'))
        o = Key(V.int('other'), None)
        V.assume(o.term != k.term)
        was = H(k.term)
        del sent[:]
        event(V, b, k, on)
        if V.decide(was == on):
            V.check('ignored', not sent)
        else:
            V.check('sent once', len(sent) == 1 and sent[0][0] is V.getattr(b, 'output') and sent[0][1] is k)
            V.check('the key tells what happened', eq(V, k.state, on))
        V.check('key state', holds(V, b, k) == on)
        V.check('other keys', holds(V, b, o) == H(o.term))


def table(V):
    d = V.getattr(V.lookup(K + 'MusicalKeyboard'), 'CHAR_2_BASE_PITCH')
    return [(ord(c), p) for c, p in d.items]


@U.unit('key layout', claim='the note keys are sixteen successive semitones, laid out like a piano')
def layout(V):
    setup(V, 1)
    got = dict((chr(c), p) for c, p in table(V))
    V.check('keys', sorted(got) == sorted('awsedftgzhujkolp'))
    for i, c in enumerate('awsedftgzhujkolp'):
        V.check('key ' + c, eq(V, got[c], i))


@U.unit('two keyboards', claim='start with middle C on the first key and full velocity, and have a state of their own')
def two(V):
    setup(V, 2)
    a, b = [V.expect_ok('new', K + 'MusicalKeyboard', []) for _ in range(2)]
    for x in (a, b):
        V.check('octave and velocity at first', And(eq(V, V.getattr(x, 'octave'), 5), eq(V, V.getattr(x, 'velocity'), 1)))
    V.check('keys and notes of their own', all(V.getattr(a, n) is not V.getattr(b, n) for n in ('keyState', 'playingNotes')))
    V.check('ends of their own', V.getattr(a, 'output') is not V.getattr(b, 'output'))


CONTROLS = {'y': 1, 'x': 1, 'c': 1, 'v': 1}


def musical(V, others, n=4):
    ts, sent = setup(V, n)
    b = V.expect_ok('new', K + 'MusicalKeyboard', [], dict(others=others))
    V.check('outputs', const_int(V.seq_of(V.getattr(b, 'outputs')).n) == (2 if others else 1))
    return b, ts, sent


def state(V, b, ts):
    """Any keyboard state: octave, velocity, tuning, held keys and the notes they play."""
    oct_, vel = V.int('octave'), V.real('velocity')
    V.setattr(b, 'octave', oct_)
    V.setattr(b, 'velocity', vel)
    V.assume(And(10 * vel >= 1, vel <= 1))
    V.setattr(b, 'temperament', ts[-1])
    H = held_map(V, 'held', V.getattr(b, 'keyState'))
    d = V.getattr(b, 'playingNotes')
    V.check('no note plays at first', isinstance(d, SDict) and not d.items)
    P = z3.Function('plays', I, z3.BoolSort())
    N = [z3.Function('note%d' % i, I, z3.RealSort()) for i in range(3)]
    note = V.lookup('klang.messages.Note')
    code = lambda c: z3.IntVal(ord(c)) if isinstance(c, str) else Z(c.code)
    d.sym = (lambda c: P(code(c)), lambda c: NT(note, [f(code(c)) for f in N]), KNT(note, [KReal()] * 3))
    return oct_, vel, H, P, N


def is_note(V, t):
    return And(has_char(t), Or(*[CHAR(t) == c for c, _ in table(V)]))


def base(V, t):
    r = z3.IntVal(0)
    for c, p in table(V):
        r = If(CHAR(t) == c, p, r)
    return r


def playing(V, b, t):
    """(plays, note) the keyboard keeps for key t."""
    d = V.getattr(b, 'playingNotes')
    c = CharV(CHAR(t))
    return ops.contains(V, d, c), V.merged(lambda: d.sym[1](c))


def body(V, on, others):
    b, ts, sent = musical(V, others)
    oct_, vel, H, P, N = state(V, b, ts)
    k, o = Key(V.int('key'), V.bool('stale')), Key(V.int('other'), None)
    V.assume(o.term != k.term)
    V.assume(imp(has_char(k.term), has_char(o.term), CHAR(o.term) != CHAR(k.term)))
    V.assume(And(CHAR(k.term) >= 0, CHAR(k.term) < 0x110000))
    # what is to be kept: held note keys play a valid note
    ok = lambda t: imp(H(t), is_note(V, t), And(P(CHAR(t)), N[0](CHAR(t)) >= 0, N[0](CHAR(t)) < 128, N[1](CHAR(t)) > 0, N[1](CHAR(t)) <= 1, N[2](CHAR(t)) >= 0))
    V.assume(And(ok(k.term), ok(o.term)))
    t = k.term
    was, nk = H(t), is_note(V, t)
    pitch = base(V, t) + 12 * oct_
    if on:
        V.assume(imp(nk, And(pitch >= 0, pitch < 128)))
    del sent[:]
    event(V, b, k, on)
    out = V.getattr(b, 'output')
    V.check('key state', holds(V, b, k) == on)
    V.check('other keys', holds(V, b, o) == H(o.term))
    po, no = playing(V, b, o.term)
    V.check('notes of other keys', imp(H(o.term), is_note(V, o.term), And(po, *[to_real(x) == f(CHAR(o.term)) for x, f in zip(no.vals, N)])))
    o2, v2, t2 = (V.getattr(b, x) for x in ('octave', 'velocity', 'temperament'))
    here = lambda c: And(Not(was), has_char(t), CHAR(t) == ord(c)) if on else z3.BoolVal(False)
    V.check('octave keys', o2 == oct_ + If(here('x'), 1, 0) - If(here('y'), 1, 0))
    V.check('velocity stays in range', And(10 * to_real(v2) >= 1, to_real(v2) <= 1))
    V.check('velocity keys', And(imp(Not(here('c')), Not(here('v')), v2 == vel), imp(here('c'), v2 <= vel), imp(here('v'), v2 >= vel)))
    digit = lambda j: And(here(str(j)))
    now = [x is t2 for x in ts]
    V.check('number keys', any(now) and And(*[imp(digit(j), bool(now[j])) for j in range(len(ts))], imp(Not(Or(*[digit(j) for j in range(len(ts))])), now[-1])))
    if V.decide(was == on):
        V.check('ignored', not sent)
        pk, nk_ = playing(V, b, t)
        V.check('its note goes on', imp(was, nk, And(pk, *[to_real(x) == f(CHAR(t)) for x, f in zip(nk_.vals, N)])))
    elif V.decide(nk):
        V.check('one note', len(sent) == 1 and sent[0][0] is out and isinstance(sent[0][1], NT))
        p, v, f = sent[0][1].vals
        if on:
            V.check('note-on of the key', And(eq(V, p, pitch), to_real(v) == vel, to_real(f) == FREQ(z3.IntVal(len(ts) - 1), to_real(pitch))))
            pk, nn = playing(V, b, t)
            V.check('its pitch is kept until the release', And(pk, eq(V, nn.vals[0], pitch), to_real(nn.vals[1]) > 0, to_real(nn.vals[1]) <= 1, to_real(nn.vals[2]) >= 0, to_real(nn.vals[2]) == to_real(f)))
        else:
            V.check('note-off of the pitch which was started', And(to_real(p) == N[0](CHAR(t)), to_real(v) == 0, to_real(f) == N[2](CHAR(t))))
    else:
        control = Or(*[And(has_char(t), CHAR(t) == ord(c)) for c in 'yxcv0123456789'])
        if others and (not on or V.decide(Not(control))):
            V.check('other keys are passed on once', len(sent) == 1 and sent[0][0] is V.seq_of(V.getattr(b, 'outputs'))[1] and sent[0][1] is k)
        else:
            V.check('no message', not sent)


for on in (True, False):
    for others in (False, True):
        def u(V, on=on, others=others):
            body(V, on, others)
        U.unit('%s%s' % ('press' if on else 'release', ' with second output' if others else ''),
               claim='every accepted press of a note key sends one note-on, its release one note-off of the pitch which was started, whatever else changes in between; controls act as stated', time_limit=200)(u)


@U.unit('start', claim='a new keyboard plays full velocity in the reference octave with the given tuning')
def start(V):
    b, ts, sent = musical(V, False, 12)
    V.check('velocity', eq(V, V.getattr(b, 'velocity'), 1))
    V.check('default tuning', V.getattr(b, 'temperament') is ts[0])
    c = V.expect_ok('new', K + 'MusicalKeyboard', [], dict(defaultTemperament=ts[3]))
    V.check('tuning', V.getattr(c, 'temperament') is ts[3])
    for j in range(10):
        V.expect_ok('press %d' % j, V.getattr(c, 'on_press'), [DigitKey(j)])
        V.check('number %d selects a tuning' % j, V.getattr(c, 'temperament') is ts[j])
    V.check('no message', not sent)


class DigitKey(Key):
    def __init__(self, j):
        super().__init__(z3.IntVal(j), None)
        self.j = j

    def attr(self, V, name):
        return str(self.j) if name == 'char' else super().attr(V, name)

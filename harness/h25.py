import io
import contextlib
import types
from common import *

stub = types.ModuleType('pynput')
stub.keyboard = types.ModuleType('pynput.keyboard')


class Listener:
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


stub.keyboard.Listener = Listener
sys.modules['pynput'], sys.modules['pynput.keyboard'] = stub, stub.keyboard
from klang.connections import MessageInput
from klang.keyboard import Keyboard, MusicalKeyboard
from klang.messages import Note
from klang.music.tunings import EQUAL_TEMPERAMENT, TEMPERAMENTS


class KeyCode:
    """Like the listener's keys: a new object per event, equal by character."""

    def __init__(self, char):
        self.char = char

    def __eq__(self, other):
        return isinstance(other, KeyCode) and self.char == other.char

    def __hash__(self):
        return hash(self.char)

    def __repr__(self):
        return 'KeyCode(%r)' % self.char


class Special:
    """A key without character, one object for all events."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def spy(output):
    sent, i = [], MessageInput()
    i.push = sent.append
    output.connect(i)
    return sent


def event(b, key, on):
    with contextlib.redirect_stdout(io.StringIO()):
        (b.on_press if on else b.on_release)(key)


def make(specials, c):
    return specials.setdefault(c, Special(c)) if c and c.startswith('<') else KeyCode(c)


def plain(events):
    b = Keyboard()
    sent, held, specials = spy(b.output), set(), {}
    for i, (c, on) in enumerate(events):
        k = make(specials, c)
        event(b, k, on)
        if (c in held) != on:
            expect(len(sent) == 1 and sent[0] is k and k.pressed == on, 'event %d (%r, %s): sent %r', i, c, on, sent)
            (held.add if on else held.remove)(c)
        else:
            expect(not sent, 'event %d (%r, %s): sent %r though ignored', i, c, on, sent)
        del sent[:]


def musical(others, events, tuning=None):
    temps = list(TEMPERAMENTS.values())
    b = MusicalKeyboard(others=others, **({} if tuning is None else dict(defaultTemperament=temps[tuning])))
    sent = spy(b.outputs[0])
    extra = spy(b.outputs[1]) if others else []
    held, specials = {}, {}
    octave, velocity, temp = b.octave, 1., EQUAL_TEMPERAMENT if tuning is None else temps[tuning]
    expect(b.velocity == 1. and b.temperament is temp and octave == 5, 'starts with velocity %r, tuning %s, octave %r', b.velocity, b.temperament, octave)
    table = {c: i for i, c in enumerate('awsedftgzhujkolp')}
    for i, (c, on) in enumerate(events):
        what = 'event %d (%r %s)' % (i, c, 'pressed' if on else 'released')
        k = make(specials, c)
        if on and c in table and c not in held and not 0 <= table[c] + 12 * octave < 128:
            continue
        event(b, k, on)
        if on == (c in held):
            expect(not sent and not extra, '%s: sent %r, %r though ignored', what, sent, extra)
        elif c in table:
            expect(not extra and len(sent) == 1 and isinstance(sent[0], Note), '%s: sent %r, %r', what, sent, extra)
            n = sent[0]
            if on:
                want = table[c] + 12 * octave
                expect(n.pitch == want and n.velocity == velocity, '%s: %r instead of pitch %g, velocity %g', what, n, want, velocity)
                expect(close(n.frequency, temp.pitch_2_frequency(want)), '%s: frequency %g', what, n.frequency)
                held[c] = n
            else:
                m = held.pop(c)
                expect(n.pitch == m.pitch and n.frequency == m.frequency and n.velocity == 0, '%s: %r does not end %r', what, n, m)
        else:
            (held.__setitem__(c, None) if on else held.pop(c))
            expect(not sent, '%s: sent %r', what, sent)
            control = on and c is not None and len(c) == 1 and c in 'yxcv0123456789'
            expect(extra == ([k] if others and not control else []), '%s: passed on %r', what, extra)
            if control:
                octave += (c == 'x') - (c == 'y')
                if c in 'cv':
                    new = b.velocity
                    step = .1 if c == 'v' else -.1
                    expect(close(new, max(.1, min(1., velocity + step))) and .1 <= new <= 1., '%s: velocity %g after %g', what, new, velocity)
                    velocity = new
                if c.isdigit() and int(c) < len(temps):
                    temp = temps[int(c)]
        expect(b.octave == octave, '%s: octave %r', what, b.octave)
        expect(b.velocity == velocity, '%s: velocity %r', what, b.velocity)
        expect(b.temperament is temp, '%s: tuning', what)
        del sent[:], extra[:]


def two(events):
    """Keyboards do not know of each other: each sends what it would send alone."""
    def run(which):
        bs = [MusicalKeyboard(others=True) if i in which else None for i in range(2)]
        out = [(spy(b.outputs[0]), spy(b.outputs[1])) if b else None for b in bs]
        specials = {}
        for i, c, on in events:
            if bs[i]:
                event(bs[i], make(specials, c), on)
        return [o and ([tuple(n) for n in o[0]], [str(k) for k in o[1]]) for o in out]
    both, first, second = run((0, 1)), run((0,)), run((1,))
    for i, alone in enumerate((first[0], second[1])):
        expect(both[i] == alone, 'keyboard %d sends %s next to another keyboard, %s alone', i, both[i], alone)


CHECKS = dict(two=two, plain=plain, musical=musical)


def cases(rng, tier):
    keys = 'awsjp'
    rest = list('yxyxcv0123456789') + ['q', 'A', 'ä', None, '<shift>', '<space>']
    for c in keys + 'edftgzhukol':
        yield 'musical', dict(others=False, events=[(c, True), (c, True), ('x', True), ('x', False), ('1', True), ('v', True), (c, False), (c, False)])
    for j in range(10):
        yield 'musical', dict(others=True, events=[(str(j), True), ('a', True), ('a', False)])
    for _ in range(4000 if tier == 'thorough' else 600):
        pool = [rng.choice(keys) for _ in range(3)] + [rng.choice(rest) for _ in range(rng.randrange(1, 5))]
        ev = [(rng.choice(pool), rng.random() < .5) for _ in range(rng.randrange(1, 40))]
        yield 'musical', dict(others=rng.random() < .5, events=ev, tuning=rng.choice([None, None, 1, 3]))
        yield 'plain', dict(events=ev)
        pool = [c for c in pool if c not in ('x', 'y')]
        yield 'two', dict(events=[(rng.randrange(2), rng.choice(pool), rng.random() < .6) for _ in range(rng.randrange(4, 40))])
    yield 'musical', dict(others=False, events=[x for _ in range(15) for x in (('c', True), ('c', False))] + [('a', True)] + [x for _ in range(15) for x in (('v', True), ('v', False))] + [('a', False), ('a', True)])


if __name__ == '__main__':
    main('C25', CHECKS, cases)

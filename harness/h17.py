import numpy as np

from common import *
from klang.audio.envelopes import ADSR
from klang.audio.oscillators import Oscillator, PwmOscillator
from klang.audio.synthesizer import MonophonicSynthesizer, NoteScheduler, PolyphonicSynthesizer
from klang.audio.voices import Voice
from klang.audio.waves import WAVE_FUNCTIONS
from klang.block import Block
from klang.config import BUFFER_SIZE
from klang.connections import Input, MessageInput, MessageOutput
from klang.messages import Note

BETTER = dict(newest=lambda x: x[0], oldest=lambda x: -x[0], lowest=lambda x: -x[1].pitch, highest=lambda x: x[1].pitch)


def same(a, b):
    return type(a) is type(b) and tuple(a) == tuple(b)


class Held:
    """Held notes by their arrival; all possibilities when several held notes share the pitch that ends."""

    def __init__(self, policy):
        self.key, self.count, self.states = BETTER[policy], 0, {()}

    def step(self, note):
        """Process a note; returns the possible notes to play."""
        new = set()
        for s in self.states:
            if note.velocity > 0:
                new.add(s + ((self.count, note),))
            else:
                hits = [x for x in s if x[1].pitch == note.pitch]
                new |= {tuple(y for y in s if y is not x) for x in hits} if hits else {s}
        if note.velocity > 0:
            self.count += 1
        self.states = new

    def best(self, s, note):
        if not s:
            return [note]
        m = max(self.key(x) for x in s)
        return [x[1] for x in s if self.key(x) == m]

    def heard(self, note, got):
        self.step(note)
        ok = {s for s in self.states if any(same(got, x) for x in self.best(s, note))}
        expect(ok, 'after %r: plays %r although %r are held', note, got, [x[1] for x in sorted(self.states)[0]])
        self.states = ok


class Loud:
    """Puts out other samples at every update."""
    seed, blocks = 0, [np.random.RandomState(k).uniform(.1, 1., BUFFER_SIZE) for k in range(97)]

    def update(self):
        Loud.seed += 1
        self.output.set_value(Loud.blocks[Loud.seed % 97])


class Env(Loud, Block):
    """Envelope stand-in recording its gates."""

    def __init__(self):
        super().__init__(nOutputs=1)
        self.gates, self.active = [], False

    def gate(self, trigger):
        self.gates.append(bool(trigger))
        self.active = bool(trigger)

    def __deepcopy__(self, memo):
        return type(self)()


class Osc(Loud, Block):
    def __init__(self):
        super().__init__(nOutputs=1)
        self.frequency = Input(owner=self)
        self.inputs = [self.frequency]

    def __deepcopy__(self, memo):
        return type(self)()


def scheduler(policy, notes):
    s, h = NoteScheduler(policy), Held(policy)
    for n in notes:
        n = Note(*n)
        h.heard(n, s.get_next_note(n))


def sound(v):
    return v.amplitude * v.oscillator.output.value * v.envelope.output.value


def heard(out, want, what):
    expect(isinstance(out, np.ndarray) and out.shape == (BUFFER_SIZE,), 'output of %s', what)
    expect(abs(out - want).max() < 1e-12, 'the output of %s is not the sound of its voices', what)


def mono(policy, blocks):
    v = Voice(Osc(), Env())
    s, h = MonophonicSynthesizer(v, policy), Held(policy)
    src = MessageOutput()
    src.connect(s.input)
    for k, notes in enumerate(blocks):
        for n in notes:
            src.send(Note(*n))
        sounds = bool(notes or v.envelope.active)
        s.update()
        heard(s.output.value, sound(v) if sounds else 0., 'the monophonic synthesizer')
        last = None
        for n in notes:
            last = Note(*n)
            h.step(last)
        if last is None:
            continue
        ok = set()
        for st in h.states:
            best = h.best(st, last)
            if v.envelope.gates[-1] == bool(st) and (not st or any(v.amplitude == x.velocity and v.oscillator.frequency.value == x.frequency for x in best)):
                ok.add(st)
        expect(ok, 'block %d: gate %r, velocity %r, frequency %r while %r are held', k, v.envelope.gates[-1], v.amplitude, v.oscillator.frequency.value, [x[1] for x in sorted(h.states)[0]])
        h.states = ok


def poly(blocks, voices):
    old = PolyphonicSynthesizer.MAX_VOICES
    PolyphonicSynthesizer.MAX_VOICES = voices
    try:
        s = PolyphonicSynthesizer(Voice(Osc(), Env()))
    finally:
        PolyphonicSynthesizer.MAX_VOICES = old
    expect(len(s.voices) == voices and len({id(v) for v in s.voices}) == voices, 'voices')
    s.MAX_VOICES = voices
    src = MessageOutput()
    src.connect(s.input)
    playing, turn, ons = [None] * voices, 0, [0] * voices
    for k, notes in enumerate(blocks):
        sounds = {i for i, p in enumerate(playing) if p is not None}
        for n in notes:
            n = Note(*n)
            src.send(n)
            if n.velocity > 0:
                sounds.add(turn % voices)
                playing[turn % voices] = n
                ons[turn % voices] += 1
                turn += 1
            else:
                playing = [None if p is not None and p.pitch == n.pitch else p for p in playing]
        s.update()
        heard(s.output.value, sum((sound(s.voices[i]) for i in sorted(sounds)), np.zeros(BUFFER_SIZE)) / voices, 'the polyphonic synthesizer')
        for i, (v, p) in enumerate(zip(s.voices, playing)):
            g = v.envelope.gates
            if p is None:
                expect(not g or not g[-1], 'block %d: voice %d hangs', k, i)
            else:
                expect(g and g[-1], 'block %d: voice %d does not play %r', k, i, p)
                expect(v.amplitude == p.velocity and v.oscillator.frequency.value == p.frequency, 'block %d: voice %d plays %r / %r instead of %r', k, i, v.amplitude, v.oscillator.frequency.value, p)
            expect(sum(g) == ons[i], 'block %d: voice %d started %d times instead of %d', k, i, sum(g), ons[i])


def silence(blocks, kind):
    """After the note-offs of all pitches everything falls silent."""
    v = Voice(Oscillator(), ADSR(.001, .001, .5, .002))
    s = PolyphonicSynthesizer(v) if kind == 'poly' else MonophonicSynthesizer(v, kind)
    src = MessageOutput()
    src.connect(s.input)
    counts = {}
    for notes in blocks:
        for n in notes:
            n = Note(*n)
            counts[n.pitch] = max(0, counts.get(n.pitch, 0) + (1 if n.velocity > 0 else -1))
            src.send(n)
        s.update()
    for p, c in sorted(counts.items()):
        for _ in range(c):
            src.send(Note(p, 0., 100.))
    for _ in range(4):
        s.update()
    expect(abs(s.output.value).max() == 0 and s.output.value.shape == (BUFFER_SIZE,), 'still sounds after all note-offs')
    expect(not any(v.active for v in getattr(s, 'voices', [s] and [getattr(s, 'voice', None)])), 'a voice hangs')


def template(wave, f0, settings, blocks, voices, kind):
    """A note sounds as a voice of its own, made like the template, would."""
    make = lambda: Voice(Oscillator(f0, WAVE_FUNCTIONS[wave]) if kind != 'pwm' else PwmOscillator(f0, settings[0] * 100), ADSR(*settings))
    v = make()
    old = PolyphonicSynthesizer.MAX_VOICES
    PolyphonicSynthesizer.MAX_VOICES = voices
    try:
        s = PolyphonicSynthesizer(v)
    finally:
        PolyphonicSynthesizer.MAX_VOICES = old
    s.MAX_VOICES = voices
    alone = [make() for _ in range(voices)]
    src = MessageOutput()
    src.connect(s.input)
    turn, pitch = 0, [None] * voices
    for k, notes in enumerate(blocks):
        for n in notes:
            n = Note(*n)
            src.send(n)
            if n.velocity > 0:
                alone[turn % voices].input.push(n)
                pitch[turn % voices] = n.pitch
                turn += 1
            else:
                for i in range(voices):
                    if pitch[i] == n.pitch:
                        alone[i].input.push(n)
                        pitch[i] = None
        s.update()
        want = np.zeros(BUFFER_SIZE)
        for w in alone:
            if w.active:
                w.update()
                want += w.output.value
        expect(np.allclose(s.output.value, want / voices, atol=1e-9), 'block %d: does not sound like voices made like the template', k)


CHECKS = dict(template=template, scheduler=scheduler, mono=mono, poly=poly, silence=silence)


def cases(rng, tier):
    def notes(n, few=True):
        r = []
        for _ in range(n):
            p = rng.randrange(60, 66 if few else 90)
            if rng.random() < .15:
                p += rng.choice([.5, .25, .01])
            r.append((p, rng.choice([0., 0., 0., 1., .5, .25, .125, .004, 1e-9])) + ((rng.choice([100., 200., 300.]),) if p != int(p) or rng.random() < .2 else ()))
        return r
    pols = sorted(BETTER)
    for _ in range(4000 if tier == 'thorough' else 600):
        yield 'scheduler', dict(policy=rng.choice(pols), notes=notes(rng.randrange(1, 25), rng.random() < .5))
        yield 'mono', dict(policy=rng.choice(pols), blocks=[notes(rng.choice([0, 1, 1, 2, 3, 6])) for _ in range(rng.randrange(1, 8))])
        yield 'poly', dict(voices=rng.choice([24, 3, 3, 2, 2, 1, 1]), blocks=[notes(rng.choice([0, 1, 1, 2, 3, 8, 30])) for _ in range(rng.randrange(1, 8))])
    for _ in range(200 if tier == 'thorough' else 30):
        yield 'template', dict(wave=rng.choice(['sine', 'triangle', 'square', 'sawtooth']), f0=440., settings=[rng.choice([.001, .01]), .004, rng.random(), rng.choice([.002, .02])], voices=rng.choice([1, 2, 5]),
                               kind=rng.choice(['plain', 'plain', 'pwm']), blocks=[notes(rng.choice([0, 1, 1, 2])) for _ in range(rng.randrange(2, 12))])
    for _ in range(100 if tier == 'thorough' else 15):
        yield 'silence', dict(kind=rng.choice(['poly', 'poly'] + pols), blocks=[notes(rng.choice([0, 1, 2, 5])) for _ in range(rng.randrange(1, 6))])


if __name__ == '__main__':
    main('C17', CHECKS, cases)

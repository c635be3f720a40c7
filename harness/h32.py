import contextlib
import copy
import io
import os
import shutil
import sys
import tempfile
import types
import wave

from common import *


def stubs():
    pynput = types.ModuleType('pynput')
    pynput.keyboard = types.ModuleType('pynput.keyboard')
    pynput.keyboard.Listener = type('Listener', (), dict(__init__=lambda s, **k: s.__dict__.update(k), start=lambda s: None, stop=lambda s: None))
    sys.modules['pynput'], sys.modules['pynput.keyboard'] = pynput, pynput.keyboard
    sys.modules['rtmidi'] = types.ModuleType('rtmidi')
    sys.modules['rtmidi'].MidiOut = type('MidiOut', (), dict(get_ports=lambda s: [], open_port=lambda s, *a: s, open_virtual_port=lambda s, *a: s, close_port=lambda s: None))


stubs()

import numpy as np

from klang import network, midi, keyboard, sequencer, note_effects, arpeggiator
from klang.audio import effects, oscillators, sync, envelopes, voices, synthesizer, sampling, mixer, klanggeber
from klang.block import Block, pipe_operator
from klang.composite import Composite
from klang.connections import Input, MessageInput, MessageOutput, MessageRelay, Output, Relay
from klang.execution import determine_execution_order
from klang.music.note_values import QUARTER_NOTE
from klang.music.rhythm import MicroRhyhtm

VALUE, MESSAGE = (Input, Relay, Output), (MessageInput, MessageRelay, MessageOutput)


def wav():
    f = io.BytesIO()
    with wave.open(f, 'wb') as w:
        w.setnchannels(2)
        w.setsampwidth(2)
        w.setframerate(44100)
        w.writeframes(bytes(4000))
    f.seek(0)
    return f


def voice():
    return voices.Voice(oscillators.Oscillator(440.), envelopes.ADSR(.1, .1, .5, .1))


def sock(d):
    return os.path.join(d, 'socket%d' % len(os.listdir(d)))


BLOCKS = dict(
    Gain=('vv', 'v', lambda d: effects.Gain(.5)), Tremolo=('vvvvv', 'v', lambda d: effects.Tremolo(4.)), Delay=('v', 'v', lambda d: effects.Delay(.25)),
    AudioSplitter=('v', 'vv', lambda d: effects.AudioSplitter(2)), AudioCombiner=('vv', 'v', lambda d: effects.AudioCombiner(2)),
    StereoDelay=('v', 'v', lambda d: effects.StereoDelay(.25, .5)), Filter=('vv', 'v', lambda d: effects.Filter(frequency=100.)),
    Subsampler=('v', 'v', lambda d: effects.Subsampler(4)), Bitcrusher=('v', 'v', lambda d: effects.Bitcrusher(8)), OctaveDistortion=('v', 'v', lambda d: effects.OctaveDistortion()),
    TanhDistortion=('v', 'v', lambda d: effects.TanhDistortion(2.)), PitchShifter=('v', 'v', lambda d: effects.PitchShifter(1.5)), Transformer=('v', 'v', lambda d: effects.Transformer(1., 0.)),
    Reverb=('v', 'v', lambda d: effects.Reverb()), RingModulator=('vvvvv', 'v', lambda d: effects.RingModulator()),
    Phasor=('v', 'v', lambda d: oscillators.Phasor(440.)), Oscillator=('v', 'v', lambda d: oscillators.Oscillator(440.)), Lfo=('v', 'v', lambda d: oscillators.Lfo(4.)),
    FmOscillator=('v', 'v', lambda d: oscillators.FmOscillator()), PwmOscillator=('vv', 'v', lambda d: oscillators.PwmOscillator()),
    WavetableOscillator=('v', 'v', lambda d: oscillators.WavetableOscillator(440.)), OvertoneOscillator=('v', 'v', lambda d: oscillators.OvertoneOscillator(440.)),
    Chirper=('', 'v', lambda d: oscillators.Chirper(100., 1., 200.)), Clock=('v', 'v', lambda d: sync.Clock(2.)),
    ADSR=('m', 'v', lambda d: envelopes.ADSR(.1, .1, .5, .1)), AR=('m', 'v', lambda d: envelopes.AR(.1, .1)), D=('m', 'v', lambda d: envelopes.D(.1)), R=('m', 'v', lambda d: envelopes.R(.1)),
    Voice=('m', 'v', lambda d: voice()), MonophonicSynthesizer=('m', 'v', lambda d: synthesizer.MonophonicSynthesizer(voice())),
    PolyphonicSynthesizer=('m', 'v', lambda d: synthesizer.PolyphonicSynthesizer(voice())), HiHat=('m', 'v', lambda d: synthesizer.HiHat()), Kick=('m', 'v', lambda d: synthesizer.Kick()),
    AudioFile=('', 'v', lambda d: sampling.AudioFile(wav())), Mixer=('vv', 'v', lambda d: mixer.Mixer(2)), StereoMixer=('v', 'v', lambda d: mixer.StereoMixer(1)),
    Adc=('', 'vv', lambda d: klanggeber.Adc(2)), Dac=('vv', '', lambda d: klanggeber.Dac(2)),
    Arpeggiator=('m', 'm', lambda d: arpeggiator.Arpeggiator()), NoteLengthener=('m', 'm', lambda d: note_effects.NoteLengthener(.5)), MaxNotes=('m', 'm', lambda d: note_effects.MaxNotes(3)),
    MessageMixer=('mm', 'm', lambda d: note_effects.MessageMixer()), PizzaSlicer=('v', 'm', lambda d: sequencer.PizzaSlicer(4)), PatternLookup=('m', 'm', lambda d: sequencer.PatternLookup([60, 61])),
    Sequence=('v', 'mv', lambda d: sequencer.Sequence(Composite(), [60, 61])), Sequencer=('', 'mm', lambda d: sequencer.Sequencer([[60, 61], [62, 63, 64]])),
    JointSequencer=('', 'm', lambda d: sequencer.Sequencer([[60, 61], [62, 63, 64]], splitOutputs=False)),
    MicroRhyhtm=('vv', 'v', lambda d: MicroRhyhtm([QUARTER_NOTE] * 4)), MidiOut=('m', '', lambda d: midi.MidiOut()),
    Keyboard=('', 'm', lambda d: keyboard.Keyboard()), MusicalKeyboard=('', 'mm', lambda d: keyboard.MusicalKeyboard(others=True)), PlainMusicalKeyboard=('', 'm', lambda d: keyboard.MusicalKeyboard()),
    NetworkIn=('', 'v', lambda d: network.NetworkIn(sock(d))), NetworkMessageIn=('', 'm', lambda d: network.NetworkMessageIn(sock(d))),
    NetworkOut=('v', '', lambda d: network.NetworkOut(sock(d))), NetworkMessageOut=('m', '', lambda d: network.NetworkMessageOut(sock(d))))
GROW = dict(Mixer=[lambda b: b.add_new_channel(), lambda b: b.__iadd__(Block(0, 1)), lambda b: b.__iadd__(Block(0, 1).output)], StereoMixer=[lambda b: b.add_new_channel(), lambda b: b.__iadd__(Block(0, 1))],
            MessageMixer=[lambda b: b.add_new_channel()], Sequencer=[lambda b: b.add_new_channel([60, 62])], JointSequencer=[lambda b: b.add_new_channel([60, 62])])
COPIES = ('Phasor', 'Oscillator', 'Lfo', 'FmOscillator', 'PwmOscillator', 'ADSR', 'AR', 'D', 'R', 'Voice')


def kinds(xs):
    return ''.join('v' if type(x) in VALUE else 'm' if type(x) in MESSAGE else '?' for x in xs)


def tied(what, b, ins, outs):
    """The ends of b are its own, once each; what is connected to it is found from it and the other way round."""
    ends = list(b.inputs) + list(b.outputs)
    expect((kinds(b.inputs), kinds(b.outputs)) == (ins, outs), '%s: ends %s -> %s', what, kinds(b.inputs), kinds(b.outputs))
    for x in ends:
        expect(x.owner is b, '%s: an end belongs to %r', what, x.owner)
    expect(len(set(map(id, ends))) == len(ends), '%s: an end is listed twice', what)
    for name, x in vars(b).items():
        if type(x) in VALUE + MESSAGE:
            expect(any(x is y for y in ends), '%s: %s is none of its ends', what, name)
    for n, x in enumerate(b.inputs):
        if x.connected:
            continue
        f = Block()
        o = MessageOutput(owner=f) if type(x) in MESSAGE else Output(owner=f)
        f.outputs = [o]
        if n:
            o.connect(x)
        else:
            expect((f | b) is b and x.incomingConnection is o, '%s: pipe to a block', what)
        ordered(what, f, b)
        o.disconnect(x)
        expect(not x.connected, '%s: input still connected', what)
        expect(pipe_operator(o, x) is b, '%s: pipe leads on to %r', what, x.owner)
        ordered(what, f, b)
        o.disconnect(x)
    for n, x in enumerate(b.outputs):
        r = Block()
        i = MessageInput(owner=r) if type(x) in MESSAGE else Input(owner=r)
        r.inputs = [i]
        if n:
            expect((x | r) is r, '%s: pipe from an output', what)
        else:
            expect((b | r) is r, '%s: pipe from a block', what)
        expect(i.incomingConnection is x, '%s: pipe starts at another output', what)
        ordered(what, b, r)
        x.disconnect(i)
    return ends


def ordered(what, first, second):
    for start in (first, second):
        order = determine_execution_order([start])
        expect(any(x is first for x in order) and any(x is second for x in order), '%s: connected block not found', what)
        i, j = [[k for k, x in enumerate(order) if x is y][0] for y in (first, second)]
        expect(i < j, '%s: runs out of order', what)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='h32-')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def block(name, grow=(), copied=False):
    ins, outs, make = BLOCKS[name]
    with scratch() as d:
        made, b = [], None

        def add(what, x):
            mine = tied(what, x, ins, outs)
            expect(not any(p is q for p in mine for q in made), '%s: shares an end with another block', what)
            made.extend(mine)
        first = make(d)
        add('first', first)
        open(os.path.join(d, 'other'), 'w').close()
        b = make(d)
        add('second', b)
        tied('first', first, ins, outs)
        if copied:
            for _ in range(2):
                c = copy.deepcopy(b)
                expect(c is not b and type(c) is type(b), 'copy is %r', c)
                add('copy', c)
                tied('original', b, ins, outs)
        before = [(x, list(x.inputs), list(x.outputs)) for x in (first,)]
        for n, g in enumerate(grow):
            res = GROW[name][g](b)
            if name == 'Sequencer':
                outs += 'm'
            elif name != 'JointSequencer':
                ins += 'vm'[name == 'MessageMixer']
            if g:
                expect(res is b, 'grown block is another one')
            tied('grown %d' % (n + 1), b, ins, outs)
        for x, i, o in before:
            expect(len(x.inputs) == len(i) and len(x.outputs) == len(o), 'another block has grown')


def chain(n, cut):
    """a | b | c … puts every block after the one before."""
    blocks = [Block(2, 2) for _ in range(n)]
    res = blocks[0]
    for k, b in enumerate(blocks[1:], 1):
        how = (cut + k) % 4
        left, right = blocks[k - 1], b
        if how == 1:
            res = pipe_operator(left.outputs[1], right)
        elif how == 2:
            res = left.outputs[0] | right
        elif how == 3:
            res = left | right.inputs[1]
        else:
            res = res | right
        expect(res is b, 'pipe leads on to %r', res)
        i = right.inputs[1 if how == 3 else 0]
        expect(i.incomingConnection is left.outputs[1 if how == 1 else 0], 'block %d: other ends connected', k)
        expect(sum(x.connected for x in right.inputs) == 1, 'more than one input connected')
    for b in (blocks[0], blocks[-1], blocks[n // 2]):
        order = determine_execution_order([b])
        expect([id(x) for x in order] == [id(x) for x in blocks], 'chain out of order')
    for wrong in ((1, blocks[0]), (blocks[0], 1), (blocks[0].inputs[1], blocks[1])):
        try:
            pipe_operator(*wrong)
        except (TypeError, AttributeError):
            continue
        raise Fail('piped %r' % (wrong,))


CHECKS = dict(block=block, chain=chain)


def cases(rng, tier):
    for name in BLOCKS:
        yield 'block', dict(name=name)
        if name in COPIES:
            yield 'block', dict(name=name, copied=True)
        for g in range(len(GROW.get(name, ()))):
            yield 'block', dict(name=name, grow=[g])
    for cut in range(4):
        for n in (2, 5, 9):
            yield 'chain', dict(n=n, cut=cut)
    for _ in range(20 if tier == 'quick' else 300):
        name = rng.choice(sorted(GROW))
        yield 'block', dict(name=name, grow=[rng.randrange(len(GROW[name])) for _ in range(rng.randint(2, 6))])
        yield 'chain', dict(n=rng.randint(2, 30), cut=rng.randrange(4))


if __name__ == '__main__':
    main('C32', CHECKS, cases)

"""C32: every end of a library block belongs to the block."""
from pyvc import models
from pyvc.spec import *
from contracts import c08_envelope as c08
from contracts import c25_keyboard as c25
from contracts import c29_midi as c29

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['devices, files, sockets and filter designs behind the blocks are stand-ins',
               'blocks run in the order that is derived from the owners of connected ends (C04)']
E, O, A, X = 'klang.audio.effects.', 'klang.audio.oscillators.', 'klang.audio.synthesizer.', 'klang.audio.'
VALUE, MESSAGE = ('Input', 'Relay', 'Output'), ('MessageInput', 'MessageRelay', 'MessageOutput')


def ends(V, b):
    return [list(V.seq_of(V.getattr(b, k)).items) for k in ('inputs', 'outputs')]


def kinds(V, xs):
    """v for value ends, m for message ends."""
    out = ''
    for x in xs:
        name = x.cls.name if hasattr(x, 'cls') else type(x).__name__
        out += 'v' if name in VALUE else 'm' if name in MESSAGE else '?'
    return out


def is_end(V, x):
    return hasattr(x, 'cls') and getattr(x.cls, 'name', None) in VALUE + MESSAGE


def belongs(V, tag, b, ins, outs):
    """All ends of b are its own, once each, of the kinds given."""
    i, o = ends(V, b)
    V.check('%s: inputs %r' % (tag, ins), kinds(V, i) == ins)
    V.check('%s: outputs %r' % (tag, outs), kinds(V, o) == outs)
    for k, x in enumerate(i + o):
        V.check('%s: end %d belongs to the block' % (tag, k), V.getattr(x, 'owner') is b)
        V.check('%s: end %d is listed once' % (tag, k), sum(x is y for y in i + o) == 1)
    for name, x in list(b.fields.items()):
        if is_end(V, x):
            V.check('%s: %s is one of its ends' % (tag, name), any(x is y for y in i + o))
    return i + o


def unit(cls, ins, outs, args=lambda V: [], copy=False, prepare=None, overlay=None, grow=None):
    @U.unit(cls.split('.')[-1], claim='every input and output of a new %s belongs to it; blocks share no ends' % cls.split('.')[-1] + (', also for copies' if copy else ''), overlay=overlay or {})
    def body(V):
        if prepare:
            prepare(V)
        made = []
        for tag in ('first', 'second'):
            a = args(V)
            kw = a.pop() if a and isinstance(a[-1], dict) else {}
            b = V.expect_ok('new', 'klang.' + cls, a, kw)
            mine = belongs(V, tag, b, ins, outs)
            V.check('%s: no shared ends' % tag, not any(x is y for x in mine for y in made))
            made += mine
        if copy:
            c = V.expect_ok('copy', V.getattr(b, '__deepcopy__'), [V.mkdict([])])
            V.check('a new block', c is not b)
            mine = belongs(V, 'copy', c, ins, outs)
            V.check('copy: no shared ends', not any(x is y for x in mine for y in made))
            belongs(V, 'original', b, ins, outs)
        if grow:
            for k, (what, i, o) in enumerate(grow):
                what(V, b)
                belongs(V, 'grown %d' % (k + 1), b, i, o)
    return body


def r(V, name='x'):
    return V.real(name)


def positive(V, name='x'):
    x = V.real(name)
    V.assume(x > 0)
    return x


def call(name, *args):
    return lambda V, b: V.expect_ok(name, V.getattr(b, name), list(args))


def a_filter(V):
    V.overlay[E + '_Filter'] = Builtin('_Filter', lambda V, *a, **k: V.mkobj(V.lookup('klang.block.Block')))
    V.overlay['scipy.signal.butter'] = Builtin('butter', None)


def ring(V):
    V.contracts['klang.ring_buffer.RingBuffer.__init__'] = lambda V, a: None


def a_delay(V):
    x = V.real('time')
    V.assume(And(x >= 0, x <= 2))
    return x


def voice(V):
    o = V.expect_ok('oscillator', 'klang.' + O[6:] + 'Oscillator', [])
    e = V.expect_ok('envelope', 'klang.audio.envelopes.ADSR', [])
    return V.expect_ok('voice', 'klang.audio.voices.Voice', [o, e])


def wave_file(V):
    def load(V, a):
        n = V.int('frames', 0)
        V.assume(n >= 3)
        return (44100, V.mkarr((n, 2), KReal().uf('file', 2), 'float'))
    V.contracts['klang.audio.wavfile.load_wave'] = load
    V.contracts['klang.audio.sampling.Sample.__init__'] = lambda V, a: V.setattr(a['self'], 'data', V.mkarr((4, 2), KReal().uf('file', 2), 'float'))


def midi(V):
    V.loops['klang.midi.open_midiout#0'] = LoopSpec(lambda V, L: [])
    V.overlay['rtmidi.MidiOut'] = Builtin('MidiOut', lambda V, *a, **k: c29.Port(V))


def sockets(V):
    V.contracts['klang.network.JsonCourier.__init__'] = lambda V, a: None


class Stub(models._HV):
    def attr(self, V, name):
        raise Unsupported('listener: ' + name)


def listener(V):
    V.overlay['pynput.keyboard.Listener'] = Builtin('Listener', lambda V, **k: Stub())


# effects
unit('audio.effects.Gain', 'vv', 'v', lambda V: [r(V)])
unit('audio.effects.Tremolo', 'vvvvv', 'v', lambda V: [r(V)])
unit('audio.effects.Delay', 'v', 'v', lambda V: [a_delay(V)], prepare=ring)
unit('audio.effects.AudioSplitter', 'v', 'vv', lambda V: [2])
unit('audio.effects.AudioCombiner', 'vv', 'v', lambda V: [2])
unit('audio.effects.StereoDelay', 'v', 'v', lambda V: [a_delay(V), a_delay(V)], prepare=ring)
unit('audio.effects.Filter', 'vv', 'v', lambda V: [dict(frequency=r(V))], prepare=a_filter)
unit('audio.effects.Subsampler', 'v', 'v', lambda V: [4])
unit('audio.effects.Bitcrusher', 'v', 'v', lambda V: [8])
unit('audio.effects.OctaveDistortion', 'v', 'v')
unit('audio.effects.TanhDistortion', 'v', 'v', lambda V: [positive(V)])
unit('audio.effects.PitchShifter', 'v', 'v', lambda V: [positive(V)], prepare=lambda V: V.overlay.__setitem__('numpy.hanning', Builtin('hanning', lambda V, n: V.mkarr((n,), KReal().uf('hanning', 1), 'float'))))
unit('audio.effects.Transformer', 'v', 'v', lambda V: [r(V), r(V)])
unit('audio.effects.Reverb', 'v', 'v', lambda V: [], prepare=lambda V: (V.contracts.__setitem__('klang.primes.find_next_primes', lambda V, a: V.mklist([7, 11])),
                                                                       V.overlay.__setitem__(E + 'BackwardCombFilter', Builtin('comb', lambda V, *a: Stub()))))
unit('audio.effects.RingModulator', 'vvvvv', 'v')
# oscillators
unit('audio.oscillators.Phasor', 'v', 'v', lambda V: [r(V)], copy=True)
unit('audio.oscillators.Oscillator', 'v', 'v', lambda V: [r(V)], copy=True)
unit('audio.oscillators.Lfo', 'v', 'v', lambda V: [r(V)], copy=True)
unit('audio.oscillators.FmOscillator', 'v', 'v', lambda V: [r(V)], copy=True)
unit('audio.oscillators.PwmOscillator', 'vv', 'v', lambda V: [r(V)], copy=True)
unit('audio.oscillators.WavetableOscillator', 'v', 'v', lambda V: [r(V)])
unit('audio.oscillators.OvertoneOscillator', 'v', 'v', lambda V: [r(V)])
unit('audio.oscillators.Chirper', '', 'v', lambda V: [r(V), r(V), r(V)])
unit('audio.sync.Clock', 'v', 'v', lambda V: [r(V)])
# instruments
for _c in ('ADSR', 'AR', 'D', 'R'):
    unit('audio.envelopes.' + _c, 'm', 'v', copy=True, overlay=c08.OVERLAY)
unit('audio.voices.Voice', 'm', 'v', lambda V: [V.expect_ok('oscillator', O + 'Oscillator', []), V.expect_ok('envelope', 'klang.audio.envelopes.ADSR', [])], copy=True, overlay=c08.OVERLAY)
unit('audio.synthesizer.MonophonicSynthesizer', 'm', 'v', lambda V: [voice(V)], overlay=c08.OVERLAY)
unit('audio.synthesizer.PolyphonicSynthesizer', 'm', 'v', lambda V: [voice(V)], overlay=c08.OVERLAY, prepare=lambda V: V.contracts.__setitem__(A + 'duplicate_voice', lambda V, a: V.mklist([a['voice']])))
unit('audio.synthesizer.HiHat', 'm', 'v', overlay=c08.OVERLAY)
unit('audio.synthesizer.Kick', 'm', 'v')
unit('audio.sampling.AudioFile', '', 'v', lambda V: ['file.wav'], prepare=wave_file)
# mixing and devices
unit('audio.mixer.Mixer', 'vv', 'v', lambda V: [2], grow=[(call('add_new_channel'), 'vvv', 'v'), (lambda V, b: V.expect_ok('+=', V.getattr(b, '__iadd__'), [V.expect_ok('other', 'klang.block.Block', [0, 1])]), 'vvvv', 'v')])
unit('audio.mixer.StereoMixer', 'v', 'v', lambda V: [1], grow=[(call('add_new_channel'), 'vv', 'v')])
unit('audio.klanggeber.Adc', '', 'vv', lambda V: [2])
unit('audio.klanggeber.Dac', 'vv', '', lambda V: [2])
# notes
unit('arpeggiator.Arpeggiator', 'm', 'm')
unit('note_effects.NoteLengthener', 'm', 'm', lambda V: [r(V)])
unit('note_effects.MaxNotes', 'm', 'm', lambda V: [3])
unit('note_effects.MessageMixer', 'mm', 'm', lambda V: [2], grow=[(call('add_new_channel'), 'mmm', 'm')])
unit('sequencer.PizzaSlicer', 'v', 'm', lambda V: [4])
unit('sequencer.PatternLookup', 'm', 'm', lambda V: [V.mklist([60, 61])])
unit('sequencer.Sequence', 'v', 'mv', lambda V: [V.expect_ok('parent', 'klang.composite.Composite', []), V.mklist([60, 61])])
unit('sequencer.Sequencer', '', 'mm', lambda V: [V.mklist([V.mklist([60, 61]), V.mklist([62, 63, 64])])], grow=[(lambda V, b: V.expect_ok('add', V.getattr(b, 'add_new_channel'), [V.mklist([62, 63])]), '', 'mmm')])
unit('music.rhythm.MicroRhyhtm', 'vv', 'v', lambda V: [V.mklist([V.lookup('klang.music.note_values.QUARTER_NOTE')])], prepare=lambda V: V.contracts.__setitem__('klang.music.rhythm.MicroRhyhtm.create_phase_interpolator', lambda V, a: None))
# the world outside
unit('midi.MidiOut', 'm', '', prepare=midi)
unit('keyboard.Keyboard', '', 'm', prepare=listener)
unit('keyboard.MusicalKeyboard', '', 'mm', lambda V: [dict(others=True)], prepare=lambda V: (listener(V), c25.setup(V)))
unit('network.NetworkIn', '', 'v', lambda V: ['address'], prepare=sockets)
unit('network.NetworkMessageIn', '', 'm', lambda V: ['address'], prepare=sockets)
unit('network.NetworkOut', 'v', '', lambda V: ['address'], prepare=sockets)
unit('network.NetworkMessageOut', 'm', '', lambda V: ['address'], prepare=sockets)


@U.unit('pipe', claim='a | b connects the first output of a with the first input of b, whether given as blocks or ends, and goes on with the block behind it')
def pipe(V):
    for l in (False, True):
        for rr in (False, True):
            a, b, c = [V.expect_ok('block', 'klang.block.Block', [2, 2]) for _ in range(3)]
            i, o = V.seq_of(V.getattr(b, 'inputs')), V.seq_of(V.getattr(a, 'outputs'))
            left, right = (o[0] if l else a), (i[0] if rr else b)
            if l:
                res = V.expect_ok('pipe', 'klang.block.pipe_operator', [left, right])
            else:
                res = V.expect_ok('pipe', V.getattr(left, '__or__'), [right])
            V.check('goes on with the block behind', res is b)
            V.check('first output to first input', V.getattr(i[0], 'incomingConnection') is o[0])
            V.check('nothing else', all(V.getattr(x, 'incomingConnection') is None for x in [i[1]] + list(V.seq_of(V.getattr(a, 'inputs')).items)))
            if l:
                d = V.expect_ok('block', 'klang.block.Block', [1, 0])
                res = V.expect_ok('reversed pipe', V.getattr(d, '__ror__'), [o[1]])
                V.check('reversed: goes on with the block behind', res is d)
                V.check('reversed: connected', V.getattr(V.getattr(d, 'input'), 'incomingConnection') is o[1])

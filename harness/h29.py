import sys
import types

from common import *

PORTS = []


class MidiOut:
    """Stand-in recording the messages."""
    names = []

    def __init__(self, *a, **k):
        self.opened, self.sent, self.closed = [], [], 0
        PORTS.append(self)

    def get_ports(self):
        return list(self.names)

    def open_port(self, number=0, name=None):
        self.opened.append(number)
        return self

    def open_virtual_port(self, name=None):
        self.opened.append('virtual')
        return self

    def send_message(self, m):
        expect(self.opened and not self.closed, 'message on a closed port')
        self.sent.append(list(m))

    def close_port(self):
        self.closed += 1


sys.modules['rtmidi'] = types.ModuleType('rtmidi')
sys.modules['rtmidi'].MidiOut = MidiOut

import io
from contextlib import redirect_stdout
from klang import midi
from klang.connections import MessageOutput
from klang.messages import Note


def good(m, note, channel):
    m = list(m)
    expect(len(m) == 3 and all(isinstance(b, int) and not isinstance(b, bool) for b in m), '%r is no MIDI message', m)
    status, pitch, velocity = m
    expect(status == (0x90 if note.velocity > 0 else 0x80) + channel, '%r on channel %d: status %#x', note, channel, status)
    expect(pitch == note.pitch, '%r: pitch %d', note, pitch)
    if note.velocity > 0:
        exact = note.velocity * 127
        expect(1 <= velocity <= 127 and (velocity == 1 and exact < 1 or abs(velocity - exact) < 1), '%r: velocity %d', note, velocity)
    else:
        expect(velocity == 0, '%r: velocity %d', note, velocity)


def message(pitch, velocity, channel):
    n = Note(pitch, velocity)
    good(midi.note_to_midi_message(n, channel), n, channel)
    if not channel:
        good(midi.note_to_midi_message(n), n, 0)
    good(midi.note_to_midi_message(n, channel=channel), n, channel)


def block(turns, channel, port, ports):
    MidiOut.names = ['port %d' % i for i in range(ports)]
    with redirect_stdout(io.StringIO()):
        b = midi.MidiOut(port, channel) if channel or port else midi.MidiOut()
        other = midi.MidiOut(portNumber=port, channel=(channel + 3) % 16)
    mine = PORTS[-2]
    expect(mine.opened == [port if ports else 'virtual'], 'opened %r', mine.opened)
    src = MessageOutput(owner=None)
    src.connect(b.input)
    n = 0
    for turn in turns:
        notes = [Note(*v) for v in turn]
        for x in notes:
            src.send(x)
        before = len(mine.sent)
        b.update()
        expect(len(mine.sent) == before + len(notes), '%d notes, %d messages', len(notes), len(mine.sent) - before)
        for m, x in zip(mine.sent[before:], notes):
            good(m, x, channel)
        other.update()
    expect(not PORTS[-1].sent, 'messages on another port')


CHECKS = dict(message=message, block=block)


def cases(rng, tier):
    for c in range(16):
        for p in (0, 1, 60, 127):
            for v in (0., 0, 1e-300, 1e-9, .003, .0078, .0079, .0157, .5, .1, .99, .999, 1, 1.):
                yield 'message', dict(pitch=p, velocity=v, channel=c)
    for p in range(128):
        yield 'message', dict(pitch=p, velocity=rng.random(), channel=rng.randrange(16))
    for k in range(129):
        yield 'message', dict(pitch=64, velocity=min(k / 127, 1.), channel=0)
    for i in range(60 if tier == 'quick' else 600):
        turns = [[[rng.randrange(128), rng.choice([0., 0., 1., rng.random(), rng.random() / 100])] for _ in range(rng.choice([0, 1, 3, 45]))] for _ in range(rng.randint(1, 4))]
        yield 'block', dict(turns=turns, channel=rng.randrange(16) if i else 0, port=rng.randint(0, 2) if i else 0, ports=rng.choice([0, 3]))


if __name__ == '__main__':
    main('C29', CHECKS, cases)

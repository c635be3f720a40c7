"""C29: MIDI output."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['rtmidi: send_message sends the bytes it is given (stand-in that records them)',
               'channels are 0 to 15, pitches whole numbers', 'message queues deliver as in C03', 'floats are mathematical reals']
M = 'klang.midi.'
NOTE = 'klang.messages.Note'


def some_note(V, k=''):
    p, v, f = V.int('pitch' + k), V.real('velocity' + k), V.real('frequency' + k)
    V.assume(And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0))
    return V.expect_ok('Note', NOTE, [p, v, f])


def channel(V):
    c = V.int('channel', 0)
    V.assume(c < 16)
    return c


def message(V, m, note, c):
    vals = V.seq_of(m)
    V.check('three bytes', Z(vals.n) == 3)
    status, pitch, velocity = [to_real(at(vals, i)) for i in range(3)]
    p, v, _ = [to_real(x) for x in note.vals]
    V.check('note-on of a sounding note', imp(v > 0, status == 0x90 + c))
    V.check('note-off of a silent note', imp(v == 0, And(status == 0x80 + c, velocity == 0)))
    V.check('pitch', pitch == p)
    V.check('velocity in range', And(velocity >= 0, velocity <= 127))
    V.check('a note-on has a velocity', imp(v > 0, velocity >= 1))
    V.check('velocity follows the note', imp(v > 0, And(Or(velocity == 1, velocity - 1 < 127 * v), 127 * v < velocity + 1)))
    for i in range(3):
        V.check('a byte is a whole number', kind_is_int(at(vals, i)))


def kind_is_int(x):
    return isinstance(x, int) or (z3.is_expr(x) and x.sort() == z3.IntSort())


@U.unit('message', claim='status, pitch and velocity byte of every note on every channel')
def one_message(V):
    n, c = some_note(V), channel(V)
    message(V, V.expect_ok('message', M + 'note_to_midi_message', [n, c]), n, c)
    message(V, V.expect_ok('message', M + 'note_to_midi_message', [n]), n, z3.IntVal(0))


class Port(models._HV):
    """rtmidi.MidiOut"""

    def __init__(self, V):
        self.opened, self.sent, self.nports = [], Log(V, KInt()), V.int('ports', 0)

    def attr(self, V, name):
        table = dict(send_message=lambda V, m: self.sent.send(V, m), open_port=lambda V, n: self.opened.append(n), open_virtual_port=lambda V, n: self.opened.append('virtual'),
                     get_ports=lambda V: V.list('names', KText()), close_port=lambda V: self.opened.clear())
        if name not in table:
            raise Unsupported('MIDI port method ' + name)
        return Builtin(name, table[name])


@U.unit('block', claim='every pending note is sent once, in order, on the channel of the block')
def block(V):
    ports = []

    def make(V):
        ports.append(Port(V))
        return ports[-1]
    V.overlay['rtmidi.MidiOut'] = Builtin('MidiOut', make)
    V.contracts[M + 'note_to_midi_message'] = lambda V, a: a['note'] * 16 + Z(a['channel'])
    V.loops[M + 'open_midiout#0'] = LoopSpec(lambda V, L: [])
    c, number = channel(V), V.int('port', 0)
    b = V.expect_ok('new', M + 'MidiOut', [number, c])
    V.check('one port', len(ports) == 1 and len(ports[0].opened) == 1)
    V.check('the port asked for, or a virtual one', ports[0].opened[0] is number or ports[0].opened[0] == 'virtual')
    m = V.list('notes', KInt()).seq
    message_ports(V, m, KInt())
    sent = ports[0].sent
    V.loops[M + 'MidiOut.update#0'] = LoopSpec(lambda V, L: [('one message per note', sent.n == L.k), ('in order, on the channel', All((0, L.k), lambda i: sent[i] == m[i] * 16 + c, pat=lambda i: sent[i]))])
    V.expect_ok('update', V.getattr(b, 'update'), [])
    V.check('every note is sent once', sent.n == m.n)
    V.check('in order, on the channel', All((0, Z(m.n)), lambda i: sent[i] == m[i] * 16 + c, pat=lambda i: sent[i]))

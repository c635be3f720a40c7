"""C28: values and messages over the network."""
import ast

from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['json, base64 and numpy.frombuffer / tobytes: decoding undoes encoding (library contracts); notes in text form: C18',
               'sockets deliver datagrams whole, in order, as far as they deliver them; a receive call takes one datagram, or raises BlockingIOError when none is pending',
               'datagrams hold one or more encoded objects one after the other (the sending blocks write one), and are shorter than 64 KiB',
               'message queues deliver as in C03']
N = 'klang.network.'
I = z3.IntSort()


# ---- codec

@U.unit('arrays', claim='an array of any layout is turned into a dictionary and back into an equal array of the same type and shape')
def arrays(V):
    for dt, kind in (('float', KReal()), ('int', KInt()), ('bool', KBool())):
        for dim in (1, 2, 3):
            shape = tuple(V.int('size%d' % d) for d in range(dim))
            V.assume(And(*[s >= 0 for s in shape]))
            x = V.mkarr(shape, kind.uf('x' + dt, dim), dt)
            before = x.storage.get
            d = V.expect_ok('array_to_dict', N + 'array_to_dict', [x])
            V.check('dictionary names its type', V.getitem(d, 'type') == 'ndarray')
            y = V.expect_ok('array_from_dict', N + 'array_from_dict', [d])
            V.check('an array of the same type', isinstance(y, Arr) and y.dtype == dt and len(y.shape) == dim)
            V.check('shape', And(*[Z(a) == Z(b) for a, b in zip(x.shape, y.shape)]))
            V.check('elements', All([(0, s) for s in shape], lambda *i: y.at(*i) == before(*i), pat=lambda *i: before(*i)) if dim > 1 else
                    All((0, shape[0]), lambda i: y.at(i) == before(i), pat=lambda i: before(i)))
            V.check('the array is left unchanged', x.storage.get is before)
            again = V.expect_ok('array_from_dict', N + 'klang_object_hook', [d])
            V.check('hook: an array', isinstance(again, Arr) and again.dtype == dt and len(again.shape) == dim)


STUB = '''
class JSONEncoder:
    def encode(self, o):
        pass
'''


def encoder_base(V):
    if 'JSONEncoder' not in V.ghost:
        V.ghost['JSONEncoder'] = V.define(ast.parse(STUB).body[0], V.module('klang.audio.helpers').env, 'interface')
    return V.ghost['JSONEncoder']


def some_note(V):
    p, v, f = V.real('pitch'), V.real('velocity'), V.real('frequency')
    V.assume(And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0))
    return V.expect_ok('Note', 'klang.messages.Note', [p, v, f])


@U.unit('encoder', claim='notes are encoded in their text form, arrays as their dictionary, everything else as JSON', overlay={'json.JSONEncoder': encoder_base})
def encoder(V):
    V.contracts['interface.JSONEncoder.encode'] = lambda V, a: ('json', a['o'])
    V.contracts['klang.messages.Note.to_json'] = lambda V, a: ('note', a['self'])
    e = V.expect_ok('new', N + 'KlangJSONEncoder', [])
    enc = lambda o: V.expect_ok('encode', V.getattr(e, 'encode'), [o])
    n = some_note(V)
    r = enc(n)
    V.check('note', r[0] == 'note' and r[1] is n)
    x = V.mkarr((V.int('n', 0),), KReal().uf('x', 1), 'float')
    r = enc(x)
    V.check('array', r[0] == 'json' and isinstance(r[1], SDict))
    y = V.expect_ok('back', N + 'klang_object_hook', [r[1]])
    V.check('array back', isinstance(y, Arr) and y.dtype == 'float')
    for o in (V.real('number'), 'text', None, True, V.mklist([1, 2]), (1, 2)):
        r = enc(o)
        V.check('others', r[0] == 'json' and r[1] is o)


@U.unit('object hook', claim='dictionaries of notes become notes, those of arrays arrays, all others stay as they are')
def hook(V):
    n = some_note(V)
    d = V.expect_ok('to_dict', V.getattr(n, 'to_dict'), [])
    m = V.expect_ok('hook', N + 'klang_object_hook', [d])
    V.check('a note', V.truth(V.call(V.builtin('isinstance'), [m, V.lookup('klang.messages.Note')])))
    V.check('equal note', And(*[to_real(a) == to_real(b) for a, b in zip(m.vals, n.vals)]))
    for items in ([], [('x', 1)], [('type', 'x'), ('data', 2)], [('type', None)]):
        o = V.mkdict(items)
        r = V.expect_ok('hook', N + 'klang_object_hook', [o])
        V.check('other dictionaries stay', r is o)


# ---- blocks

FIRST = z3.Function('FIRST', I, I)        # number of the first object of a datagram; the last object of datagram k is FIRST(k + 1) - 1


class Datagram(models._HV):
    """Pending datagram number k: the text of the objects FIRST(k) .. FIRST(k + 1) - 1."""

    def __init__(self, k):
        self.k = Z(k)

    def length(self, V):
        n = z3.Function('SIZE', I, I)(self.k)
        V.assume(And(n >= 1, n < 65536))
        return n

    def truth(self, V):
        return True

    def attr(self, V, name):
        if name == 'decode':
            V.assume(FIRST(self.k + 1) > FIRST(self.k))
            return Builtin(name, lambda V, *a: JsonText(self.k, FIRST(self.k)))
        raise Unsupported('datagram attribute ' + name)


class JsonText(models._HV):
    """The rest of datagram k from object number j on."""

    def __init__(self, k, j):
        self.k, self.j = Z(k), Z(j)

    def truth(self, V):
        return self.j < FIRST(self.k + 1)

    def getitem(self, V, i):
        if isinstance(i, slice) and i.stop is None and i.step is None and isinstance(i.start, End) and i.start.text is self:
            return JsonText(self.k, self.j + 1)
        raise Unsupported('part of the text')


class End:
    """Position behind the first object of a text."""

    def __init__(self, text):
        self.text = text


class Sock(models._HV):
    def __init__(self, V, pending):
        self.pending, self.taken, self.blocking, self.bound, self.sent = pending, GhostCell(V, z3.IntVal(0), lambda V: fresh_count(V)), True, None, Log(V, KInt())

    def attr(self, V, name):
        def setblocking(V, f):
            self.blocking = f

        def bind(V, a):
            self.bound = a

        def recv(V, n, flags=0):
            V.check('a receive call does not wait', self.blocking is False)
            V.check('room for a whole datagram', Z(n) >= 65507)
            if V.decide(Z(self.taken.value) < self.pending):
                k = self.taken.value
                self.taken.set(V, k + 1)
                return Datagram(k)
            V.throw('BlockingIOError')

        def sendto(V, data, to):
            V.check('receiver', to is V.ghost['address'])
            V.check('encoded data', isinstance(data, Encoded) and data.raw)
            self.sent.send(V, data.obj)
            return 1
        table = dict(setblocking=setblocking, bind=bind, recv=recv, sendto=sendto, close=lambda V: None)
        if name not in table:
            raise Unsupported('socket method ' + name)
        return Builtin(name, table[name])


def fresh_count(V):
    n = z3.Int(fresh_name('taken'))
    V.assume(n >= 0)
    return n


class Encoded(models._HV):
    """Text (or its bytes) of object number obj."""

    def __init__(self, obj, raw=False):
        self.obj, self.raw = obj, raw

    def attr(self, V, name):
        if name == 'encode' and not self.raw:
            return Builtin(name, lambda V, *a: Encoded(self.obj, True))
        raise Unsupported('text attribute ' + name)


class Decoder(models._HV):
    def attr(self, V, name):
        if name != 'raw_decode':
            raise Unsupported('decoder method ' + name)

        def raw(V, t, idx=0):
            if not isinstance(t, JsonText) or const_int(idx) != 0:
                raise Unsupported('raw_decode')
            if not V.decide(t.truth(V)):
                V.throw('ValueError')
            return (t.j, End(t))
        return Builtin(name, raw)


def world(V, pending=None):
    """Stand-ins for socket and JSON; objects are named by numbers."""
    socks, hooks = [], []

    def make(V, family=None, type=None, *a):
        V.check('datagram socket', type == 'datagram')
        V.check('family of the address', family == ('unix' if isinstance(V.ghost['address'], (str, Opaque)) else 'inet'))
        socks.append(Sock(V, pending if pending is not None else V.int('pending', 0)))
        return socks[-1]
    V.overlay.update({'socket.socket': Builtin('socket', make), 'socket.AF_INET': 'inet', 'socket.AF_UNIX': 'unix', 'socket.SOCK_DGRAM': 'datagram'})

    def decoder(V, object_hook=None, **k):
        hooks.append(object_hook)
        return Decoder()
    V.overlay['json.JSONDecoder'] = Builtin('JSONDecoder', decoder)
    V.contracts[N + 'KlangJSONEncoder.encode'] = lambda V, a: Encoded(a['o'])
    V.ghost['address'] = 'path' if V.decide(V.bool('unix')) else ('127.0.0.1', 5000)
    return socks, hooks


def block(V, name, pending=None):
    socks, hooks = world(V, pending)
    b = V.expect_ok('new', N + name, [V.ghost['address']])
    V.check('one socket', len(socks) == 1)
    V.check('objects are decoded by the hook', len(hooks) == 1 and hooks[0] is V.lookup(N + 'klang_object_hook'))
    return b, socks[0]


OVER = {'json.JSONEncoder': encoder_base}


def receive_loops(V, sock, state):
    """state(n): what holds when n objects have been handed out."""
    V.assume(FIRST(0) == 0)
    k = lambda: Z(sock.taken.value) - 1
    V.loops[N + 'receive_all_from#0'] = LoopSpec(lambda V, L: [('one datagram is at hand', And(k() >= 0, k() < sock.pending))] + state(FIRST(k())),
                                                hints={'data': lambda V, L: Datagram(k())})

    V.loops[N + 'JsonCourier.receive_objects#1'] = LoopSpec(lambda V, L: [('the text is the rest of the datagram', And(L['string'].k == k(), L['string'].j >= FIRST(k()), L['string'].j <= FIRST(k() + 1))), ('one datagram is at hand', And(k() >= 0, k() < sock.pending))] + state(L['string'].j),
                                                           hints={'string': lambda V, L: JsonText(z3.Int(fresh_name('k')), z3.Int(fresh_name('j'))), 'obj': lambda V, L: z3.Int(fresh_name('obj')), 'stop': lambda V, L: None})


@U.unit('receiving messages', claim='an update sends on every pending message once, in order', overlay=OVER)
def message_in(V):
    m = V.int('pending', 0)
    b, sock = block(V, 'NetworkMessageIn', m)
    V.check('the address is bound', sock.bound is V.ghost['address'])
    log = Log(V, KInt())
    V.contracts['klang.connections.MessageOutput.send'] = lambda V, a: log.send(V, Z(a['message']))
    receive_loops(V, sock, lambda n: [('one message per object', log.n == n), ('in order', All((0, n), lambda i: log[i] == i, pat=lambda i: log[i]))])
    V.expect_ok('update', V.getattr(b, 'update'), [])
    V.check('every message is sent on once', log.n == FIRST(m))
    V.check('in order', All((0, FIRST(m)), lambda i: log[i] == i, pat=lambda i: log[i]))


@U.unit('receiving values', claim='after an update the output has the last pending value, or the former one when nothing is pending', overlay=OVER)
def value_in(V):
    m = V.int('pending', 0)
    b, sock = block(V, 'NetworkIn', m)
    V.check('the address is bound', sock.bound is V.ghost['address'])
    out = GhostCell(V, z3.IntVal(-1), lambda V: z3.Int(fresh_name('out')))

    class Port(models._HV):
        def attr(self, V, name):
            if name == 'set_value':
                return Builtin(name, lambda V, v: out.set(V, Z(v)))
            raise Unsupported('output attribute ' + name)
    V.setattr(b, 'outputs', V.mklist([Port()]))
    receive_loops(V, sock, lambda n: [('last value so far', out.value == n - 1)])
    V.expect_ok('update', V.getattr(b, 'update'), [])
    V.check('last pending value', out.value == FIRST(m) - 1)


@U.unit('sending messages', claim='an update sends every pending message once, in order, to the address', overlay=OVER)
def message_out(V):
    b, sock = block(V, 'NetworkMessageOut')
    m = V.list('messages', KInt()).seq
    message_ports(V, m, KInt())
    n = Z(m.n)
    for k in range(2):
        V.loops[N + 'NetworkMessageOut.update#%d' % k] = LoopSpec(lambda V, L: [('one datagram per message', sock.sent.n == L.k),
                                                                 ('in order', All((0, L.k), lambda i: sock.sent[i] == m[i], pat=lambda i: sock.sent[i]))])
    V.expect_ok('update', V.getattr(b, 'update'), [])
    V.check('every message is sent once', sock.sent.n == n)
    V.check('in order', All((0, n), lambda i: sock.sent[i] == m[i], pat=lambda i: sock.sent[i]))


@U.unit('sending values', claim='an update sends the current value once to the address', overlay=OVER)
def value_out(V):
    b, sock = block(V, 'NetworkOut')
    for turn in range(2):
        v = V.int('value%d' % turn)
        V.expect_ok('set', V.getattr(V.getattr(b, 'input'), 'set_value'), [v])
        V.expect_ok('update', V.getattr(b, 'update'), [])
        V.check('sent once', sock.sent.n == turn + 1)
        V.check('the value', sock.sent[turn] == v)

import os
import shutil
import socket
import tempfile

import numpy as np

from common import *
from klang import network as N
from klang.connections import MessageOutput, Output
from klang.messages import Note


class Scratch:
    """A UNIX address in a directory of its own, or a free loopback port."""

    def __init__(self, inet=False):
        self.inet = inet

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='h28-')
        if not self.inet:
            return os.path.join(self.dir, 'socket')
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.bind(('127.0.0.1', 0))
        a = s.getsockname()
        s.close()
        return a

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def array(spec):
    dtype, shape, layout, seed = spec
    r = np.random.RandomState(seed)
    shape = tuple(shape)
    x = r.uniform(-1000, 1000, size=shape)
    if dtype == 'bool':
        x = x > 0
    elif dtype.startswith('complex'):
        x = (x + 1j * r.uniform(-1, 1, size=shape)).astype(dtype)
    elif dtype.startswith('u'):
        x = np.abs(x).astype(dtype)
    else:
        x = x.astype(dtype)
    x = np.asarray(x)
    if layout == 'fortran':
        x = np.asfortranarray(x)
    elif layout == 'transposed':
        x = x.T
    elif layout == 'strided' and x.ndim:
        x = x[::2]
    elif layout == 'reversed' and x.ndim:
        x = x[::-1]
    elif layout == 'broadcast':
        x = np.broadcast_to(x, (3,) + x.shape)
    elif layout == 'special' and x.size and x.dtype.kind == 'f':
        x = np.array(x)
        x.reshape(-1)[:4] = [np.inf, -np.inf, -0., 5e-324][:min(4, x.size)]
    return x


def build(spec):
    kind, v = spec
    if kind == 'note':
        return Note(*v)
    if kind == 'array':
        return array(v)
    return v


def same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b) and np.array_equal(np.signbit(np.real(a)), np.signbit(np.real(b)))
    if isinstance(a, Note):
        return type(b) is Note and tuple(a) == tuple(b)
    if isinstance(a, (list, tuple)):
        return isinstance(b, list) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def show(o):
    return '%s %s' % (o.dtype, o.shape) if isinstance(o, np.ndarray) else repr(o)[:80]


def messages(turns, inet):
    """turns: list of (messages, receive?)."""
    with Scratch(inet) as address:
        receiver = N.NetworkMessageIn(address)
        sender = N.NetworkMessageOut(address)
        source = MessageOutput(owner=None)
        source.connect(sender.input)
        got = []
        receiver.output.send = got.append
        want = []
        for objs, receive in turns:
            objs = [build(o) for o in objs]
            keep = [o.copy() if isinstance(o, np.ndarray) else o for o in objs]
            for o in objs:
                source.send(o)
            sender.update()
            expect(all(np.array_equal(a, b) for a, b in zip(objs, keep) if isinstance(a, np.ndarray)), 'a sent array was modified')
            want += keep
            if receive:
                receiver.update()
                check(want, got)
        receiver.update()
        check(want, got)
        sender.update()
        receiver.update()
        check(want, got)


def check(want, got):
    expect(len(want) == len(got), '%d messages sent, %d received', len(want), len(got))
    for i, (a, b) in enumerate(zip(want, got)):
        expect(same(a, b), 'message %d: %s arrived as %s', i, show(a), show(b))


def values(turns, inet):
    """turns: list of lists of values, one update of the sender each; then one update of the receiver."""
    with Scratch(inet) as address:
        receiver = N.NetworkIn(address)
        sender = N.NetworkOut(address)
        source = Output()
        source.connect(sender.input)
        first = receiver.output.value
        last = first
        for vals in turns:
            for v in vals:
                last = build(v)
                source.set_value(last)
                sender.update()
            receiver.update()
            expect(same(last, receiver.output.value), 'value %s is received as %s', show(last), show(receiver.output.value))
        keep = receiver.output.value
        receiver.update()
        expect(receiver.output.value is keep, 'the value changes without a datagram')


def codec(spec):
    import json
    o = build(spec)
    text = N.KlangJSONEncoder().encode(o)
    back = json.loads(text, object_hook=N.klang_object_hook)
    expect(same(o, back), '%s decoded as %s', show(o), show(back))
    if isinstance(o, np.ndarray):
        d = N.array_to_dict(o)
        a = N.array_from_dict(json.loads(json.dumps(d)))
        expect(same(o, a), '%s: %s from its dictionary', show(o), show(a))


def hook(objs):
    for o in objs:
        keep = dict(o)
        r = N.klang_object_hook(o)
        expect(r is o and r == keep, 'dictionary %r became %r', keep, r)


def broken(n, inet):
    """A datagram that is no JSON text is skipped; the others arrive."""
    with Scratch(inet) as address:
        receiver = N.NetworkMessageIn(address)
        sender = N.NetworkMessageOut(address)
        source = MessageOutput(owner=None)
        source.connect(sender.input)
        got = []
        receiver.output.send = got.append
        import logging
        receiver.courier.logger.setLevel(logging.CRITICAL)
        for i in range(n):
            source.send({'n': i})
            sender.update()
            sender.courier.sock.sendto(b'no json', address)
        receiver.update()
        check([{'n': i} for i in range(n)], got)


def several(groups, inet):
    """Datagrams of several objects one after the other."""
    with Scratch(inet) as address:
        receiver, last = N.NetworkMessageIn(address), None
        sock = N.create_socket_from_address(address)
        try:
            got = []
            receiver.output.send = got.append
            enc = N.KlangJSONEncoder()
            objs = [[build(o) for o in g] for g in groups]
            for g in objs:
                sock.sendto(''.join(map(enc.encode, g)).encode(), address)
            receiver.update()
            check([o for g in objs for o in g], got)
        finally:
            sock.close()


def addresses():
    for bad in (None, 5, ['127.0.0.1', 5000]):
        try:
            N.create_socket_from_address(bad)
        except ValueError:
            continue
        raise Fail('address %r accepted' % (bad,))
    for a, f in ((('127.0.0.1', 0), socket.AF_INET), ('path', socket.AF_UNIX)):
        s = N.create_socket_from_address(a)
        try:
            expect(s.family == f and s.type & socket.SOCK_DGRAM and s.gettimeout() == 0, 'socket for %r', a)
        finally:
            s.close()


CHECKS = dict(messages=messages, values=values, codec=codec, hook=hook, broken=broken, several=several, addresses=addresses)
DTYPES = ['float64', 'float32', 'int64', 'int32', 'int16', 'uint8', 'int8', 'bool', 'complex128', '>f8', '>i2', 'uint64']
LAYOUTS = ['c', 'fortran', 'transposed', 'strided', 'reversed', 'broadcast', 'special']
PLAIN = [None, True, False, 0, -1, 1.5, -0.25, 1e300, 5e-324, 2 ** 70, '', 'text', 'ünï\u2603\U0001f600"\\\n', [], [1, [2, ['x']]], {}, {'a': {'b': None}}, {'type': 'other', 'x': 1}, {'type': None},
         [{'type': 3}, []], 'x' * 3000, list(range(2000))]


def cases(rng, tier):
    yield 'addresses', {}
    yield 'hook', dict(objs=[{}, {'type': 'x'}, {'type': 'note'}, {'type': None, 'data': 1}, {'dtype': 'float64', 'data': ''}, {'pitch': 3}])
    for v in PLAIN:
        yield 'codec', dict(spec=['plain', v])
    for inet in (False, True):
        yield 'broken', dict(n=3, inet=inet)
        yield 'several', dict(groups=[[['plain', {}], ['note', [60, .5, 100.]], ['plain', 'x']], [['plain', [1, 2]]], [['array', ['float64', [2, 3], 'fortran', 1]], ['plain', {'a': 1}]]], inet=inet)
        yield 'several', dict(groups=[[['plain', []], ['plain', [2]], ['plain', {}]], [['plain', 'a'], ['plain', 'b']], [['note', [1, 0., 0.]]] * 2], inet=inet)
        yield 'messages', dict(turns=[[[['plain', v] for v in PLAIN[i:i + 6]], True] for i in range(0, len(PLAIN), 6)], inet=inet)
        yield 'messages', dict(turns=[[[['plain', 1]], False], [[], True], [[['plain', 2], ['plain', 3]], False]], inet=inet)
        yield 'values', dict(turns=[[], [['plain', 5.5]], [], [['plain', 1], ['plain', 0], ['plain', 0.]], [['plain', 'x']], [['plain', None]]], inet=inet)
    notes = [[0, 0., 0.], [127, 1., 440.], [60, .5, None], [60.5, 1e-9, 261.6], [60, 1, 200], [3, .1, 1e-3]]
    for n in notes:
        yield 'codec', dict(spec=['note', n])
    yield 'messages', dict(turns=[[[['note', n] for n in notes], True], [[['note', notes[2]], ['plain', 3], ['note', notes[0]]], True]], inet=False)
    yield 'values', dict(turns=[[['note', n]] for n in notes], inet=True)
    for dt in DTYPES:
        for k, layout in enumerate(LAYOUTS):
            for shape in ([], [0], [5], [3, 4], [2, 0], [2, 3, 4]):
                yield 'codec', dict(spec=['array', [dt, shape, layout, k]])
    arrays = lambda n: [['array', [rng.choice(DTYPES), [rng.randint(0, 6) for _ in range(rng.randint(0, 3))], rng.choice(LAYOUTS), rng.randint(0, 9999)]] for _ in range(n)]
    yield 'messages', dict(turns=[[[['array', ['float64', [2, 256], lay, 1]] for lay in LAYOUTS], True]], inet=False)
    yield 'messages', dict(turns=[[[['array', ['float64', [6000], 'c', 1]]], True], [[['plain', 'y' * 60000]], True], [[['plain', 'z' * 65000]], True]], inet=False)
    yield 'values', dict(turns=[[['plain', i] for i in range(n)] for n in (1, 9, 30, 100, 0, 10, 2)], inet=True)
    yield 'messages', dict(turns=[[[['plain', i] for i in range(40)], True], [[['plain', i] for i in range(45)], False], [[['plain', -i] for i in range(45)], True]], inet=True)
    yield 'values', dict(turns=[[['array', ['float64', [6000], 'c', 1]]], [['plain', 'y' * 60000]], [['plain', 'z' * 65000]]], inet=True)
    yield 'messages', dict(turns=[[[['plain', i] for i in range(45)], True]] * 2, inet=True)
    for L in (1022, 1023, 1024, 1025, 4094, 8190, 16382, 32766):
        yield 'messages', dict(turns=[[[['plain', 'q' * (L + d)] for d in (-2, -1, 0, 1)], True]], inet=False)
    for _ in range(40 if tier == 'quick' else 400):
        turns, pending = [], 0      # a UNIX socket has room for about ten datagrams
        for _ in range(rng.randint(1, 5)):
            objs = arrays(rng.randint(0, 3)) + [['plain', rng.choice(PLAIN)] for _ in range(rng.randint(0, 2))] + [['note', rng.choice(notes)] for _ in range(rng.randint(0, 2))]
            rng.shuffle(objs)
            pending += len(objs)
            receive = rng.random() < .6 or pending > 2
            turns.append([objs, receive])
            pending = 0 if receive else pending
        if rng.random() < .5:
            yield 'messages', dict(turns=turns, inet=rng.random() < .3)
        else:
            yield 'values', dict(turns=[t[0] for t in turns], inet=rng.random() < .3)


if __name__ == '__main__':
    main('C28', CHECKS, cases)

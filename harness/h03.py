from common import *
from klang.connections import MessageInput, MessageOutput, MessageRelay

KINDS = dict(o=MessageOutput, i=MessageInput, r=MessageRelay)
LIMIT = 50


class Message:
    """A message without any operations; only its identity counts."""

    def __init__(self, no):
        self.no = no

    def __bool__(self):
        raise AssertionError('message was tested')

    def __eq__(self, other):
        raise AssertionError('message was compared')
    __hash__ = None


def root(src, j):
    while j in src:
        j = src[j]
    return j


def below(src, j, kinds):
    def up(k):
        while k != j and k in src:
            k = src[k]
        return k == j
    return [k for k in range(len(kinds)) if kinds[k] == 'i' and up(k)]


def same(got, want, what):
    expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), '%s: messages %s instead of %s', what,
           [getattr(m, 'no', m) for m in got], [m.no for m in want])


def history(kinds, ops):
    ends = [KINDS[k]() for k in kinds]
    src, pending = {}, {j: [] for j, k in enumerate(kinds) if k == 'i'}
    no = 0
    for op, i, j in ops:
        i, j = i % len(kinds), j % len(kinds)
        if op == 'connect' and kinds[i] != 'i' and kinds[j] != 'o' and j not in src and root(src, i) != j:
            ends[i].connect(ends[j])
            src[j] = i
        elif op == 'disconnect' and j in src:
            ends[src[j]].disconnect(ends[j])
            del src[j]
        elif op == 'push' and kinds[j] == 'i':
            no += 1
            m = Message(no)
            ends[j].push(m)
            pending[j] = (pending[j] + [m])[-LIMIT:]
        elif op.startswith('send') and kinds[i] != 'i':
            for _ in range(int(op[4:] or 1)):
                no += 1
                m = Message(no)
                ends[i].send(m)
                for k in below(src, i, kinds):
                    pending[k] = (pending[k] + [m])[-LIMIT:]
        elif op == 'receive' and j in pending:
            same(list(ends[j].receive()), pending[j], 'input %d' % j)
            pending[j] = []
        elif op == 'some' and j in pending:
            # the consumer stops after a few messages; the others stay pending
            g, got = ends[j].receive(), []
            for _ in range(min(i, len(pending[j]))):
                got.append(next(g))
            g.close()
            same(got, pending[j][:len(got)], 'input %d' % j)
            pending[j] = pending[j][len(got):]
        elif op == 'during' and j in pending:
            # a message arrives while the others are handed out
            no += 1
            m, got = Message(no), []
            for x in ends[j].receive():
                got.append(x)
                if len(got) == 1:
                    ends[j].push(m)
            want = pending[j] + [m] if pending[j] else []
            same(got, want, 'input %d' % j)
            pending[j] = []
        elif op == 'latest' and j in pending:
            m = ends[j].receive_latest()
            if pending[j]:
                expect(m is pending[j][-1], 'input %d: latest message', j)
            else:
                expect(m is None, 'input %d: a message although none is pending', j)
            pending[j] = []
    for j in pending:
        same(list(ends[j].receive()), pending[j], 'input %d at the end' % j)
        same(list(ends[j].receive()), [], 'input %d, received before' % j)


def chain(n, width):
    """n relays in a row, each with some inputs."""
    o = MessageOutput()
    ins, last = [], o
    for _ in range(n):
        r = MessageRelay()
        last.connect(r)
        last = r
        for _ in range(width):
            i = MessageInput()
            r.connect(i)
            ins.append(i)
    ms = [Message(k) for k in range(60)]
    for m in ms:
        o.send(m)
    for i in ins:
        same(list(i.receive()), ms[-LIMIT:], 'chain')


CHECKS = dict(history=history, chain=chain)


def cases(rng, tier):
    for n in (1, 2, 5, 40):
        yield 'chain', dict(n=n, width=2)
    for _ in range(400 if tier == 'quick' else 6000):
        kinds = ''.join(rng.choice('oirrii') for _ in range(rng.randrange(2, 10))) + 'oi'
        ops = []
        for _ in range(rng.randrange(5, 60)):
            op = rng.choice(['connect', 'connect', 'connect', 'disconnect', 'send', 'send', 'send3', 'send49', 'send51', 'push', 'receive', 'some', 'during', 'latest'])
            ops.append([op, rng.randrange(len(kinds)), rng.randrange(len(kinds))])
        yield 'history', dict(kinds=kinds, ops=ops)


if __name__ == '__main__':
    main('C03', CHECKS, cases)

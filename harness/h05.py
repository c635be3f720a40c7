from common import *
from klang import connections as C
from klang.block import Block
from klang.composite import Composite


class Spied(Block):
    """A block that reports when the traversal looks at it, and may fail then."""
    spy = None

    def __init__(self, nIn, nOut, kind, log):
        super().__init__()
        self.kind, self.log = kind, log
        self._outputs = []
        self.inputs = [(C.MessageInput if m else C.Input)(owner=self) for m in nIn]
        self._outputs = [(C.MessageOutput if m else C.Output)(owner=self) for m in nOut]

    @property
    def outputs(self):
        if self.spy:
            self.spy(self)
        return self._outputs

    @outputs.setter
    def outputs(self, v):
        pass

    def update(self):
        self.log.append(self)


def nested(nIn, nOut, log):
    """A composite inside of a composite."""
    b = Composite()
    b.inputs = [(C.MessageInput if m else C.Input)(owner=b) for m in nIn]
    b.outputs = b._outputs = [(C.MessageOutput if m else C.Output)(owner=b) for m in nOut]
    b.update = lambda: log.append(b)
    return b


class Failure(Exception):
    pass


def ends(b):
    return list(b.inputs) + list(b._outputs if isinstance(b, Spied) else b.outputs)


def links(blocks):
    """All connections, as seen from both sides."""
    out = set()
    for b in blocks:
        for e in ends(b):
            for y in getattr(e, 'outgoingConnections', ()):
                out.add(('to', id(e), id(y)))
            x = getattr(e, 'incomingConnection', None)
            if x is not None:
                out.add(('from', id(x), id(e)))
    return out


def away(comp):
    """The outside connections of the composite."""
    out = set()
    for e in comp.inputs:
        x = e.incomingConnection
        if x is not None and x.owner is not comp:
            out |= {('to', id(x), id(e)), ('from', id(x), id(e))}
    for e in comp.outputs:
        for y in e.outgoingConnections:
            if y.owner is not comp:
                out |= {('to', id(e), id(y)), ('from', id(e), id(y))}
    return out


def neighbours(b):
    for e in b.inputs:
        if e.incomingConnection is not None and e.incomingConnection.owner is not None:
            yield e.incomingConnection.owner
    for e in (b._outputs if isinstance(b, Spied) else b.outputs):
        for y in e.outgoingConnections:
            if y.owner is not None:
                yield y.owner


def closure(start, comp):
    """Blocks of the network around start, not crossing the border of the composite."""
    seen, todo = [], [b for b in start if b is not comp]
    while todo:
        b = todo.pop()
        if not any(b is x for x in seen):
            seen.append(b)
            todo.extend(x for x in neighbours(b) if x is not comp)
    return seen


def composite(ins, outs, inner, outer, wires, given=None, fail=None, rounds=1):
    """ins/outs: ends of the composite ('i' input, 'm' message input, 'r'/'R' relays, 'o'/'M' outputs); inner/outer: ends of the blocks; wires: attempted connections."""
    log = []
    comp = Composite()
    make = dict(i=C.Input, m=C.MessageInput, r=C.Relay, R=C.MessageRelay, o=C.Output, M=C.MessageOutput)
    comp.inputs = [make[c](owner=comp) for c in ins]
    comp.outputs = [make[c](owner=comp) for c in outs]
    A = [nested(a, b, log) if k % 3 == 2 else Spied(a, b, 'inner', log) for k, (a, b) in enumerate(inner)]
    Z = [Spied(a, b, 'outer', log) for a, b in outer]
    loose = C.Output()
    blocks = A + Z + [comp]
    side = dict(a=A, z=Z)

    def pick(w, out):
        k, i, j = w
        if k == 'c':
            l = comp.inputs if i else comp.outputs
        elif k == 'l':
            return loose
        else:
            b = side[k][i]
            l = b._outputs if out else b.inputs
        return l[j]
    for s, d in wires:
        try:
            pick(s, True).connect(pick(d, False))
        except (C.IncompatibleConnection, C.InputAlreadyConnected, IndexError, AttributeError):
            pass
    for _ in range(rounds):
        before = links(blocks)
        outside = away(comp)
        if given is None:
            start = [y.owner for e in comp.inputs if isinstance(e, C.RelayBase) for y in e.outgoingConnections if y.owner] + \
                    [e.incomingConnection.owner for e in comp.outputs if isinstance(e, C.RelayBase) and e.incomingConnection is not None and e.incomingConnection.owner]
        else:
            start = [A[i] for i in given]
        seen = []

        def spy(b):
            Spied.spy = None
            now = links(blocks)
            seen.append(b)
            expect(now == before - outside, 'while sorting %d of the %d outside connections are in place, %d others are missing', len(now & outside), len(outside), len(before - outside - now))
            if fail is not None and len(seen) > fail:
                raise Failure()
            Spied.spy = staticmethod(spy)
        # what is inside: reached with the outside connections away
        for e in outside:
            pass
        stash = [(x, y) for x, y in pairs(comp)]
        for x, y in stash:
            x.outgoingConnections.discard(y)
            y.incomingConnection = None
        want = closure(start, comp)
        for x, y in stash:
            x.outgoingConnections.add(y)
            y.incomingConnection = x
        old = comp.execOrder
        Spied.spy = staticmethod(spy)
        try:
            comp.update_internal_exec_order(*([] if given is None else start))
            failed = False
        except Failure:
            failed = True
        finally:
            Spied.spy = None
        now = links(blocks)
        expect(now == before, 'after sorting%s %d connections are missing and %d are new', ' failed' if failed else '', len(before - now), len(now - before))
        expect(failed == (fail is not None and len(seen) > fail), 'the failure was hidden')
        if failed:
            expect(comp.execOrder is old, 'a failed sorting left a different order')
            continue
        order = comp.execOrder
        expect(not any(b is comp for b in order), 'the composite is in its own order')
        for b in want:
            n = sum(x is b for x in order)
            expect(n == 1, 'inner block %s is %d times in the order', blocks.index(b), n)
        expect(len(order) == len(want), 'the order has %d blocks, there are %d inside', len(order), len(want))
        del log[:]
        comp.update()
        expect(len(log) == len(order) and all(x is y for x, y in zip(log, order)), 'updated %s, the order is %s', [blocks.index(b) for b in log], [blocks.index(b) for b in order])


def pairs(comp):
    for e in comp.inputs:
        x = e.incomingConnection
        if x is not None and x.owner is not comp:
            yield x, e
    for e in comp.outputs:
        for y in list(e.outgoingConnections):
            if y.owner is not comp:
                yield e, y


def library(which):
    """The composites that come with klang: order of their blocks, and outside connections."""
    import numpy as np
    from klang.audio.effects import StereoDelay
    from klang.sequencer import Sequencer
    src, dst = Block(nOutputs=1), Block(nInputs=1)
    if which == 'delay':
        comp = StereoDelay()
        src | comp | dst
        kinds = ['AudioSplitter', 'Delay', 'Delay', 'AudioCombiner']
        first, last = 'AudioSplitter', 'AudioCombiner'
        comp.update_internal_exec_order()
        names = [type(b).__name__ for b in comp.execOrder]
        expect(sorted(names) == sorted(kinds), 'blocks %s', names)
        expect(names[0] == first and names[-1] == last, 'order %s', names)
        expect(comp.input.incomingConnection is src.output and dst.input.incomingConnection is comp.output, 'outside connections')
    else:
        comp = Sequencer([[60, 62, 64], [36, 0, 36]])
        sinks = [Block() for _ in comp.outputs]
        for s, o in zip(sinks, comp.outputs):
            s.inputs = [C.MessageInput(owner=s)]
            o.connect(s.input)
        comp.update_internal_exec_order()
        expect(sorted(map(id, comp.execOrder)) == sorted(map(id, comp.sequences)), 'sequences in order: %s', [type(b).__name__ for b in comp.execOrder])
        for q in comp.sequences:
            names = [type(b).__name__ for b in q.execOrder]
            expect(sorted(names) == ['NoteLengthener', 'PatternLookup', 'Phasor', 'PizzaSlicer'], 'inside of a sequence: %s', names)
            expect(names.index('PizzaSlicer') < names.index('PatternLookup') < names.index('NoteLengthener'), 'inside of a sequence: %s', names)
        for s, o in zip(sinks, comp.outputs):
            expect(s.input.incomingConnection is o, 'outside connections')


def empty(ins, outs):
    c = Composite(ins, outs)
    for _ in range(2):
        c.update()
        c.update_internal_exec_order()
    c.update()


CHECKS = dict(composite=composite, library=library, empty=empty)


def random_case(rng):
    flags = lambda n: [int(rng.random() < .25) for _ in range(rng.randint(0, n))]
    inner = [(flags(3), flags(2)) for _ in range(rng.randint(1, 5))]
    outer = [(flags(3), flags(2)) for _ in range(rng.randint(0, 3))]
    ins = [rng.choice('irrrRm') for _ in range(rng.randint(0, 4))]
    outs = [rng.choice('rrroRM') for _ in range(rng.randint(0, 4))]
    wires = []
    e = lambda k, n: (k, rng.randrange(n), rng.randrange(3)) if n else ('l', 0, 0)
    for _ in range(rng.randint(0, 25)):
        r = rng.random()
        if r < .2:
            w = (e('z', len(outer)), ('c', 1, rng.randrange(4)))
        elif r < .4:
            w = (('c', 0, rng.randrange(4)), e('z', len(outer)))
        elif r < .6:
            w = (('c', 1, rng.randrange(4)), e('a', len(inner)))
        elif r < .75:
            w = (e('a', len(inner)), ('c', 0, rng.randrange(4)))
        elif r < .8:
            w = (('c', rng.randrange(2), rng.randrange(4)), ('c', rng.randrange(2), rng.randrange(4)))
        else:
            w = (e('a', len(inner)), e('a', len(inner)))
        if w[0][0] == 'c' or w[1][0] != 'l':
            wires.append([list(w[0]), list(w[1])])
    given = None if rng.random() < .6 else [rng.randrange(len(inner)) for _ in range(rng.randint(1, 3))]
    return dict(ins=ins, outs=outs, inner=inner, outer=outer, wires=wires, given=given, fail=rng.choice([None, None, None, 0, 1, 3]), rounds=rng.choice([1, 2]))


def cases(rng, tier):
    yield 'library', dict(which='delay')
    for k in range(3):
        yield 'empty', dict(ins=k, outs=k // 2)
    yield 'library', dict(which='sequencer')
    # a chain through the composite, then failing at every step
    for fail in (None, 0, 1, 2):
        yield 'composite', dict(ins=['r'], outs=['r'], inner=[([0], [0]), ([0], [0])], outer=[([0], [0]), ([0], [0]), ([0], [])],
                                wires=[[['z', 0, 0], ['c', 1, 0]], [['c', 0, 0], ['z', 1, 0]], [['c', 0, 0], ['z', 2, 0]], [['c', 1, 0], ['a', 0, 0]], [['a', 0, 0], ['a', 1, 0]], [['a', 1, 0], ['c', 0, 0]]], fail=fail, rounds=2)
    for _ in range(1500 if tier == 'quick' else 30000):
        yield 'composite', random_case(rng)


if __name__ == '__main__':
    main('C05', CHECKS, cases)

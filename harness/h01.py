from common import *
from klang import connections as C
from klang.block import Block

FAMILY = [('OutputBase', 'RelayBase', 'InputBase'), ('Output', 'Relay', 'Input'), ('MessageOutput', 'MessageRelay', 'MessageInput')]
NAMES = [n for f in FAMILY for n in f]
OUT = {n for f in FAMILY for n in f[:2]}
IN = {n for f in FAMILY for n in f[1:]}
FAM = {n: i for i, f in enumerate(FAMILY) for n in f}


def valid(a, b):
    return a in OUT and b in IN and FAM[a] == FAM[b]


def direction(kinds, i, j):
    a, b = kinds[i], kinds[j]
    if a in OUT and a in IN:
        return (i, j) if b in IN else (j, i)
    return (i, j) if a in OUT else (j, i)


def same(ends, kinds, src):
    for j, e in enumerate(ends):
        if kinds[j] in IN:
            want = src.get(j)
            got = e.incomingConnection
            expect((got is None) == (want is None) and (want is None or got is ends[want]), 'end %d: source is %s instead of %s', j, got and ends.index(got), want)
            if kinds[j] not in OUT:
                expect(e.connected == (want is not None), 'end %d: connected', j)
        if kinds[j] in OUT:
            want = sorted(k for k, s in src.items() if s == j)
            got = sorted(ends.index(x) for x in e.outgoingConnections)
            expect(got == want, 'end %d: destinations are %s instead of %s', j, got, want)
            if kinds[j] not in IN:
                expect(e.connected == bool(want), 'end %d: connected', j)


def history(kinds, ops):
    ends = [getattr(C, k)() for k in kinds]
    src = {}
    same(ends, kinds, src)
    for op, i, j in ops:
        s, d = direction(kinds, i, j)
        if op == 'connect':
            ok = valid(kinds[s], kinds[d]) and d not in src
            try:
                ends[i].connect(ends[j])
                done = True
            except (C.IncompatibleConnection, C.InputAlreadyConnected):
                done = False
            expect(done == ok, '%s %d to %s %d: %s', kinds[i], i, kinds[j], j, 'accepted' if done else 'refused')
            if ok:
                src[d] = s
        else:
            ok = src.get(d, -1) == s and valid(kinds[s], kinds[d])
            try:
                ends[i].disconnect(ends[j])
            except Exception as e:
                expect(not ok, 'disconnecting %d and %d failed: %r', i, j, e)
            if ok:
                del src[d]
        same(ends, kinds, src)
        for a in range(len(ends)):
            for b in range(len(ends)):
                expect(C.is_connected(ends[a], ends[b]) == (src.get(b, -1) == a), 'is_connected(%d, %d)', a, b)
    a, b, c = [k % len(ends) for k in (0, 1, 2)]
    expect(C.are_connected(ends[a], ends[b], ends[c]) == (src.get(b, -1) == a and src.get(c, -1) == b), 'are_connected')


def blocks(n, ops):
    """Piping and adding connections between blocks."""
    bs = [Block(2, 2) for _ in range(n)]
    ends = [e for b in bs for e in (b.inputs + b.outputs)]
    kinds = [type(e).__name__ for e in ends]
    src = {}
    for i, j in ops:
        s, d = ends.index(bs[i].outputs[0]), ends.index(bs[j].inputs[0])
        try:
            r = bs[i] | bs[j]
            expect(d not in src, 'piped into a connected input')
            expect(r is bs[j], 'result of piping')
            src[d] = s
        except C.InputAlreadyConnected:
            expect(d in src, 'piping refused')
        same(ends, kinds, src)


CHECKS = dict(history=history, blocks=blocks)


def cases(rng, tier):
    for a in NAMES:
        for b in NAMES:
            for op in ([['connect', 0, 1]], [['connect', 0, 1], ['connect', 0, 1], ['disconnect', 1, 0]], [['connect', 0, 1], ['disconnect', 0, 1], ['disconnect', 0, 1], ['connect', 1, 0]], [['disconnect', 0, 1]]):
                yield 'history', dict(kinds=[a, b], ops=op)
    for _ in range(300 if tier == 'quick' else 6000):
        f = rng.random()
        pool = list(FAMILY[rng.randrange(3)]) if f < .6 else NAMES
        kinds = [rng.choice(pool) for _ in range(rng.randrange(2, 8))]
        ops = [[rng.choice(['connect', 'connect', 'disconnect']), rng.randrange(len(kinds)), rng.randrange(len(kinds))] for _ in range(rng.randrange(1, 30))]
        yield 'history', dict(kinds=kinds, ops=ops)
    for _ in range(50):
        n = rng.randrange(1, 5)
        yield 'blocks', dict(n=n, ops=[[rng.randrange(n), rng.randrange(n)] for _ in range(6)])


if __name__ == "__main__":
    main('C01', CHECKS, cases)

from common import *
import itertools
import numpy as np
from klang import connections as C
from klang import graph as G
from klang.block import Block
from klang.execution import determine_execution_order, execute


def reach(n, edges):
    """reach[i]: nodes that can be reached from i over at least one edge."""
    out = [set() for _ in range(n)]
    for i, j in edges:
        out[i].add(j)
    r = []
    for i in range(n):
        seen, todo = set(), list(out[i])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(out[x])
        r.append(seen)
    return r


def check_order(n, edges, place, what):
    """place[i]: position of node i in the order."""
    r = reach(n, edges)
    for i, j in edges:
        if i not in r[j]:
            expect(place[i] < place[j], '%s: %s feeds %s (not on a loop) but comes later: positions %s, %s', what, i, j, place[i], place[j])


def matrix(n, edges, kind='int'):
    """Sorting of a graph given by its edges."""
    edges = [tuple(e) for e in edges]
    if kind == 'built' and edges:
        g = G.graph_matrix(edges, order=n)
    else:
        g = np.zeros((n, n), dtype=float if kind == 'float' else int)
        for k, (i, j) in enumerate(edges):
            g[i, j] = 1 + k % 3 if kind == 'weights' else 1
    have = {(int(i), int(j)) for i, j in zip(*np.nonzero(g))}
    expect(have == set(edges), 'matrix has the edges %s instead of %s', sorted(have), sorted(set(edges)))
    before = g.copy()
    for i in range(n):
        s, p = sorted(int(x) for x in G.get_successors(g, i)), sorted(int(x) for x in G.get_predecessors(g, i))
        expect(s == sorted({b for a, b in edges if a == i}), 'successors of %s: %s', i, s)
        expect(p == sorted({a for a, b in edges if b == i}), 'predecessors of %s: %s', i, p)
    r = reach(n, edges)
    back = [(int(a), int(b)) for a, b in G.find_back_edges(g)]
    for a, b in back:
        expect((a, b) in have, 'back edge %s is no edge', (a, b))
        expect(a in r[b], 'back edge %s is not on a loop', (a, b))
    left = have - set(back)
    r2 = reach(n, left)
    expect(not any(i in r2[i] for i in range(n)), 'without the edges %s there still is a loop', back)
    dag = G.remove_back_edges(g)
    rest = {(int(i), int(j)) for i, j in zip(*np.nonzero(dag))}
    expect(rest <= have, 'removing edges made new edges')
    for a, b in have - rest:
        expect(a in r[b], 'removed edge %s is not on a loop', (a, b))
    r3 = reach(n, rest)
    expect(not any(i in r3[i] for i in range(n)), 'a loop is left')
    order = [int(x) for x in G.topological_sorting(g)]
    expect(sorted(order) == list(range(n)), 'order %s of %s nodes', order, n)
    place = {x: k for k, x in enumerate(order)}
    check_order(n, edges, place, 'sorting')
    expect((g == before).all(), 'the graph was changed')


class Member(Block):
    def __init__(self, ins, outs, log, name=''):
        super().__init__(name=name)
        make = dict(i=C.Input, m=C.MessageInput, r=C.Relay, R=C.MessageRelay, o=C.Output, M=C.MessageOutput)
        self.inputs = [make[c](owner=self) for c in ins]
        self.outputs = [make[c](owner=self) for c in outs]
        self.log = log

    def update(self):
        self.log.append(self)


def network(ends, wires, start, gen=False, names=''):
    """ends[k]: inputs and outputs of block k; wires: attempted connections ((block, output), (block, input)); block -1: ends nobody owns."""
    log = []
    blocks = [Member(a, b, log, names[k:k + 1]) for k, (a, b) in enumerate(ends)]
    loose = [C.Output(), C.MessageOutput(), C.Input(), C.MessageInput()]

    def pick(w, out):
        b, k = w
        if b < 0:
            return loose[k % 2 + (0 if out else 2)]
        l = blocks[b].inputs + blocks[b].outputs if k >= 10 else (blocks[b].outputs if out else blocks[b].inputs)
        return l[k % 10]
    for s, d in wires:
        try:
            pick(s, True).connect(pick(d, False))
        except (C.IncompatibleConnection, C.InputAlreadyConnected, IndexError, AttributeError):
            pass
    ids = {id(b): k for k, b in enumerate(blocks)}
    # relations between blocks, as seen from the blocks
    feeds, near = set(), [set() for _ in blocks]
    for k, b in enumerate(blocks):
        for y in b.inputs:
            x = y.incomingConnection
            if x is not None and x.owner is not None and x.owner is not b:
                feeds.add((ids[id(x.owner)], k))
                near[k].add(ids[id(x.owner)])
        for x in b.outputs:
            for y in x.outgoingConnections:
                if y.owner is not None and y.owner is not b:
                    feeds.add((k, ids[id(y.owner)]))
                    near[k].add(ids[id(y.owner)])
    want, todo = set(), list(start)
    while todo:
        k = todo.pop()
        if k not in want:
            want.add(k)
            todo.extend(near[k])
    feeds = {(a, b) for a, b in feeds if (a in want and b in near[a] or b in want and a in near[b])}
    conns = {(id(x), id(y)) for b in blocks for x in b.outputs for y in x.outgoingConnections}
    first = [blocks[k] for k in start]
    order = determine_execution_order(iter(first) if gen else first)
    expect(all(id(b) in ids for b in order), 'unknown blocks in the order')
    got = [ids[id(b)] for b in order]
    expect(len(set(got)) == len(got), 'order %s: a block twice', got)
    expect(set(got) == want, 'order %s, connected blocks %s', got, sorted(want))
    expect(conns == {(id(x), id(y)) for b in blocks for x in b.outputs for y in x.outgoingConnections}, 'connections were changed')
    check_order(len(blocks), sorted(feeds), {k: p for p, k in enumerate(got)}, 'order %s' % got)
    execute(order)
    expect([id(b) for b in log] == [id(b) for b in order], 'executed in a different order')


CHECKS = dict(matrix=matrix, network=network)


def random_graph(rng, n):
    kind = rng.choice(['sparse', 'dense', 'dag', 'rings', 'tree'])
    pairs = [(i, j) for i in range(n) for j in range(n)]
    if kind == 'sparse':
        e = [p for p in pairs if rng.random() < 1.2 / n]
    elif kind == 'dense':
        e = [p for p in pairs if rng.random() < .4]
    elif kind == 'dag':
        perm = list(range(n))
        rng.shuffle(perm)
        e = [(perm[i], perm[j]) for i, j in pairs if i < j and rng.random() < rng.choice([.2, .5])]
    elif kind == 'rings':
        e = []
        for _ in range(rng.randint(1, 3)):
            ring = rng.sample(range(n), rng.randint(1, n))
            e += list(zip(ring, ring[1:] + ring[:1]))
        e += [p for p in pairs if rng.random() < .5 / n]
    else:
        e = [(rng.randrange(i), i) if rng.random() < .5 else (i, rng.randrange(i)) for i in range(1, n)]
    e = sorted(set(e))
    rng.shuffle(e)
    return e


def random_network(rng):
    n = rng.randint(1, 7)
    ends = [(''.join(rng.choice('iiimrR') for _ in range(rng.randint(0, 4))), ''.join(rng.choice('oooMrR') for _ in range(rng.randint(0, 3)))) for _ in range(n)]
    wires = []
    for _ in range(rng.randint(0, 3 * n)):
        b = lambda: rng.randrange(n) if rng.random() < .95 else -1
        wires.append(((b(), rng.randrange(4) + (10 if rng.random() < .15 else 0)), (b(), rng.randrange(5) + (10 if rng.random() < .15 else 0))))
    return dict(ends=ends, wires=wires, start=[rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))], gen=rng.random() < .3,
                names=''.join(rng.choice('aab') for _ in range(rng.choice([0, 0, 0, n]))))


def plain_network(rng):
    """A graph of ordinary blocks."""
    n = rng.randint(2, 9)
    e = random_graph(rng, n)
    use_in, use_out, wires = [0] * n, [0] * n, []
    for i, j in e:
        if use_in[j] < 9:
            out = rng.randrange(use_out[i] + 1) if use_out[i] < 3 else rng.randrange(3)
            use_out[i] = max(use_out[i], out + 1)
            wires.append(((i, out), (j, use_in[j])))
            use_in[j] += 1
    return dict(ends=[('i' * use_in[k], 'o' * use_out[k]) for k in range(n)], wires=wires, start=[rng.randrange(n) for _ in range(rng.choice([1, 1, 2]))], gen=False)


def cases(rng, tier):
    yield 'network', dict(ends=[('', 'o'), ('i', '')], wires=[((0, 0), (1, 0))], start=[1], gen=True)
    for n in (1, 2, 3):
        pairs = [(i, j) for i in range(n) for j in range(n)]
        for bits in range(1 << len(pairs)):
            yield 'matrix', dict(n=n, edges=[p for k, p in enumerate(pairs) if bits >> k & 1])
    pairs = [(i, j) for i in range(4) for j in range(4)]
    for _ in range(1500 if tier == 'quick' else 20000):
        bits = rng.getrandbits(16)
        yield 'matrix', dict(n=4, edges=[p for k, p in enumerate(pairs) if bits >> k & 1])
    for _ in range(1500 if tier == 'quick' else 20000):
        n = rng.randint(4, 12)
        yield 'matrix', dict(n=n, edges=random_graph(rng, n), kind=rng.choice(['int', 'built', 'float', 'weights']))
        yield 'network', random_network(rng)
        yield 'network', plain_network(rng)


if __name__ == '__main__':
    main('C04', CHECKS, cases)

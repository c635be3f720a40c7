import numpy as np

from common import *
from klang.clock import ClockMixin
from klang.config import BUFFER_SIZE, SAMPLING_RATE
from klang.connections import MessageInput, MessageOutput
from klang.constants import TAU
from klang.messages import Note
from klang.sequencer import PatternLookup, PizzaSlicer, Sequencer, pizza_slice_number


def angle(turns, j, u, n):
    return TAU * (turns + (j + u) / n)


def number(n, j, u, turns):
    a = angle(turns, j, u, n)
    got = pizza_slice_number(a, n)
    expect(got == j and isinstance(got, int), 'slice %r of %d at %r instead of %d', got, n, a, j)


def slicer(n, path):
    p = PizzaSlicer(n)
    out = MessageInput()
    out.MAX_MESSAGES
    sent = []
    out.push = sent.append
    p.output.connect(out)
    last = -1
    for k, (turns, j, u) in enumerate(path):
        p.input.set_value(angle(turns, j % n, u, n))
        p.update()
        j %= n
        want = []
        while last != j:
            last = (last + 1) % n
            want.append(last)
        expect(sent == want, 'update %d: steps %r instead of %r', k, sent, want)
        del sent[:]


def lookup(pattern, steps, kind):
    pat = np.array(pattern) if kind == 'array' else tuple(pattern) if kind == 'tuple' else list(pattern)
    b = PatternLookup(pat)
    src, out = MessageOutput(), MessageInput()
    src.connect(b.input)
    sent = []
    out.push = sent.append
    b.output.connect(out)
    for group in steps:
        for nr in group:
            src.send(nr)
        b.update()
        want = []
        for nr in group:
            row = pattern[nr]
            want += [x for x in (row if isinstance(row, (list, tuple)) else [row]) if x]
        expect([n.pitch for n in sent] == want, 'step numbers %r: played %r instead of %r', group, [n.pitch for n in sent], want)
        expect(all(isinstance(n, Note) and n.velocity == 1 for n in sent), 'velocity')
        del sent[:]


def sequencer(patterns, tempo, blocks, split, rel):
    s = Sequencer(patterns, tempo=tempo, splitOutputs=split, relNoteLength=rel)
    rows = [list(p) for p in (patterns if isinstance(patterns[0], (list, tuple)) else [patterns])]
    heard = []
    for k, o in enumerate(s.outputs):
        i = MessageInput()
        i.push = (lambda k: lambda m: heard.append((k, m)))(k)
        o.connect(i)
    got = [[] for _ in rows]
    dt = BUFFER_SIZE / SAMPLING_RATE
    old = ClockMixin.currentTime
    lists = [[] for _ in s.outputs]
    try:
        for b in range(blocks):
            ClockMixin.set_current_time(b * dt)
            s.update()
        for k, m in heard:
            if m.on:
                lists[k].append(m.pitch)
    finally:
        ClockMixin.set_current_time(old)
    if not split:
        return
    for k, row in enumerate(rows):
        steps = s.sequences[k].pizza.currentIdx
        # the played pitches are the pitches of the consecutive steps from the first one
        want, i = [], 0
        flat = []
        rounds = 0
        while len(want) < len(lists[k]) or rounds < 1:
            x = row[i % len(row)]
            want += [y for y in (x if isinstance(x, (list, tuple)) else [x]) if y]
            i += 1
            if i > 100000:
                break
            rounds += 1
        expect(want[:len(lists[k])] == lists[k], 'channel %d played %r', k, lists[k])
        duration = s.sequences[k].duration
        whole = blocks * dt / duration * len(row)
        per = sum(len([y for y in (x if isinstance(x, (list, tuple)) else [x]) if y]) for x in row)
        lo = int(whole - 1e-6) // len(row) * per
        hi = (int(whole + 1e-6) // len(row) + 1) * per
        expect(lo <= len(lists[k]) <= hi, 'channel %d played %d notes in %.2f steps', k, len(lists[k]), whole)


CHECKS = dict(number=number, slicer=slicer, lookup=lookup, sequencer=sequencer)


def cases(rng, tier):
    u = lambda: rng.uniform(.02, .98)
    turns = lambda: rng.choice([0, 0, 0, 1, -1, 5, -3])
    for n in (1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 64):
        for j in range(n):
            yield 'number', dict(n=n, j=j, u=u(), turns=turns())
        yield 'number', dict(n=n, j=0, u=0., turns=0)
        yield 'slicer', dict(n=n, path=[(0, n - 1, .5), (0, n - 1, .6), (1, 0, .5)])
        yield 'slicer', dict(n=n, path=[(0, 0, 0.)] + [(0, j, .5) for j in range(2 * n + 1)])
    for _ in range(4000 if tier == 'thorough' else 500):
        n = rng.choice([1, 2, 3, 4, 5, 8, 16, rng.randrange(1, 40)])
        path, j = [], rng.randrange(n)
        for _ in range(rng.randrange(1, 20)):
            path.append((turns(), j, u()))
            j += rng.choice([0, 0, 1, 1, 2, n - 1, rng.randrange(n)])
        yield 'slicer', dict(n=n, path=path)
    for _ in range(2000 if tier == 'thorough' else 300):
        n = rng.randrange(1, 9)
        pitch = lambda: rng.choice([0, 0, rng.randrange(1, 128), 127, 1])
        kind = rng.choice(['list', 'tuple', 'array', 'chords', 'mixed'])
        pattern = [[pitch() for _ in range(rng.randrange(0, 4))] if kind == 'chords' or kind == 'mixed' and rng.random() < .5 else pitch() for _ in range(n)]
        yield 'lookup', dict(pattern=pattern, kind=kind, steps=[[rng.randrange(n) for _ in range(rng.randrange(0, 9))] for _ in range(4)])
    for _ in range(60 if tier == 'thorough' else 12):
        n = rng.choice([1, 2, 3, 4, 8])
        rows = [[rng.choice([0, 60, 64, 67]) for _ in range(max(2, rng.choice([n, n + 1])))] for _ in range(rng.randrange(1, 4))]
        yield 'sequencer', dict(patterns=rows, tempo=rng.choice([120, 300, 1000]), blocks=rng.choice([200, 400]), split=rng.random() < .8, rel=rng.choice([.5, .9, .1]))


if __name__ == '__main__':
    main('C15', CHECKS, cases)

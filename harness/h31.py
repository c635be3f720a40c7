from fractions import Fraction

import numpy as np

from common import *
from klang.clock import ClockMixin
from klang.config import BUFFER_SIZE as B, SAMPLING_RATE as SR
from klang.connections import MessageInput, MessageOutput, Output
from klang.execution import determine_execution_order, execute
from klang.music.rhythm import MicroRhyhtm, harmonize, phrase
from klang.sequencer import Sequencer, random_pattern

TAU = 2 * np.pi
DT = B / SR


def listen(outputs):
    """Everything sent on the outputs, in order."""
    heard = []
    for k, o in enumerate(outputs):
        i = MessageInput()
        i.push = (lambda k: lambda m: heard.append((k, bool(m.on), m.pitch)))(k)
        o.connect(i)
    return heard


def pitches(x):
    return [p for p in (x if isinstance(x, (list, tuple)) else [x]) if p]


def cells(row, tempo, beat, grid):
    """Duration of one step of the pattern."""
    return 60. / tempo * float(Fraction(grid) / Fraction(beat))


def reached(b, step):
    """Number of steps begun at update b; None near a border."""
    x = b * DT / step
    if abs(x - round(x)) < 1e-6 and b:
        return None
    return int(x) + 1


def reference(row, step, length, blocks):
    """Events of each update: note-offs that are due, then note-ons of the steps reached."""
    events, played, active = [], 0, []
    for b in range(blocks):
        now, ev = b * DT, []
        while active and active[0][0] <= now + 1e-9:
            if abs(active[0][0] - now) < 1e-7:
                return None
            ev.append((False, active.pop(0)[1]))
        n = reached(b, step)
        if n is None:
            return None
        for i in range(played, n):
            for p in pitches(row[i % len(row)]):
                ev.append((True, p))
                active.append((now + length, p))
        played = n
        events.append(ev)
    return events


def as_given(pattern, kind):
    if kind == 'array':
        return np.array(pattern)
    if kind == 'tuple':
        return tuple(tuple(p) if isinstance(p, list) else p for p in pattern)
    return pattern


def run(s, blocks, network=None):
    heard = listen(s.outputs)
    old, out = ClockMixin.currentTime, []
    try:
        for b in range(blocks):
            ClockMixin.set_current_time(b * DT)
            if network is None:
                s.update()
            else:
                execute(network)
            out.append(list(heard))
            del heard[:]
    finally:
        ClockMixin.set_current_time(old)
    return out


def sequencer(rows, kind, tempo, beat, grid, rel, absolute, split, blocks, network):
    pattern = as_given(rows if len(rows) > 1 or kind == 'array' or isinstance(rows[0][0], list) else rows[0], kind)
    kw = {}
    if tempo:
        kw.update(tempo=tempo)
    if beat:
        kw.update(beatValue=Fraction(beat))
    if grid:
        kw.update(grid=Fraction(grid))
    if rel:
        kw.update(relNoteLength=rel)
    if absolute:
        kw.update(absNoteLength=absolute)
    if not split:
        kw.update(splitOutputs=False)
    s = Sequencer(pattern, **kw)
    expect(len(s.outputs) == (len(rows) if split else 1), '%d outputs', len(s.outputs))
    expect(s.nChannels == len(rows), '%d channels', s.nChannels)
    want = []
    for r in rows:
        step = cells(r, tempo or 120., beat or '1/4', grid or '1/16')
        want.append(reference(r, step, absolute or (rel or .5) * step, blocks))
    order = None
    if network:
        out = MessageInput(owner=None)
        order = list(determine_execution_order([s]))
        expect(order.count(s) == 1, 'the sequencer is in the order %d times', order.count(s))
    got = run(s, blocks, order)
    if any(w is None for w in want):
        return
    for b, ev in enumerate(got):
        if split:
            for k in range(len(rows)):
                mine = [(on, p) for c, on, p in ev if c == k]
                expect(mine == want[k][b], 'update %d, channel %d: %r instead of %r', b, k, mine, want[k][b])
        else:
            mine = [(on, p) for _, on, p in ev]
            expect(sorted(mine) == sorted(e for w in want for e in w[b]), 'update %d: %r instead of %r', b, mine, [w[b] for w in want])


def settings(rows, tempo, beat, grid):
    s = Sequencer(rows, tempo=tempo, beatValue=Fraction(beat), grid=Fraction(grid))
    for r, q in zip(rows, s.sequences):
        expect(close(float(q.duration), len(r) * cells(r, tempo, beat, grid)), 'duration %s', q.duration)
        expect(q.length == len(r), 'length')


def bend_of(notes):
    sums = np.concatenate([[0], np.cumsum([float(Fraction(n)) for n in notes])])
    return TAU * sums / sums[-1], np.linspace(0, TAU, len(notes) + 1)


def warped(notes, phase, x, n):
    a, v = bend_of(notes)
    beat = np.floor(n * phase / TAU)
    groove = (np.interp(n * phase - beat * TAU, a, v) + beat * TAU) / n
    return (1 - x) * phase + x * groove


def micro(notes, x, beat, places, through):
    m = MicroRhyhtm([Fraction(n) for n in notes], **dict(dict(phrasing=x) if x != 1 else {}, **(dict(beatValue=Fraction(beat)) if beat != '1/4' else {})))
    n = 1 // Fraction(beat)
    a, v = bend_of(notes)
    src, amount = Output(owner=None), Output(owner=None)
    if through:
        src.connect(m.input)
        amount.connect(m.inputs[1])
        amount.set_value(x)
    last = None
    for j, u in sorted(places):
        p = TAU * (j % n + u) / n
        if through:
            src.set_value(p)
        else:
            m.input.set_value(p)
        m.update()
        y = float(m.output.value)
        expect(abs(y - warped(notes, p, x, n)) < 1e-6, 'phase %s, phrasing %s: %s instead of %s', p, x, y, warped(notes, p, x, n))
        expect(abs(y - float(m.warp(p))) < 1e-9, 'warp and update differ')
    x = .25
    (amount if through else m.phrasing).set_value(x)
    p = TAU * (.4) / n
    (src if through else m.input).set_value(p)
    m.update()
    expect(abs(float(m.output.value) - warped(notes, p, x, n)) < 1e-6, 'phrasing changed between updates')
    k = 3
    expect(abs(float(m.warp(1.234, k)) - warped(notes, 1.234, x, k)) < 1e-6, 'other number of beats')


def grooving(rows, notes, x, tempo, blocks, script):
    """Micro rhythms applied to channels while the sequencer runs."""
    s = Sequencer(rows, tempo=tempo)
    ms = [MicroRhyhtm([Fraction(n) for n in ns], phrasing=x) for ns in notes]
    applied = [None] * len(rows)
    heard = listen(s.outputs)
    old = ClockMixin.currentTime
    counts, settled = [0] * len(rows), [0] * len(rows)
    lists = [[] for _ in rows]
    steps = [cells(r, tempo, '1/4', '1/16') for r in rows]
    try:
        for b in range(blocks):
            for when, k, which in script:
                if when != b:
                    continue
                if which is None:
                    s.reset_micro_rhythm(k)
                    applied[k] = None
                else:
                    if any(applied[c] == which for c in range(len(rows)) if c != k):
                        continue
                    s.apply_micro_rhythm(ms[which], k)
                    applied[k] = which
            if any(w == b for w, _, _ in script):
                for k, q in enumerate(s.sequences):
                    m = ms[applied[k]] if applied[k] is not None else None
                    expect(q.phaseOut.outgoingConnections == {m.input if m else q.phaseIn}, 'channel %d: the phase also goes elsewhere', k)
                    expect(q.phaseIn.incomingConnection is (m.output if m else q.phaseOut), 'channel %d: the phase comes from elsewhere', k)
                for j, m in enumerate(ms):
                    if j not in applied:
                        expect(not m.input.connected and not m.output.outgoingConnections, 'a micro rhythm is still connected after it was taken out')
            ClockMixin.set_current_time(b * DT)
            s.update()
            for k, on, p in heard:
                if on:
                    lists[k].append(p)
            del heard[:]
            for k, r in enumerate(rows):
                def number(b):
                    turns = b * DT / (steps[k] * len(r))
                    whole, part = divmod(turns, 1.)
                    ph = TAU * part
                    if applied[k] is not None:
                        ph = warped(notes[applied[k]], ph, x, 4)
                    pos = ph / TAU * len(r)
                    return whole * len(r) + np.floor(pos), abs(pos - round(pos)) < 1e-4 or part < 1e-6 or part > 1 - 1e-6
                # the micro rhythm runs before or after its sequence
                now, then = number(b), number(max(b - 1, 0))
                if now[1] or then[1] or any(abs(b - w) < 4 and c == k for w, c, _ in script):
                    continue
                idx = s.sequences[k].pizza.currentIdx
                ok = {int(now[0]) % len(r), int(then[0]) % len(r)} if applied[k] is not None else {int(now[0]) % len(r)}
                expect(idx in ok, 'update %d, channel %d: step %d instead of %r (micro rhythm %r)', b, k, idx, ok, applied[k])
    finally:
        ClockMixin.set_current_time(old)


def random_(length, period, low, high):
    p = random_pattern(length, *([] if period is None and low is None else [period]), **({} if low is None else dict(minVal=low, maxVal=high)))
    expect(len(p) == length, '%d values instead of %d', len(p), length)
    expect(all((60 if low is None else low) <= x <= (72 if low is None else high) for x in p), 'values out of the limits: %s', p)
    expect(all(p[i] == p[i - period] for i in range(period or length, length)), 'does not repeat after %s values: %s', period, p)


CHECKS = dict(random_=random_, sequencer=sequencer, settings=settings, micro=micro, grooving=grooving)


def cases(rng, tier):
    long = tier == 'thorough'
    yield 'sequencer', dict(rows=[[60, 0, 64, 67]], kind='list', tempo=None, beat=None, grid=None, rel=None, absolute=None, split=True, blocks=500, network=False)
    tempo = lambda: rng.choice([97.31, 240.7, 611.3, 121.7, rng.uniform(60, 900)])
    note = lambda: '%d/%d' % (rng.randint(1, 3), rng.choice([4, 8, 16, 16, 32]))
    for length in range(9):
        for period in (None, *range(1, 10)):
            yield 'random_', dict(length=length, period=period, low=None, high=None)
            yield 'random_', dict(length=length, period=period, low=rng.randrange(20), high=rng.randrange(20, 40))
    for i in range(400 if long else 50):
        k = rng.choice(['list', 'list', 'tuple', 'array', 'chords'])
        lengths = [rng.randint(2, 8)] * 3 if k == 'array' else [rng.randint(2, 8) for _ in range(3)]
        p = lambda: rng.choice([0, 60, 64, 67, 1, 127, rng.randrange(1, 128)])
        rows = [[[p() for _ in range(rng.randint(1, 3))] if k == 'chords' and rng.random() < .4 else p() for _ in range(n)] for n in lengths[:rng.choice([1, 1, 2, 3])]]
        if k != 'array' and len(rows) == 1 and isinstance(rows[0][0], list):
            rows.append([60, 61])
        if len(rows) > 1 and k in ('list', 'tuple', 'chords') or k == 'array':
            pass
        rel, absolute = rng.choice([(None, None), (.9, None), (.1, None), (2.7, None), (None, .0731), (.5, .2019)])
        yield 'sequencer', dict(rows=rows, kind='list' if k == 'chords' else k, tempo=rng.choice([None, tempo(), tempo(), tempo()]), beat=rng.choice([None, '1/4', '1/8', '3/8']), grid=rng.choice([None, '1/16', '1/8', note()]),
                                rel=rel, absolute=absolute, split=rng.random() < .7, blocks=rng.choice([60, 200, 300]), network=rng.random() < .3)
        yield 'settings', dict(rows=[[60] * n for n in lengths], tempo=tempo(), beat=note(), grid=note())
        notes = lambda: [note() for _ in range(rng.randint(1, 5))]
        beat = rng.choice(['1/4', '1/4', '1/8', '1/2', '1/1', '3/8'])
        yield 'micro', dict(notes=notes(), x=rng.choice([0., 1., .5, rng.random()]), beat=beat, places=[[rng.randrange(8), rng.random() * .998 + .001] for _ in range(12)], through=rng.random() < .5)
        if i % 3 == 0 or long:
            n = len(rows)
            yield 'grooving', dict(rows=[[60 + j for j in range(m)] for m in lengths], notes=[notes(), notes(), ['3/16', '1/16']], x=rng.choice([1., .5, rng.random()]), tempo=tempo(), blocks=250,
                                   script=[[rng.choice([0, 1, 40, 100, 170]), rng.randrange(3), rng.choice([None, 0, 1, 2])] for _ in range(rng.randint(1, 6))])


if __name__ == '__main__':
    main('C31', CHECKS, cases)

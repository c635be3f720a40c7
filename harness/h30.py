from fractions import Fraction
import warnings

import numpy as np

from common import *
from klang.audio.oscillators import Lfo
from klang.audio.sync import Clock
from klang.audio.synthesizer import HiHat, Kick, sample_exponential_decay, sample_pitch_decay
from klang.audio.envelopes import D
from klang.config import BUFFER_SIZE as B, SAMPLING_RATE as SR
from klang.connections import MessageOutput, Output
from klang.execution import determine_execution_order
from klang.messages import Note

warnings.simplefilter('ignore')
TAU = 2 * np.pi


def rate(f):
    return (Fraction(*f), f[1] / (2. * f[0])) if isinstance(f, list) else (f, float(f))


def clock(freqs, duty, edge, through):
    v, r = rate(freqs[0])
    c = Clock(v, duty, edge) if (duty, edge) != (.1, 'rising') else Clock(v)
    src = Output(owner=None)
    if through:
        src.connect(c.frequency)
    start = 0.
    for n, f in enumerate(freqs):
        v, r = rate(f)
        if through:
            src.set_value(v)
        elif n:
            c.frequency.set_value(v)
        c.update()
        y = c.output.value
        expect(np.shape(y) == (B,), 'shape %s', np.shape(y))
        p = np.mod(start + TAU * r * np.arange(B) / SR, TAU)
        d = np.minimum.reduce([np.abs(p - TAU * duty), p, TAU - p])
        high = p < TAU * duty if edge == 'rising' else p > TAU * duty
        clear = d > 1e-7
        expect(np.array_equal(y[clear], high[clear].astype(int)), 'block %d at %s Hz, duty %s, %s: wrong clock signal', n, r, duty, edge)
        start += TAU * r * B / SR


def clock_order(n):
    c = Clock(2.)
    l = Lfo(3., outputRange=(1, 2))
    l.output.connect(c.frequency)
    order = list(determine_execution_order([c]))
    expect(l in order and c in order and order.index(l) < order.index(c), 'the block behind the frequency input does not run before the clock')
    expect(c in determine_execution_order([l]), 'the clock is not found from the block that feeds it')


def decay(d, t0):
    t = t0 + np.arange(B) / SR
    y, t1 = sample_exponential_decay(d, t0)
    expect(np.allclose(y, np.exp(-np.pi / d * t), rtol=1e-9, atol=1e-300), 'not the decay curve')
    expect(close(t1, t0 + B / SR), 'next time %s', t1)
    y, t1 = sample_pitch_decay(50., d, 3., t0)
    expect(np.allclose(y, 50. * (1 + 3. * np.exp(-np.pi / d * t))), 'not the pitch curve')
    expect(close(t1, t0 + B / SR), 'next time %s', t1)


def kick(blocks, args):
    k, ref = Kick(*args), Kick()
    f, d, a, pd = args if args else (40., .8, 2, .3)
    src = MessageOutput(owner=None)
    src.connect(k.input)
    n, phase = 0, 0.
    for b, notes in enumerate(blocks):
        for p, v in notes:
            src.send(Note(p, v))
            if p > 0 and v > 0:
                n, phase = 0, 0.
        k.update()
        y = k.output.value
        expect(np.shape(y) == (B,), 'shape %s', np.shape(y))
        t = (n + np.arange(B)) / SR
        pitch = f * (1 + a * np.exp(-np.pi / pd * t))
        steps = np.concatenate([[0.], np.cumsum(TAU * pitch / SR)])
        want = np.exp(-np.pi / d * t) * np.sin(phase + steps[:-1])
        expect(np.allclose(y, want, atol=1e-6), 'block %d: off by %s', b, np.abs(y - want).max())
        phase += steps[-1]
        n += B


def hihat(blocks, decay, looped):
    h = HiHat(decay, looped) if looped else HiHat(decay)
    ref = D(decay)
    src, other = MessageOutput(owner=None), MessageOutput(owner=None)
    src.connect(h.input)
    other.connect(ref.input)
    last, distinct = None, 0
    for b, notes in enumerate(blocks):
        for p, v in notes:
            src.send(Note(p, v))
            other.send(Note(p, v))
        h.update()
        ref.update()
        y, e = h.output.value, ref.output.value
        expect(np.shape(y) == (B,), 'shape %s', np.shape(y))
        expect(np.all(np.abs(y) <= np.abs(e) + 1e-12), 'block %d: louder than the envelope', b)
        ok = e > 1e-6
        if ok.sum() > 100:
            x = y[ok] / e[ok]
            expect(np.abs(x).max() > .5 and x.min() < -.2 and x.max() > .2 and x.std() > .3, 'block %d: no noise in [-1, 1] times the envelope', b)
            if last is not None:
                both = ok & last[1]
                if both.sum() > 20:
                    same = np.allclose(y[both] / e[both], last[0][both], atol=1e-6)
                    expect(same == bool(looped), 'noise is %s' % ('not looped' if looped else 'repeated'))
            n = np.zeros(B)
            n[ok] = x
            last = n, ok


CHECKS = dict(clock=clock, clock_order=clock_order, decay=decay, kick=kick, hihat=hihat)


def cases(rng, tier):
    yield 'clock_order', dict(n=0)
    yield 'kick', dict(blocks=[[], [], [[60, 1.]], [], [], [[60, 0.]], [], [[60, .1]], []], args=[])
    for looped in (False, True):
        yield 'hihat', dict(blocks=[[], [[60, 1.]], [], [], [[60, 0.]], [], [[60, 1.], [61, 1.]], []], decay=.05, looped=looped)
    notes = lambda: [[rng.choice([1, 60, 36, 127, rng.randrange(128)]), rng.choice([0., 1., rng.random()])] for _ in range(rng.choice([0, 0, 0, 1, 2, 3]))]
    for i in range(60 if tier == 'quick' else 800):
        f = lambda: rng.choice([rng.random() * 10, rng.random() * 2000, .01, 440., 1., [1, 4], [rng.randint(1, 3), rng.choice([1, 2, 4, 8, 16])]])
        yield 'clock', dict(freqs=[f() for _ in range(rng.choice([2, 5, 30]))], duty=rng.choice([.1, .5, .9, rng.random() * .98 + .01]), edge=rng.choice(['rising', 'falling']), through=bool(i % 2))
        yield 'decay', dict(d=rng.choice([.05, .8, 3., rng.random() + 1e-3]), t0=rng.choice([0., .1, rng.random() * 3]))
        yield 'kick', dict(blocks=[notes() for _ in range(rng.choice([3, 10, 60]))], args=rng.choice([[], [rng.random() * 100 + 20, rng.random() + .05, rng.random() * 4, rng.random() + .02]]))
        yield 'hihat', dict(blocks=[notes() for _ in range(rng.choice([3, 10, 30]))], decay=rng.choice([.05, .5, rng.random() + .01]), looped=bool(i % 2))


if __name__ == '__main__':
    main('C30', CHECKS, cases)

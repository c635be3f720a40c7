from fractions import Fraction

import copy

import numpy as np

from common import *
from klang.audio import oscillators as O, waves as W
from klang.config import BUFFER_SIZE as B, SAMPLING_RATE as SR
from klang.connections import Output

TAU = 2 * np.pi


def rate(f):
    """Frequency per sample of one block for a described frequency."""
    kind, v = f
    if kind == 'note':
        n, d = v
        return Fraction(n, d), np.full(B, d / (2. * n))
    if kind == 'array':
        r = np.random.RandomState(v).uniform(-2000, 8000, B)
        return r, r
    return v, np.full(B, float(v))


def same_angle(a, b, tol=1e-6):
    d = np.abs(np.asarray(a) - np.asarray(b))
    d = np.mod(d, TAU)
    return np.all(np.minimum(d, TAU - d) < tol)


def in_range(p):
    return np.all(p >= 0) and np.all(p <= TAU)


def phases(start, freqs, kind):
    """Consecutive blocks of one oscillator, observed through the phases given to its wave function."""
    seen = []

    def wave(p):
        seen.append(np.array(p, copy=True))
        return np.cos(p)
    if kind == 'osc':
        o = O.Oscillator(440., wave_func=wave, startPhase=start)
    elif kind == 'lfo':
        o = O.Lfo(1., wave_func=wave, shape=B, outputRange=(-1, 1), startPhase=start)
    elif kind == 'fm':
        o = O.FmOscillator(440., 0., 3., wave_func=wave, startPhase=start)
    else:
        o = None
    expected = start
    p = start
    for f in freqs:
        v, r = rate(f)
        if o is None:
            if f[0] == 'note':
                v = float(r[0])
            got, p = O.sample_phase(v, p)
        else:
            o.frequency.set_value(v)
            o.update()
            got = seen[-1]
            expect(np.allclose(o.output.value, np.cos(got)), 'output is not the wave of the phases')
            expect(len(seen) == (2 if kind == 'fm' else 1), 'wave function called %s times', len(seen))
            seen.clear()
        expect(np.shape(got) == (B,), 'shape %s', np.shape(got))
        want = expected + np.concatenate([[0.], np.cumsum(TAU * r / SR)])
        expect(same_angle(got, want[:-1]), 'frequency %s: phases are not continuous (off by %s)', f, np.abs(np.mod(got - want[:-1] + 1, TAU) - 1).max())
        expect(in_range(got), 'phase out of range')
        expected = want[-1]


def block_phases(start, freqs, kind):
    o = O.Phasor(1., start) if kind == 'phasor' else O.Lfo(1., wave_func=lambda p: p / np.pi - 1, outputRange=(0, TAU), startPhase=start)
    expected = start
    for f in freqs:
        v, r = rate(f)
        o.frequency.set_value(v)
        o.update()
        got = o.output.value
        expect(np.ndim(got) == 0, 'one value per block')
        expect(same_angle(got, expected), 'frequency %s: block phase %s instead of %s', f, got, expected)
        expect(-1e-9 <= got <= TAU + 1e-9, 'phase out of range')
        expected += TAU * r[0] * B / SR


def output_range(lo, hi, shape, name):
    o = O.Lfo(3., wave_func=W.WAVE_FUNCTIONS[name], shape=shape, outputRange=(lo, hi))
    u = O.Lfo(3., wave_func=W.WAVE_FUNCTIONS[name], shape=shape, outputRange=(-1, 1))
    eps = 1e-9 * (abs(lo) + abs(hi) + 1)
    for _ in range(60):
        o.update()
        u.update()
        y, x = np.asarray(o.output.value), np.asarray(u.output.value)
        expect(np.allclose(y, lo + (hi - lo) * (x + 1) / 2, atol=eps), 'output is not mapped linearly')
        expect(y.min() >= min(lo, hi) - eps and y.max() <= max(lo, hi) + eps, 'out of range')


def pulse(start, freqs, duty):
    o = O.PwmOscillator(1., duty, start)
    expected = start
    for f in freqs:
        v, r = rate(f)
        o.frequency.set_value(v)
        o.update()
        want = expected + np.concatenate([[0.], np.cumsum(TAU * r / SR)])
        p = np.mod(want[:-1], TAU)
        clear = (np.abs(p - TAU * duty) > 1e-6) & (p > 1e-6) & (p < TAU - 1e-6)
        expect(np.array_equal(o.output.value[clear], np.where(p < TAU * duty, 1., -1.)[clear]), 'pulse of duty %s', duty)
        expected = want[-1]


def modulated(f, intensity, mod):
    """The modulated wave, from the modulator's own samples."""
    m = O.Oscillator(mod)
    o = O.FmOscillator(f, intensity, mod)
    n = 0
    for _ in range(4):
        m.update()
        o.update()
        p = TAU * f * np.arange(n, n + B) / SR
        expect(np.allclose(o.output.value, np.sin(p + intensity * m.output.value), atol=1e-6), 'modulated wave')
        n += B


def connected(f0, f1):
    """The frequency arrives through a connection."""
    src = Output(value=f0)
    o = O.Oscillator(1., wave_func=lambda p: p)
    src.connect(o.frequency)
    o.update()
    a = np.array(o.output.value)
    src.set_value(f1)
    o.update()
    b = np.array(o.output.value)
    expect(same_angle(np.diff(a), TAU * f0 / SR) and same_angle(b[0] - a[-1], TAU * f0 / SR) and same_angle(np.diff(b), TAU * f1 / SR), 'phase steps')


def waves(seed):
    p = np.random.RandomState(seed).uniform(-50, 50, 1000)
    p[:9] = [0, TAU, -TAU, np.pi, -np.pi, np.pi / 2, TAU - 1e-12, 1e-12, -1e-12]
    for name, w in W.WAVE_FUNCTIONS.items():
        y = w(p)
        expect(y.shape == p.shape and y.min() >= -1 - 1e-12 and y.max() <= 1 + 1e-12, '%s leaves [-1, 1]', name)
        if name != 'random':
            for q in (0., .1, 3., 6.2, -2.):
                expect(-1 - 1e-12 <= w(q) <= 1 + 1e-12, '%s of a scalar', name)


def shape(seed):
    r = np.random.RandomState(seed)
    n = r.randint(-20, 20, 300)
    a = r.uniform(1e-6, np.pi - 1e-6, 300) + np.pi * r.randint(0, 2, 300)
    n[:4], a[:4] = 0, [0, np.pi, np.pi / 2, 3 * np.pi / 2]
    x = n * TAU + a
    for name, want in (('square', np.where(a < np.pi, 1., -1.)), ('sawtooth', a / np.pi - 1), ('triangle', 1 - 2 * np.abs(a / np.pi - 1)), ('sine', np.sin(a))):
        w = W.WAVE_FUNCTIONS[name]
        got = w(x)
        bad = np.flatnonzero(np.abs(got - want) > 1e-9)
        expect(not len(bad), '%s at %s is %s', name, *((x[bad[0]], got[bad[0]]) if len(bad) else (0, 0)))
        for q, v in zip(x[:40], want):
            expect(abs(w(q) - v) < 1e-9 and abs(w(float(q)) - v) < 1e-9, '%s at %s', name, q)


def chirp(f0, f1, duration, method, blocks):
    """Phase steps lie between those of the start and end frequency, and are constant after the end."""
    c = O.Chirper(f0, duration, f1, method, wave_func=lambda p: np.array(p))
    for turn in range(2):
        out = []
        for _ in range(blocks):
            c.update()
            out.append(np.array(c.output.value))
        p = np.concatenate(out)
        d = np.diff(p) * SR / TAU
        lo, hi = min(f0, f1), max(f0, f1)
        expect(d.min() >= lo - 1e-3 and d.max() <= hi + 1e-3, 'frequencies %s to %s outside the chirp (at sample %s)', d.min(), d.max(), int(np.argmax(np.maximum(lo - d, d - hi))))
        t = np.arange(len(d)) / SR
        expect(np.allclose(d[t >= duration], f1, atol=1e-3), 'end frequency')
        expect(abs(p[0]) < 1e-9, 'start phase')
        c.reset()


def copies(kind, start, freqs, before, x, seed):
    """A copy taken after some blocks goes on exactly as its original."""
    w = sorted(set(W.WAVE_FUNCTIONS) - {'random'})
    kw = dict(wave_func=W.WAVE_FUNCTIONS[w[seed % len(w)]]) if kind not in ('Phasor', 'PwmOscillator') else {}
    if kind == 'Lfo':
        kw.update(shape=(1, B)[seed // 4 % 2], outputRange=(x, 3. - x))
    elif kind == 'FmOscillator':
        kw.update(intensity=x, modFrequency=50 * x)
    elif kind == 'PwmOscillator':
        kw.update(dutyCycle=x)
    o = getattr(O, kind)(startPhase=start, **kw)
    blocks = [rate(f)[0] for f in freqs]
    for v in blocks[:before]:
        o.frequency.set_value(v)
        o.update()
    if seed % 3 == 0 and kind == 'PwmOscillator':
        o.dutyCycle.set_value(1 - x)
    c = copy.deepcopy(o)
    expect(type(c) is type(o) and c is not o, 'copy %r', c)
    for k, v in enumerate([None] + blocks[before:]):
        for b in (o, c):
            if v is not None:
                b.frequency.set_value(v)
        c.update()
        z = np.array(c.output.value, copy=True)
        o.update()
        expect(np.shape(z) == np.shape(o.output.value) and np.allclose(z, o.output.value, atol=1e-12), 'block %d behind the copy: the copy of the %s plays something else', k, kind)


CHECKS = dict(copies=copies, phases=phases, block_phases=block_phases, output_range=output_range, pulse=pulse, modulated=modulated, connected=connected, waves=waves, shape=shape, chirp=chirp)


def frequency(rng, arrays=True):
    k = rng.random()
    if k < .2:
        return ['note', [rng.choice([1, 3, 5]), rng.choice([1, 2, 4, 8, 16, 3])]]
    if arrays and k < .5:
        return ['array', rng.randrange(10 ** 6)]
    return ['float', rng.choice([0., 1., 440., 20000., -300., .01, rng.uniform(-5000, 30000), rng.uniform(0, 100), 44100., 7])]


def cases(rng, tier):
    n = 60 if tier == 'quick' else 600
    for i in range(n):
        start = rng.choice([0., 1., 6.28, rng.uniform(0, 6.28)])
        for kind in ('raw', 'osc', 'lfo', 'fm'):
            yield 'phases', dict(start=start, freqs=[frequency(rng) for _ in range(rng.randrange(1, 5))], kind=kind)
        for kind in ('phasor', 'lfo'):
            yield 'block_phases', dict(start=start, freqs=[frequency(rng, False) for _ in range(rng.randrange(1, 8))], kind=kind)
        yield 'pulse', dict(start=start, freqs=[frequency(rng) for _ in range(3)], duty=rng.choice([0., .5, 1., rng.random()]))
        yield 'output_range', dict(lo=rng.choice([0, -1, rng.uniform(-100, 100)]), hi=rng.choice([1, 1000., rng.uniform(-100, 100)]), shape=rng.choice([1, B]), name=rng.choice(['sine', 'square', 'sawtooth', 'triangle']))
        yield 'modulated', dict(f=rng.uniform(20, 5000), intensity=rng.uniform(0, 5), mod=rng.uniform(0, 300))
        kind = ('Phasor', 'Oscillator', 'Lfo', 'FmOscillator', 'PwmOscillator')[i % 5]
        fs = [frequency(rng, kind != 'Phasor' and kind != 'Lfo') for _ in range(rng.randrange(1, 6))]
        yield 'copies', dict(kind=kind, start=start, freqs=fs, before=rng.randrange(len(fs) + 1), x=rng.choice([.25, .5, rng.random()]), seed=rng.randrange(1000))
        yield 'connected', dict(f0=rng.uniform(0, 5000), f1=rng.uniform(0, 5000))
        yield 'waves', dict(seed=i)
        yield 'shape', dict(seed=i)
        f0, f1 = rng.uniform(20, 8000), rng.uniform(20, 8000)
        yield 'chirp', dict(f0=f0, f1=rng.choice([f1, f0]), duration=rng.choice([.01, .02, 256 / SR, .0301, .1]), method=rng.choice(['linear', 'quadratic', 'logarithmic', 'hyperbolic']), blocks=8)


if __name__ == "__main__":
    main('C09', CHECKS, cases)

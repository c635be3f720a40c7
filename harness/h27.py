import math

import numpy as np
import scipy.signal

from common import *
from klang.audio import effects as E
from klang.audio import filters as FI
from klang.audio.oscillators import Oscillator
from klang.audio import waves
from klang.config import BUFFER_SIZE as B, SAMPLING_RATE as SR
from klang.connections import Output
from h13 import reference as delay_reference

NY = SR / 2
TABLE = np.logspace(np.log2(20.), np.log2(20000.), num=1000, base=2)


def design(N, Wn, btype, gain=1.):
    """Fast second order design (not a sensible filter, but a stable one that differs for each frequency)."""
    w = min(Wn, .99)
    return np.array([gain * w, .3 * w, .1]), np.array([1., -.9 * (1 - w), .2 * w])


def pick(f):
    for t in TABLE:
        if t >= f:
            return t
    return TABLE[-1]


def filtering(steps, seed, real=False, connected=False, f0=440., gain=1.):
    """steps: (cutoff or None, stereo) per block."""
    rng = np.random.RandomState(seed)
    kw = {} if real else dict(design_func=design, gain=gain)
    blk = E.Filter(frequency=f0, **kw)
    make = (lambda w: scipy.signal.butter(N=2, Wn=w, btype='lowpass')) if real else (lambda w: design(2, w, 'lowpass', gain))
    states = [np.zeros(2), np.zeros(2)]
    f = f0
    o, buf = Output(), None
    if connected:
        o.connect(blk.inputs[0])
    for k, (cut, stereo) in enumerate(steps):
        if cut is not None:
            f = cut
            blk.frequency.set_value(f)
        x = rng.uniform(-1, 1, (2, B) if stereo else (B,))
        keep = x.copy()
        (o if connected else blk.inputs[0]).set_value(x)
        blk.update()
        expect(np.array_equal(x, keep), 'the input was modified')
        y = blk.output.value
        expect(np.shape(y) == x.shape, 'shape %s for %s', np.shape(y), x.shape)
        b, a = make(pick(f) / NY)
        for c in range(2 if stereo else 1):
            want, states[c] = scipy.signal.lfilter(b, a, keep[c] if stereo else keep, zi=states[c])
            got = y[c] if stereo else y
            bad = np.flatnonzero(np.abs(got - want) > 1e-9)
            expect(len(bad) == 0, 'block %d channel %d sample %s: %s instead of %s at cutoff %s', k, c, bad[0] if len(bad) else 0, got[bad[0]] if len(bad) else 0, want[bad[0]] if len(bad) else 0, f)


def table(f):
    global COEF
    if 'COEF' not in globals():
        COEF = E.FilterCoefficients(lambda Wn: (Wn, 1))
    w, _ = COEF.get_coefficients(f)
    expect(close(w * NY, pick(f), 1e-12, 1e-9), 'cutoff %s uses %s instead of %s', f, w * NY, pick(f))


def primes_from(n, start):
    out, k = [], start
    while len(out) < n:
        if k > 1 and all(k % d for d in range(2, int(k ** .5) + 1)):
            out.append(k)
        k += 1
    return out


def comb(kind, k, a, x):
    y, w = np.empty(len(x)), np.zeros(len(x) + k)
    for i, v in enumerate(x):
        old = w[i]
        if kind == 'ForwardCombFilter':
            y[i], w[i + k] = v + a * old, v
        elif kind == 'BackwardCombFilter':
            y[i] = w[i + k] = v + a * old
        else:
            y[i], w[i + k] = old, v + a * old
    return y


def reverb(decay, pre, mix, n, kind, blocks, seed, connected=False, defaults=False):
    rng = np.random.RandomState(seed)
    kw = {} if kind is None else dict(echoType=getattr(FI, kind))
    r = E.Reverb(decay, pre, mix, n, **kw)
    xs = [rng.uniform(-1, 1, B) for _ in range(blocks)]
    whole = np.concatenate(xs)
    ks = primes_from(n, int(pre * SR))
    m = min(max(mix, 0.), 1.)
    wet = sum(comb(kind or 'BackwardCombFilter', k, math.exp(-math.pi * (k / SR) / decay) if decay > 0 else 0., whole) for k in ks) / n
    want = (1 - m) * whole + m * wet
    o = Output()
    if connected:
        o.connect(r.inputs[0])
    for j, x in enumerate(xs):
        keep = x.copy()
        (o if connected else r.inputs[0]).set_value(x)
        r.update()
        expect(np.array_equal(x, keep), 'the input was modified')
        y, w = r.output.value, want[j * B:(j + 1) * B]
        expect(np.shape(y) == (B,), 'shape')
        bad = np.flatnonzero(np.abs(y - w) > 1e-9 * (1 + np.abs(w)))
        expect(len(bad) == 0, 'block %d sample %s: %s instead of %s', j, bad[0] if len(bad) else 0, y[bad[0]] if len(bad) else 0, w[bad[0]] if len(bad) else 0)


def no_echo(n):
    try:
        E.Reverb(nEchos=n)
    except AssertionError:
        return
    raise Fail('a reverb with %d echos was accepted' % n)


def ring(settings, seed, wave='square', connected=False):
    """settings: (frequency, rate, amount, mix) per block, None keeps a setting."""
    rng = np.random.RandomState(seed)
    fn = getattr(waves, wave)
    cur = list(settings[0])
    r = E.RingModulator(*cur[:3], wave_func=fn, dryWet=cur[3])
    lfo, mod = Oscillator(wave_func=fn), Oscillator()
    o = Output()
    if connected:
        o.connect(r.inputs[0])
    for k, s in enumerate(settings):
        if k:
            for j, port in enumerate((r.frequency, r.rate, r.amount, r.dryWet)):
                if s[j] is not None:
                    cur[j] = s[j]
                    port.set_value(s[j])
        x = rng.uniform(-1, 1, B)
        keep = x.copy()
        (o if connected else r.inputs[0]).set_value(x)
        r.update()
        expect(np.array_equal(x, keep), 'the input was modified')
        lfo.frequency.set_value(cur[1])
        lfo.update()
        mod.frequency.set_value(cur[0] + cur[2] * lfo.output.value)
        mod.update()
        want = (1 - cur[3]) * keep + cur[3] * mod.output.value * keep
        expect(np.allclose(r.output.value, want, atol=1e-9), 'block %d with %s', k, cur)


def stereo_delay(tl, tr, fl, fr, mix, n, seed, connected=False):
    rng = np.random.RandomState(seed)
    d = E.StereoDelay(tl, tr, fl, fr, mix)
    xs = [rng.uniform(-1, 1, (2, B)) for _ in range(n)]
    want = [delay_reference(int(t * SR), f, mix, [x[c] for x in xs]) for c, (t, f) in enumerate(((tl, fl), (tr, fr)))]
    o = Output()
    if connected:
        o.connect(d.inputs[0])
    for k, x in enumerate(xs):
        keep = x.copy()
        (o if connected else d.inputs[0]).set_value(x)
        d.update()
        y = d.output.value
        expect(np.shape(y) == (2, B), 'shape %s', np.shape(y))
        expect(np.array_equal(x, keep), 'the input was modified')
        for c in range(2):
            expect(np.allclose(y[c], want[c][k], atol=1e-9), 'block %d channel %d', k, c)


CHECKS = dict(filtering=filtering, table=table, reverb=reverb, no_echo=no_echo, ring=ring, stereo_delay=stereo_delay)


def cases(rng, tier):
    for f in list(TABLE[[0, 1, 2, 500, 998, 999]]) + [0., 1., 19.9, 20., 20.001, 19999., 20000., 20001., 1e9]:
        yield 'table', dict(f=float(f))
        yield 'table', dict(f=float(np.nextafter(f, 1e12)))
    for _ in range(40):
        yield 'table', dict(f=rng.choice([rng.uniform(20, 20000), 20 * 1000 ** rng.random()]))
    for n in (0, -1, -5):
        yield 'no_echo', dict(n=n)
    yield 'filtering', dict(steps=[(None, False), (880., True), (None, False)], seed=1, real=True)
    for _ in range(60 if tier == 'thorough' else 10):
        steps = [(rng.choice([None, None, 440., rng.uniform(0, 25000)]), rng.random() < .5) for _ in range(rng.randrange(2, 9))]
        yield 'filtering', dict(steps=steps, seed=rng.randrange(10 ** 6), connected=rng.random() < .5, f0=rng.choice([440., 10., 30000., rng.uniform(20, 20000)]), gain=rng.uniform(.5, 2))
    for _ in range(300 if tier == 'thorough' else 25):
        yield 'reverb', dict(decay=rng.choice([1.5, 0., -1., rng.uniform(.001, 3)]), pre=rng.choice([0., .001, .03, rng.uniform(0, .02)]), mix=rng.choice([0., 1., .7, -1., 2., rng.random()]),
                             n=rng.choice([1, 2, rng.randrange(1, 8), rng.randrange(8, 24)]), kind=rng.choice([None, 'ForwardCombFilter', 'BackwardCombFilter', 'EchoFilter']), blocks=rng.randrange(2, 8),
                             seed=rng.randrange(10 ** 6), connected=rng.random() < .5)
    for _ in range(400 if tier == 'thorough' else 60):
        one = lambda: [rng.uniform(0, 3000), rng.uniform(0, 400), rng.choice([rng.uniform(-50, 50), rng.uniform(-900, 900)]), rng.choice([0., 1., .5, rng.random()])]
        settings = [one()] + [[v if rng.random() < .3 else None for v in one()] for _ in range(rng.randrange(1, 6))]
        yield 'ring', dict(settings=settings, seed=rng.randrange(10 ** 6), wave=rng.choice(['square', 'sine', 'triangle']), connected=rng.random() < .5)
    for _ in range(60 if tier == 'thorough' else 12):
        t = lambda: rng.choice([.01, .006, rng.uniform(.006, .03)])
        yield 'stereo_delay', dict(tl=t(), tr=t(), fl=rng.uniform(-.9, .9), fr=rng.uniform(-.9, .9), mix=rng.choice([0., 1., .5, rng.random()]), n=rng.randrange(2, 14), seed=rng.randrange(10 ** 6), connected=rng.random() < .5)


if __name__ == '__main__':
    main('C27', CHECKS, cases)

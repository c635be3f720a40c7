import numpy as np

from common import *
from klang.audio import effects as E, wavfile as W
from klang import math as M
from klang.config import BUFFER_SIZE
from klang.connections import Output


def noise(seed, shape, lo=-1., hi=1.):
    r = np.random.RandomState(seed)
    x = r.uniform(lo, hi, size=tuple(shape))
    flat = x.reshape(-1)
    k = min(4, flat.size)
    flat[:k] = [hi, lo, min(max(lo, 0.), hi), min(max(lo, -1e-9), hi)][:k]
    return x


def through(blk, x, stateful=False):
    keep = np.array(x, copy=True)
    if isinstance(x, np.ndarray) and not stateful and x.flags.writeable:
        # an earlier update with other contents of the same array
        x[...] = keep[..., ::-1]
        blk.input.set_value(x)
        blk.update()
        x[...] = keep
    blk.input.set_value(x)
    blk.update()
    expect(np.array_equal(keep, x), 'input was modified')
    return blk.output.value


def gain(g, seed, shape, signal):
    x = noise(seed, shape)
    b = E.Gain(g)
    if signal:
        g = noise(seed + 1, shape[-1:], -3, 3)
        b.gain.set_value(g)
    y = through(b, x)
    expect(np.shape(y) == np.shape(x) and np.allclose(y, np.multiply(g, x)), 'gain')
    b = E.Gain(2.)
    o = Output()
    o.connect(b.gain)
    o.set_value(g)
    expect(np.allclose(through(b, x), np.multiply(g, x)), 'gain through a connection')


def transformer(lo, hi):
    for t, a, b in ((E.Transformer.from_limits(lo, hi), 0., 1.), (E.Transformer.from_limits_2(lo, hi), -1., 1.)):
        for x, y in ((a, lo), (b, hi), ((a + b) / 2, (lo + hi) / 2)):
            r = through(t, x)
            expect(close(r, y, 1e-12, 1e-9 * (abs(lo) + abs(hi))), '%s is mapped to %s instead of %s', x, r, y)
        z = through(t, noise(3, (2, 5), a, b))
        expect(z.min() >= lo - 1e-9 and z.max() <= hi + 1e-9, 'out of range')


def ranges(x0, x1, y0, y1):
    t = E.Transformer.from_ranges((x0, x1), (y0, y1))
    for x, y in ((x0, y0), (x1, y1), ((x0 + x1) / 2, (y0 + y1) / 2)):
        r = through(t, x)
        expect(close(r, y, 1e-9, 1e-9 * (abs(y0) + abs(y1)) + 1e-12), '%s is mapped to %s instead of %s', x, r, y)


def blend(w, seed, shape):
    a, b = noise(seed, shape), noise(seed + 1, shape)
    ka, kb = a.copy(), b.copy()
    r = M.blend(a, b, w)
    expect(np.allclose(r, (1 - w) * ka + w * kb, atol=1e-12), 'blend with %s', w)
    expect(np.array_equal(a, ka) and np.array_equal(b, kb), 'signals were modified')


def clip(x, lo, hi):
    r = M.clip(x, lo, hi)
    expect(r == (lo if x < lo else hi if x > hi else x), 'clip(%s, %s, %s) is %s', x, lo, hi, r)


def tremolo(settings, stereo, seed):
    t = E.Tremolo()
    for k, (rate, depth, smooth, duty) in enumerate(settings):
        t.rate.set_value(rate)
        t.depth.set_value(depth)
        t.smoothness.set_value(smooth)
        t.dutyCycle.set_value(duty)
        x = np.random.RandomState(seed + k).uniform(.1, 1., (2, BUFFER_SIZE) if stereo else (BUFFER_SIZE,))
        y = through(t, x, True)
        expect(y.shape == x.shape, 'shape')
        f = y / x
        expect(f.min() >= 1 - depth - 1e-9 and f.max() <= 1 + 1e-9, 'envelope of update %d spans %s to %s with depth %s', k, f.min(), f.max(), depth)
        if stereo:
            expect(np.allclose(f[0], f[1]), 'channels differ')


def lowpass(f):
    (b0,), (a0, a1) = E.low_pass_coefficients(f)
    expect(a0 == 1 and -1 <= a1 <= 0 and close(b0, 1 + a1), 'coefficients %s %s', b0, a1)
    expect(close(a1, -np.exp(-2 * np.pi * f / 44100), 1e-9, 1e-12), 'decay %s at cutoff %s', a1, f)


def distortion(seed, shape, drive):
    x = noise(seed, shape)
    for b in (E.OctaveDistortion(), E.TanhDistortion(drive)):
        y = through(b, x)
        expect(y.shape == x.shape and y.min() >= -1 and y.max() <= 1, '%s leaves the range', type(b).__name__)
    expect(np.allclose(y, np.tanh(drive * x)), 'tanh')
    expect(np.allclose(through(E.OctaveDistortion(), x), 2 * x * x - 1), 'octave')


def subsample(factor, channels):
    x = noise(1, (BUFFER_SIZE,) if not channels else (channels, BUFFER_SIZE))
    y = through(E.Subsampler(factor), x)
    i = np.arange(BUFFER_SIZE) // factor * factor
    expect(y.shape == x.shape and np.array_equal(y, x[..., i]), 'factor %d', factor)


def crush(bits, seed, shape):
    x = noise(seed, shape)
    y = through(E.Bitcrusher(bits), x)
    s = np.trunc(x * 32767)
    want = np.floor(s / 2 ** bits) * 2 ** bits / 32768
    expect(y.shape == x.shape and np.allclose(y, want, atol=1e-12), '%d bits', bits)


def refuse(what, n):
    valid = {'bits': 0 <= n < 16, 'factor': n in (2, 4, 8, 16, 32, 64, 128)}[what]
    try:
        {'bits': E.Bitcrusher, 'factor': E.Subsampler}[what](n)
        ok = True
    except (AssertionError, ValueError):
        ok = False
    expect(ok == valid, '%s %s %s', what, n, 'accepted' if ok else 'refused')


def convert(dtype, seed, shape):
    d = np.dtype(dtype)
    top = np.iinfo(d).max
    x = noise(seed, shape)
    y = W.convert_samples_to_int(x, d.type) if dtype != 'int16' or seed % 2 else W.convert_samples_to_int(x)
    expect(y.dtype == d and y.shape == x.shape, 'type')
    e = y.astype(float) - top * x
    expect(np.abs(e).max() < 1 + 1e-6, 'error of %s', np.abs(e).max())
    expect(np.abs(y.astype(float)).max() <= top, 'range')
    z = W.convert_samples_to_float(y)
    expect(np.allclose(z * (top + 1.), y), 'back')
    for f, v in ((W.convert_samples_to_int, y), (W.convert_samples_to_float, x)):
        try:
            f(v)
        except ValueError:
            continue
        raise Fail('wrong sample type accepted')


def channels(k, seed):
    s, c = E.AudioSplitter(k), E.AudioCombiner(k)
    for o, i in zip(s.outputs, c.inputs):
        o.connect(i)
    for turn in range(3):
        x = noise(seed + turn, (k, BUFFER_SIZE))
        through(s, x)
        c.update()
        expect(np.array_equal(c.output.value, x), 'split and combine of %d channels', k)
        c2, s2 = E.AudioCombiner(k), E.AudioSplitter(k)
        sig = [noise(seed + 9 * j, (BUFFER_SIZE,)) for j in range(k)]
        for i, v in zip(c2.inputs, sig):
            i.set_value(v)
        c2.update()
        for v in sig:
            v[:] = v[::-1].copy()
        c2.update()
        c2.output.connect(s2.input)
        s2.update()
        for o, v in zip(s2.outputs, sig):
            expect(np.array_equal(o.value, v), 'combine and split of %d channels', k)
    m = noise(seed, (BUFFER_SIZE,))
    through(s, m)
    for o in s.outputs:
        expect(np.array_equal(o.value, m), 'mono broadcast')


CHECKS = dict(gain=gain, transformer=transformer, ranges=ranges, blend=blend, clip=clip, tremolo=tremolo, lowpass=lowpass, distortion=distortion,
              subsample=subsample, crush=crush, refuse=refuse, convert=convert, channels=channels)


def cases(rng, tier):
    inf = float("inf")
    for f in (0., 1e-6, .5, 20., 1e3, 4e4, 1e6, inf, 1e9):
        yield 'lowpass', dict(f=f)
    for b in range(-2, 20):
        yield 'refuse', dict(what='bits', n=b)
    for b in list(range(-2, 20)) + [32, 64, 96, 128, 256, 512]:
        yield 'refuse', dict(what='factor', n=b)
    for f in (2, 4, 8, 16, 32, 64, 128):
        for c in (0, 1, 2):
            yield 'subsample', dict(factor=f, channels=c)
    for k in range(1, 6):
        yield 'channels', dict(k=k, seed=rng.randrange(10 ** 6))
    for d in ('int8', 'int16', 'int32'):
        for s in range(3):
            yield 'convert', dict(dtype=d, seed=s, shape=[2, 50])
    for b in range(16):
        yield 'crush', dict(bits=b, seed=b, shape=[BUFFER_SIZE])
        yield 'crush', dict(bits=b, seed=b, shape=[2, 7])
    for _ in range(3000 if tier == 'thorough' else 250):
        shape = rng.choice([[BUFFER_SIZE], [2, BUFFER_SIZE], [3]])
        s = rng.randrange(10 ** 6)
        yield 'gain', dict(g=rng.choice([0., 1., -1., rng.uniform(-5, 5)]), seed=s, shape=shape, signal=rng.random() < .3)
        lo = rng.choice([0., -1., rng.uniform(-1e4, 1e4)])
        yield 'transformer', dict(lo=lo, hi=lo + rng.choice([1e-3, 1., 2., rng.uniform(.1, 1e4)]))
        x0 = rng.choice([0., -1., rng.uniform(-100, 100)])
        yield 'ranges', dict(x0=x0, x1=x0 + rng.choice([1., -1., rng.uniform(.1, 50), -rng.uniform(.1, 50)]), y0=rng.uniform(-100, 100), y1=rng.uniform(-100, 100))
        yield 'blend', dict(w=rng.choice([0., 1., .5, rng.uniform(-1, 2)]), seed=s, shape=shape)
        lo = rng.uniform(-5, 5)
        yield 'clip', dict(x=rng.choice([rng.uniform(-9, 9), lo]), lo=lo, hi=lo + rng.choice([0., rng.uniform(0, 5)]))
        yield 'distortion', dict(seed=s, shape=shape, drive=rng.choice([0., 1., -3., rng.uniform(0, 50)]))
        yield 'crush', dict(bits=rng.randrange(16), seed=s, shape=shape)
        n = rng.randrange(1, 12)
        fixed = (rng.uniform(.1, 40), rng.random(), rng.random(), rng.random())
        yield 'tremolo', dict(settings=[fixed if rng.random() < .3 else (rng.uniform(.1, 900), rng.choice([0., 1., rng.random()]), rng.choice([0., 1., .001, rng.random()]), rng.choice([0., 1., .5, rng.random()])) for _ in range(n)],
                              stereo=rng.random() < .5, seed=s)


if __name__ == '__main__':
    main('C26', CHECKS, cases)

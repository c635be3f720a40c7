import contextlib
import io
import os
import tempfile
import wave
from common import *
import numpy as np
from klang.audio import wavfile as W
from klang.config import SAMPLING_RATE
from klang.math import normalize_values

SHAPES = ('c', 'f', 'view', 'back', 'list', 'readonly', 'float32', 'int')


def make(m, n, seed, how, scale, offset=0.):
    r = np.random.RandomState(seed)
    a = scale * (r.uniform(-1, 1, (m, n)) + offset)
    if seed % 5 == 0:
        a[r.randint(m), r.randint(n)] = -3 * scale          # a single loud sample, negative
    if how == 'f':
        return np.asfortranarray(a)
    if how == 'view':
        b = np.zeros((2 * m, n + 1))
        b[::2, 1:] = a
        return b[::2, 1:]
    if how == 'back':
        return a[::-1]
    if how == 'list':
        return a.tolist()
    if how == 'readonly':
        a.setflags(write=False)
    if how == 'float32':
        return a.astype(np.float32)
    if how == 'int':
        a = np.round(a / scale * 100).astype(int)
        a.flat[0] = 77
    return a


@contextlib.contextmanager
def scratch():
    with tempfile.TemporaryDirectory(prefix='klang-C35-') as d:
        yield os.path.join(d, 'x.wav')


def expect_scaled(got, a, top, what):
    """One factor for all samples, loudest at full scale, less than a step off."""
    a = np.asarray(a, float)
    expect(got.shape == a.shape, '%s: shape %r of a sound of shape %r', what, got.shape, a.shape)
    want = a / np.abs(a).max() * top
    off = np.abs(got.astype(float) - want)
    i = np.unravel_index(off.argmax(), off.shape)
    expect(off.max() <= 1 + top * 1e-6, '%s: sample %r is %r instead of %r', what, i, got[i], want[i])
    loud = np.abs(a) == np.abs(a).max()
    expect((np.abs(got[loud].astype(float)) >= top * (1 - 1e-6) - 1).all(), '%s: loudest sample is %r', what, got[loud][:3])
    expect((np.sign(got) * np.sign(a) >= 0).all(), '%s: sign of a sample', what)


def save(m, n, seed, how, scale, offset, rate, dtype):
    a = make(m, n, seed, how, scale, offset)
    before = np.array(a)
    with scratch() as p:
        kw = {}
        if rate:
            kw['samplingRate'] = rate
        if dtype:
            kw['dtype'] = getattr(np, dtype)
        W.write_wave(a, p, **kw)
        expect(os.listdir(os.path.dirname(p)) == ['x.wav'], 'files: %r', os.listdir(os.path.dirname(p)))
        expect(np.array_equal(np.array(a), before), 'the sound was changed')
        width = 4 if dtype == 'int32' else 2
        with wave.open(p, 'rb') as w:
            expect(w.getframerate() == (rate or SAMPLING_RATE), 'rate %r', w.getframerate())
            expect((w.getnchannels(), w.getnframes(), w.getsampwidth()) == (n, m, width), 'channels, frames and width: %r', (w.getnchannels(), w.getnframes(), w.getsampwidth()))
            raw = np.frombuffer(w.readframes(m), '<i%d' % width).reshape(m, n)
        expect_scaled(raw, a, 2 ** (8 * width - 1) - 1, 'file')
        if width == 2:
            r, back = W.load_wave(p)
            expect(r == (rate or SAMPLING_RATE), 'rate back: %r', r)
            expect(np.array_equal(back, raw / 32768), 'read back: off by %g', np.abs(back - raw / 32768).max() if back.shape == raw.shape else -1)
        else:
            refused(W.load_wave, p)


def refused(f, *args):
    try:
        r = f(*args)
    except ValueError:
        return
    expect(False, 'not refused: %r', r)


def silence(m, n):
    a = np.zeros((m, n))
    refused(normalize_values, a)
    with scratch() as p:
        refused(W.write_wave, a, p)
        expect(not os.path.exists(p), 'silence leaves a file')
        a[m - 1, n - 1] = -1e-9
        W.write_wave(a, p)
        _, b = W.load_wave(p)
        expect(b.shape == (m, n) and b[m - 1, n - 1] < -.999 and np.abs(b).sum() < 1.001, 'all but one sample silent: %r', b)


def load(m, n, width, rate, seed, how):
    r = np.random.RandomState(seed)
    raw = r.randint(-2 ** 15, 2 ** 15, (m, n)).astype('<i2')
    if m:
        raw.flat[r.randint(m * n)] = -2 ** 15
        raw.flat[0] = 2 ** 15 - 1
    data = raw.tobytes() if width == 2 else bytes(r.randint(0, 256, m * n * width).astype(np.uint8))
    with scratch() as p:
        with wave.open(p, 'wb') as w:
            w.setnchannels(n)
            w.setsampwidth(width)
            w.setframerate(rate)
            w.writeframes(data)
        f = p
        if how == 'buffer':
            with open(p, 'rb') as g:
                f = io.BytesIO(g.read())
        if width != 2:
            refused(W.load_wave, f)
            return
        got, back = W.load_wave(f)
        expect(got == rate, 'rate %r', got)
        expect(back.shape == (m, n), 'shape %r of %d frames, %d channels', back.shape, m, n)
        expect(np.array_equal(back, raw / 32768.), 'samples: %r instead of %r', back[:3], raw[:3] / 32768.)


def normal(m, n, seed, how, scale, offset):
    a = np.asarray(make(m, n, seed, how, scale, offset))
    before = a.copy()
    for x in (a, a[:, 0]):
        if not x.any():
            continue
        y = normalize_values(x)
        expect(y.shape == x.shape and np.allclose(y * np.abs(x).max(), x, rtol=1e-6), 'not one factor')
        expect(np.abs(y).max() == 1, 'largest magnitude %r', np.abs(y).max())
    expect(np.array_equal(a, before), 'signal was changed')


CHECKS = dict(save=save, silence=silence, load=load, normal=normal)


def cases(rng, tier):
    for m, n in ((2, 1), (3, 2), (256, 1), (1000, 2), (6, 4)):
        for how in SHAPES:
            yield 'save', dict(m=m, n=n, seed=rng.randrange(10 ** 6), how=how, scale=rng.choice([1., .01, 40.]), offset=rng.choice([0., 0., 2., -2.]), rate=rng.choice([None, 8000, 11025, 48000]), dtype=rng.choice([None, None, 'int16', 'int32']))
    for dtype in (None, 'int16', 'int32'):
        yield 'save', dict(m=500, n=2, seed=4, how='c', scale=1., offset=0., rate=None, dtype=dtype)
        yield 'save', dict(m=500, n=2, seed=5, how='c', scale=1., offset=3., rate=22050, dtype=dtype)
    for m, n in ((2, 1), (300, 1), (5, 2)):
        yield 'silence', dict(m=m, n=n)
    for m, n in ((0, 1), (0, 2), (1, 1), (1, 2), (7, 1), (7, 2), (100, 3), (3, 6), (5000, 2)):
        for how in ('path', 'buffer'):
            yield 'load', dict(m=m, n=n, width=2, rate=rng.choice([8000, 44100, 48000]), seed=rng.randrange(10 ** 6), how=how)
    for m in (70000, 300000):
        yield 'load', dict(m=m, n=2, width=2, rate=44100, seed=3, how='path')
        yield 'save', dict(m=m, n=1, seed=7, how='c', scale=1., offset=0., rate=None, dtype=None)
    for width in (1, 3, 4):
        for n in (1, 2):
            yield 'load', dict(m=12, n=n, width=width, rate=44100, seed=1, how='path')
    for _ in range(400 if tier == 'thorough' else 60):
        d = dict(m=rng.randrange(5, 700), n=rng.randrange(1, 5), seed=rng.randrange(10 ** 6), how=rng.choice(SHAPES), scale=10. ** rng.randrange(-6, 5), offset=rng.choice([0., rng.uniform(-3, 3)]))
        yield 'normal', d
        yield 'save', dict(d, rate=rng.choice([None, 8000, 11025, 96000, rng.randrange(4000, 10 ** 5)]), dtype=rng.choice([None, 'int16', 'int32']))
        yield 'load', dict(m=rng.randrange(700), n=rng.randrange(1, 5), width=2, rate=rng.randrange(1000, 10 ** 5), seed=rng.randrange(10 ** 6), how=rng.choice(['path', 'buffer']))


if __name__ == '__main__':
    main('C35', CHECKS, cases)

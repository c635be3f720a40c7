import numpy as np

from common import *
from klang.audio import effects as E
from klang.config import BUFFER_SIZE as B, SAMPLING_RATE as SR, TEMPO
from klang.connections import Output
from klang.music.tempo import note_duration


def reference(D, fb, mix, xs):
    """Outputs for consecutive blocks, sample by sample."""
    w, out = [0.] * D, []
    for x in xs:
        y = np.empty(B)
        for i in range(B):
            old = w[len(w) - D]
            y[i] = (1 - mix) * x[i] + mix * old
            w.append(x[i] + fb * old)
        out.append(y)
    return out


def signal(rng, kind, n, channels):
    shape = (channels, B) if channels else (B,)
    xs = []
    for k in range(n):
        x = np.zeros(shape)
        if kind == 'impulse':
            if k == 0:
                x[..., 3] = 1.
        elif kind == 'noise':
            x = rng.uniform(-1, 1, shape)
        else:
            x += k + 1
        xs.append(x)
    return xs


def delay(time, fb, mix, n, channels, kind, seed, connected=False):
    rng = np.random.RandomState(seed)
    d = E.Delay(time, fb, mix)
    sec = float(note_duration(time)) if isinstance(time, Fraction) else time
    xs = signal(rng, kind, n, channels)
    mono = [x.mean(axis=0) if channels else x.copy() for x in xs]
    want = reference(int(sec * SR), fb, mix, mono)
    got = []
    o = Output()
    buf = np.zeros_like(xs[0])
    if connected:
        o.connect(d.input)
        o.set_value(buf)
    for x, y, m in zip(xs, want, mono):
        if connected:
            buf[:] = x      # source that reuses its output array
            x = buf
        else:
            d.input.set_value(x)
        keep = x.copy()
        d.update()
        r = d.output.value
        expect(np.shape(r) == (B,) and np.allclose(r, y, atol=1e-9), 'block %d differs by %s', len(got), np.abs(np.subtract(r, y)).max() if np.shape(r) == (B,) else np.shape(r))
        expect(np.array_equal(keep, x), 'input was modified')
        got.append((r, np.array(r, copy=True)))
    for r, k in got:
        expect(np.array_equal(r, k), 'earlier output was modified')


def stereo(times, fbs, mix, n, seed):
    rng = np.random.RandomState(seed)
    d = E.StereoDelay(times[0], times[1], fbs[0], fbs[1], mix)
    xs = signal(rng, 'noise', n, 2)
    want = [reference(int(t * SR), f, mix, [x[c] for x in xs]) for c, (t, f) in enumerate(zip(times, fbs))]
    src = Output()
    src.connect(d.input)
    for k, x in enumerate(xs):
        src.set_value(x)
        d.update()
        y = d.output.value
        expect(np.shape(y) == (2, B), 'shape %r', np.shape(y))
        for c in (0, 1):
            expect(np.allclose(y[c], want[c][k], atol=1e-9), 'channel %d of block %d differs by %s', c, k, np.abs(y[c] - want[c][k]).max())


def accept(time):
    sec = float(note_duration(time)) if isinstance(time, Fraction) else time
    try:
        E.Delay(time)
        ok = True
    except ValueError:
        ok = False
    expect(ok == (sec <= E.Delay.MAX_TIME), 'delay time %s (%s s) %s', time, sec, 'accepted' if ok else 'refused')


CHECKS = dict(delay=delay, stereo=stereo, accept=accept)


def cases(rng, tier):
    for t in (B / SR, .01, .5, 1., 1.9999, 2., 2.0001, 2.5, 3, 10., Fraction(1, 4), Fraction(1, 64), Fraction(1), Fraction(5, 4), Fraction(101, 100), Fraction(99, 100), Fraction(2), Fraction(3), Fraction(1, 1000)):
        yield 'accept', dict(time=t)
    yield 'delay', dict(time=Fraction(1, 128), fb=.5, mix=.7, n=8, channels=0, kind='noise', seed=1)
    for _ in range(600 if tier == 'thorough' else 60):
        s = rng.randrange(10 ** 6)
        D = rng.choice([B, B + 1, 2 * B, 2 * B - 1, rng.randrange(B, 5 * B)])
        fb, mix = rng.choice([0., .1, .9, rng.uniform(-1, 1)]), rng.choice([0., 1., .5, rng.random()])
        yield 'delay', dict(time=(D + .5) / SR, fb=fb, mix=mix, n=rng.randrange(1, 14), channels=rng.choice([0, 0, 1, 2, 3]), kind=rng.choice(['noise', 'impulse', 'step']), seed=s, connected=rng.random() < .5)
        if s % 3 == 0:
            yield 'stereo', dict(times=[(D + .5) / SR, (rng.randrange(B, 4 * B) + .5) / SR], fbs=[fb, .3], mix=mix, n=rng.randrange(1, 10), seed=s)
            yield 'accept', dict(time=rng.choice([rng.uniform(.01, 4), Fraction(rng.randrange(1, 50), rng.randrange(10, 40))]))


if __name__ == '__main__':
    main('C13', CHECKS, cases)

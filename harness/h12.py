import io
import wave

import numpy as np

from common import *
from klang.audio.sampling import VALID_MODES, AudioFile, Sample
from klang.config import BUFFER_SIZE as B, SAMPLING_RATE as SR


def make(n, channels):
    d = np.arange(1., n + 1)
    return d if not channels else d[:, None] + 10000. * np.arange(channels)


class Oracle:
    def __init__(self, n, start, stop, loop):
        self.n, self.start, self.stop, self.loop = n, start, n if stop is None else stop, loop
        self.pos = start

    def take(self, k):
        out = []
        for _ in range(k):
            if self.pos == self.stop:
                if not self.loop:
                    break
                self.pos = self.start
            out.append(self.pos)
            self.pos += 1
        if self.loop and self.pos == self.stop:
            self.pos = self.start
        return out


def playback(n, channels, start, stop, loop, mode, ops):
    data = make(n, channels)
    keep = data.copy()
    s = Sample(SR, data, start=start, stop=stop, loop=loop, mode=mode)
    o = Oracle(n, start, stop, loop)
    for k, (op, *a) in enumerate(ops):
        if op == 'rewind':
            s.rewind()
            o.pos = o.start
        elif op == 'trim':
            s.trim(*a)
            o.start, o.stop = a
            o.pos = min(max(o.pos, o.start), o.stop)
        else:
            got = np.array(s.callback(a[0]) if op == 'callback' else s.read(a[0]), copy=True)
            want = o.take(a[0])
            expect(len(got) == len(want), 'operation %d: %s(%d) returned %d frames instead of %d', k, op, a[0], len(got), len(want))
            expect(len(want) == 0 or np.array_equal(got, data[want]), 'operation %d: %s(%d) returned frames %s.. instead of %s..', k, op, a[0], (got if not channels else got[:, 0])[:8], [w + 1 for w in want[:8]])
            expect(op == 'read' or got.ndim == data.ndim, 'layout')
        if not loop:
            expect(s.playing == (o.pos < o.stop), 'operation %d: playing is %s at %d', k, s.playing, o.pos)
        elif op not in ('trim',):
            expect(s.playing, 'operation %d: a looping sample stopped', k)
    expect(np.array_equal(keep, data), 'data was modified')


def marks(n, start, stop):
    end = n if stop is None else stop
    ok = 0 <= start < end <= n
    try:
        s = Sample(SR, make(n, 0), start=start, stop=stop, mode='crude')
    except AssertionError:
        expect(not ok, 'marks %s, %s refused for %d frames', start, stop, n)
        return
    expect(ok, 'marks %s, %s accepted for %d frames', start, stop, n)
    expect((s.start, s.stop, s.currentIndex) == (start, end, start), 'marks or position')


def wav(n, channels):
    raw = ((np.arange(n * channels).reshape(n, channels) + 777 * np.arange(channels) ** 2) % 30000 + 1).astype(np.int16)
    f = io.BytesIO()
    with wave.open(f, 'wb') as w:
        w.setnchannels(channels)
        w.setsampwidth(2)
        w.setframerate(SR)
        w.writeframes(raw.tobytes())
    f.seek(0)
    return f, raw


def audio_file(n, channels, blocks, mono, loop, start, stop, pauses, moves=()):
    f, raw = wav(n, channels)
    a = AudioFile(f, mono, mode='crude', loop=loop, start=start, stop=stop)
    data = a.sample.data
    ch = 1 if mono else channels
    ref = raw.mean(axis=1, keepdims=True) if mono else raw
    expect(data.shape == (n, ch) and np.allclose(data * 2 ** 15, ref, atol=1.01), 'loaded data')
    o = Oracle(n, start, stop, loop)
    playing = False
    for k in range(blocks):
        if k == 0:
            a.play()
            playing = True
        elif k in pauses:
            (a.pause if playing else a.play)()
            playing = not playing
        for j, what in moves:
            if j == k:
                getattr(a, what)()
                o.pos = o.start
                playing = playing and what == 'rewind'
        expect(close(a.playingPosition, o.pos / SR) and close(a.duration, n / SR), 'block %d: at %r of %r s instead of %r of %r s', k, a.playingPosition, a.duration, o.pos / SR, n / SR)
        a.update()
        y = a.output.value
        y2 = y if np.ndim(y) == 2 else np.reshape(y, (1, -1))
        expect(y2.shape == (ch, B), 'block %d has shape %s', k, np.shape(y))
        want = np.zeros((ch, B))
        if playing:
            idx = o.take(B)
            if idx:
                want[:, :len(idx)] = data[idx].T
            playing = loop or o.pos < o.stop
        expect(np.array_equal(y2, want), 'block %d differs', k)
        expect(a.playing == playing, 'block %d: playing is %s', k, a.playing)


def again(n, channels, start, stop, loop, mode, rate, speed, first, sizes):
    """A rewound sample plays what it played the first time, in every mode and at every speed."""
    data = np.sin(np.arange(n) * .05) + .1 * np.cos(np.arange(n) * 1.3)
    if channels:
        data = data[:, None] * np.arange(1., channels + 1)
    s = Sample(rate, data, start=start, stop=stop, loop=loop, mode=mode, playbackSpeed=speed)
    fresh = Sample(rate, data, start=start, stop=stop, loop=loop, mode=mode, playbackSpeed=speed)
    for k in first:
        s.read(k)
    s.rewind()
    expect(s.currentIndex == start, 'a rewound sample stands at %d instead of %d', s.currentIndex, start)
    for j, k in enumerate(sizes):
        got, want = np.array(s.read(k), copy=True), np.array(fresh.read(k), copy=True)
        expect(got.shape == want.shape and np.array_equal(got, want), 'read %d after rewinding differs from the first time', j)


CHECKS = dict(again=again, playback=playback, marks=marks, audio_file=audio_file)


def cases(rng, tier):
    for n in (3, 7):
        for start in range(-1, n + 1):
            for stop in [None] + list(range(1, n + 2)):
                yield 'marks', dict(n=n, start=start, stop=stop)
    for n, a, b, k in ((10, 0, 10, 3), (10, 2, 7, 3), (10, 2, 7, 13), (300, 1, 2, 5), (300, 0, 300, 256), (256, 0, 256, 256), (512, 0, 256, 256), (600, 100, 600, 256)):
        for loop in (False, True):
            for op in ('callback', 'read'):
                yield 'playback', dict(n=n, channels=0, start=a, stop=b, loop=loop, mode='very_crude', ops=[(op, k)] * 8 + [('rewind',)] + [(op, k)] * 3)
    for _ in range(4000 if tier == 'thorough' else 400):
        n = rng.choice([rng.randrange(3, 20), rng.randrange(3, 700)])
        a = rng.randrange(0, n)
        b = rng.choice([None, rng.randrange(a + 1, n + 1)])
        ch = rng.choice([0, 0, 1, 2])
        ops = []
        for _ in range(rng.randrange(1, 12)):
            x = rng.random()
            k = rng.choice([0, 1, rng.randrange(1, 12), rng.randrange(1, 2 * n), B])
            if x < .1:
                ops.append(('rewind',))
            elif x < .25:
                c = rng.randrange(0, n)
                ops.append(('trim', c, rng.randrange(c + 1, n + 1)))
            elif x < .7:
                ops.append(('callback', k))
            else:
                ops.append(('read', k or 1))
        yield 'playback', dict(n=n, channels=ch, start=a, stop=b, loop=rng.random() < .5, mode=rng.choice(['crude', 'very_crude']), ops=ops)
    for mode in sorted(VALID_MODES):
        for _ in range(20 if tier == 'thorough' else 4):
            n = rng.randrange(600, 4000)
            a = rng.choice([0, rng.randrange(0, n - 300)])
            yield 'again', dict(n=n, channels=rng.choice([0, 1, 2]), start=a, stop=rng.randrange(a + 200, n), loop=rng.random() < .6, mode=mode, rate=rng.choice([SR, 22050, 48000]), speed=rng.choice([1., .5, 1.3, 2.]),
                                first=[rng.choice([B, 100]) for _ in range(rng.randrange(1, 5))], sizes=[rng.choice([B, 100, 7]) for _ in range(4)])
    for _ in range(300 if tier == 'thorough' else 30):
        n = rng.randrange(200, 2000)
        a = rng.randrange(0, n)
        yield 'audio_file', dict(n=n, channels=rng.choice([1, 2, 2, 3]), blocks=12, mono=rng.random() < .3, loop=rng.random() < .4, start=a, stop=rng.choice([None, rng.randrange(a + 1, n + 1)]), pauses=[k for k in range(1, 12) if rng.random() < .2], moves=[[k, rng.choice(['rewind', 'stop'])] for k in range(1, 12) if rng.random() < .15])


if __name__ == '__main__':
    main('C12', CHECKS, cases)

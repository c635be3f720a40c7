import contextlib
import io
import types
from common import *

stub = types.ModuleType('pyaudio')
stub.paContinue, stub.paComplete, stub.paAbort, stub.paFloat32 = 0, 1, 2, 1
sys.modules.setdefault('pyaudio', stub)
import numpy as np
import klang.audio.klanggeber as kg
import klang.klang as kk
from klang.block import Block
from klang.clock import ClockMixin
from klang.config import BUFFER_SIZE as B, SAMPLING_RATE as RATE
from klang.progress_bar import ProgressBar

ProgressBar.stream = io.StringIO()


def wave(i, cycle, shape):
    """What source i puts out in a cycle."""
    if shape == 'scalar':
        return float(i)
    n = B if shape == 'mono' else shape * B
    a = np.cos(np.arange(n) * (.01 + .003 * i) + cycle * 1.7 + i)
    return a if shape == 'mono' else a.reshape(shape, B)


class Source(Block, ClockMixin):
    def __init__(self, i, shape, trace):
        super().__init__(nInputs=1, nOutputs=1)
        self.i, self.shape, self.trace, self.cycle = i, shape, trace, 0
        self.value = None

    def update(self):
        self.trace.append((self.cycle, self.i, self.clock()))
        self.last = wave(self.i, self.cycle, self.shape)
        self.output.set_value(self.last)
        self.cycle += 1


def whole_blocks(duration):
    x = Fraction(duration) * RATE / B
    n = x.numerator // x.denominator
    near = abs(x - round(x)) < Fraction(1, 10 ** 6)
    return n, near


def ports(n):
    for b, some, none in ((kg.Dac(n), 'inputs', 'outputs'), (kg.Adc(n), 'outputs', 'inputs')):
        ps = getattr(b, some)
        expect(len(ps) == n == b.nChannels and len({id(p) for p in ps}) == n and not getattr(b, none), '%d ports for %d channels', len(ps), n)
        for p in ps:
            expect(p.owner is b and p.value.shape == (B,) and not p.value.any(), 'a port that is not silent')
    expect(len(kg.Dac().inputs) == kg.Dac().nChannels == 1, 'default output')


def render(duration, fadeout, shapes, channels, chained=False, save=True):
    trace = []
    srcs = [Source(i, s, trace) for i, s in enumerate(shapes)]
    dac = kg.Dac(nChannels=channels)
    if len(dac.inputs) < len(srcs):
        from klang.connections import Input
        dac.inputs = [Input(owner=dac) for _ in srcs]
    dac.inputs = dac.inputs[:len(srcs)]
    for s, i in zip(srcs, dac.inputs):
        s.output.connect(i)
    if chained:
        for a, b in zip(srcs, srcs[1:]):
            a.output.connect(b.input)
    n, near = whole_blocks(duration)
    saved = []
    old, now = kg.write_wave, ClockMixin.currentTime
    kg.write_wave = lambda samples, path, *a, **k: saved.append((np.array(samples), path))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            kk.run_klang(dac, duration=duration, fadeout=fadeout, filepath='render.wav' if save else '', offline=True)
    finally:
        kg.write_wave = old
        ClockMixin.currentTime = now
    per = {}
    for c, i, t in trace:
        per.setdefault(c, []).append((i, t))
    ran = len(per)
    expect(ran == n or near and abs(ran - n) <= 1, '%d cycles instead of %d', ran, n)
    for c, seen in per.items():
        expect(sorted(i for i, _ in seen) == list(range(len(srcs))), 'cycle %d updates %r', c, seen)
        expect(not chained or [i for i, _ in seen] == list(range(len(srcs))), 'cycle %d out of order: %r', c, seen)
        expect(all(close(t, c * B / RATE, abs_=1e-7) for _, t in seen), 'cycle %d: clock %r instead of %g', c, seen, c * B / RATE)
    if not save:
        return
    expect(len(saved) == 1 and saved[0][1] == 'render.wav', 'file written %d times', len(saved))
    got = saved[0][0]
    expect(got.shape == (ran * B, channels), 'shape %r', got.shape)
    for c in range(ran):
        rows = []
        for i, s in enumerate(shapes):
            w = wave(i, c, s)
            rows.extend([] if s == 'scalar' else [w] if s == 'mono' else list(w))
        t = c * B / RATE + np.arange(B) / RATE
        start = duration - fadeout
        scale = np.ones(B) if fadeout <= 0 else np.clip(np.where(t < start, 1., (duration - t) / fadeout), 0, 1)
        for ch in range(channels):
            want, x = rows[ch] * scale, got[c * B:(c + 1) * B, ch]
            err = np.abs(want - x).max()
            tol = 1e-5 + (0 if fadeout <= 0 else 1e-6 / fadeout)
            expect(err < tol, 'cycle %d channel %d: off by %g at sample %d', c, ch, err, int(np.abs(want - x).argmax()))


def bar(length):
    got = []
    for i in ProgressBar.range(length, prefix='x'):
        got.append(i)
    expect(got == list(range(length)), 'counted %r', got[:20])


def collect(shapes, channels):
    dac = kg.Dac(nChannels=channels)
    from klang.connections import Input
    dac.inputs = [Input(owner=dac) for _ in shapes]
    rows, kept = [], []
    for i, (inp, s) in enumerate(zip(dac.inputs, shapes)):
        w = wave(i, 3, s)
        inp.set_value(w)
        kept.append((w, np.array(w)))
        rows.extend([] if s == 'scalar' else [w] if s == 'mono' else list(w))
    try:
        got = dac.collect_samples()
    except kg.ChannelMismatch:
        expect(len(rows) < channels, '%d channels refused for %d', len(rows), channels)
        return
    expect(len(rows) >= channels, '%d channels accepted for %d', len(rows), channels)
    expect(got.shape == (B, channels) and got.flags.c_contiguous, 'shape %r', got.shape)
    for ch in range(channels):
        expect(np.abs(got[:, ch] - rows[ch]).max() < 1e-6, 'channel %d', ch)
    again = dac.collect_samples()
    expect(not np.shares_memory(got, again), 'blocks share memory')
    got[:] = 7
    expect(all(np.array_equal(a, b) for a, b in kept), 'signals changed')


CHECKS = dict(render=render, ports=ports, bar=bar, collect=collect)


def cases(rng, tier):
    for n in range(7):
        yield 'ports', dict(n=n)
    blk = B / RATE
    for n in list(range(0, 5)) + [20, 100]:
        yield 'bar', dict(length=n)
    for f in (1., 1.5, 2.2, 3.999, 7.3):
        for fade in (0., .3 * blk, blk, 1.7 * blk, 20 * blk):
            yield 'render', dict(duration=f * blk, fadeout=fade, shapes=['mono'], channels=1)
    yield 'render', dict(duration=.4 * blk, fadeout=0., shapes=['mono'], channels=1, save=False)
    yield 'render', dict(duration=0., fadeout=0., shapes=['mono'], channels=1, save=False)
    yield 'render', dict(duration=.5, fadeout=.013, shapes=['mono', 2], channels=3)
    for _ in range(1500 if tier == 'thorough' else 150):
        shapes = [rng.choice(['mono', 1, 2, 3, 'mono', 'scalar']) for _ in range(rng.randrange(0, 4))]
        have = sum(0 if s == 'scalar' else 1 if s == 'mono' else s for s in shapes)
        yield 'collect', dict(shapes=shapes, channels=rng.randrange(1, 6))
        if have:
            yield 'render', dict(duration=rng.uniform(1, 9) * blk, fadeout=rng.choice([0., rng.uniform(0, 9) * blk, rng.uniform(0, 1) * blk]),
                                 shapes=shapes, channels=rng.randrange(1, have + 1), chained=rng.random() < .5 and len(shapes) > 1)


if __name__ == '__main__':
    main('C24', CHECKS, cases)

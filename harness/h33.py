import contextlib
import io
import itertools
import logging
import math
import types
from common import *

stub = types.ModuleType('pyaudio')
stub.paContinue, stub.paComplete, stub.paAbort, stub.paFloat32 = 0, 1, 2, 1
stub.paInputUnderflow, stub.paInputOverflow = 1, 2
sys.modules['pyaudio'] = stub
import numpy as np
import klang.audio.klanggeber as kg
import klang.klang as kk
from klang.block import Block
from klang.clock import ClockMixin
from klang.composite import Composite
from klang.config import BUFFER_SIZE as B, SAMPLING_RATE as RATE
from klang.connections import Input
from h24 import wave

logging.disable(logging.NOTSET)
for _name in ('Klang', 'KlangGeber'):
    logging.getLogger(_name).propagate = False
    logging.getLogger(_name).addHandler(logging.NullHandler())
BLOCK = B / RATE


class CardError(OSError):
    pass


class TooLong(BaseException):
    pass


def incoming(cycle, channel):
    return np.sin(np.arange(B) * (.02 + .005 * channel) + 2.3 * cycle + channel).astype(np.float32)


class World:
    def __init__(self, ins, outs, plan, hears, limit=200):
        self.events, self.opened, self.out, self.flags = [], None, [], []
        self.ins, self.outs, self.plan, self.hears, self.limit = ins, outs, list(plan), hears, limit
        self.active, self.cycle, self.polls, self.interrupted = False, 0, 0, False
        world = self

        class PyAudio:
            def __init__(self, *a, **k):
                world.events.append('init')

            def get_default_input_device_info(self):
                return dict(name='in', index=0, maxInputChannels=world.ins, maxOutputChannels=0)

            def get_default_output_device_info(self):
                return dict(name='out', index=1, maxInputChannels=0, maxOutputChannels=world.outs)

            def open(self, rate, channels, format, input=False, output=False, input_device_index=None, output_device_index=None, frames_per_buffer=1024, start=True, stream_callback=None, **kw):
                if not (input or output):
                    raise ValueError('Must specify an input or output stream.')
                if channels < 1:
                    raise OSError('Invalid number of channels')
                if input and channels > max(world.ins, 1) or output and channels > world.outs:
                    raise OSError('Invalid number of channels')
                world.events.append('open')
                world.opened = dict(rate=rate, channels=channels, format=format, input=bool(input), output=bool(output), frames=frames_per_buffer)
                world.callback = stream_callback
                return Stream()

            def terminate(self):
                world.events.append('terminate')

        class Stream:
            def start_stream(self):
                world.events.append('start')
                world.active = True

            def stop_stream(self):
                world.events.append('stop')
                world.active = False

            def close(self):
                world.events.append('close')
                world.active = False

            def is_active(self):
                return world.poll()
        self.PyAudio = PyAudio

    def poll(self):
        self.polls += 1
        if self.polls > self.limit:
            raise TooLong
        what = self.plan.pop(0) if self.plan else 1
        if what == 'interrupt':
            raise KeyboardInterrupt
        if what == 'error':
            raise CardError('unplugged')
        for _ in range(what):
            if self.active:
                self.ask()
        return self.active

    def sleep(self, seconds=0):
        if self.plan and self.plan[0] == 'sleep-interrupt':
            self.plan.pop(0)
            raise KeyboardInterrupt

    def ask(self):
        ch = self.opened['channels']
        data = None
        if self.opened['input'] and self.hears(self.cycle):
            data = np.stack([incoming(self.cycle, c) for c in range(ch)], axis=1).tobytes()
        res = self.callback(data, B, dict(current_time=self.cycle * BLOCK, input_buffer_adc_time=0., output_buffer_dac_time=0.), 2 if self.cycle % 5 == 4 else 0)
        self.cycle += 1
        expect(isinstance(res, tuple) and len(res) == 2, 'callback returned %r', type(res))
        data, flag = res
        expect(flag in (0, 1, 2), 'flag %r', flag)
        self.flags.append(flag)
        if self.opened['output']:
            raw = bytes(data) if not isinstance(data, np.ndarray) else data
            if isinstance(raw, np.ndarray):
                expect(raw.dtype == np.float32 and raw.flags.c_contiguous, 'samples of the wrong type')
                raw = raw.tobytes()
            expect(len(raw) == 4 * B * ch, '%d bytes for %d frames of %d channels', len(raw), B, ch)
            self.out.append(np.frombuffer(raw, np.float32).reshape(B, ch))
        if flag != 0:
            self.active = False


@contextlib.contextmanager
def patched(world, saved):
    import time
    old = kg.write_wave, stub.__dict__.get('PyAudio'), time.sleep, ClockMixin.currentTime
    kg.write_wave = lambda samples, path, *a, **k: saved.append((np.array(samples), path, list(world.events)))
    stub.PyAudio = world.PyAudio
    time.sleep = world.sleep
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        kg.write_wave, stub.PyAudio, time.sleep, ClockMixin.currentTime = old


class Source(Block, ClockMixin):
    def __init__(self, i, shape, trace, lost):
        super().__init__(nInputs=1, nOutputs=1)
        self.i, self.shape, self.trace, self.cycle, self.lost = i, shape, trace, 0, lost

    def update(self):
        self.trace.append((self.cycle, self.i, self.clock()))
        self.output.set_value(1. if self.lost == self.cycle else wave(self.i, self.cycle, self.shape))
        self.cycle += 1


class Tap(Block):
    def __init__(self, k, heard):
        super().__init__(nInputs=1, nOutputs=1)
        self.k, self.heard = k, heard

    def update(self):
        self.heard.append((self.k, np.array(self.input.value)))
        self.output.set_value(self.input.value)


def run(shapes, outs, ins, device, plan, duration=None, fadeout=0., save=False, lost=None, deaf=(), known=True):
    """A run with a sound card. plan: what happens when the engine looks at the stream: callbacks, interrupts, errors."""
    trace, heard, saved = [], [], []
    srcs = [Source(i, s, trace, lost) for i, s in enumerate(shapes)]
    blocks = list(srcs)
    adc = kg.Adc(ins) if ins else None
    if adc is not None:
        blocks.append(adc)
        for k, o in enumerate(adc.outputs):
            tap = Tap(k, heard)
            o.connect(tap.input)
            blocks.append(tap)
    if outs:
        dac = kg.Dac(outs)
        dac.inputs = [Input(owner=dac) for _ in srcs]
        for s, i in zip(srcs, dac.inputs):
            s.output.connect(i)
        blocks.append(dac)
    world = World(device[0], device[1], plan, lambda c: c not in deaf)
    kw = dict(fadeout=fadeout)
    if duration is not None:
        kw['duration'] = duration
    if save:
        kw['filepath'] = 'live.wav'
    err = None
    with patched(world, saved):
        try:
            kk.run_klang(*blocks, **kw)
        except (Exception, KeyboardInterrupt, TooLong) as e:
            err = e
    expect(not isinstance(err, TooLong), 'goes on after %d callbacks', world.cycle)
    if ins > device[0] or outs > device[1]:
        expect(isinstance(err, ValueError) and 'open' not in world.events and not trace, 'card with %r channels for %d inputs and %d outputs: %r %r', device, ins, outs, err, world.events)
        return
    if isinstance(err, CardError):
        expect('error' in plan and not saved, 'error, and %d files', len(saved))
    else:
        expect('error' not in plan or world.plan and 'error' in world.plan, 'error of the card lost')
        if not (save and not world.cycle - (lost is not None and lost < world.cycle)):
            if err is not None:
                raise Fail('run ended with %r' % (err,))
    expect([e for e in world.events if e != 'init'] == ['open', 'start', 'stop', 'close', 'terminate'], 'events %r', world.events)
    o = world.opened
    expect((o['rate'], o['frames'], o['format'], o['input'], o['output']) == (RATE, B, 1, ins > 0, outs > 0), 'opened as %r', o)
    expect(o['channels'] == (outs or ins), 'opened with %d channels', o['channels'])
    # every cycle
    n = world.cycle
    per = {}
    for c, i, t in trace:
        per.setdefault(c, []).append(i)
        expect(close(t, c * BLOCK, abs_=1e-7), 'cycle %d: clock shows %g instead of %g', c, t, c * BLOCK)
    expect(sorted(per) == list(range(n)) or not srcs, '%d callbacks, cycles %r', n, sorted(per)[-3:])
    expect(all(sorted(v) == list(range(len(srcs))) for v in per.values()), 'updates %r', per)
    if ins:
        expect(len(heard) == n * ins, '%d blocks heard in %d cycles of %d channels', len(heard), n, ins)
        last = {}
        for c in range(n):
            got = heard[c * ins:(c + 1) * ins]
            expect(sorted(k for k, _ in got) == list(range(ins)), 'channels heard: %r', [k for k, _ in got])
            for k, x in got:
                if c not in deaf and k < o['channels']:
                    last[k] = incoming(c, k)
                want = last.get(k, np.zeros(B))
                expect(np.shape(x) == (B,) and np.array_equal(x, want), 'cycle %d: input channel %d is not what came in', c, k)
    good = n
    for c in range(n):
        t = c * BLOCK + np.arange(B) / RATE
        if outs and lost == c:
            good = c
            expect(world.flags[c] == 2 and not world.out[c].any() and c == n - 1, 'missing channels in cycle %d: flag %d', c, world.flags[c])
            continue
        end = duration is not None and (c + 1) * BLOCK >= duration
        near = duration is not None and abs((c + 1) * BLOCK - duration) < 1e-6
        expect(world.flags[c] == (1 if end else 0) or near and world.flags[c] in (0, 1), 'cycle %d ends with flag %d', c, world.flags[c])
        if not outs:
            continue
        rows = []
        for i, s in enumerate(shapes):
            w = wave(i, c, s)
            rows.extend([w] if s == 'mono' else list(w))
        scale = np.ones(B)
        if duration is not None:
            with np.errstate(all='ignore'):
                scale = np.where(t < duration - fadeout, 1., np.clip((duration - t) / fadeout, 0, 1) if fadeout > 0 else 0.)
        sure = np.ones(B, bool) if duration is None or fadeout > 0 else np.abs(t - duration) > 1e-7
        for ch in range(outs):
            e = np.abs(rows[ch] * scale - world.out[c][:, ch])[sure]
            expect(e.size == 0 or e.max() < 1e-5 + (1e-6 / fadeout if fadeout > 0 else 0), 'cycle %d channel %d: off by %g', c, ch, e.max() if e.size else 0)
    if save and err is None:
        expect(len(saved) == 1 and saved[0][1] == 'live.wav', '%d files', len(saved))
        want = np.concatenate(world.out[:good])
        expect(saved[0][0].shape == want.shape and np.array_equal(saved[0][0], want), 'file differs from what was played: %r frames of %r', saved[0][0].shape, want.shape)
        expect(saved[0][2][-1] == 'terminate', 'written while the card is open')
    elif not save:
        expect(not saved, 'a file was written')


def first(kinds, device):
    """The first input and output block of an order count."""
    made = [kg.Adc(n) if k == 'adc' else kg.Dac(n) if k == 'dac' else Block(1, 1) for k, n in kinds]
    a, d = kg.look_for_audio_blocks(made)
    for name, x in (('adc', a), ('dac', d)):
        of = [b for b, (k, _) in zip(made, kinds) if k == name]
        expect(x is of[0] if of else x.nChannels == 0, 'not the first %s', name)


def inject(outs, channels):
    adc = kg.Adc(outs)
    adc.mute_outputs()
    x = np.stack([incoming(3, c) for c in range(channels)], axis=1) if channels else np.zeros((B, 0), np.float32)
    adc.inject_samples(x)
    for k, o in enumerate(adc.outputs):
        want = x[:, k] if k < channels else np.zeros(B)
        expect(np.array_equal(o.value, want), 'output %d', k)


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.texts = []

    def emit(self, r):
        self.texts.append(r.getMessage())


class Named(Block):
    def __init__(self, i):
        super().__init__(1, 1)
        self.i, self.runs = i, 0

    def update(self):
        self.runs += 1
        if self.runs == 4:
            raise KeyboardInterrupt

    def __str__(self):
        return '<block-%d->' % self.i


def build(tree, made):
    out = []
    for x in tree:
        if isinstance(x, (list, tuple)):
            c = Composite(0, 0)
            c.execOrder = build(x, made)
            out.append(c)
        else:
            out.append(made.setdefault(x, Named(x)))
    return out


def flat(tree):
    for x in tree:
        if isinstance(x, (list, tuple)):
            yield from flat(x)
        else:
            yield x


def repeated(tree):
    made = {}
    order = build(tree, made)
    want = list(flat(tree))
    expect([getattr(b, 'i', None) for b in kk.unravel(order)] == want, 'taken apart: %r', [getattr(b, 'i', None) for b in kk.unravel(order)])
    logger, rec = logging.Logger('test'), Records()
    logger.addHandler(rec)
    kk.validate_global_execution_order(order, logger)
    twice = {x for x in want if want.count(x) > 1}
    expect(bool(rec.texts) == bool(twice), 'repeated: %r, warned: %r', twice, rec.texts)
    text = '\n'.join(rec.texts)
    for x in made:
        name = '<block-%d->' % x
        expect((name in text) == (x in twice), 'block %d in %r', x, text)
        if x in twice:
            line = [l for l in text.split('\n') if name in l][0]
            expect(str(want.count(x)) in line.replace(name, ''), 'number of times in %r', line)


def warned(shared):
    """A whole run, without audio, of a composite around blocks which are also in the network."""
    rec, logger = Records(), logging.getLogger('Klang')
    logger.addHandler(rec)
    inner, outer = Named(1), Named(2)
    comp = Composite(1, 1)
    comp.execOrder = [inner]
    outer.output.connect(comp.input)
    blocks = [outer] + ([inner] if shared else [])
    clock = Clock(0.1, [.0001])
    try:
        with clock:
            try:
                kk.run_klang(*blocks)
            except KeyboardInterrupt:
                pass
    finally:
        logger.removeHandler(rec)
    expect(('<block-1->' in '\n'.join(rec.texts)) == shared, 'shared: %r, warnings %r', shared, rec.texts)


class Clock:
    """Faked time."""

    def __init__(self, start, over):
        self.now, self.over = start, itertools.cycle(over)

    def perf_counter(self):
        return self.now

    def sleep(self, seconds):
        if seconds < 0:
            raise ValueError('sleep length must be non-negative')
        self.now += seconds + next(self.over)

    def __enter__(self):
        import time
        self.old = [(n, getattr(time, n)) for n in ('sleep', 'perf_counter', 'monotonic', 'time')], ClockMixin.currentTime
        for n in ('perf_counter', 'monotonic', 'time'):
            setattr(time, n, self.perf_counter)
        time.sleep = self.sleep
        return self

    def __exit__(self, *a):
        import time
        for n, f in self.old[0]:
            setattr(time, n, f)
        ClockMixin.currentTime = self.old[1]


class Worker(Block, ClockMixin):
    def __init__(self, i, trace, clock, takes, cycles):
        super().__init__(1, 1)
        self.i, self.trace, self.fake, self.takes, self.count, self.cycles = i, trace, clock, itertools.cycle(takes), 0, cycles

    def update(self):
        if self.count == self.cycles:
            raise KeyboardInterrupt
        self.trace.append((self.count, self.i, self.clock(), self.fake.now))
        self.count += 1
        self.fake.now += next(self.takes)


def loop(start, over, takes, blocks, cycles):
    """The main loop without audio, with faked time."""
    fake, trace = Clock(start, over), []
    workers = [Worker(i, trace, fake, [t] if i == 0 else [0.], cycles) for i in range(blocks) for t in takes[:1]]
    workers[0].takes = itertools.cycle(takes)
    for a, b in zip(workers, workers[1:]):
        a.output.connect(b.input)
    err = None
    with fake:
        try:
            kk.run_klang(workers[-1])
        except (KeyboardInterrupt, TooLong) as e:
            err = e
    expect(isinstance(err, KeyboardInterrupt), 'ended with %r', err)
    expect([(c, i) for c, i, *_ in trace] == [(c, i) for c in range(cycles) for i in range(blocks)], 'updates %r', [x[:2] for x in trace[:8]])
    last, done = -1., start
    for c in range(cycles):
        ts = {t for k, i, t, _ in trace if k == c}
        expect(len(ts) == 1, 'several times in a cycle: %r', ts)
        t, = ts
        began = [now for k, i, _, now in trace if k == c][0]
        expect(abs(t / BLOCK - round(t / BLOCK)) < 1e-6, 'cycle %d at %g, %g blocks', c, t, t / BLOCK)
        expect(t >= last - 1e-9, 'time runs backwards: %g after %g', t, last)
        expect(began >= t - 1e-9, 'cycle %d runs at %g, before its time %g', c, began, t)
        expect(t >= done - 1e-6 * BLOCK and t < done + BLOCK * (1 + 1e-6), 'cycle %d at %g: not the next one after %g', c, t, done)
        last = t
        after = [now for k, i, _, now in trace if k == c][-1]
        done = after + (takes[c % len(takes)] if blocks == 1 else 0.)


def nothing():
    try:
        kk.run_klang()
    except ValueError:
        return
    raise Fail('run without blocks')


CHECKS = dict(run=run, first=first, inject=inject, repeated=repeated, warned=warned, loop=loop, nothing=nothing)


def cases(rng, tier):
    yield 'nothing', {}
    for o in range(4):
        for c in range(5):
            yield 'inject', dict(outs=o, channels=c)
    for shared in (False, True):
        yield 'warned', dict(shared=shared)
    for tree in ([], [1], [1, 1], [1, 2, 3], [[]], [[1], 1], [[1], [1]], [[[1, 2], 3], [4, [5, [1]]]], [[[1, 2], 3], [4, [5, [6]]], 7], [[], [[]]], [1, [2, [3, [2]]]]):
        yield 'repeated', dict(tree=tree)
    base = dict(device=[8, 8], plan=[1] * 40)
    for d in (0., .3, 1., 1.5, 2., 4.7):
        for fade in (0., .4, 1.7, 9.):
            yield 'run', dict(base, shapes=['mono'], outs=1, ins=0, duration=d * BLOCK, fadeout=fade * BLOCK, save=fade > 0)
    for outs, ins, shapes in ((2, 2, [2]), (2, 1, ['mono', 'mono']), (1, 2, ['mono']), (3, 1, ['mono', 2]), (1, 3, [2]), (0, 1, []), (0, 2, []), (0, 2, ['mono']), (4, 4, [2, 2])):
        yield 'run', dict(base, shapes=shapes, outs=outs, ins=ins, duration=5.5 * BLOCK, deaf=[2], save=outs > 0)
        yield 'run', dict(base, shapes=shapes, outs=outs, ins=ins, plan=[0, 2, 3, 'interrupt'], save=outs > 0)
        for device in ([ins, outs], [max(ins - 1, 0), outs], [ins, max(outs - 1, 0)]):
            yield 'run', dict(shapes=shapes, outs=outs, ins=ins, device=device if device[1] >= outs and device[0] >= max(ins, outs if ins else 0) else device if device[1] < outs or device[0] < ins else [max(ins, outs), outs],
                              plan=[1, 1, 1, 1], duration=2.5 * BLOCK)
    for plan in (['interrupt'], [2, 'interrupt'], [2, 'sleep-interrupt', 1], ['error'], [1, 'error'], [3, 3, 3], [0, 0, 1, 0, 2]):
        for save in (False, True):
            yield 'run', dict(base, shapes=['mono'], outs=1, ins=0, plan=plan, duration=None if 'interrupt' in str(plan) or 'error' in plan else 4.2 * BLOCK, save=save)
    for lost in (0, 1, 3):
        for save in (False, True):
            yield 'run', dict(base, shapes=['mono', 'mono'], outs=2, ins=0, lost=lost, duration=9.5 * BLOCK, save=save)
    for kinds in ([], [['dac', 2], ['dac', 1]], [['adc', 1], ['x', 0], ['dac', 3], ['adc', 2]], [['x', 0]]):
        yield 'first', dict(kinds=kinds, device=None)
    for start in (0., .1, 123.456, 7 * BLOCK, 1e5):
        for over in ([0.], [1e-4], [.3 * BLOCK, 0.], [2.5 * BLOCK, 0.]):
            for takes in ([1e-5], [.4 * BLOCK], [1.7 * BLOCK, .1 * BLOCK]):
                for n in (1, 3):
                    yield 'loop', dict(start=start, over=over, takes=takes, blocks=n, cycles=7)
    for _ in range(1200 if tier == 'thorough' else 120):
        shapes = [rng.choice(['mono', 2, 3, 'mono']) for _ in range(rng.randrange(1, 4))]
        have = sum(1 if s == 'mono' else s for s in shapes)
        outs, ins = rng.randrange(1, have + 1), rng.randrange(0, 4)
        plan = [rng.randrange(0, 4) for _ in range(rng.randrange(0, 8))]
        end = rng.choice(['duration', 'duration', 'interrupt', 'sleep-interrupt', 'error'])
        if end != 'duration':
            plan += [end] if end != 'sleep-interrupt' else [1, end]
        yield 'run', dict(shapes=shapes, outs=outs, ins=ins, device=[8, 8], plan=plan, duration=rng.uniform(0, 12) * BLOCK if end == 'duration' else None,
                          fadeout=rng.choice([0., 0., rng.uniform(0, 9) * BLOCK]) if end == 'duration' else 0., save=rng.random() < .6,
                          lost=rng.choice([None, None, rng.randrange(0, 6)]), deaf=[c for c in range(12) if rng.random() < .2])

        def tree(depth):
            return [tree(depth - 1) if depth and rng.random() < .3 else rng.randrange(0, 9) for _ in range(rng.randrange(0, 4))]
        yield 'repeated', dict(tree=tree(4))
        yield 'loop', dict(start=rng.uniform(0, 1e4), over=[rng.choice([0., rng.uniform(0, 3) * BLOCK]) for _ in range(3)], takes=[rng.choice([1e-6, rng.uniform(0.01, 3) * BLOCK]) for _ in range(3)],
                           blocks=rng.randrange(1, 4), cycles=rng.randrange(1, 12))


if __name__ == '__main__':
    main('C33', CHECKS, cases)

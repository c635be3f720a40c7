import numpy as np

from common import *
from klang.audio.mixer import Mixer, StereoMixer
from klang.audio.panning import panning_amplitudes
from klang.block import Block, mix_operator
from klang.config import BUFFER_SIZE as B
from klang.connections import Output


def sides(p, mode, law):
    p = min(max(p, -1.), 1.)
    a = np.pi / 4 * (1 + p)
    lin, circ = np.array([.5 * (1 - p), .5 * (1 + p)]), np.array([np.cos(a), np.sin(a)])
    amp = {'linear': lin, 'constant_power': circ, 'mixture': np.sqrt(np.maximum(lin * circ, 0))}[mode]
    if law is not None:
        c = {'linear': .5, 'constant_power': np.cos(np.pi / 4), 'mixture': np.sqrt(.5 * np.cos(np.pi / 4))}[mode]
        amp = np.abs(amp) ** ((law - 20 * np.log10(2)) / (40 * np.log10(c)))
    return amp


class Rig:
    """A mixer with a shadow list of (gain, panning, source) per channel."""

    def __init__(self, stereo, n, gains, pannings, mode, law):
        self.stereo, self.mode, self.law = stereo, mode, law
        kw = dict(mode=mode, panLaw=law) if stereo else {}
        if gains is not None:
            kw['gains'] = gains
        if stereo and pannings is not None:
            kw['pannings'] = pannings
        self.m = (StereoMixer if stereo else Mixer)(n, **kw)
        self.rows = [[1. if gains is None else gains[i], 0. if pannings is None else pannings[i], Output()] for i in range(n)]
        for i, r in enumerate(self.rows):
            r[2].connect(self.m.inputs[i])

    def add(self, how, gain, panning):
        m = self.m
        if how in ('method', 'loose'):
            kw = {}
            if gain is not None:
                kw['gain'] = gain
            if panning is not None and self.stereo:
                kw['panning'] = panning
            m.add_new_channel(**kw)
            o = m.inputs[-1]        # not connected: has a value of its own
            if how == 'method':
                o = Output()
                m.inputs[-1].set_value(7.)
                o.connect(m.inputs[-1])
        else:
            gain = panning = None
            b = Block(nOutputs=1)
            o = b.output
            x = b if how != 'output' else o
            if how == 'sum':
                r = m + x
            elif how == 'rsum':
                r = m.__radd__(x)
            else:
                m += x
                r = m
            expect(r is self.m, 'adding returned another object')
        self.rows.append([1. if gain is None else gain, 0. if panning is None else panning, o])

    def check(self, rng, what):
        m, n = self.m, len(self.rows)
        expect(len(m.inputs) == n and len(m.gains) == n, '%s: %d inputs and %d gains for %d channels', what, len(m.inputs), len(m.gains), n)
        expect(not self.stereo or len(m.pannings) == n, '%s: pannings', what)
        expect([float(g) for g in m.gains] == [float(r[0]) for r in self.rows], '%s: gains %r instead of %r', what, m.gains, [r[0] for r in self.rows])
        expect(not self.stereo or [float(g) for g in m.pannings] == [float(r[1]) for r in self.rows], '%s: pannings', what)
        want = np.zeros((2, B)) if self.stereo else np.zeros(B)
        kept = []
        for g, p, o in self.rows:
            kind = rng.choice(['block', 'block', 'number', 'stereo' if self.stereo else 'block', 'same'])
            if kind == 'same' and kept:
                x = kept[0][0]
            elif kind == 'number':
                x = rng.uniform(-1, 1)
            else:
                x = np.array([rng.uniform(-1, 1) for _ in range(B)])
                if kind == 'stereo':
                    x = np.array([x, np.roll(x, 7)])
            o.set_value(x)
            kept.append((x, np.array(x, copy=True)))
            want = want + g * (sides(p, self.mode, self.law)[:, None] if self.stereo else 1.) * np.asarray(x)
        if n > 1:
            want = want / n
        m.update()
        y = m.output.value
        expect(np.shape(y) == want.shape and np.allclose(y, want, atol=1e-9), '%s: output differs', what)
        expect(all(np.array_equal(a, b) for a, b in kept), '%s: an input was modified', what)
        return y, np.array(y, copy=True)


def mixer(stereo, n, gains, pannings, mode, law, ops, seed):
    rng = random.Random(seed)
    rig = Rig(stereo, n, gains, pannings, mode, law)
    twin = Rig(stereo, n, gains, pannings, mode, law)       # same lists
    old = [rig.check(rng, 'new')]
    for k, (op, *a) in enumerate(ops):
        if op == 'add':
            rig.add(*a)
        elif op == 'add twin':
            twin.add(*a)
        elif op == 'gain' and rig.rows:
            i = a[0] % len(rig.rows)
            rig.m.gains[i] = rig.rows[i][0] = a[1]
        elif op == 'pan' and rig.rows and stereo:
            i = a[0] % len(rig.rows)
            rig.m.pannings[i] = rig.rows[i][1] = a[1]
        old.append(rig.check(rng, 'after %d operations' % (k + 1)))
        twin.check(rng, 'twin after %d operations' % (k + 1))
    expect(all(np.array_equal(a, b) for a, b in old), 'an earlier output was modified')


def operator(a, b, seed):
    rng = np.random.RandomState(seed)
    x, y = [Block(nOutputs=1) for _ in range(2)]
    m = mix_operator(x if a else x.output, y if b else y.output)
    u, v = rng.uniform(-1, 1, (2, B))
    x.output.set_value(u)
    y.output.set_value(v)
    m.update()
    expect(np.allclose(m.output.value, (u + v) / 2), 'mix of two')
    expect(len(m.gains) == len(m.inputs) == 2, 'channels')


CHECKS = dict(mixer=mixer, operator=operator)


def cases(rng, tier):
    for a in (0, 1):
        for b in (0, 1):
            yield 'operator', dict(a=a, b=b, seed=a + 2 * b)
    pan = lambda: rng.choice([-1., 0., 1., 1.5, -2, rng.uniform(-1, 1)])
    gain = lambda: rng.choice([0., 1., -1., 2, rng.uniform(-2, 2)])
    for _ in range(1500 if tier == 'thorough' else 150):
        stereo = rng.random() < .6
        n = rng.randrange(0, 5)
        ops = []
        for _ in range(rng.randrange(0, 7)):
            x = rng.random()
            if x < .5:
                ops.append((rng.choice(['add', 'add twin']), rng.choice(['method', 'loose', 'block', 'output', 'sum', 'rsum']), rng.choice([None, gain()]), rng.choice([None, pan()])))
            elif x < .75:
                ops.append(('gain', rng.randrange(9), gain()))
            else:
                ops.append(('pan', rng.randrange(9), pan()))
        yield 'mixer', dict(stereo=stereo, n=n, gains=[gain() for _ in range(n)] if rng.random() < .5 else None, pannings=[pan() for _ in range(n)] if rng.random() < .5 and stereo else None,
                            mode=rng.choice(['linear', 'constant_power', 'mixture']), law=rng.choice([None, None, -3., -4.5, -6.]), ops=ops, seed=rng.randrange(10 ** 6))


if __name__ == '__main__':
    main('C10', CHECKS, cases)

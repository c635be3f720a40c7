"""C08: envelopes against a reference stage machine."""
import copy
import math

import numpy as np

from common import *

load_extensions()
import warnings
warnings.simplefilter('ignore')
from klang.audio._envelope import Envelope
from klang.audio import envelopes as LE
from klang.audio.helpers import DT
from klang.config import BUFFER_SIZE
from klang.messages import Note

OFF, ATTACK, DECAY, SUSTAIN, RELEASE = range(5)


class Reference:
    """One pole stages towards a target beyond the end of the stage."""

    def __init__(self, attack, decay, sustain, release, dt, overshoot=1e-3, retrigger=False, loop=False):
        self.p = dict(attack=attack, decay=decay, sustain=sustain, release=release, overshoot=min(max(overshoot, 1e-9), 1e9))
        self.dt, self.retrigger, self.loop = dt, retrigger, loop
        self.stage, self.value, self.enabled = OFF, 0., False

    def coef(self, t):
        rate, o = t / self.dt, self.p['overshoot']
        return 0. if rate <= 0 else math.exp(-math.log((1 + o) / o) / rate)

    def gate(self, on):
        self.enabled = on
        if on and (self.retrigger or self.stage in (OFF, RELEASE)):
            self.stage = ATTACK
        elif not on and self.stage in (ATTACK, DECAY, SUSTAIN):
            self.stage = RELEASE

    def step(self):
        p, o, v = self.p, self.p['overshoot'], self.value
        if self.stage == OFF:
            v = 0.
        elif self.stage == ATTACK:
            c = self.coef(p['attack'])
            v = (1 + o) * (1 - c) + v * c
            if v >= 1:
                v, self.stage = 1., DECAY
        elif self.stage == DECAY:
            c = self.coef(p['decay'])
            v = (p['sustain'] - o) * (1 - c) + v * c
            if v <= p['sustain']:
                v, self.stage = p['sustain'], RELEASE if self.loop else SUSTAIN
        elif self.stage == SUSTAIN:
            v = p['sustain']
        else:
            c = self.coef(p['release'])
            v = (0 - o) * (1 - c) + v * c
            if v <= 0:
                v, self.stage = 0., ATTACK if self.loop and self.enabled else OFF
        self.value = v
        return v


def follow(settings, script):
    """script: numbers of samples, 'on', 'off', ('set', name, value)."""
    e = Envelope(**settings)
    r = Reference(**settings)
    expect(not e.active, 'a new envelope is active')
    for i, s in enumerate(script):
        if s == 'on' or s == 'off':
            e.gate(s == 'on')
            r.gate(s == 'on')
        elif isinstance(s, (tuple, list)):
            name, v = s[1], s[2]
            try:
                setattr(e, name, v)
            except ValueError:
                expect(name not in ('retrigger', 'loop') and (v < 0 or name == 'sustain' and v > 1), 'step %d: %s=%r was refused', i, name, v)
                continue
            if name in ('retrigger', 'loop'):
                setattr(r, name, bool(v))
                expect(getattr(e, name) == bool(v), 'step %d: %s is %r', i, name, getattr(e, name))
            else:
                expect(v >= 0 and (name != 'sustain' or v <= 1), 'step %d: %s=%r was accepted', i, name, v)
                r.p[name] = min(max(v, 1e-9), 1e9) if name == 'overshoot' else v
                expect(getattr(e, name) == r.p[name], 'step %d: %s is %r', i, name, getattr(e, name))
        else:
            before, stage = r.value, r.stage
            y = e.sample(s)
            expect(len(y) == s, 'step %d: %d samples instead of %d', i, len(y), s)
            for j, u in enumerate(y.tolist()):
                stage = r.stage
                before = r.value
                want = r.step()
                # at the very end of a stage rounding may move the change by one sample: follow the envelope then
                expect(0 <= u <= 1, 'step %d sample %d: %r is outside 0..1', i, j, u)
                expect(close(u, want, 1e-7, 1e-7), 'step %d sample %d: %r, expected %r (stage %d, from %r)', i, j, u, want, stage, before)
        expect(bool(e.active) == (r.stage != OFF), 'step %d (%r): active is %r, stage is %d', i, s, e.active, r.stage)


def partition(settings, gates, cuts):
    """n samples at once equal the same samples in pieces."""
    a, b = Envelope(**settings), Envelope(**settings)
    for i, (on, n) in enumerate(gates):
        a.gate(on)
        b.gate(on)
        whole = a.sample(n).tolist()
        parts, left, j = [], n, 0
        while left > 0:
            c = min(left, cuts[j % len(cuts)]) if cuts[j % len(cuts)] or any(cuts) else left
            parts += b.sample(c).tolist()
            left -= c
            j += 1
            if j > 10 * n + 10:
                break
        expect(whole == parts[:n], 'gate %d: %r at once, %r in pieces', i, whole[:20], parts[:20])
        expect(a.active == b.active, 'gate %d: active %r at once, %r in pieces', i, a.active, b.active)


def again(settings, second, n):
    """Initialised again with other settings while running: goes on from where it is, with the new settings."""
    e = Envelope(**settings)
    r = Reference(**settings)
    e.gate(True)
    r.gate(True)
    for u in e.sample(n).tolist():
        r.step()
    e.__init__(**second)
    q = Reference(**second)
    q.stage, q.value, q.enabled = r.stage, r.value, r.enabled
    q.retrigger, q.loop = second.get('retrigger', r.retrigger), second.get('loop', r.loop)
    q.p['overshoot'] = second.get('overshoot', r.p['overshoot'])
    expect(bool(e.retrigger) == q.retrigger and bool(e.loop) == q.loop, 'flags are retrigger=%r loop=%r', e.retrigger, e.loop)
    expect(bool(e.active) == (q.stage != OFF), 'active is %r', e.active)
    for j, u in enumerate(e.sample(30).tolist()):
        expect(close(u, q.step(), 1e-7, 1e-7), 'sample %d after the second initialisation: %r, expected %r', j, u, q.value)


CLASSES = dict(ADSR=lambda a: dict(attack=a[0], decay=a[1], sustain=a[2], release=a[3]), AR=lambda a: dict(attack=a[0], decay=0., sustain=1., release=a[1]),
               D=lambda a: dict(attack=0., decay=a[0], sustain=0., release=a[0]), R=lambda a: dict(attack=0., decay=0., sustain=1., release=a[0]))


def block(cls, args, kwargs, turns, copied=None):
    """Envelope blocks: notes of a turn are gates before the samples of this turn."""
    b = getattr(LE, cls)(*args, **kwargs)
    mk = lambda: Reference(dt=DT, **dict(dict(CLASSES[cls](args), overshoot=LE.DEFAULT_OVERSHOOT), **kwargs))
    r = mk()
    for i, gates in enumerate(turns):
        if copied == i:
            b, r = copy.deepcopy(b), mk()
        for on in gates:
            b.trigger.push(Note(pitch=60, velocity=.5 if on else 0.))
            r.gate(on)
        b.update()
        y = b.output.get_value()
        expect(len(y) == BUFFER_SIZE, 'turn %d: %d samples', i, len(y))
        for j, u in enumerate(y.tolist()):
            want = r.step()
            expect(0 <= u <= 1, 'turn %d sample %d: %r is outside 0..1', i, j, u)
            expect(close(u, want, 1e-6, 1e-6), 'turn %d sample %d: %r, expected %r', i, j, u, want)
        expect(bool(b.active) == (r.stage != OFF), 'turn %d: active is %r', i, b.active)
        expect(b.current_level == y[-1], 'turn %d: level %r', i, b.current_level)
        expect(b.trigger.receive().__next__ if False else len(list(b.trigger.receive())) == 0, 'turn %d: notes are left', i)


CHECKS = dict(follow=follow, partition=partition, again=again, block=block)


def S(a, d, s, r, o=1e-3, rt=False, loop=False, dt=1.):
    return dict(attack=a, decay=d, sustain=s, release=r, dt=dt, overshoot=o, retrigger=rt, loop=loop)


def cases(rng, tier):
    base = [S(4.3, 5.1, .4, 6.7), S(0., 0., .5, 0.), S(3.3, 4.4, 0., 2.2), S(3.3, 4.4, 1., 2.2), S(5.5, 7.7, .3, 3.3, o=.3), S(5.5, 7.7, .3, 3.3, o=100.),
            S(5.5, 0., .3, 8.8), S(0., 6.6, .25, 7.7), S(2.2, 3.3, .6, 2.7, loop=True), S(2.2, 3.3, .6, 2.7, rt=True), S(2.2, 3.3, .6, 2.7, rt=True, loop=True),
            S(0., 0., .5, 0., loop=True), S(-1., -2., .5, -3.), S(.0043, .0051, .4, .0067, dt=.001)]
    scripts = [['on', 60, 'off', 60], [5, 'on', 1, 'off', 2, 'on', 3, 'off', 50, 'off', 3], ['on', 2, 'on', 3, 'on', 20, 'on', 20, 'off', 2, 'on', 40],
               ['off', 3, 'on', 'off', 5, 'on', 7, 'off', 40], ['on', 8, ('set', 'loop', True), 60, 'off', 30], ['on', 0, 1, 0, 30, 'off', 0, 30, 10],
               ['on', 30, ('set', 'sustain', .9), 5, ('set', 'sustain', .1), 5, ('set', 'sustain', 1.5), 5, ('set', 'sustain', -.5), 'off', 30],
               ['on', 3, ('set', 'attack', 20.), 3, ('set', 'attack', -1.), 3, ('set', 'attack', 1.), 20, 'off', 2, ('set', 'release', 9.), 30],
               ['on', 3, ('set', 'overshoot', 3.), 5, ('set', 'decay', 3.), 5, ('set', 'overshoot', 0.), 9, 'off', ('set', 'overshoot', -1.), 40],
               ['on', 60, ('set', 'retrigger', True), 'on', 30, 'off', 3, 'on', 20, ('set', 'retrigger', False), 'on', 5, 'off', 60]]
    for b in base:
        for s in scripts:
            yield 'follow', dict(settings=b, script=s)
        yield 'partition', dict(settings=b, gates=[(True, 25), (False, 25), (True, 40)], cuts=[1])
        yield 'partition', dict(settings=b, gates=[(True, 25), (False, 7), (True, 40), (False, 30)], cuts=[3, 0, 5])
        for n in (0, 1, 3, 9, 30):
            for b2 in base[:3] + base[8:11]:
                yield 'again', dict(settings=b, second=b2, n=n)
            yield 'again', dict(settings=b, second=dict(attack=3.3, decay=2.2, sustain=.5, release=7.7, dt=1.), n=n)
    ms = .001
    for copied in (None, 0, 2):
        for turns in ([[True], [], [], [False], [], []], [[], [True], [False], [True], [True], [False, True], [True, False], [], []]):
            for kw in ({}, dict(loop=True), dict(retrigger=True), dict(overshoot=.5)):
                yield 'block', dict(cls='ADSR', args=[5 * ms, 9 * ms, .6, 13.3 * ms], kwargs=kw, turns=turns, copied=copied)
                yield 'block', dict(cls='AR', args=[5 * ms, 13.3 * ms], kwargs=kw, turns=turns, copied=copied)
                yield 'block', dict(cls='D', args=[13.3 * ms], kwargs=kw, turns=turns, copied=copied)
                yield 'block', dict(cls='R', args=[9.1 * ms], kwargs=kw, turns=turns, copied=copied)
    while True:
        t = lambda: rng.choice([0., rng.uniform(.3, 4), rng.uniform(1, 20)])
        b = S(t(), t(), rng.choice([0., .5, 1., rng.random()]), t(), rng.choice([1e-3, .1, 1e-9, 10., rng.uniform(.01, 2)]), rng.random() < .3, rng.random() < .3)
        k = rng.random()
        if k < .7:
            s = []
            for _ in range(rng.randrange(2, 14)):
                q = rng.random()
                s.append('on' if q < .3 else 'off' if q < .5 else rng.randrange(0, 25) if q < .9 else
                         ('set',) + rng.choice([('loop', rng.random() < .5), ('retrigger', rng.random() < .5), ('sustain', rng.uniform(0, 1)), ('attack', t()),
                                                ('decay', t()), ('release', t()), ('overshoot', rng.uniform(0, 2))]))
            yield 'follow', dict(settings=b, script=s)
        elif k < .85:
            yield 'partition', dict(settings=b, gates=[(rng.random() < .6, rng.randrange(1, 40)) for _ in range(rng.randrange(1, 6))], cuts=[rng.randrange(1, 9) for _ in range(3)])
        else:
            turns = [[rng.random() < .5 for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] for _ in range(8)]
            c = rng.choice(list(CLASSES))
            u = lambda: rng.choice([0., rng.uniform(.1, 20) * ms])
            args = dict(ADSR=lambda: [u(), u(), rng.random(), u()], AR=lambda: [u(), u()], D=lambda: [u()], R=lambda: [u()])[c]()
            yield 'block', dict(cls=c, args=args, kwargs=rng.choice([{}, dict(loop=True), dict(retrigger=True), dict(loop=True, retrigger=True)]), turns=turns,
                                copied=rng.choice([None, None, 3]))


if __name__ == '__main__':
    main('C08', CHECKS, cases, journal=True)

import math

import numpy as np

from common import *
from klang.audio.panning import panning_amplitudes, pan_signal

MODES = ['linear', 'constant_power', 'mixture']
EPS = 1e-9


def amps(level, mode, law):
    a = np.asarray(panning_amplitudes(level, mode, law), dtype=float)
    expect(a.shape == (2, 1), 'shape %r', a.shape)
    return float(a[0, 0]), float(a[1, 0])


def laws(level, mode, law=None):
    l, r = amps(level, mode, law)
    expect(l == l and r == r and -EPS <= l <= 1 + EPS and -EPS <= r <= 1 + EPS, 'amplitudes %r, %r outside [0, 1]', l, r)
    a = panning_amplitudes(level, mode, law)
    try:
        a[:] = 7.       # what callers do with their amplitudes is their business
    except (TypeError, ValueError):
        pass
    expect(amps(level, mode, law) == (l, r), 'amplitudes %r after an earlier caller changed its own, %r before', amps(level, mode, law), (l, r))
    if law is None and mode == 'linear':
        expect(close(l + r, 1), 'left + right is %r', l + r)
    if law is None and mode == 'constant_power':
        expect(close(l * l + r * r, 1), 'left^2 + right^2 is %r', l * l + r * r)
    if level <= -1:
        expect(close(l, 1, 1e-7, 1e-7) and abs(r) < 1e-6, 'left end has %r, %r', l, r)
    if level >= 1:
        expect(close(r, 1, 1e-7, 1e-7) and abs(l) < 1e-6, 'right end has %r, %r', l, r)
    l2, r2 = amps(-level, mode, law)
    expect(close(l2, r, 1e-7, 1e-7) and close(r2, l, 1e-7, 1e-7), 'negated level has %r, %r instead of %r, %r', l2, r2, r, l)
    if level == 0 and law is not None:
        db = 20 * math.log10(l * l + r * r)
        expect(close(db, law, 1e-6, 1e-6), 'centre has %r dB instead of %r', db, law)


def order(a, b, mode, law=None):
    la, ra = amps(a, mode, law)
    lb, rb = amps(b, mode, law)
    expect(lb <= la + EPS and rb >= ra - EPS, 'level %r -> %r: left %r -> %r, right %r -> %r', a, b, la, lb, ra, rb)


def signal(level, mode, law, x):
    a = np.array(panning_amplitudes(level, mode, law))
    s = np.array(x)
    keep = s.copy()
    y = pan_signal(s, level, mode, law)
    expect(np.array_equal(s, keep), 'signal was modified')
    ref = a * keep
    expect(y.shape == ref.shape and np.allclose(y, ref), 'panned signal differs')
    expect(np.array_equal(a, panning_amplitudes(level, mode, law)), 'amplitudes changed between calls')


def refused(level, mode, law):
    try:
        panning_amplitudes(level, mode, law)
    except (ValueError, AssertionError):
        return
    raise Fail('mode %r, pan law %r accepted' % (mode, law))


CHECKS = dict(laws=laws, order=order, signal=signal, refused=refused)


def cases(rng, tier):
    levels = [-1e9, -7., -2, -1.5, -1.0001, -1, -1., -.9999, -.75, -.5, -.25, -1e-9, 0, 0., 1e-9, .1, .25, .5, .75, .9999, 1, 1., 1.0001, 1.5, 2, 9., 1e9]
    laws_ = [None, 0, 0., -1e-6, -1, -3, -4.5, -6, -6.02, -12., -60]
    for m in MODES:
        for d in laws_:
            for v in levels:
                yield 'laws', dict(level=v, mode=m, law=d)
            for a, b in zip(levels, levels[1:]):
                yield 'order', dict(a=a, b=b, mode=m, law=d)
            for v in (-1.5, -.3, 0, .6):
                yield 'signal', dict(level=v, mode=m, law=d, x=[0., 1., -.5, .25])
                yield 'signal', dict(level=v, mode=m, law=d, x=[[0., 1., -.5], [.5, .25, 2.]])
        yield 'refused', dict(level=0, mode=m, law=1)
        yield 'refused', dict(level=0, mode=m, law=.001)
    yield 'refused', dict(level=0, mode='other', law=None)
    for _ in range(2500 if tier == 'quick' else 25000):
        m, d = rng.choice(MODES), rng.choice([None, -rng.random() * 20])
        a, b = sorted([rng.uniform(-1.3, 1.3), rng.uniform(-1.3, 1.3)])
        yield 'laws', dict(level=a, mode=m, law=d)
        yield 'order', dict(a=a, b=b, mode=m, law=d)
        yield 'laws', dict(level=0., mode=m, law=-rng.random() * 30)


if __name__ == '__main__':
    main('C11', CHECKS, cases)

import json
import math

from common import *
from klang.messages import Note
from klang.music import tunings

TUNINGS = sorted(tunings.TEMPERAMENTS)


def make(pitch, velocity, frequency):
    good = 0 <= pitch < 128 and 0 <= velocity <= 1 and (frequency is None or frequency >= 0)
    try:
        n = Note(pitch, velocity, frequency) if frequency is not None else Note(pitch, velocity)
    except ValueError:
        expect(not good, 'valid note (%r, %r, %r) refused', pitch, velocity, frequency)
        return None
    expect(good, 'invalid note (%r, %r, %r) accepted', pitch, velocity, frequency)
    expect(n.pitch == pitch and n.velocity == velocity, 'note (%r, %r) has pitch %r, velocity %r', pitch, velocity, n.pitch, n.velocity)
    if frequency is not None:
        expect(n.frequency == frequency, 'frequency %r became %r', frequency, n.frequency)
    else:
        expect(n.frequency == tunings.EQUAL_TEMPERAMENT.pitch_2_frequency(pitch), 'default frequency of pitch %r is %r', pitch, n.frequency)
    return n


def behave(n):
    expect(isinstance(n, Note), 'not a note: %r', n)
    expect(bool(n.on) == (n.velocity > 0) and bool(n.off) == (n.velocity == 0), 'note with velocity %r has on=%r, off=%r', n.velocity, n.on, n.off)
    s = n.silence()
    expect(isinstance(s, Note) and s.velocity == 0 and s.pitch == n.pitch and s.frequency == n.frequency and s.off and not s.on, 'silenced %r is %r', tuple(n), tuple(s))
    for m in (n, s):
        d = m.to_dict()
        keep = tuple(m)
        r = Note.from_dict(dict(d))
        expect(type(r) is Note and r == m, 'dictionary form of %r becomes %r', tuple(m), tuple(r))
        d2 = m.to_dict()
        expect(d2 == d, 'second dictionary form differs')
        t = m.to_json()
        expect(isinstance(t, str), 'text form is %r', t)
        r = Note.from_json(t)
        expect(type(r) is Note and r == m, 'text form of %r becomes %r', tuple(m), tuple(r))
        expect(Note.from_json(r.to_json()) == m and Note.from_dict(r.to_dict()) == m, 'second conversion differs')
        r = Note.from_json(json.dumps(json.loads(t), sort_keys=True, indent=2))
        expect(r == m, 'reformatted text form becomes %r', tuple(r))
        expect(tuple(m) == keep, 'note changed')


def note(pitch, velocity, frequency=None):
    n = make(pitch, velocity, frequency)
    if n is not None:
        behave(n)


def defaults(pitch, name):
    t = tunings.TEMPERAMENTS[name]
    n = Note(pitch, temperament=t)
    expect(n.velocity == 1 and n.frequency == t.pitch_2_frequency(pitch) and n.pitch == pitch, 'note %r in %s is %r', pitch, name, tuple(n))
    n2 = Note(pitch, .5, 100., t)
    expect(n2.frequency == 100., 'given frequency became %r', n2.frequency)
    behave(n)


def refused(pitch, velocity, frequency, other):
    d = Note(60, 1., 100.).to_dict()
    d.update(pitch=pitch, velocity=velocity, frequency=frequency)
    if other:
        d['type'] = other
    good = not other and 0 <= pitch < 128 and 0 <= velocity <= 1 and frequency >= 0
    for f, x in ((Note.from_dict, dict(d)), (Note.from_json, json.dumps(d))):
        try:
            f(x)
            ok = True
        except ValueError:
            ok = False
        expect(ok == good, 'dictionary %r is %s', d, 'accepted' if ok else 'refused')


CHECKS = dict(note=note, defaults=defaults, refused=refused)


def cases(rng, tier):
    ps = [-1, -.001, 0, .5, 1, 59, 60, 69, 126, 127, 127.5, 127.9999, 128, 129, 1000, nan, inf]
    vs = [-1, -1e-9, 0, 0., 1e-12, .001, .25, 1 / 3, .5, .999, 1, 1., 1.0000001, 2, nan, inf, 127]
    fs = [None, -1, -1e-12, 0, 0., 1e-9, 8.175798915643707, 100, 440, 440., 1e6, nan, inf]
    for p in ps:
        for v in vs:
            for f in fs:
                if f is None and p == p and 0 <= p < 128 and p != int(p):
                    continue     # tunings are defined for whole pitches
                yield 'note', dict(pitch=p, velocity=v, frequency=f)
    for p in range(128):
        for v in (0., .1 + .2, 1 / 7, 1.):
            yield 'note', dict(pitch=p, velocity=v, frequency=None)
        for name in TUNINGS[:6] if tier == 'quick' else TUNINGS:
            yield 'defaults', dict(pitch=p, name=name)
    for p in (-1, 0, 60, 128):
        for v in (-.5, 0, .5, 1, 1.5):
            for f in (-1, 0, 100):
                for o in (None, 'Other', 'note'):
                    yield 'refused', dict(pitch=p, velocity=v, frequency=f, other=o)
    for _ in range(3000 if tier == 'quick' else 50000):
        f = rng.choice([None, rng.uniform(0, 20000), 10 ** rng.uniform(-300, 300)])
        yield 'note', dict(pitch=rng.randint(0, 127) if f is None or rng.random() < .5 else rng.uniform(0, 128), velocity=rng.random(), frequency=f)


nan, inf = float('nan'), float('inf')

if __name__ == '__main__':
    main('C18', CHECKS, cases)

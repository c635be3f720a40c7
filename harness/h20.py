import numpy as np

from common import *
from klang.config import KAMMERTON
from klang.music import pitch as P, tunings as T


def near(a, b, what, *args):
    expect(close(float(a), float(b), 1e-9, 0), '%s: %r instead of %r' % (what % args if args else what, a, b))


def laws(t, cents, kammerton, pitches):
    near(t.pitch_2_frequency(69), kammerton, 'concert pitch')
    for p in pitches:
        f = t.pitch_2_frequency(p)
        near(t.pitch_2_frequency(p + 12), 2 * f, 'octave above %d', p)
        base = t.pitch_2_frequency(p - p % 12)
        if cents is not None:
            near(f, base * 2 ** ((cents[p % 12] - cents[0]) / 1200), 'interval of %d', p)
            near(f, kammerton * 2 ** ((cents[p % 12] - cents[9]) / 1200) * 2. ** (p // 12 - 5), 'frequency of %d', p)
    arr = np.asarray(t.pitch_2_frequency(np.array(pitches)))
    for p, f in zip(pitches, arr):
        near(f, t.pitch_2_frequency(p), 'array frequency of %d', p)


def given(cents, kammerton, pitches, kind):
    c = dict(list=list, tuple=tuple, array=np.array)[kind](cents)
    laws(T.Temperament(c, kammerton=kammerton, name='x'), cents, kammerton, pitches)
    laws(T.Temperament(c), cents, KAMMERTON, pitches[:3])
    expect(list(c) == list(cents), 'cents were modified')


def predefined(name, pitches):
    laws(T.TEMPERAMENTS[name], None, KAMMERTON, pitches)


def published():
    tables = dict(Pythagorean=[1, 12/11, 9/8, 6/5, 5/4, 4/3, 7/5, 3/2, 8/5, 5/3, 7/4, 11/6], Just=[1, 16/15, 9/8, 6/5, 5/4, 4/3, 45/32, 3/2, 8/5, 5/3, 9/5, 15/8])
    for name, ratios in tables.items():
        for i, r in enumerate(ratios):
            near(T.TEMPERAMENTS[name].ratios[i], r, '%s interval %d', name, i)
    for name in T.TEMPERAMENTS:
        expect(len(T.TEMPERAMENTS[name].ratios) == 12, 'intervals of %s', name)
    near(T.EQUAL_TEMPERAMENT.pitch_2_frequency(69), KAMMERTON, 'concert pitch')
    expect(T.TEMPERAMENTS['Equal'] is T.EQUAL_TEMPERAMENT or np.allclose(T.TEMPERAMENTS['Equal'].ratios, T.EQUAL_TEMPERAMENT.ratios), 'equal temperament')
    for p in range(0, 140):
        near(T.EQUAL_TEMPERAMENT.pitch_2_frequency(p), KAMMERTON * 2 ** ((p - 69) / 12), 'equal temperament of %d', p)


def cents(x):
    expect(close(T.ratio_2_cent(T.cent_2_ratio(x)), x, 1e-9, 1e-9), 'cents %r come back as %r', x, T.ratio_2_cent(T.cent_2_ratio(x)))
    near(T.cent_2_ratio(x + 1200), 2 * T.cent_2_ratio(x), 'ratio of an octave above %r cents', x)
    near(T.cent_2_ratio(x), 2 ** (x / 1200), 'ratio of %r cents', x)
    a = T.cent_2_ratio(np.array([x, x + 50.]))
    near(a[1], T.cent_2_ratio(x + 50), 'array')


def ratios(r):
    near(T.cent_2_ratio(T.ratio_2_cent(r)), r, 'ratio %r comes back', r)
    expect(close(T.ratio_2_cent(2 * r), T.ratio_2_cent(r) + 1200, 1e-9, 1e-9), 'cents of an octave above %r', r)


LETTERS = dict(C=0, D=2, E=4, F=5, G=7, A=9, B=11)


def names(p):
    n = P.pitch_2_note_name(p)
    expect(isinstance(n, str), 'note name of %d is %r', p, n)
    expect(P.note_name_2_pitch(n) == p, 'pitch %d is named %r, which is %r', p, n, P.note_name_2_pitch(n))
    expect(P.note_name_2_pitch(n.lower()) == p, 'lower-case %r', n)


def accidentals(letter, acc, octave):
    s = {'': 0, '#': 1, '##': 2, 'b': -1, 'bb': -2}[acc]
    for l in (letter, letter.lower()):
        r = P.note_name_2_pitch('%s%s%d' % (l, acc, octave))
        expect(r == 12 * (octave + 1) + LETTERS[letter] + s, '%s%s%d is pitch %r', l, acc, octave, r)


def unreadable(name):
    try:
        r = P.note_name_2_pitch(name)
    except (ValueError, KeyError):
        return
    raise Fail('%r is read as %r' % (name, r))


CHECKS = dict(given=given, predefined=predefined, published=published, cents=cents, ratios=ratios, names=names, accidentals=accidentals, unreadable=unreadable)


def cases(rng, tier):
    yield 'published', {}
    allp = list(range(-24, 160))
    for name in sorted(T.TEMPERAMENTS):
        yield 'predefined', dict(name=name, pitches=allp)
    for p in list(range(-60, 300)) + [1000, 1199, -999]:
        yield 'names', dict(p=p)
    for l in LETTERS:
        for a in ('', '#', '##', 'b', 'bb'):
            for o in list(range(-3, 13)) + [25, -11]:
                yield 'accidentals', dict(letter=l, acc=a, octave=o)
    for n in ('', 'H4', '4', '#4', 'X', '?', 'C', 'c#'):
        yield 'unreadable', dict(name=n)
    for x in [0, 0., 1, 100, 386.3, 701.955, 702, 1200, 1200., -50, -1200, 2400, 5000.5]:
        yield 'cents', dict(x=x)
    for r in [1, 1., 2, 1.5, 5 / 4, .5, 3, 1e-3, 12.7]:
        yield 'ratios', dict(r=r)
    for _ in range(400 if tier == 'quick' else 5000):
        c = sorted(rng.uniform(0, 1200) for _ in range(12)) if rng.random() < .7 else [rng.randint(-100, 1300) for _ in range(12)]
        yield 'given', dict(cents=c, kammerton=rng.choice([440, 440., 432., 415.3, rng.uniform(100, 1000)]), pitches=rng.sample(allp, 20), kind=rng.choice(['list', 'tuple', 'array']))
        yield 'cents', dict(x=rng.uniform(-5000, 5000))
        yield 'ratios', dict(r=2 ** rng.uniform(-8, 8))


if __name__ == '__main__':
    main('C20', CHECKS, cases)

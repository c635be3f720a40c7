import numpy as np

from common import *
from klang.music import chords as C, scales as S


def composition(code):
    ps = [p for p in range(12) if code >> p & 1] + [12]
    return [b - a for a, b in zip(ps, ps[1:])]


def scale(code):
    want = composition(code)
    s = S.code_2_scale(code)
    expect(list(s) == want, 'code %d gives scale %r instead of %r', code, list(s), want)
    expect(sum(s) == 12, 'intervals of %r add up to %r', list(s), sum(s))
    t = S.code_2_scale(code)
    t[:] = 0                        # the result belongs to the caller
    for x in (s, tuple(want), list(want)):
        k = S.scale_2_code(x)
        expect(k == code, 'scale %r gives code %r instead of %r', want, k, code)
        p = S.scale_2_pitches(x)
        expect(list(p) == [q for q in range(12) if code >> q & 1], 'scale %r has pitches %r', want, list(p))
        b = S.pitches_2_scale(p)
        expect(list(b) == want, 'pitches %r give scale %r', list(p), list(b))
        expect(list(x) == want, 'scale was modified')
    expect(list(S.ALL_POSSIBLE_SCALES[code]) == want, 'table has %r for code %d', list(S.ALL_POSSIBLE_SCALES[code]), code)


def pitches(code, order, octaves):
    ps = [q for q in range(12) if code >> q & 1]
    mixed = [ps[i] + 12 * o for i, o in zip(order, octaves)]
    keep = list(mixed)
    expect(list(S.pitches_2_scale(mixed)) == composition(code), 'pitches %r give scale %r', mixed, list(S.pitches_2_scale(mixed)))
    expect(mixed == keep, 'pitches were modified')


def known():
    for name, code in S.KNOWN_SCALES.items():
        s = S.find_scale(name)
        expect(S.scale_2_code(s) == code and sum(s) == 12, 'known scale %r', name)


def invert(chord, n, kind):
    x = dict(list=list, tuple=tuple, array=np.array)[kind](chord)
    m = len(chord)
    ref = list(chord)
    for _ in range(n):
        ref = ref[1:] + [ref[0] + 12]
    for _ in range(-n):
        ref = [ref[-1] - 12] + ref[:-1]
    r = C.invert_chord(x, n)
    expect(list(r) == ref, 'inversion %d of %r is %r instead of %r', n, chord, list(r), ref)
    expect(list(x) == list(chord), 'chord was modified')
    b = C.invert_chord(r, -n)
    expect(list(b) == list(chord), 'inversion %d and back of %r gives %r', n, chord, list(b))


def database():
    for name, chord in C.CHORDS.items():
        keep = list(chord)
        for n in range(-2 * len(keep), 2 * len(keep) + 1):
            invert(keep, n, 'array')
            C.invert_chord(C.find_chord(name), n)[:] = 99      # the result belongs to the caller
            expect(list(C.CHORDS[name]) == keep, 'chord %r was modified', name)


CHECKS = dict(scale=scale, pitches=pitches, known=known, invert=invert, database=database)


def cases(rng, tier):
    for code in range(1, 4096, 2):
        yield 'scale', dict(code=code)
    yield 'known', {}
    yield 'database', {}
    for _ in range(1500 if tier == 'quick' else 20000):
        code = rng.randrange(1, 4096, 2)
        m = bin(code).count('1')
        yield 'pitches', dict(code=code, order=rng.sample(range(m), m), octaves=[rng.randint(-2, 3) for _ in range(m)])
        k = rng.randint(1, 8)
        chord = sorted(rng.sample(range(-12, 40), k)) if rng.random() < .6 else [rng.randint(-20, 40) for _ in range(k)]
        yield 'invert', dict(chord=chord, n=rng.randint(-3 * k, 3 * k), kind=rng.choice(['list', 'tuple', 'array']))


if __name__ == '__main__':
    main('C23', CHECKS, cases)

from common import *
from klang.config import TEMPO, METRE
from klang.music import metre as M, note_values as N, tempo as T

PI2 = 6.283185307179586


def same(a, b, what):
    expect(close(float(a), float(b), 1e-9, 1e-12), '%s is %r instead of %r', what, a, b)


def equal(a, b):
    # metres are unnormalised fractions, which Fraction.__eq__ does not compare by value
    return a.numerator * b.denominator == b.numerator * a.denominator


def default(metre):
    n, d = metre.numerator, metre.denominator
    if n >= 6 and n % 3 == 0:
        return Fraction(3, d)
    return Fraction(1 if n % 2 == 0 or n % 3 == 0 else 2, d)


def bars(tempo, metre, beat, note):
    m = M.create_metre(*metre)
    expect((m.numerator, m.denominator) == tuple(metre), 'metre %r became %r', metre, m)
    same(T.tempo_2_frequency(tempo), tempo / 60., 'frequency')
    same(T.tempo_2_frequency(tempo) * T.tempo_2_period(tempo), 1, 'frequency times period')
    kw = {} if beat is None else dict(beatValue=beat)
    bv = default(m) if beat is None else beat
    expect(equal(M.default_beat_value(m), default(m)), 'default beat value of %s/%s is %r', m.numerator, m.denominator, M.default_beat_value(m))
    p = 60. / tempo
    same(T.note_duration(note, tempo, m, **kw), float(note / bv) * p, 'note duration')
    same(T.compute_duration(note, tempo, m, **kw), float(note / bv) * p, 'computed duration')
    same(T.compute_rate(note, tempo, m, **kw), 1 / (float(note / bv) * p), 'rate')
    bp = T.bar_period(tempo, m, **kw)
    same(bp, T.note_duration(m, tempo, m, **kw), 'bar period')
    nb = M.number_of_beats(m, **kw)
    expect(isinstance(nb, (int, Fraction)) and equal(nb, Fraction(*metre) / bv), 'number of beats is %r', nb)
    same(bp, float(nb) * p, 'bar period in beats')
    same(T.angular_velocity(tempo, m, **kw) * bp, PI2, 'angular velocity times bar')


def plain(x, tempo):
    for f in (T.compute_duration, T.compute_rate):
        for args in ((), (tempo,), (tempo, M.SIX_EIGHT_METRE)):
            r = f(x, *args)
            expect(r == x and type(r) is type(x), '%s(%r) is %r', f.__name__, x, r)


def defaults(note, tempo):
    same(T.note_duration(note), T.note_duration(note, TEMPO, METRE), 'default duration')
    same(T.note_duration(note, tempo), T.note_duration(note, tempo, METRE), 'default metre')
    same(T.bar_period(tempo), T.bar_period(tempo, METRE), 'default bar')
    same(T.compute_duration(note), T.note_duration(note), 'default computed duration')
    same(T.compute_rate(note) * T.note_duration(note), 1, 'default rate')


def dots(note, n):
    y = N.dot_note(note, n)
    f = 2 - Fraction(1, 2 ** n) if n >= 0 else 1 / (2 - Fraction(1, 2 ** -n))
    expect(isinstance(y, Fraction) and y == note * f, 'dot_note(%r, %d) is %r', note, n, y)
    z = N.dedot_note(note, n)
    expect(isinstance(z, Fraction) and z == note / f, 'dedot_note(%r, %d) is %r', note, n, z)
    expect(N.dedot_note(y, n) == note and N.dot_note(z, n) == note, 'dotting %d times and back from %r gives %r, %r', n, note, N.dedot_note(y, n), N.dot_note(z, n))
    if n == 1:
        expect(N.dot_note(note) == y and N.dedot_note(note) == z, 'one dot is not the default')


def tuplets(num, notes, den):
    t = N.Tuplet(num, notes, den) if den is not None else N.Tuplet(num, notes)
    d = den if den is not None else num - 1
    expect(isinstance(t, N.Tuplet) and isinstance(t, Fraction) and t == sum(notes, Fraction(0)) * d / num, 'tuplet %r:%r of %r is %r', num, den, notes, Fraction(t))
    expect(t.num == num and t.den == d and list(t.notes) == list(notes), 'tuplet reports %r:%r', t.num, t.den)
    expect(close(T.compute_duration(t, 90.), float(Fraction(t)) * T.note_duration(Fraction(1), 90.)), 'duration of a tuplet')


def constants():
    for k, prefix in enumerate(['', 'DOTTED_', 'DOUBLE_DOTTED_', 'TRIPLE_DOTTED_']):
        v = Fraction(8)
        for name in ['LARGE', 'LONG', 'DOUBLE_WHOLE', 'WHOLE', 'HALF', 'QUARTER', 'EIGHT', 'SIXTEENTH', 'THIRTY_SECOND', 'SIXTY_FOURTH', 'HUNDRED_TWENTY', 'TWO_HUNDRED_FIFTY_SIXTH']:
            x = getattr(N, prefix + name + '_NOTE')
            expect(x == v * (2 - Fraction(1, 2 ** k)), '%s is %r', prefix + name, x)
            v /= 2
    for name, v in dict(FOUR_FOUR=(4, 4), THREE_FOUR=(3, 4), WALTZ=(3, 4), TWO_FOUR=(2, 4), TWO_TWO=(2, 2), SIX_EIGHT=(6, 8), SEVEN_EIGHT=(7, 8), NINE_EIGHT=(9, 8)).items():
        m = getattr(M, name + '_METRE')
        expect((m.numerator, m.denominator) == v, '%s is %r', name, m)


def kinds(n, d):
    from klang import math as A
    m = M.create_metre(n, d)
    two = bin(d).count('1') == 1
    for got, want, what in ((M.is_simple(m), n in (2, 3, 4), 'simple'), (M.is_compound(m), n >= 6 and n % 3 == 0, 'compound'), (M.is_complex(m), n % 2 != 0 and n % 3 != 0, 'complex'),
                            (M.is_fractional(m), False, 'fractional'), (M.is_irrational(m), not two, 'irrational'), (A.is_dyadic(m), two, 'dyadic'), (A.is_power_of_two(d), two, 'power of two'),
                            (A.is_power_of_two(1 - d), False, 'power of two'), (A.is_power_of_two(n), bin(n).count('1') == 1, 'power of two')):
        expect(bool(got) == want, '%d/%d: %s is %r', n, d, what, got)


CHECKS = dict(kinds=kinds, bars=bars, plain=plain, defaults=defaults, dots=dots, tuplets=tuplets, constants=constants)


def cases(rng, tier):
    yield 'constants', {}
    F = Fraction
    notes = [F(1, 4), F(3, 8), F(1), F(8), F(7, 1024), F(1, 256), F(2, 3), F(5, 12)]
    for num in range(1, 25):
        for den in (1, 2, 4, 8, 16, 3):
            for beat in (None, F(1, 4), F(3, 8), F(1, 2), F(2, 3)):
                yield 'bars', dict(tempo=rng.choice([120, 60., 90.5, 1, 33.3, 240]), metre=(num, den), beat=beat, note=rng.choice(notes))
    for n in list(range(1, 40)) + [48, 64, 128, 4096]:
        for d in list(range(1, 70)) + [96, 128, 192, 256, 1000, 1024, 2 ** 20, 2 ** 20 + 2 ** 10, 3 * 2 ** 15]:
            yield 'kinds', dict(n=n, d=d)
    for n in range(-12, 13):
        for x in notes + [F(0), F(-3, 4)]:
            yield 'dots', dict(note=x, n=n)
    for x in (0, 0., 1, 1.5, -2, 3.25, 440, 1e-9, 0.25, True):
        yield 'plain', dict(x=x, tempo=77)
    for x in notes:
        for t in (120, 60, 88.5):
            yield 'defaults', dict(note=x, tempo=t)
    for num in range(2, 12):
        for den in [None] + list(range(1, 9)):
            for k in (0, 1, 2, 3, 5, num):
                yield 'tuplets', dict(num=num, notes=[rng.choice(notes) for _ in range(k)], den=den)
    for _ in range(3000 if tier == 'quick' else 40000):
        f = lambda: F(rng.randint(1, 40), rng.randint(1, 40))
        yield 'bars', dict(tempo=rng.choice([rng.uniform(1, 300), rng.randint(1, 300)]), metre=(rng.randint(1, 40), rng.randint(1, 40)), beat=rng.choice([None, f()]), note=f())
        yield 'dots', dict(note=f(), n=rng.randint(-40, 40))
        yield 'tuplets', dict(num=rng.randint(2, 40), notes=[f() for _ in range(rng.randint(0, 9))], den=rng.choice([None, rng.randint(1, 40)]))


if __name__ == '__main__':
    main('C19', CHECKS, cases)

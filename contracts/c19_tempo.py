"""C19: tempo, metre and note-value arithmetic."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['fractions are exact, floats are mathematical reals (rounding of float tempos is not modelled)', 'tempo, metre, note and beat values are positive']
T, M, N = 'klang.music.tempo.', 'klang.music.metre.', 'klang.music.note_values.'


def frac(V, name, positive=True):
    n, d = V.int(name + '_num', 1 if positive else None), V.int(name + '_den', 1)
    return FracV(n, d)


def tempo(V):
    t = V.real('tempo')
    V.assume(t > 0)
    return t


def is_frac(v):
    return isinstance(v, FracV)


def forms(V):
    """Metre and beat value: given or defaulted."""
    m = frac(V, 'metre')
    return m, (frac(V, 'beat') if V.decide(V.bool('given')) else None)


def default_value(V, m):
    """The documented default beat value of a metre, as a real number."""
    n, d = Z(m.num), to_real(m.den)
    three = eq(V, mod(V, n, 3), 0)
    even = eq(V, mod(V, n, 2), 0)
    return If(And(n >= 6, three), 3 / d, If(Or(even, three), 1 / d, 2 / d))


def duration_contract(V, note, t, m, b):
    bv = b.real if b is not None else default_value(V, m)
    return note.real / bv * (60 / t)


@U.unit('frequency and period', claim='tempo_2_frequency is tempo / 60 and period times frequency is one, for every positive tempo')
def freq(V):
    t = tempo(V)
    f = V.expect_ok('tempo_2_frequency', T + 'tempo_2_frequency', [t])
    p = V.expect_ok('tempo_2_period', T + 'tempo_2_period', [t])
    V.check('beats per second', to_real(f) * 60 == t)
    V.check('reciprocal', to_real(f) * to_real(p) == 1)


@U.unit('default beat value', claim='three for compound, two for complex, one for all other metres over the denominator; always positive')
def beat(V):
    m = frac(V, 'metre')
    b = V.expect_ok('default_beat_value', M + 'default_beat_value', [m])
    V.check('a fraction', is_frac(b))
    V.check('value', b.real == default_value(V, m))
    V.check('positive', b.real > 0)
    V.check('denominator of the metre', Z(b.den) == Z(m.den))


@U.unit('note duration and bar', claim='a note lasts note / beat beats; a bar lasts as long as a note of the metre value and contains metre / beat beats; angular velocity times bar is one turn', time_limit=200)
def bar(V):
    t = tempo(V)
    m, b = forms(V)
    note = frac(V, 'note')
    d = V.expect_ok('note_duration', T + 'note_duration', [note, t, m, b])
    bv = b.real if b is not None else default_value(V, m)
    V.check('beat value is positive', bv > 0)
    p = 60 / t
    V.check('a note lasts note / beat beats', to_real(d) * bv == note.real * p)
    V.check('a note lasts longer than nothing', to_real(d) > 0)
    bp = V.expect_ok('bar_period', T + 'bar_period', [t, m, b])
    V.check('a bar lasts metre / beat beats', to_real(bp) * bv == m.real * p)
    dm = V.expect_ok('note_duration of the metre', T + 'note_duration', [m, t, m, b])
    V.check('a bar lasts as long as a note of the metre value', to_real(bp) == to_real(dm))
    nb = V.expect_ok('number_of_beats', M + 'number_of_beats', [m, b])
    V.check('number of beats is exact', is_frac(nb))
    V.check('beats of a bar', to_real(nb) * bv == m.real)
    V.check('bar is its beats', to_real(bp) == to_real(nb) * p)
    V.check('bar is not empty', to_real(bp) > 0)
    w = V.expect_ok('angular_velocity', T + 'angular_velocity', [t, m, b])
    V.check('one turn per bar', to_real(w) * to_real(bp) == 2 * to_real(PI(V)))


def default_args(V, fn, lead):
    """Calls without metre and beat value use the configured ones."""
    metre = V.module_attr(V.module('klang.config'), 'METRE')
    t = tempo(V)
    a = V.expect_ok(fn, T + fn, lead + [t])
    b = V.expect_ok(fn, T + fn, lead + [t, metre])
    V.check('%s: default metre' % fn, to_real(a) == to_real(b))


@U.unit('defaults', claim='omitted metre, beat value and tempo are the configured metre, its default beat value and the configured tempo')
def defaults(V):
    cfg = V.module('klang.config')
    metre, tp = V.module_attr(cfg, 'METRE'), V.module_attr(cfg, 'TEMPO')
    V.check('configured metre is a fraction', is_frac(metre))
    default_args(V, 'bar_period', [])
    default_args(V, 'angular_velocity', [])
    note = frac(V, 'note')
    default_args(V, 'note_duration', [note])
    V.check('default tempo', to_real(V.expect_ok('note_duration', T + 'note_duration', [note])) == to_real(V.expect_ok('note_duration', T + 'note_duration', [note, tp, metre])))


@U.unit('dotting', claim='dotting n times multiplies by 2 - 2^-n, undotting inverts it exactly and vice versa, for every fraction and every n (negative n undots)')
def dots(V):
    x, n = frac(V, 'note', positive=False), V.int('n')
    y = V.expect_ok('dot_note', N + 'dot_note', [x, n])
    V.check('dotted value is exact', is_frac(y))
    z = V.expect_ok('dedot_note', N + 'dedot_note', [y, n])
    V.check('undotted value is exact', is_frac(z))
    if V.decide(n >= 0):
        p = to_real(ops.pow2(V, n))
        V.check('factor 2 - 2^-n', y.real * p == x.real * (2 * p - 1))
    else:
        p = to_real(ops.pow2(V, -n))
        V.check('inverse factor', x.real * p == y.real * (2 * p - 1))
    V.check('undotting inverts dotting', z.real == x.real)
    w = V.expect_ok('dedot_note', N + 'dedot_note', [x, n])
    v = V.expect_ok('dot_note', N + 'dot_note', [w, n])
    V.check('dotting inverts undotting', v.real == x.real)


@U.unit('one dot is the default', claim='one dot when no number is given')
def onedot(V):
    x = frac(V, 'note', positive=False)
    y = V.expect_ok('dot_note', N + 'dot_note', [x])
    V.check('exact', is_frac(y))
    V.check('one dot', y.real * 2 == x.real * 3)
    z = V.expect_ok('dedot_note', N + 'dedot_note', [y])
    V.check('exact again', is_frac(z))
    V.check('no dot', z.real == x.real)


BASE = ['LARGE', 'LONG', 'DOUBLE_WHOLE', 'WHOLE', 'HALF', 'QUARTER', 'EIGHT', 'SIXTEENTH', 'THIRTY_SECOND', 'SIXTY_FOURTH', 'HUNDRED_TWENTY', 'TWO_HUNDRED_FIFTY_SIXTH']


@U.unit('note value table', claim='all 48 defined note values: halved from one to the next, dotted ones are the dotted plain ones')
def table(V):
    mod_ = V.module('klang.music.note_values')
    v = Fraction(8)
    for name in BASE:
        for k, prefix in enumerate(['', 'DOTTED_', 'DOUBLE_DOTTED_', 'TRIPLE_DOTTED_']):
            x = V.module_attr(mod_, prefix + name + '_NOTE')
            want = v * (2 - Fraction(1, 2 ** k))
            V.check(prefix + name, is_frac(x) and Fraction(const_int(x.num), const_int(x.den)) == want)
        v /= 2


@U.unit('Tuplet', claim='the value of a tuplet of any number of notes is the sum of the notes times den / num (num - 1 if no den is given)', time_limit=200)
def tuplet(V):
    num = V.int('num', 1)
    given = V.decide(V.bool('given'))
    den = V.int('den', 1) if given else None
    notes = V.list('notes', KFrac())
    V.assume(All((0, notes.seq.n), lambda i: Z(notes.seq[i].den) >= 1))
    t = V.expect_ok('Tuplet', 'klang.music.note_values.Tuplet', [num, notes] + ([den] if given else []))
    total = models.prefix_sum(V, notes.seq)(notes.seq.n)
    V.check('a fraction', is_frac(t))
    S, S2 = [f for _, f in V.ghost['sums']][0], [f for _, f in V.ghost['sums']][-1]
    k = z3.Int('k')
    V.check('sums start equal', S(z3.IntVal(0)) == S2(z3.IntVal(0)))
    V.check('step: sums agree (induction)', imp(k >= 0, k < notes.seq.n, S(k) == S2(k), S(k + 1) == S2(k + 1)), assume_after=False)
    V.assume(S(notes.seq.n) == S2(notes.seq.n))          # induction just shown
    V.check('sum scaled by the ratio', t.real * to_real(num) == total * to_real(den if given else num - 1))


@U.unit('compute_duration and compute_rate', claim='plain numbers pass unchanged; note values become durations, and rates their reciprocal', time_limit=200)
def compute(V):
    x = V.real('seconds')
    V.check('duration in seconds', eq(V, V.expect_ok('compute_duration', T + 'compute_duration', [x]), x))
    V.check('rate in hertz', eq(V, V.expect_ok('compute_rate', T + 'compute_rate', [x]), x))
    i = V.int('whole')
    V.check('whole seconds', eq(V, V.expect_ok('compute_duration', T + 'compute_duration', [i]), i))
    V.check('whole hertz', eq(V, V.expect_ok('compute_rate', T + 'compute_rate', [i]), i))
    t = tempo(V)
    m, b = forms(V)
    note = frac(V, 'note')
    V.check('tempo does not matter for seconds', eq(V, V.expect_ok('compute_duration', T + 'compute_duration', [x, t, m, b]), x))
    V.check('tempo does not matter for hertz', eq(V, V.expect_ok('compute_rate', T + 'compute_rate', [x, t, m, b]), x))
    bv = b.real if b is not None else default_value(V, m)
    V.check('beat value is positive', bv > 0)
    d = to_real(V.expect_ok('compute_duration', T + 'compute_duration', [note, t, m, b]))
    V.check('note value becomes its duration', d * bv * t == note.real * 60)
    V.check('positive duration', d > 0)
    r = to_real(V.expect_ok('compute_rate', T + 'compute_rate', [note, t, m, b]))
    V.check('rate is the reciprocal of the duration', d * r == 1)


I, Bo = z3.IntSort(), z3.BoolSort()


def power_of_two(V, *ns):
    """P(n): n is a power of two, by its definition at n (and as often as needed below)."""
    P = z3.Function('power of two', I, Bo)
    for n in ns:
        V.assume(And(imp(n <= 0, Not(P(n))), imp(n == 1, P(n)), imp(n > 1, P(n) == And(n % 2 == 0, P(n / 2)))))
    return P


@U.unit('powers of two', claim='a number is a power of two exactly if it is 1 or twice a power of two; a metre is irrational exactly if its denominator is none')
def powers(V):
    V.ghost['bits'] = True
    n = V.int('n')
    P = power_of_two(V, n)
    # induction hypothesis: the numbers below n (n // 2 is the one that is needed)
    V.assume(imp(n / 2 > 0, P(n / 2) == (ops.bitand(V, n / 2, n / 2 - 1) == 0)))
    V.ghost['bits'] = True
    ops.bitand(V, n / 2, n / 2)
    r = V.expect_ok('is_power_of_two', 'klang.math.is_power_of_two', [n])
    V.check('powers of two and no others', V.truth(r) == P(n))
    m = FracV(V.int('num'), n)
    V.assume(n >= 1)
    V.check('dyadic', V.truth(V.expect_ok('is_dyadic', 'klang.math.is_dyadic', [m])) == P(n))
    V.check('irrational', V.truth(V.expect_ok('is_irrational', M + 'is_irrational', [m])) == Not(P(n)))


@U.unit('kinds of metres', claim='simple: 2, 3 or 4 beats; compound: 6 or more and divisible by 3; complex: divisible by neither 2 nor 3; fractional: no whole number of parts')
def kinds(V):
    m = frac(V, 'metre')
    n = Z(m.num)
    for name, want in (('is_simple', Or(n == 2, n == 3, n == 4)), ('is_compound', And(n >= 6, n % 3 == 0)), ('is_complex', And(n % 2 != 0, n % 3 != 0)), ('is_fractional', z3.BoolVal(False))):
        V.check(name, Z(V.truth(V.expect_ok(name, M + name, [m]))) == want)


@U.unit('given metres', claim='a metre keeps the numerator and denominator it is given')
def given(V):
    a, b = V.int('a', 1), V.int('b', 1)
    m = V.expect_ok('create_metre', M + 'create_metre', [a, b])
    V.check('numerator and denominator', And(is_frac(m), Z(m.num) == a, Z(m.den) == b))

"""C20: tunings, cents and note names."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['floats are mathematical reals; 2 ** x and log2 are uninterpreted with the textbook facts (2^(x+y) = 2^x 2^y, positive, log2 and 2^x inverse) at the terms that occur',
               're and str treat all decimal numbers of one sign alike (checked on sample renderings)']
TU, PI_ = 'klang.music.tunings.', 'klang.music.pitch.'
LOG2 = UFS['log2']


def pow_facts(V):
    """Textbook facts about powers of two at the terms that occur."""
    two = z3.RealVal(2)
    ps = {t.get_id(): t for t in apps(V, RPOW)}
    ps = list(ps.values())
    V.axiom(And(RPOW(two, z3.RealVal(0)) == 1, RPOW(two, z3.RealVal(1)) == 2))
    for t in ps:
        V.axiom(imp(t.arg(0) > 0, t > 0))
        V.axiom(imp(t.arg(0) > 0, t.arg(1) == 0, t == 1))
        V.axiom(imp(t.arg(0) == two, t.arg(1) == 1, t == 2))
    for i, p in enumerate(ps):
        for q in ps[i + 1:]:
            for a, b in ((p, q), (q, p)):
                V.axiom(imp(a.arg(0) == two, b.arg(0) == two, a.arg(1) == b.arg(1) + 1, a == 2 * b))


def p2(V, x):
    """2 ** x, as in the property."""
    t = RPOW(z3.RealVal(2), to_real(x))
    V.axiom(t > 0)
    return t


def temperament(V, cents=None):
    cents = cents or V.farray('cents', 12)
    k = V.real('kammerton')
    V.assume(k > 0)
    t = V.expect_ok('Temperament', TU + 'Temperament', [cents], dict(kammerton=k))
    return t, cents, k


def freq(V, t, p):
    return to_real(V.expect_ok('pitch_2_frequency', V.getattr(t, 'pitch_2_frequency'), [p]))


@U.unit('concert pitch and octaves', claim='for every temperament of 12 cents and every concert frequency: pitch 69 has exactly the concert frequency; a pitch 12 higher has exactly twice the frequency; every note is its interval above the C of its octave', time_limit=250)
def octave(V):
    t, cents, k = temperament(V)
    f69 = freq(V, t, z3.IntVal(69))
    pow_facts(V)
    V.check('concert pitch has the concert frequency', f69 == k)
    p = V.int('pitch')
    f, g = freq(V, t, p), freq(V, t, p + 12)
    n = mod(V, p, 12)
    V.axiom(mod(V, p + 12, 12) == n)
    pow_facts(V)
    V.check('positive', f > 0)
    V.check('an octave doubles', g == 2 * f)
    b = freq(V, t, p - n)
    V.check('base note is a C of the same octave', And(mod(V, p - n, 12) == 0, div(V, p - n, 12) == div(V, p, 12)))
    pow_facts(V)
    iv = [p2(V, to_real(cents.at(n)) / 1200), p2(V, to_real(cents.at(0)) / 1200)]
    V.check('interval above the base note', f * iv[1] == b * iv[0])


@U.unit('equal temperament', claim='the predefined equal temperament: concert frequency at pitch 69 and the twelfth root of two per semitone, for every pitch', time_limit=250)
def equal(V):
    t = V.module_attr(V.module('klang.music.tunings'), 'EQUAL_TEMPERAMENT')
    k = V.module_attr(V.module('klang.config'), 'KAMMERTON')
    f69 = freq(V, t, z3.IntVal(69))
    pow_facts(V)
    V.check('concert pitch', f69 == to_real(k))
    p = V.int('pitch')
    n, o = mod(V, p, 12), div(V, p, 12)
    two, root = z3.RealVal(2), z3.Real('root')
    V.assume(root == p2(V, z3.RealVal(1) / 12))
    for j in range(12):
        if j == 11 or V.decide(n == j):
            V.assume(n == j)
            V.axiom(And(p == 12 * o + j, mod(V, p + 1, 12) == (j + 1) % 12, div(V, p + 1, 12) == If(j == 11, o + 1, o)) if j < 11 else
                    And(p == 12 * o + j, mod(V, p + 1, 12) == 0, div(V, p + 1, 12) == o + 1))
            f, g = freq(V, t, p), freq(V, t, p + 1)
            pow_facts(V)
            lo, hi, okt, nxt = [z3.Real(x) for x in ('lo', 'hi', 'okt', 'nxt')]
            V.assume(And(lo == p2(V, z3.RealVal(100 * j) / 1200), hi == p2(V, z3.RealVal(100 * (j + 1)) / 1200), hi == lo * root))
            V.assume(And(okt == p2(V, o - 5), nxt == p2(V, o + 1 - 5)))
            base = to_real(V.getattr(t, 'baseFrequency'))
            for q in apps(V, RPOW):
                c = const_num(z3.simplify(q.arg(1)))
                if c is not None:
                    V.axiom(q == RPOW(q.arg(0), z3.RealVal(c)))
            V.check('pitch', f == base * lo * okt)
            V.check('next pitch', g == base * (hi if j < 11 else z3.RealVal(1)) * (okt if j < 11 else nxt))
            V.check('twelfth root of two per semitone', g == f * root)
            return


@U.unit('cents and ratios', claim='cent_2_ratio and ratio_2_cent invert each other; 1200 cents are a ratio of two')
def cents(V):
    c = V.real('cent')
    r = to_real(V.expect_ok('cent_2_ratio', TU + 'cent_2_ratio', [c]))
    V.axiom(imp(r > 0, RPOW(z3.RealVal(2), LOG2(r)) == r))
    b = to_real(V.expect_ok('ratio_2_cent', TU + 'ratio_2_cent', [r]))
    for t in apps(V, RPOW):
        V.axiom(And(t > 0, imp(t.arg(0) == 2, LOG2(t) == t.arg(1))))
    for t in apps(V, LOG2):
        V.axiom(imp(t.arg(0) == r, t == LOG2(r)))
    V.check('a ratio is positive', r > 0)
    V.check('cents of the ratio', b == c)
    q = V.real('ratio')
    V.assume(q > 0)
    d = to_real(V.expect_ok('ratio_2_cent', TU + 'ratio_2_cent', [q]))
    s = to_real(V.expect_ok('cent_2_ratio', TU + 'cent_2_ratio', [d]))
    V.axiom(RPOW(z3.RealVal(2), LOG2(q)) == q)
    for t in apps(V, RPOW):
        V.axiom(imp(t.arg(0) == 2, t.arg(1) == LOG2(q), t == q))
    V.check('ratio of the cents', s == q)
    o = to_real(V.expect_ok('cent_2_ratio', TU + 'cent_2_ratio', [1200]))
    V.check('an octave is a ratio of two', o == 2)


@U.unit('note names round-trip', claim='for every pitch number the note name converts back to the pitch', time_limit=250)
def names(V):
    p = V.int('pitch')
    n = V.expect_ok('pitch_2_note_name', PI_ + 'pitch_2_note_name', [p])
    q = V.expect_ok('note_name_2_pitch', PI_ + 'note_name_2_pitch', [n])
    V.check('the name converts back', eq(V, q, p))


LETTERS = dict(C=0, D=2, E=4, F=5, G=7, A=9, B=11)


def accidental(letter, base):
    @U.unit('accidentals of %s' % letter, claim='every octave: %s natural is its pitch, accidentals shift by one semitone each, in upper and lower case' % letter)
    def acc(V):
        o = V.int('octave')
        for a, s in (('', 0), ('#', 1), ('##', 2), ('b', -1), ('bb', -2)):
            for l in (letter, letter.lower()):
                q = V.expect_ok('note_name_2_pitch', PI_ + 'note_name_2_pitch', [Text.make([l + a, o])])
                V.check('%s%s' % (l, a), eq(V, q, 12 * (o + 1) + base + s))


for _l, _b in LETTERS.items():
    accidental(_l, _b)


@U.unit('unreadable names', claim='names without a note letter are refused')
def bad(V):
    for name in ('', 'H4', '4', '#4', 'Xb3', '??'):
        st, r = V.outcome(PI_ + 'note_name_2_pitch', [name])
        V.check('%r is refused' % name, st == 'raise' and r.cls.name == 'ValueError')

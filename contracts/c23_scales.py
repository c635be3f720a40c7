"""C23: scales, codes and chord inversions."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['scale conversions are decided by running the real source symbolically on every one of the 2048 scales (a finite domain, complete)',
               'a scale is a sequence of positive intervals adding up to an octave']
S, CH = 'klang.music.scales.', 'klang.music.chords.'
E = z3.Function('EXTENDED', z3.IntSort(), z3.IntSort())     # ghost: the chord continued over all octaves, E(j + m) = E(j) + 12


def values(V, x):
    """Concrete integers of an array or list."""
    if isinstance(x, Arr):
        if len(x.shape) != 1 or const_int(x.shape[0]) is None:
            return None
        xs = [x.at(i) for i in range(const_int(x.shape[0]))]
    else:
        s = V.seq_of(x)
        xs = [s[i] for i in range(const_int(s.n))]
    return [const_int(z3.simplify(Z(v))) for v in xs]


def composition(code):
    ps = [p for p in range(12) if code >> p & 1] + [12]
    return [b - a for a, b in zip(ps, ps[1:])]


CHUNKS = 16


def chunk(c):
    @U.unit('scales and codes %d of %d' % (c + 1, CHUNKS), claim='code -> scale -> code, scale -> code -> scale and scale -> pitches -> scale are identities; intervals add up to an octave', time_limit=300)
    def one(V):
        for code in range(1 + 2 * c, 4096, 2 * CHUNKS):
            scale = composition(code)
            r = V.expect_ok('code_2_scale', S + 'code_2_scale', [code])
            V.check('scale of the code', values(V, r) == scale)
            V.check('intervals add up to an octave', sum(values(V, r)) == 12)
            k = V.expect_ok('scale_2_code', S + 'scale_2_code', [r])
            V.check('code of the scale', const_int(z3.simplify(Z(k))) == code)
            k = V.expect_ok('scale_2_code', S + 'scale_2_code', [tuple(scale)])
            V.check('code of the scale given as a tuple', const_int(z3.simplify(Z(k))) == code)
            p = V.expect_ok('scale_2_pitches', S + 'scale_2_pitches', [V.mklist(scale)])
            V.check('pitches of the scale', values(V, p) == [q for q in range(12) if code >> q & 1])
            b = V.expect_ok('pitches_2_scale', S + 'pitches_2_scale', [p])
            V.check('scale of the pitches', values(V, b) == scale)


for _c in range(CHUNKS):
    chunk(_c)


def loops(V, m, start, steps):
    """Loop contracts: after k steps entry i is E(start + k + i) going up, E(start - k + i) going down."""
    def up(V, L):
        c = L['chord'].seq
        return [('as many notes', c.n == m), ('notes so far', All((0, m), lambda i: Z(c[i]) == E(start() + L.k + i), pat=lambda i: Z(c[i])))]

    def up_after(V, L):
        V.axiom(E(start() + L.k - 1 + m) == E(start() + L.k - 1) + 12)

    def top():
        return start() + If(steps() > 0, steps(), 0)

    def down(V, L):
        c = L['chord'].seq
        return [('as many notes', c.n == m), ('notes so far', All((0, m), lambda i: Z(c[i]) == E(top() - L.k + i), pat=lambda i: Z(c[i])))]

    def down_after(V, L):
        V.axiom(E(top() - L.k + m) == E(top() - L.k) + 12)
    V.loops[CH + 'invert_chord#0'] = LoopSpec(up, after_body=up_after)
    V.loops[CH + 'invert_chord#1'] = LoopSpec(down, after_body=down_after)


@U.unit('chord inversion', claim='for chords of any length and any number of inversions: the result continues the chord n steps through the octaves; the opposite inversion restores it', time_limit=200)
def invert(V):
    chord = V.list('chord', KInt())
    m, n = chord.seq.n, V.int('inversion')
    V.assume(m >= 1)
    orig = chord.seq
    V.assume(All((0, m), lambda i: E(i) == Z(orig[i])))
    pos = dict(start=z3.IntVal(0), steps=n)
    loops(V, m, lambda: pos['start'], lambda: pos['steps'])
    r = V.expect_ok('invert_chord', CH + 'invert_chord', [chord, n])
    V.check('as many notes', eq(V, V.seq_of(r).n, m))
    s = V.seq_of(r)
    V.check('continues the chord', All((0, m), lambda i: eq(V, s[i], E(n + i))))
    i = z3.Int('i')
    V.axiom(E(n + i - m + m) == E(n + i - m) + 12)
    V.check('the lowest notes go up an octave, all others are kept', imp(n >= 0, n <= m, i >= 0, i < m, If(i + n < m, Z(s[i]) == Z(orig[i + n]), Z(s[i]) == Z(orig[i + n - m]) + 12)))
    V.axiom(E(n + i + m) == E(n + i) + 12)
    V.check('the highest notes go down an octave, all others are kept', imp(n <= 0, n >= -m, i >= 0, i < m, If(i + n >= 0, Z(s[i]) == Z(orig[i + n]), Z(s[i]) == Z(orig[i + n + m]) - 12)))
    V.check('the chord is unchanged', chord.seq is orig)
    pos.update(start=n, steps=-n)
    b = V.expect_ok('invert_chord back', CH + 'invert_chord', [r, -n])
    t = V.seq_of(b)
    V.check('restored length', eq(V, t.n, m))
    V.check('restored notes', All((0, m), lambda i: eq(V, t[i], orig[i])))

"""C15: step sequencing."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['phases are mathematical reals (2*pi a positive real)',
               'message queues deliver as in C03; what a block sends does not come back to it within the same update']
S = 'klang.sequencer.'


def slice_facts(V, phase, n):
    """The step of a phase: whole turns t and step number j with (t + j/n) turns <= phase < (t + (j+1)/n) turns."""
    tau = to_real(V.lookup('klang.constants.TAU'))
    t, j = V.int('turns'), V.int('step')
    V.assume(And(0 <= j, j < n))
    u = phase / tau           # position in turns
    V.assume(And((u - z3.ToReal(t)) * z3.ToReal(n) >= z3.ToReal(j), (u - z3.ToReal(t)) * z3.ToReal(n) < z3.ToReal(j) + 1))
    return j


@U.unit('slice number', claim='the number of the circle segment the angle falls into')
def slices(V):
    n, phase = V.int('slices'), V.real('angle')
    V.assume(n >= 1)
    j = slice_facts(V, phase, n)
    r = V.expect_ok('slice', S + 'pizza_slice_number', [phase, n])
    V.check('the step of the phase', eq(V, r, j))


@U.unit('steps', claim='the steps following the last one up to the current one are sent, once and in order')
def steps(V):
    n, phase, c = V.int('slices'), V.real('phase'), V.int('last')
    V.assume(And(n >= 1, c >= -1, c < n))
    p = V.expect_ok('new', S + 'PizzaSlicer', [n])
    V.check('nothing sent at first', eq(V, V.getattr(p, 'currentIdx'), -1))
    V.setattr(p, 'currentIdx', c)
    V.setattr(V.getattr(p, 'input'), '_value', phase)
    j = slice_facts(V, phase, n)
    log = message_ports(V, Seq.of([]), KInt())

    def number(V, a):
        V.check('slice of the current phase', And(eq(V, a['angle'], phase), eq(V, a['nSlices'], n)))
        return j
    V.contracts[S + 'pizza_slice_number'] = number      # proved above
    V.loops[S + 'PizzaSlicer.update#0'] = LoopSpec(lambda V, L: [
        ('steps so far', log.n == L.k),
        ('last sent step', And(Z(V.getattr(p, 'currentIdx')) == If(c + L.k < n, c + L.k, c + L.k - n))),
        ('consecutive', All((0, L.k), lambda i: log[i] == If(c + 1 + i < n, c + 1 + i, c + 1 + i - n)))])
    V.expect_ok('update', V.getattr(p, 'update'), [])
    m = If(j >= c, j - c, j - c + n)
    V.check('as many steps as passed', log.n == m)
    V.check('consecutive steps', All((0, m), lambda i: log[i] == If(c + 1 + i < n, c + 1 + i, c + 1 + i - n)))
    V.check('up to the current one', imp(m > 0, log[m - 1] == j))
    V.check('remembered', eq(V, V.getattr(p, 'currentIdx'), j))


def lookup_unit(name, chords):
    @U.unit(name, claim='every pitch of the pattern at each step number is played once, in order, at full velocity')
    def lookup(V):
        note = V.lookup('klang.messages.Note')
        n = V.int('length')
        V.assume(n >= 1)
        if chords:
            P = z3.Function('pitch', z3.IntSort(), z3.IntSort(), z3.IntSort())
            W = z3.Function('chord size', z3.IntSort(), z3.IntSort())
            pattern = V.mklist(Seq(n, lambda i: V.mklist(Seq(W(Z(i)), lambda k: P(Z(i), Z(k)), None, KInt())), None, None))
            V.assume(All((0, n), lambda i: W(i) >= 0, pat=lambda i: W(i)))
        else:
            Q = KInt().uf('pitch', 1)
            P, W = (lambda i, k: Q(i)), (lambda i: z3.IntVal(1))
            pattern = V.mklist(Seq(n, Q, None, KInt()))
        V.assume(All([(0, n), (0, None)], lambda i, k: And(P(i, k) >= 0, P(i, k) < 128), pat=lambda i, k: [[P(i, k)]]) if chords else All((0, n), lambda i: And(P(i, 0) >= 0, P(i, 0) < 128), pat=lambda i: P(i, 0)))
        steps = V.list('steps', KInt())
        s = steps.seq
        V.assume(All((0, s.n), lambda i: And(s[i] >= 0, s[i] < n), pat=lambda i: s[i]))
        b = V.expect_ok('new', S + 'PatternLookup', [pattern])
        log = message_ports(V, s, KNT(note, [KInt(), KReal(), KReal()]))
        # C(j, k): pitches to play before pitch k of the step at place j
        if chords:
            C = z3.Function('played', z3.IntSort(), z3.IntSort(), z3.IntSort())
            V.assume(All([(0, s.n), (0, None)], lambda j, k: C(j, k + 1) == C(j, k) + If(P(s[j], k) != 0, 1, 0), pat=lambda j, k: [[C(j, k), P(s[j], k)]]))
            V.assume(All((0, s.n), lambda j: C(j + 1, 0) == C(j, W(s[j])), pat=lambda j: C(j + 1, 0)))
        else:
            D = z3.Function('played', z3.IntSort(), z3.IntSort())
            C = lambda j, k: D(Z(j))
            V.assume(All((0, s.n), lambda j: D(j + 1) == D(j) + If(P(s[j], 0) != 0, 1, 0), pat=lambda j: D(j + 1)))
        V.assume(C(0, 0) == 0)

        def good(j, k):
            x = log[C(j, k)]
            return And(C(j, k) >= 0, C(j, k) < log.n, Z(x.vals[0]) == P(s[j], k), to_real(x.vals[1]) == 1)

        def before(j):
            if chords:
                return [('notes of earlier steps', All([(0, j), (0, None)], lambda a, k: imp(k < W(s[a]), P(s[a], k) != 0, good(a, k)), pat=lambda a, k: [[P(s[a], k), C(a, k)]]))]
            return [('notes of earlier steps', All((0, j), lambda a: imp(P(s[a], 0) != 0, good(a, 0)), pat=lambda a: D(a)))]

        q = S + 'PatternLookup.update'
        outer = {}

        def inv0(V, L):
            outer['j'] = L.k
            return [('only these', And(log.n == C(L.k, 0), C(L.k, 0) >= 0))] + before(L.k)

        def inv1(V, L):
            j = outer['j']
            return [('only these', And(log.n == C(j, L.k), C(j, L.k) >= 0))] + before(j) + [
                ('notes of this step', All((0, L.k), lambda k: imp(P(s[j], k) != 0, good(j, k)), pat=lambda k: P(s[j], k)))]
        V.loops[q + '#0'] = LoopSpec(inv0)
        if chords:
            V.loops[q + '#1'] = LoopSpec(inv1)
        V.expect_ok('update', V.getattr(b, 'update'), [])
        V.check('nothing but the pitches of the pattern', log.n == C(s.n, 0))
        for l, f in before(Z(s.n)):
            V.check(l, f)
        V.check('pattern unchanged', V.getattr(b, 'pattern') is pattern)


lookup_unit('lookup', False)
lookup_unit('lookup of chords', True)

"""C34: names find the music data they mean."""
from pyvc import models
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['names are compared letter by letter; letters and keys are identified by integers',
               'edit distances and abbreviations are defined by recursion on the lengths of the prefixes (the usual definitions)',
               'the data files are decoded by json (numbers) and as they are (other values); the wording of error messages']
X = 'klang.util.'
I, Bo = z3.IntSort(), z3.BoolSort()


def least(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = z3.If(x < r, x, r)
    return r


@U.unit('edit distance', claim='the result is the cheapest way to edit one sequence into the other: the value of the recurrence over all prefixes, with its first row and column counting letters', time_limit=200)
def distance(V):
    a, b = V.seq('first', KInt()), V.seq('second', KInt())
    V.assume(And(a.n >= 1, b.n >= 1))
    dc, ic, sc = V.int('deletion', 0), V.int('insertion', 0), V.int('substitution', 0)
    E = z3.Function('distance', I, I, I)
    V.assume(All((0, a.n + 1), lambda i: E(i, 0) == i, pat=lambda i: E(i, 0)))
    V.assume(All((0, b.n + 1), lambda j: E(0, j) == j, pat=lambda j: E(0, j)))

    def step(i, j):
        """Definition of the distance of longer prefixes."""
        V.assume(imp(And(i >= 0, i < a.n, j >= 0, j < b.n), E(i + 1, j + 1) == least(E(i, j + 1) + dc, E(i + 1, j) + ic, E(i, j) + z3.If(a[i] == b[j], 0, sc))))

    def rows(L, full, part):
        c = L['costs']
        return [('size', And(Z(c.shape[0]) == a.n + 1, Z(c.shape[1]) == b.n + 1)),
                ('finished rows', All([(0, full), (0, b.n + 1)], lambda i, j: c.at(i, j) == E(i, j), pat=lambda i, j: [[E(i, j)]])),
                ('this row', All((0, part), lambda j: c.at(full, j) == E(full, j), pat=lambda j: E(full, j))),
                ('first column', All((full, a.n + 1), lambda i: c.at(i, 0) == i, pat=lambda i: E(i, 0)))]
    place = {}

    def outer(V, L):
        place['k'] = L.k
        seen = [('last place', And(*[eq(V, L[n], v) for n, v in (('row', L.k), ('col', b.n)) if L.has(n)]))] if const_int(L.k) != 0 else []
        return rows(L, L.k + 1, 0) + [(t, imp(Z(L.k) > 0, f)) for t, f in seen]

    def inner(V, L):
        i = place['k']
        step(i, Z(L.k) - 1)
        step(i, Z(L.k))
        return rows(L, i + 1, L.k + 1) + ([('last place', imp(Z(L.k) > 0, eq(V, L['col'], L.k)))] if const_int(L.k) != 0 else [])
    V.loops[X + 'levenshtein#0'] = LoopSpec(outer, hints=dict(row=KInt(), col=KInt()))
    V.loops[X + 'levenshtein#1'] = LoopSpec(inner, hints=dict(col=KInt()))
    r = V.expect_ok('distance', X + 'levenshtein', [V.mklist(a), V.mklist(b)], dict(deletionCost=dc, insertionCost=ic, substitutionCost=sc))
    V.check('distance of the whole sequences', eq(V, r, E(a.n, b.n)))


@U.unit('free insertions', claim='with free insertions the distance is 0 exactly for abbreviations: same first letter, the others found in order')
def abbreviation(V):
    D, S = z3.Function('distance', I, I, I), z3.Function('abbreviates', I, I, Bo)
    same = z3.Function('same letter', I, I, Bo)
    i, j = V.int('i'), V.int('j')
    V.assume(And(i >= 0, j >= 0))
    P = lambda i, j: And(D(i, j) >= 0, (D(i, j) == 0) == S(i, j))
    edge = And(D(i, 0) == i, D(0, j) == j, S(i, 0) == (i == 0), S(0, j) == (j == 0))
    V.check('induction: nothing', imp(edge, And(P(i, 0), P(0, j))))
    V.check('induction: longer', imp(And(P(i, j), P(i, j + 1), P(i + 1, j), D(i + 1, j + 1) == least(D(i, j + 1) + 1, D(i + 1, j), D(i, j) + z3.If(same(i, j), 0, 1)),
                                          S(i + 1, j + 1) == Or(S(i + 1, j), And(S(i, j), same(i, j)))), P(i + 1, j + 1)))


@U.unit('distance laws', claim='with unit costs the distance is 0 exactly for equal sequences, symmetric, and at least the difference of the lengths')
def laws(V):
    E, F, Q = z3.Function('distance', I, I, I), z3.Function('distance back', I, I, I), z3.Function('equal', I, Bo)
    same = z3.Function('same letter', I, I, Bo)
    i, j = V.int('i'), V.int('j')
    V.assume(And(i >= 0, j >= 0))

    def P(i, j):
        return And(E(i, j) >= i - j, E(i, j) >= j - i, imp(i == j, (E(i, j) == 0) == Q(i)), E(i, j) == F(j, i))
    edge = And(E(i, 0) == i, E(0, j) == j, F(0, i) == i, F(j, 0) == j, Q(0))
    V.check('induction: nothing', imp(edge, And(P(i, 0), P(0, j))))
    V.check('induction: longer', imp(And(P(i, j), P(i, j + 1), P(i + 1, j), Q(i + 1) == And(Q(i), same(i, i)),
                                          E(i + 1, j + 1) == least(E(i, j + 1) + 1, E(i + 1, j) + 1, E(i, j) + z3.If(same(i, j), 0, 1)),
                                          F(j + 1, i + 1) == least(F(j, i + 1) + 1, F(j + 1, i) + 1, F(j, i) + z3.If(same(i, j), 0, 1))), P(i + 1, j + 1)))


def table(V):
    keys = V.seq('keys', KInt())
    V.assume(All([(0, keys.n), (0, keys.n)], lambda i, j: imp(keys[i] == keys[j], i == j), pat=lambda i, j: [[keys[i], keys[j]]]))
    VAL = z3.Function('data', I, I)
    d = models.ordered_dict(V, V.mkdict(), keys, lambda i: VAL(Z(i)))
    return keys, VAL, d


@U.unit('find', claim='an exact name gives its data; otherwise an abbreviation of exactly one name gives the data of that one; anything else is refused, naming all closest names', time_limit=200)
def find(V):
    keys, VAL, d = table(V)
    name = V.int('name')
    D = z3.Function('distance', I, I)

    def dist(V, a):
        V.check('free insertions, unit costs otherwise', And(eq(V, a['insertionCost'], 0), eq(V, a['deletionCost'], 1), eq(V, a['substitutionCost'], 1)))
        V.check('of the name', eq(V, a['first'], name))
        k = Z(a['second'])
        V.assume(D(k) >= 0)
        return D(k)
    V.contracts[X + 'levenshtein'] = dist
    named = []
    V.contracts[X + '_listify'] = lambda V, a: named.append(V.seq_of(a['sequence'])) or Opaque('names')
    V.assume(All((0, keys.n), lambda i: D(keys[i]) >= 0, pat=lambda i: D(keys[i])))
    how, r = V.outcome(X + 'find_item', [d, name])
    w, v = V.int('w'), V.int('v')
    inside = lambda i: And(0 <= i, i < keys.n)
    if how == 'ok':
        V.check('the data of a name, its own or the only one which it abbreviates', imp(And(inside(w), keys[w] == name), Z(r) == VAL(w)))
        none = All((0, keys.n), lambda i: keys[i] != name, pat=lambda i: keys[i])
        V.check('something was found', V.exists(0, keys.n, lambda i: And(Z(r) == VAL(i), Or(keys[i] == name, D(keys[i]) == 0))))
        V.assume(none)
        V.check('no other one', imp(And(inside(w), D(keys[w]) == 0), Z(r) == VAL(w)))
        V.check('not ambiguous', imp(And(inside(w), inside(v), D(keys[w]) == 0, D(keys[v]) == 0), w == v))
        return
    V.check('refused', r.cls.name == 'ValueError')
    V.check('not an exact name', imp(inside(w), keys[w] != name))
    if V.decide(keys.n == 0):
        return
    V.check('the closest names are named', len(named) == 1)
    s = named[0]
    V.check('only closest names', All((0, s.n), lambda i: imp(inside(w), D(Z(s[i])) <= D(keys[w])), pat=lambda i: Z(s[i])))
    V.check('not just one abbreviation', imp(And(inside(w), D(keys[w]) == 0), V.exists(0, keys.n, lambda i: And(i != w, D(keys[i]) == 0))))
    V.assume(And(inside(w), V.formula(All((0, keys.n), lambda i: D(keys[w]) <= D(keys[i]), pat=lambda i: D(keys[i])))))
    V.check('every closest name', V.exists(0, s.n, lambda i: Z(s[i]) == keys[w]))


@U.unit('tables', claim='chords, scales, intervals and temperaments are looked up in the table of their kind')
def tables(V):
    for fn, tab in (('klang.music.chords.find_chord', 'klang.music.chords.CHORDS'), ('klang.music.intervals.find_interval', 'klang.music.intervals.INTERVALS'),
                    ('klang.music.tunings.find_temperament', 'klang.music.tunings.TEMPERAMENTS')):
        t = V.mkdict([])
        V.overlay[tab] = t
        asked = []
        data = Opaque('data')
        V.contracts[X + 'find_item'] = lambda V, a: asked.append((a['dct'], a['name'])) or data
        name = Opaque('name')
        V.check(fn + ': the data found', V.expect_ok('find', fn, [name]) is data)
        V.check(fn + ': in its table', len(asked) == 1 and asked[0][0] is t and asked[0][1] is name)
    scales = V.seq('scales', KInt())
    code = V.int('code')
    V.assume(And(code >= 0, code < scales.n))
    V.overlay['klang.music.scales.ALL_POSSIBLE_SCALES'] = V.mklist(scales)
    t = V.mkdict([])
    V.overlay['klang.music.scales.KNOWN_SCALES'] = t
    V.contracts[X + 'find_item'] = lambda V, a: asked.append((a['dct'], a['name'])) or code
    asked = []
    V.check('scales: the scale of the code found', eq(V, V.expect_ok('find', 'klang.music.scales.find_scale', [name]), scales[code]))
    V.check('scales: in its table', len(asked) == 1 and asked[0][0] is t and asked[0][1] is name)


@U.unit('staying on a pitch', claim='the code of a scale with repeated pitches is that of its pitches')
def staying(V):
    for scale, code in (([3, 1, 0, 3, 4, 1], [0, 3, 4, 7, 11]), ([0, 12], [0]), ([2, 0, 0, 10], [0, 2]), ([0, 5, 0, 7, 0], [0, 5])):
        k = V.expect_ok('code', 'klang.music.scales.scale_2_code', [V.mklist(scale)])
        V.check('code of the pitches', eq(V, k, sum(2 ** p for p in code)))

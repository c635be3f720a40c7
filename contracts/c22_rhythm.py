"""C22: Euclidean rhythms (Bjorklund's algorithm)."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['integers are unbounded (as in Python)', 'the balance of stretches longer than the distance of two neighbouring pulses is bounded only (all rhythms up to 90 slots, random ones up to 600)']

I = z3.IntSort()
LEN, ONES, C, RM = [z3.Function(n, I, I) for n in ('LEN', 'ONES', 'C', 'RM')]   # ghost: word length / pulses / count / remainder per level
POS, IDX = z3.Function('POS', I, I), z3.Function('IDX', I, I)                   # ghost: position of the j-th pulse, index of the pulse at a position
FN = 'klang.music.rhythm._compute_bitmap'
BUILD = FN + '.build_string'


def word(V, l):
    """Definition of the word lengths at level l: S(-1) = 0, S(-2) = 1, S(l) = S(l-1)^C(l) S(l-2) if RM(l) != 0."""
    l = Z(l)
    V.axiom(And(LEN(z3.IntVal(-1)) == 1, LEN(z3.IntVal(-2)) == 1, ONES(z3.IntVal(-1)) == 0, ONES(z3.IntVal(-2)) == 1))
    V.axiom(imp(l >= 0, And(LEN(l) == C(l) * LEN(l - 1) + If(RM(l) != 0, LEN(l - 2), 0),
                            ONES(l) == C(l) * ONES(l - 1) + If(RM(l) != 0, ONES(l - 2), 0))))


class St:
    """Ghost state of the bitmap: length, pulses so far, zeros since the last pulse."""

    def __init__(self, n, cnt, z):
        self.n, self.cnt, self.z = n, cnt, z

    @staticmethod
    def fresh():
        return St(*[KInt().fresh(x) for x in ('n', 'cnt', 'z')])


def wellformed(V, s, st, c0, even):
    return [('length', s.n == st.n), ('counts', And(st.cnt >= 0, st.z >= 0, st.z <= st.n)),
            ('zeros and ones', All((0, s.n), lambda i: Or(Z(at(s, i)) == 0, Z(at(s, i)) == 1), pat=lambda i: Z(at(s, i)))),
            ('pulses are numbered', All((0, s.n), lambda i: imp(Z(at(s, i)) == 1, And(IDX(i) >= 0, IDX(i) < st.cnt, POS(IDX(i)) == i)), pat=lambda i: Z(at(s, i)))),
            ('numbered positions are pulses', All((0, st.cnt), lambda j: And(POS(j) >= 0, POS(j) < s.n, Z(at(s, POS(j))) == 1, IDX(POS(j)) == j), pat=lambda j: POS(j))),
            ('pulses in order', All([(0, st.cnt), (0, st.cnt)], lambda a, b: imp(a < b, POS(a) < POS(b)), pat=lambda a, b: (POS(a), POS(b)))),
            ('zeros since the last pulse', If(st.cnt == 0, st.z == st.n, POS(st.cnt - 1) == st.n - 1 - st.z)),
            ('first pulse', imp(even, st.cnt >= 1, POS(0) == c0)),
            ('distances', All([(0, st.cnt), (0, st.cnt)], lambda a, b: imp(even, b == a + 1, And(POS(b) - POS(a) >= c0 + 1, POS(b) - POS(a) <= c0 + 2)), pat=lambda a, b: (POS(a), POS(b))))]


def pre(level, st, c0, even):
    return [('level', level >= -2),
            ('gap before a pulse', imp(even, level == -2, If(st.cnt == 0, st.z == c0, And(st.z >= c0, st.z <= c0 + 1)))),
            ('gap before a word', imp(even, level >= 0, And(st.z <= 1, imp(st.cnt == 0, st.z == 0))))]


def post(level, st, st2, c0, even):
    return [('length grows by the word', st2.n == st.n + LEN(level)),
            ('pulses grow by the word', st2.cnt == st.cnt + ONES(level)),
            ('zeros behind', And(imp(level == -2, st2.z == 0), imp(level == -1, st2.z == st.z + 1), imp(even, level == 0, And(st2.z == 0, st2.cnt >= 1)),
                                 imp(even, level >= 1, And(st2.z <= 1, st2.cnt >= 1))))]


def setup(V, k, n):
    """Contract of the level loop; C and RM name the entries of the two lists."""
    def inv(V, L):
        d, lv, r, c = Z(L['divisor']), Z(L['level']), L['remainder'].seq, L['count'].seq
        return [('levels', And(lv >= 0, r.n == lv + 1, c.n == lv)),
                ('entries', All((0, lv), lambda l: And(Z(at(r, l)) == RM(l), RM(l) > 1, Z(at(c, l)) == C(l), C(l) >= 0, imp(l >= 1, C(l) >= 1)), pat=lambda l: C(l))),
                ('current remainder', And(Z(at(r, lv)) == RM(lv), RM(lv) >= 0, imp(lv == 0, RM(lv) == k), imp(lv >= 1, RM(0) == k))),
                ('divisor', And(d >= 0, imp(lv >= 1, And(d == RM(lv - 1), d > RM(lv), d > 1, RM(0) == k)), imp(lv == 0, d == n - k))),
                ('lengths add up', d * LEN(lv - 1) + RM(lv) * LEN(lv - 2) == n),
                ('pulses add up', d * ONES(lv - 1) + RM(lv) * ONES(lv - 2) == k),
                ('sizes', And(LEN(lv - 1) >= 1, LEN(lv - 2) >= 1, ONES(lv - 1) >= 0, ONES(lv - 2) >= 0))]

    def entry(V, L):
        word(V, 0)
        V.assume(RM(z3.IntVal(0)) == k)          # ghost definition: RM(0) is the first entry

    def after(V, L):
        lv, r, c = Z(L['level']), L['remainder'].seq, L['count'].seq
        V.assume(And(RM(lv) == Z(r[lv]), C(lv - 1) == Z(c[lv - 1])))     # ghost definition: entries appended in this step
        word(V, lv - 1)
        x = lv - 1
        d0 = C(x) * RM(x) + RM(lv)      # the old divisor
        V.check('step: length', imp(x >= 0, RM(x) * (C(x) * LEN(x - 1) + LEN(x - 2)) + RM(lv) * LEN(x - 1) == d0 * LEN(x - 1) + RM(x) * LEN(x - 2)))
        V.check('step: pulses', imp(x >= 0, RM(x) * (C(x) * ONES(x - 1) + ONES(x - 2)) + RM(lv) * ONES(x - 1) == d0 * ONES(x - 1) + RM(x) * ONES(x - 2)))
        V.check('step: positive length', And(C(x) * LEN(x - 1) >= 0, C(x) * ONES(x - 1) >= 0))
    V.loops[FN + '#0'] = LoopSpec(inv, on_entry=entry, after_body=after, variant=lambda V, L: Z(at(L['remainder'].seq, Z(L['level']))))


def final_level(V, args, k):
    """Facts at the (only) outer call of build_string; returns the level it is called with and the closure's lists."""
    env = V.callee.closure
    c, r = env.find('count').vars['count'].seq, env.find('remainder').vars['remainder'].seq
    lv = Z(args['level'])
    V.assume(C(lv) == Z(c[lv]))                  # ghost definition: last entry of count
    word(V, lv)
    return lv, c, r


@U.unit('_compute_bitmap', claim='for all 0 <= pulses <= slots the word built at the last level has exactly slots entries and pulses ones; the recursion is entered with its contract')
def compute_bitmap(V):
    n, k = V.int('num_slots', 0), V.int('num_pulses', 0)
    V.assume(k <= n)
    even = k >= 2
    setup(V, k, n)
    seen = []

    def build(V, a):
        lv, c, r = final_level(V, a, k)
        seen.append(lv)
        c0 = C(z3.IntVal(0))
        V.check('the list starts empty', a['bitmap'] is None)
        V.check('word length is the number of slots', LEN(lv) == n)
        V.check('word pulses are the number of pulses', ONES(lv) == k)
        st = St(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
        for l, f in pre(lv, st, c0, even):
            V.check('build_string: ' + l, f)
        V.check('count has one entry per level', And(c.n == lv + 1, r.n == lv + 1))
        V.check('all entries of count', All((0, lv + 1), lambda l: And(Z(at(c, l)) == C(l), C(l) >= 0, imp(l >= 1, C(l) >= 1)), pat=lambda l: C(l)))
        V.check('all entries of remainder', All((0, lv + 1), lambda l: Z(at(r, l)) == RM(l)))
        V.check('several pulses need several levels', imp(even, lv >= 1))
        V.check('only the last level may have no remainder', All((0, lv), lambda l: RM(l) > 1))
        b = V.list('bitmap', KInt())
        V.ghost['st'] = st2 = St.fresh()
        V.ghost['res'] = b
        for l, f in wellformed(V, b.seq, st2, c0, even) + post(lv, st, st2, c0, even):
            V.assume(f)
        return b
    V.contracts[BUILD] = build
    b = V.expect_ok('_compute_bitmap', FN, [n, k])
    V.check('the word of the last level is the result', b is V.ghost.get('res'))
    st, s, c0 = V.ghost['st'], b.seq, C(z3.IntVal(0))
    for label, f in bitmap_facts(V, s, n, k, c0):
        V.check(label, f)


def bitmap_facts(V, s, n, k, c0):
    return [('as many entries as slots', s.n == n),
            ('zeros and ones', All((0, s.n), lambda i: Or(Z(s[i]) == 0, Z(s[i]) == 1), pat=lambda i: Z(s[i]))),
            ('every one is a numbered pulse', All((0, s.n), lambda i: imp(Z(s[i]) == 1, And(IDX(i) >= 0, IDX(i) < k, POS(IDX(i)) == i)), pat=lambda i: Z(s[i]))),
            ('every numbered pulse is a one', All((0, k), lambda j: And(POS(j) >= 0, POS(j) < n, Z(s[POS(j)]) == 1, IDX(POS(j)) == j), pat=lambda j: POS(j))),
            ('pulses in order', All([(0, k), (0, k)], lambda a, b: imp(a < b, POS(a) < POS(b)), pat=lambda a, b: (POS(a), POS(b)))),
            ('neighbour distances', All([(0, k), (0, k)], lambda a, b: imp(k >= 2, b == a + 1, And(POS(b) - POS(a) >= c0 + 1, POS(b) - POS(a) <= c0 + 2)), pat=lambda a, b: (POS(a), POS(b)))),
            ('distance around the end', imp(k >= 2, And(POS(0) + n - POS(k - 1) >= c0 + 1, POS(0) + n - POS(k - 1) <= c0 + 2)))]


@U.unit('build_string', claim='build_string(level) appends the word of its level: lengths and pulses follow the recursion, and gaps between pulses are c0 or c0+1 zeros')
def build_string(V):
    n, k = V.int('num_slots', 0), V.int('num_pulses', 0)
    V.assume(k <= n)
    even = k >= 2
    setup(V, k, n)

    def outer(V, a):
        f = V.callee
        top, c, r = final_level(V, a, k)
        c0 = C(z3.IntVal(0))
        V.assume(c.n == top + 1)
        V.assume(r.n == top + 1)
        V.assume(imp(even, top >= 1))            # obligations of unit _compute_bitmap
        V.assume(All((0, top + 1), lambda l: And(Z(at(c, l)) == C(l), C(l) >= 0, imp(l >= 1, C(l) >= 1), Z(at(r, l)) == RM(l)), pat=lambda l: C(l)))
        V.assume(All((0, top), lambda l: RM(l) > 1, pat=lambda l: RM(l)))
        level = V.int('lv', -2)
        V.assume(level <= top)
        b = V.list('bitmap', KInt())
        st = GhostCell(V, St.fresh(), lambda V: St.fresh())
        st0 = st.value
        for l, x in wellformed(V, b.seq, st0, c0, even) + pre(level, st0, c0, even):
            V.assume(x)
        word(V, level)

        def rec(V, a):
            lv2 = Z(a['level'])
            V.check('recursion: level decreases', And(lv2 < level, level >= 0))
            V.check('recursion: same list', a['bitmap'] is b)
            cur = st.value
            for l, x in wellformed(V, b.seq, cur, c0, even) + pre(lv2, cur, c0, even):
                V.check('recursion: ' + l, x)
            new = St.fresh()
            V.setseq(b, V.seq('bitmap2', KInt(), KInt().fresh('len')))
            st.set(V, new)
            for l, x in wellformed(V, b.seq, new, c0, even) + post(lv2, cur, new, c0, even):
                V.assume(x)
            return b
        V.contracts[BUILD] = rec

        def inv(V, L):
            cur, kk = st.value, Z(L.k)
            return [(l, x) for l, x in wellformed(V, b.seq, cur, c0, even)] + [
                ('length so far', cur.n == st0.n + kk * LEN(level - 1)), ('pulses so far', cur.cnt == st0.cnt + kk * ONES(level - 1)),
                ('zeros so far', And(imp(level == 0, cur.z == st0.z + kk),
                                     imp(even, level == 1, If(kk == 0, cur.z == st0.z, And(cur.z == 0, cur.cnt >= 1))),
                                     imp(even, level >= 2, If(kk == 0, cur.z == st0.z, And(cur.z <= 1, cur.cnt >= 1)))))]

        def after(V, L):
            kk = Z(L.k)
            V.check('one more word', And(kk * LEN(level - 1) == (kk - 1) * LEN(level - 1) + LEN(level - 1), kk * ONES(level - 1) == (kk - 1) * ONES(level - 1) + ONES(level - 1)))
        V.loops[BUILD + '#0'] = LoopSpec(inv, after_body=after)
        res = V.expect_ok('build_string', f, [level, b])
        V.check('the list given is returned', res is b)
        cur = st.value
        # base levels: the entry itself
        if V.decide(level < 0):
            one = level == -2
            V.check('base: one entry is appended', b.seq.n == st0.n + 1)
            V.check('base: its value', Z(b.seq[st0.n]) == If(one, 1, 0))
            V.assume(imp(one, And(POS(st0.cnt) == st0.n, IDX(st0.n) == st0.cnt)))     # ghost definition: the pulse just appended
            cur = St(st0.n + 1, If(one, st0.cnt + 1, st0.cnt), If(one, 0, st0.z + 1))
        for l, x in wellformed(V, b.seq, cur, c0, even) + post(level, st0, cur, c0, even):
            V.check('after: ' + l, x)
        V.finish()
    V.contracts[BUILD] = outer
    V.expect_ok('_compute_bitmap', FN, [n, k])


@U.unit('euclidian_rhythm', claim='the pattern has the requested slots and pulses, and cyclic distances between neighbouring pulses differ by at most one')
def euclidian(V):
    n, k = V.int('nSlots', 0), V.int('nPulses', 0)
    V.assume(k <= n)
    c0 = C(z3.IntVal(0))
    given = []

    def bitmap(V, a):
        given.append((a['num_slots'], a['num_pulses']))
        V.check('called with slots and pulses', And(Z(a['num_slots']) == n, Z(a['num_pulses']) == k))
        b = V.list('bitmap', KInt())
        for l, f in bitmap_facts(V, b.seq, n, k, c0):
            V.assume(f)
        V.ghost['bitmap'] = b.seq
        return b
    V.contracts[FN] = bitmap
    r = V.expect_ok('euclidian_rhythm', 'klang.music.rhythm.euclidian_rhythm', [k, n]).seq
    probe = z3.Int('probe')
    if 'bitmap' in V.ghost and z3.eq(z3.simplify(Z(r[probe])), z3.simplify(Z(V.ghost['bitmap'][probe]))):
        pos, place = POS, IDX        # the word itself is the pattern
    else:
        pos = lambda j: n - 1 - POS(k - 1 - j)        # j-th pulse of the (reversed) pattern
        place = lambda i: k - 1 - IDX(n - 1 - i)
    V.check('exactly nSlots entries', r.n == n)
    V.check('only zeros and ones', All((0, n), lambda i: Or(Z(r[i]) == 0, Z(r[i]) == 1)))
    V.check('nPulses different pulses', All((0, k), lambda j: And(pos(j) >= 0, pos(j) < n, Z(r[pos(j)]) == 1)))
    V.check('pulses in order', All((0, k - 1), lambda j: pos(j) < pos(j + 1)))
    V.check('no other pulses', All((0, n), lambda i: imp(Z(r[i]) == 1, And(place(i) >= 0, place(i) < k, pos(place(i)) == i))))
    V.check('distances are c0 + 1 or c0 + 2', All((0, k - 1), lambda j: And(pos(j + 1) - pos(j) >= c0 + 1, pos(j + 1) - pos(j) <= c0 + 2)))
    V.check('also around the end', imp(k >= 2, And(pos(0) + n - pos(k - 1) >= c0 + 1, pos(0) + n - pos(k - 1) <= c0 + 2)))

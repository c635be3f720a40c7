"""C14: arpeggio."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['random.shuffle yields some rearrangement; bisect.insort inserts behind all elements not greater (library contracts)',
               'pitches, velocities and frequencies of notes are mathematical reals']
A = 'klang.arpeggiator.Arpeggio'
PERM = 'klang.arpeggiator.arpeggio_index_permutation'
ORDERS = ('up', 'down', 'upDown', 'downUp', 'alternating', 'random')


@U.unit('interleave', claim='elements alternate as long as both last; the rest of the longer one follows')
def inter(V):
    a, b = V.list('first', KInt()), V.list('second', KInt())
    sa, sb = a.seq, b.seq
    r = V.expect_ok('interleave', 'klang.arpeggiator.interleave', [a, b])
    V.check('a list', isinstance(r, SList))
    s = V.seq_of(r)
    p, q = Z(sa.n), Z(sb.n)
    m = If(p < q, p, q)
    V.check('length', Z(s.n) == p + q)
    V.check('first at even places', All((0, m), lambda i: s[2 * i] == sa[i]))
    V.check('second at odd places', All((0, m), lambda i: s[2 * i + 1] == sb[i]))
    V.check('rest of the first', All((m, p), lambda i: s[m + i] == sa[i]))
    V.check('rest of the second', All((m, q), lambda i: s[m + i] == sb[i]))
    V.check('arguments unchanged', a.seq is sa and b.seq is sb)


def cycle_length(order, n):
    return If(n >= 2, 2 * n - 2, n) if order in ('upDown', 'downUp') else n


def entry(order, n, i):
    """The index played at place i of a cycle."""
    if order == 'up':
        return i
    if order == 'down':
        return n - 1 - i
    if order == 'upDown':
        return If(i < n, i, 2 * n - 2 - i)
    if order == 'downUp':
        return If(i < n, n - 1 - i, i - n + 1)
    if order == 'alternating':
        return If(i % 2 == 0, i / 2, n - 1 - i / 2)


def place(order, n, j):
    """A place of a cycle where index j is played."""
    if order in ('up', 'upDown'):
        return j
    if order in ('down', 'downUp'):
        return n - 1 - j
    h = (n + 1) / 2
    return If(j < h, 2 * j, 2 * (n - 1 - j) + 1)


def perm_unit(order):
    @U.unit('order %s' % order, claim='a cycle holds every index (once, or there and back without the turning points)')
    def perm(V):
        n = V.int('length')
        V.assume(n >= 0)
        r = V.expect_ok('permutation', PERM, [order, n])
        s = V.seq_of(r)
        m = cycle_length(order, n)
        V.check('a list', isinstance(r, SList))
        V.check('length', Z(s.n) == m)
        if V.decide(m == 0):
            return
        if order != 'random':
            V.check('entries', All((0, m), lambda i: s[i] == entry(order, n, i)))
            V.check('entries are indices', All((0, m), lambda i: And(entry(order, n, i) >= 0, entry(order, n, i) < n)))
            V.check('every index is played', All((0, n), lambda j: And(place(order, n, j) >= 0, place(order, n, j) < m, entry(order, n, place(order, n, j)) == j)))
        else:
            V.check('entries are indices', All((0, m), lambda i: And(s[i] >= 0, s[i] < n)))
            V.check('each index at most once', All([(0, m), (0, m)], lambda i, j: imp(i < j, s[i] != s[j])))
            j = V.int('j')
            V.assume(And(0 <= j, j < n))
            if getattr(s, 'perm', None):
                V.check('every index is played', And(0 <= s.perm[1](j), s.perm[1](j) < m, s[s.perm[1](j)] == j))
            else:
                V.check('every index is played', V.exists(0, m, lambda i: s[i] == j))


for _o in ORDERS:
    perm_unit(_o)


@U.unit('unknown order', claim='only the six orders are accepted')
def unknown(V):
    for f, a in ((PERM, ['sideways', V.int('n')]), (A, ['sideways'])):
        st, r = V.outcome(f, a)
        V.check('refused', st == 'raise' and r.cls.name == 'ValueError')


# ---------------------------------------------------------------- the container
def note_kind(V):
    return KNT(V.lookup('klang.messages.Note'), [KReal(), KReal(), KReal()])


def a_note(V, name):
    p, v, f = V.real(name + '.pitch'), V.real(name + '.velocity'), V.real(name + '.frequency')
    V.assume(And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0))
    return V.expect_ok('Note', 'klang.messages.Note', [p, v, f])


def pitch(V, n):
    return to_real(V.getattr(n, 'pitch'))


def same(V, a, b):
    return And(*[eq(V, x, y) for x, y in zip(a.vals, b.vals)])


PLACE = 'place'


def summarise(V):
    """Replace the permutation by its contract (proved above, for every order)."""
    def perm(V, a):
        n = Z(a['length'])
        V.check('the order of the arpeggio is used', a['order'] is V.ghost['order'])
        m = V.int('cycle')
        V.assume(And(m >= n, imp(n == 0, m == 0), imp(n > 0, m > 0)))
        s = Seq.fresh('perm', KInt(), m)
        where = KInt().uf('where', 1)
        V.assume(All((0, m), lambda i: And(s[i] >= 0, s[i] < n), pat=lambda i: s[i]))
        V.assume(All((0, n), lambda j: And(where(j) >= 0, where(j) < m, s[where(j)] == j), pat=lambda j: where(j)))
        V.ghost['where'] = where
        V.ghost['permuted'] = (n, s)
        return V.mklist(s)
    V.contracts[PERM] = perm


def arpeggio(V, nonempty=False):
    """Any reachable state: sorted notes of different pitch, play order for that many notes, position inside."""
    summarise(V)
    order = V.ghost['order'] = 'up'
    a = V.expect_ok('new', A, [order])
    n, m, c = V.int('n'), V.int('cycle'), V.int('current')
    V.assume(And(n >= (1 if nonempty else 0), m >= n, imp(n == 0, m == 0), imp(n > 0, And(0 <= c, c < m)), imp(n == 0, c == 0)))
    notes = V.list('notes', note_kind(V), n)
    s = notes.seq
    V.assume(All((0, n), lambda i: valid_note(V, s[i]), pat=lambda i: pitch(V, s[i])))
    V.assume(All([(0, n), (0, n)], lambda i, j: imp(i < j, pitch(V, s[i]) < pitch(V, s[j])), pat=lambda i, j: [[pitch(V, s[i]), pitch(V, s[j])]]))
    p = V.list('permutation', KInt(), m)
    ps, where = p.seq, KInt().uf('where0', 1)
    V.assume(All((0, m), lambda i: And(ps[i] >= 0, ps[i] < n), pat=lambda i: ps[i]))
    V.assume(All((0, n), lambda j: And(where(j) >= 0, where(j) < m, ps[where(j)] == j), pat=lambda j: where(j)))
    V.ghost['where'] = where
    V.ghost['permuted'] = (n, ps)
    V.setattr(a, 'notes', notes)
    V.setattr(a, 'permutation', p)
    V.setattr(a, 'current', c)
    return a, s, n, ps, m, c


def valid_note(V, x):
    p, v, f = x.vals
    return And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0)


def invariant(V, a):
    s, p, c = V.seq_of(V.getattr(a, 'notes')), V.seq_of(V.getattr(a, 'permutation')), Z(V.getattr(a, 'current'))
    n, m, where = Z(s.n), Z(p.n), V.ghost['where']
    empty = const_int(s.n) == 0
    pn, pp = V.ghost.get('permuted', (0, p))
    return [('play order is the one for this number of notes', And(Z(pn) == n, p is pp)),
            ('sorted, each pitch once', True if empty else All([(0, n), (0, n)], lambda i, j: imp(i < j, pitch(V, s[i]) < pitch(V, s[j])))),
            ('play order holds indices', All((0, m), lambda i: And(at(p, i) >= 0, at(p, i) < n))),
            ('every held note is in the play order', All((0, n), lambda j: And(where(j) >= 0, where(j) < m, at(p, where(j)) == j))),
            ('position is inside the play order', And(c >= 0, Or(c < m, And(m == 0, c == 0))))]


@U.unit('new', claim='an empty arpeggio is well formed')
def new(V):
    summarise(V)
    order = V.ghost['order'] = 'down'
    a = V.expect_ok('new', A, [order])
    V.ghost['where'] = KInt().uf('where', 1)
    for l, f in invariant(V, a):
        V.check(l, f)
    V.check('empty', Z(length(V, V.seq_of(V.getattr(a, 'notes')))) == 0)
    st, e = V.outcome(V.getattr(a, '__next__'), [])
    V.check('nothing to play', st == 'raise' and e.cls.name == 'StopIteration')


@U.unit('add a note', claim='a held pitch changes nothing; otherwise exactly this note comes in at its place')
def add(V):
    a, s, n, ps, m, c = arpeggio(V)
    x = a_note(V, 'x')
    V.expect_ok('add', V.getattr(a, 'add_note'), [x])
    t = V.seq_of(V.getattr(a, 'notes'))
    k = V.int('k')
    if V.decide(Z(t.n) == n):
        V.check('unchanged only when the pitch is held', V.exists(0, n, lambda i: pitch(V, s[i]) == pitch(V, x)))
        V.check('notes unchanged', All((0, n), lambda i: same(V, t[i], s[i])))
        V.check('position unchanged', And(Z(V.getattr(a, 'current')) == c))
        q = V.seq_of(V.getattr(a, 'permutation'))
        V.check('play order unchanged', q is ps)
        return
    V.check('only a new pitch is added', All((0, n), lambda i: pitch(V, s[i]) != pitch(V, x)))
    V.check('one more note', Z(t.n) == n + 1)
    V.assume(And(0 <= k, k <= n))
    V.assume(All((0, n), lambda i: (pitch(V, s[i]) < pitch(V, x)) == (i < k), pat=lambda i: pitch(V, s[i])))
    V.check('lower notes stay', All((0, k), lambda i: same(V, t[i], s[i])))
    V.check('the note is held', same(V, t[k], x))
    V.check('higher notes move up', All((k, n), lambda i: same(V, t[i + 1], s[i])))
    for l, f in invariant(V, a):
        V.check(l, f)


@U.unit('a sorted list splits at a new pitch', claim='by induction: the place k assumed when adding exists')
def split(V):
    n, k, x = V.int('n'), V.int('k'), V.real('x')
    s = KReal().uf('pitch', 1)
    V.assume(n >= 0)
    V.assume(All([(0, n + 1), (0, n + 1)], lambda i, j: imp(i < j, s(i) < s(j)), pat=lambda i, j: [[s(i), s(j)]]))
    V.assume(And(0 <= k, k <= n))
    V.assume(All((0, n), lambda i: (s(i) < x) == (i < k), pat=lambda i: s(i)))
    k2 = If(k < n, k, If(s(n) < x, n + 1, n))
    V.check('base', True)
    V.check('step', And(0 <= k2, k2 <= n + 1))
    V.check('step splits', All((0, n + 1), lambda i: (s(i) < x) == (i < k2)))


@U.unit('remove a note', claim='exactly the note of this pitch goes; an unknown pitch is refused and changes nothing')
def remove(V):
    a, s, n, ps, m, c = arpeggio(V)
    x = a_note(V, 'x')
    V.loops[A + '.remove_note#0'] = LoopSpec(lambda V, L: [('not found yet', All((0, L.k), lambda i: pitch(V, s[i]) != pitch(V, x), pat=lambda i: pitch(V, s[i])))])
    st, r = V.outcome(V.getattr(a, 'remove_note'), [x])
    t = V.seq_of(V.getattr(a, 'notes'))
    if st == 'raise':
        V.check('refused with ValueError', r.cls.name == 'ValueError')
        V.check('only an unknown pitch is refused', All((0, n), lambda i: pitch(V, s[i]) != pitch(V, x)))
        V.check('nothing changed', And(Z(t.n) == n, Z(V.getattr(a, 'current')) == c, V.seq_of(V.getattr(a, 'permutation')) is ps))
        V.check('notes unchanged', All((0, n), lambda i: same(V, t[i], s[i])))
        return
    k = V.int('k')
    V.check('one note less', Z(t.n) == n - 1)
    V.check('the pitch was held', V.exists(0, n, lambda i: pitch(V, s[i]) == pitch(V, x)))
    V.assume(And(0 <= k, k < n, pitch(V, s[k]) == pitch(V, x)))
    V.check('notes below stay', All((0, k), lambda i: same(V, t[i], s[i])))
    V.check('notes above move down', All((k + 1, n), lambda i: same(V, t[i - 1], s[i])))
    for l, f in invariant(V, a):
        V.check(l, f)


@U.unit('step', claim='a step yields the held note at the position of the play order and moves on cyclically')
def step(V):
    a, s, n, ps, m, c = arpeggio(V, True)
    r = V.expect_ok('next', V.getattr(a, '__next__'), [])
    V.check('a held note', V.exists(0, n, lambda i: same(V, r, s[i])))
    V.check('the one whose turn it is', same(V, r, s[ps[c]]))
    V.check('moves on cyclically', Z(V.getattr(a, 'current')) == If(c + 1 == m, 0, c + 1))
    V.check('notes and order unchanged', And(V.seq_of(V.getattr(a, 'notes')) is s, V.seq_of(V.getattr(a, 'permutation')) is ps))


@U.unit('initial notes', claim='the given notes are added one after the other to an empty arpeggio')
def initial(V):
    summarise(V)
    V.ghost['order'] = 'up'
    given = V.list('given', note_kind(V))
    g = given.seq
    count = GhostCell(V, z3.IntVal(0), lambda V: KInt().fresh('added'))

    def adding(V, args):
        a = args['self']
        V.check('notes are added in the order given', same(V, args['note'], g[count.value]))
        if const_int(count.value) == 0:
            well_formed_empty(V, a)
        count.set(V, count.value + 1)
    V.contracts[A + '.add_note'] = adding
    V.loops[A + '.__init__#0'] = LoopSpec(lambda V, L: [('one by one', count.value == L.k)])
    well = V.expect_ok('new', A, ['up', given])
    V.check('all given notes are added', count.value == Z(g.n))
    if V.decide(Z(g.n) == 0):
        well_formed_empty(V, well)


def well_formed_empty(V, a):
    V.check('starts empty', And(Z(V.seq_of(V.getattr(a, 'notes')).n) == 0, Z(V.seq_of(V.getattr(a, 'permutation')).n) == 0, Z(V.getattr(a, 'current')) == 0))
    V.check('order is stored', V.getattr(a, 'order') == V.ghost['order'])


@U.unit('arpeggiator', claim='note-ons are held until their note-off; when the phase comes round the sounding note is ended, once, and the next held one starts; nothing is sent otherwise')
def block(V):
    B = 'klang.arpeggiator.Arpeggiator'
    b = V.expect_ok('new', B, [])
    V.check('nothing sounds at first', V.getattr(b, 'prevNote') is None)
    m = V.list('messages', note_kind(V)).seq
    V.assume(All((0, m.n), lambda j: valid_note(V, m[j]), pat=lambda j: m[j].vals[1]))
    held = z3.Function('held', z3.IntSort(), z3.BoolSort())
    left = V.int('held notes', 0)
    done, phase, prev = GhostCell(V, z3.IntVal(0), lambda V: KInt().fresh('handled')), V.real('phase'), V.real('phase before')
    on = lambda x: x.vals[1] > 0
    steps, nexts, sent = [], [], []
    V.contracts['klang.connections._MessageQueue.receive'] = lambda V, a: V.mklist(m)

    def current(V, note, what):
        V.check(what + ': the next message', And(done.value < m.n, same(V, note, m[done.value])))

    def add(V, a):
        current(V, a['note'], 'held')
        V.check('only note-ons are held', on(a['note']))
        V.check('before the step', not nexts and not steps)
        done.set(V, done.value + 1)

    def contains(V, a):
        current(V, a['note'], 'looked for')
        V.check('note-ons are held in any case', Not(on(a['note'])))
        if V.decide(held(Z(done.value))):
            return True
        done.set(V, done.value + 1)
        return False

    def remove(V, a):
        current(V, a['note'], 'released')
        V.check('only note-offs release', Not(on(a['note'])))
        V.check('before the step', not nexts and not steps)
        known = V.decide(held(Z(done.value)))
        done.set(V, done.value + 1)
        if not known:
            V.throw('ValueError', 'no such note')
    nk = note_kind(V)

    def step(V, a):
        V.check('a step needs held notes', left > 0)
        nexts.append(a_note(V, 'next'))
        return nexts[-1]
    for name, f in (('add_note', add), ('__contains__', contains), ('remove_note', remove), ('__len__', lambda V, a: left), ('__next__', step)):
        V.contracts[A + '.' + name] = f

    def phasor(V, a):
        V.check('all messages come first', done.value == Z(m.n))
        steps.append(a)
        V.call(V.getattr(V.getattr(a['self'], 'output'), 'set_value'), [phase])
    V.contracts['klang.audio.oscillators.Phasor.update'] = phasor
    V.contracts['klang.connections.MessageOutput.send'] = lambda V, a: sent.append((a['self'], a['message']))
    V.loops[B + '.update#0'] = LoopSpec(lambda V, L: [('one after the other', done.value == L.k), ('nothing is sent yet', not sent and not nexts)])
    sounding = a_note(V, 'sounding') if V.decide(V.bool('a note sounds')) else None
    if sounding is not None:
        V.assume(on(sounding))
    V.setattr(b, 'prevNote', sounding)
    V.setattr(b, 'prevPhase', prev)
    V.expect_ok('update', V.getattr(b, 'update'), [])
    V.check('every message is handled', done.value == Z(m.n))
    V.check('the phase moves on', len(steps) == 1)
    V.check('the phase is kept', eq(V, V.getattr(b, 'prevPhase'), phase))
    out = V.getattr(b, 'output')
    V.check('on its output', all(o is out for o, _ in sent))
    sent, p = [x for _, x in sent], V.getattr(b, 'prevNote')
    if not V.decide(phase <= prev):
        V.check('nothing is sent within a turn', not sent and not nexts)
        V.check('the note keeps sounding', p is sounding)
        return
    if sounding is not None:
        V.check('the sounding note ends', len(sent) > 0)
        x = sent.pop(0)
        V.check('by its note-off', And(eq(V, pitch(V, x), pitch(V, sounding)), Not(on(x))))
    if V.decide(left > 0):
        V.check('one step', len(nexts) == 1)
        V.check('the next held note starts', len(sent) == 1 and sent[0] is nexts[0])
        V.check('and sounds now', p is nexts[0])
    else:
        V.check('nothing starts', not sent and not nexts)
        V.check('nothing sounds', p is None)

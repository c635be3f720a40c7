"""C31: sequencers play their pattern in time; micro rhythm bends the time within beats."""
from pyvc import models
from pyvc.ops import simp
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['phases, times and tempos are mathematical reals (2*pi a positive real, no rounding at the borders of beats)',
               'phasor, step, lookup and note length blocks behave as in C09, C15 and C16; composites run their inner blocks as in C05',
               'a linear scipy.interpolate.interp1d over ascending angles rises from the first to the last value']
S, RH, O = 'klang.sequencer.', 'klang.music.rhythm.', 'klang.audio.oscillators.'


def tau(V):
    return 2 * PI(V)


def frac(V, name):
    n, d = V.int(name + ' numerator'), V.int(name + ' denominator')
    V.assume(And(n >= 1, d >= 1))
    return FracV(n, d)


def value(x):
    return to_real(x.num) / to_real(x.den) if isinstance(x, FracV) else to_real(x)


def source(V, end):
    return V.getattr(end, 'incomingConnection')


def targets(V, end):
    return list(V.seq_of(V.expect_ok('targets', V.builtin('list'), [V.getattr(end, 'outgoingConnections')])).items)


def one(V, tag, blocks, cls):
    b = [x for x in blocks if x.cls is V.lookup(cls)]
    V.check('%s: one %s' % (tag, cls.split('.')[-1]), len(b) == 1)
    return b[0]


def order(V, c):
    return list(V.seq_of(V.getattr(c, 'execOrder')).items)


def wired(V, tag, seq, pattern, n, period, length):
    """The inside of a sequence over `pattern` of n steps that lasts `period`."""
    inner = order(V, seq)
    V.check(tag + ': four blocks', len(inner) == 4)
    ph, pz, lk, ln = [one(V, tag, inner, c) for c in (O + 'Phasor', S + 'PizzaSlicer', S + 'PatternLookup', 'klang.note_effects.NoteLengthener')]
    V.check(tag + ': one update passes a step on to the output', [inner.index(x) for x in (ph, pz, lk, ln)] == [0, 1, 2, 3])
    ends = lambda b: (V.getattr(b, 'input'), V.getattr(b, 'output'))
    phase_in, phase_out = V.getattr(seq, 'phaseIn'), V.getattr(seq, 'phaseOut')
    out = V.getattr(seq, 'output')
    V.check(tag + ': phase goes out', source(V, phase_out) is ends(ph)[1])
    V.check(tag + ': phase comes in', source(V, ends(pz)[0]) is phase_in)
    V.check(tag + ': steps', source(V, ends(lk)[0]) is ends(pz)[1])
    V.check(tag + ': note-ons', source(V, ends(ln)[0]) is ends(lk)[1])
    V.check(tag + ': notes', source(V, out) is ends(ln)[1])
    V.check(tag + ': the ends belong to the sequence', all(V.getattr(e, 'owner') is seq for e in (phase_in, phase_out, out)))
    V.check(tag + ': as many steps as the pattern', Z(V.getattr(pz, 'nSlices')) == Z(n))
    V.check(tag + ': its pattern', V.getattr(lk, 'pattern') is pattern)
    f = to_real(V.getattr(V.getattr(ph, 'frequency'), 'value'))
    V.check(tag + ': once through the pattern', f * period == 1)
    V.check(tag + ': starts at the beginning', to_real(V.getattr(ph, 'currentPhase')) == 0)
    V.check(tag + ': note length', to_real(V.getattr(ln, 'duration')) == length)
    return phase_in, phase_out


def sequence(V, tempo, grid, beat, n, pattern, parent, **kw):
    return V.expect_ok('new', S + 'Sequence', [parent, pattern], dict(tempo=tempo, beatValue=beat, grid=grid, **kw))


def setting(V):
    tempo, n = V.real('tempo'), V.int('steps')
    V.assume(And(tempo > 0, n >= 1))
    q = V.list('pattern', KInt())
    V.assume(q.seq.n == n)
    grid, beat = frac(V, 'grid'), frac(V, 'beat')
    period = V.real('period')
    V.assume(period * tempo * value(beat) == to_real(n) * value(grid) * 60)
    V.assume(period > 0)
    return tempo, n, q, grid, beat, period


@U.unit('sequence', claim='a sequence steps through its pattern once per length * grid / beat value beats; notes last the given part of a step or the absolute length')
def new_sequence(V):
    tempo, n, q, grid, beat, period = setting(V)
    parent = V.expect_ok('parent', 'klang.composite.Composite', [])
    rel = V.real('relative length')
    s = sequence(V, tempo, grid, beat, n, q, parent, relNoteLength=rel)
    V.check('duration', to_real(V.getattr(s, 'duration')) == period)
    V.check('length', Z(V.getattr(s, 'length')) == n)
    i, o = wired(V, 'relative length', s, q, n, period, rel * period / to_real(n))
    V.check('the phase comes straight in', source(V, i) is o)
    a = V.real('absolute length')
    s = sequence(V, tempo, grid, beat, n, q, parent, absNoteLength=a)
    i, o = wired(V, 'absolute length', s, q, n, period, a)
    V.check('the phase comes straight in again', source(V, i) is o)


@U.unit('a block of a sequence', claim='an update runs phasor, steps, lookup and note length once each, in this order')
def update(V):
    tempo, n, q, grid, beat, period = setting(V)
    s = sequence(V, tempo, grid, beat, n, q, V.expect_ok('parent', 'klang.composite.Composite', []))
    ran = []
    for cls in (O + 'Phasor', S + 'PizzaSlicer', S + 'PatternLookup', 'klang.note_effects.NoteLengthener'):
        V.contracts[cls + '.update'] = lambda V, a: ran.append(a['self'])
    want = order(V, s)
    V.expect_ok('update', V.getattr(s, 'update'), [])
    V.check('each once, in order', len(ran) == 4 and all(a is b for a, b in zip(ran, want)))


@U.unit('micro rhythm patch', claim='an applied micro rhythm takes the phase of its sequence and nothing else does; applying another replaces it, resetting removes it')
def patch(V):
    tempo, n, q, grid, beat, period = setting(V)
    parent = V.expect_ok('parent', 'klang.composite.Composite', [])
    s = sequence(V, tempo, grid, beat, n, q, parent)
    told = []
    V.contracts['klang.composite.Composite.update_internal_exec_order'] = lambda V, a: told.append(a['self'])
    ma, mb = [V.expect_ok('micro rhythm', 'klang.block.Block', [1, 1]) for _ in range(2)]
    i, o = V.getattr(s, 'phaseIn'), V.getattr(s, 'phaseOut')
    ends = lambda m: (V.getattr(m, 'input'), V.getattr(m, 'output'))

    def patched(tag, m, old):
        V.check(tag + ': the phase goes through the micro rhythm', source(V, ends(m)[0]) is o and source(V, i) is ends(m)[1])
        V.check(tag + ': and only there', len(targets(V, o)) == 1 and len(targets(V, ends(m)[1])) == 1)
        for x in old:
            V.check(tag + ': others are free', source(V, ends(x)[0]) is None and not targets(V, ends(x)[1]))
        V.check(tag + ': the sequencer orders its blocks anew', bool(told) and told[-1] is parent)
        del told[:]

    def straight(tag):
        V.check(tag + ': the phase comes straight in', source(V, i) is o and len(targets(V, o)) == 1)
        for x in (ma, mb):
            V.check(tag + ': micro rhythms are free', source(V, ends(x)[0]) is None and not targets(V, ends(x)[1]))
        V.check(tag + ': the sequencer orders its blocks anew', bool(told) and told[-1] is parent)
        del told[:]
    apply, reset = V.getattr(s, 'apply_micro_rhythm'), V.getattr(s, 'reset_micro_rhythm')
    V.expect_ok('apply', apply, [ma])
    patched('first', ma, [mb])
    V.expect_ok('apply again', apply, [ma])
    patched('again', ma, [mb])
    V.expect_ok('apply another', apply, [mb])
    patched('another', mb, [ma])
    V.expect_ok('reset', reset, [])
    straight('reset')
    V.expect_ok('reset', reset, [])
    straight('reset again')
    V.expect_ok('apply', apply, [ma])
    patched('after reset', ma, [mb])


@U.unit('channel of a micro rhythm', claim='the sequencer hands a micro rhythm to the sequence of the channel and to no other')
def channel(V):
    n, c = V.int('channels', 1), V.int('channel', 0)
    V.assume(c < n)
    cls = V.lookup(S + 'Sequence')
    ref = z3.Function('sequence', z3.IntSort(), z3.IntSort())
    V.assume(All([(0, n), (0, n)], lambda i, j: imp(ref(i) == ref(j), i == j), pat=lambda i, j: [[ref(i), ref(j)]]))
    s = V.mkobj(V.lookup(S + 'Sequencer'), sequences=V.mklist(Seq(n, lambda i: Ref(ref(Z(i)), cls), None, KRef([cls]))))
    m = Opaque('micro rhythm')
    for name, given in (('apply_micro_rhythm', [m]), ('reset_micro_rhythm', [])):
        told = []
        V.contracts[S + 'Sequence.' + name] = lambda V, a: told.append(a)
        V.expect_ok(name, V.getattr(s, name), given + [c])
        V.check(name + ': one sequence', len(told) == 1)
        V.check(name + ': that of the channel', Z(told[0]['self'].term) == ref(c))
        V.check(name + ': the micro rhythm given', not given or told[0]['microRhythm'] is m)


def sequencer(split):
    @U.unit('sequencer, %s' % ('split outputs' if split else 'one output'), claim='each row of the pattern gets a sequence of its own with the given settings, on an output of its own or all on one')
    def body(V):
        for rows in (1, 2, 3):
            tempo, _, _, grid, beat, _ = setting(V)
            rel = V.real('relative length')
            qs = []
            for r in range(rows):
                q, n = V.list('row', KInt()), V.int('steps')
                V.assume(And(n >= 1, q.seq.n == n))
                qs.append((q, n))
            s = V.expect_ok('new', S + 'Sequencer', [V.mklist([q for q, _ in qs])], dict(tempo=tempo, grid=grid, beatValue=beat, relNoteLength=rel, splitOutputs=split))
            tag = '%d rows' % rows
            seqs = list(V.seq_of(V.getattr(s, 'sequences')).items)
            V.check(tag + ': a sequence per row', len(seqs) == rows and Z(V.getattr(s, 'nChannels')) == rows)
            outs = list(V.seq_of(V.getattr(s, 'outputs')).items)
            V.check(tag + ': outputs', len(outs) == (rows if split else 1) and all(V.getattr(o, 'owner') is s for o in outs))
            inner = order(V, s)
            for k, ((q, n), c) in enumerate(zip(qs, seqs)):
                period = V.real('period')
                V.assume(And(period > 0, period * tempo * value(beat) == to_real(n) * value(grid) * 60))
                t = tag + ', row %d' % k
                i, o = wired(V, t, c, q, n, period, rel * period / to_real(n))
                V.check(t + ': straight phase', source(V, i) is o)
                V.check(t + ': runs with the sequencer', inner.count(c) == 1)
                out = V.getattr(c, 'output')
                if split:
                    V.check(t + ': on its own output', source(V, outs[k]) is out and len(targets(V, out)) == 1)
                else:
                    dst = targets(V, out)
                    V.check(t + ': into the mixer', len(dst) == 1)
                    m = V.getattr(dst[0], 'owner')
                    V.check(t + ': whose output is that of the sequencer', source(V, outs[0]) is V.getattr(m, 'output'))
                    V.check(t + ': which runs afterwards', inner.count(m) == 1 and inner.index(m) > inner.index(c))
            V.check(tag + ': nothing else runs', len(inner) == rows + (0 if split else 1))
    return body


sequencer(True)
sequencer(False)


def warped(V):
    """A bend of the circle: W rises from 0 to 2 pi."""
    W = z3.Function(fresh_name('bend'), z3.RealSort(), z3.RealSort())
    V.ghost['bend'] = W
    return W


def rising(V, W, *points):
    """W is monotone, W(0) = 0, W stays below 2 pi before it (facts for the points)."""
    t = tau(V)
    ps = [z3.RealVal(0)] + [to_real(p) for p in points]
    V.assume(W(0) == 0)
    for a in ps:
        V.assume(imp(And(0 <= a, a < t), And(0 <= W(a), W(a) < t)))
        for b in ps:
            V.assume(imp(And(0 <= a, a <= b, b < t), W(a) <= W(b)))


@U.unit('bent phase', claim='within the n beats of a turn the phase follows the bend, scaled: it stays in its beat, starts where the beat starts and never runs backwards; phrasing blends straight and bent phase')
def bent(V):
    t, n = tau(V), V.int('beats')
    V.assume(n >= 1)
    W, asked = warped(V), []

    def func(V, x):
        asked.append(to_real(x))
        return W(to_real(x))
    fn = Builtin('bend', func)
    N = to_real(n)
    width = V.real('beat width')
    V.assume(And(width * N == t, width > 0))
    scale = lemma(V, 'products keep order', [KReal(), KReal(), KReal()], lambda a, b, c: imp(a >= b + 1, c > 0, a * c >= b * c + c))

    def unique(turns, rest, *terms):
        """The remainder and quotient of turns * t + rest by t."""
        todo, seen = [to_real(x) for x in terms], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(PYMODR):
                q = to_real(PYMODR_Q(x.arg(0), x.arg(1)))
                scale(q, turns, t)
                scale(turns, q, t)
            todo.extend(x.children())
    got = []
    for k in (1, 2):
        j, u = V.int('beat'), V.real('place')
        V.assume(And(0 <= j, j < n, 0 <= u, u < width))
        p = to_real(j) * width + u
        V.assume(And(p >= 0, p < t))
        V.assume(N * p == to_real(j) * t + N * u)
        V.assume(And(N * u >= 0, N * u < t))
        v = V.real('part of the beat')
        V.assume(And(v * t == N * u, 0 <= v, v < 1, N * p == (to_real(j) + v) * t, N * p / t == to_real(j) + v))
        h = to_real(V.expect_ok('harmonize', RH + 'harmonize', [fn, p, n]))
        V.check('the bend is asked once', len(asked) == 1)
        x = asked.pop()
        unique(to_real(j), N * u, x)
        V.check('at the place in the beat', x == N * u)
        rising(V, W, N * u)
        todo = [h]
        while todo:                                   # the number of the beat, wherever the code computes it
            e = todo.pop()
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_INT and V.solve(z3.Not(e == j))[0] == 'unsat':
                V.assume(e == j)
                V.assume(to_real(e) * t == to_real(j) * t)
            todo.extend(e.children())
        V.check('bent phase', N * h == to_real(j) * t + W(N * u))
        V.check('in its beat', And(to_real(j) * t <= N * h, N * h < to_real(j) * t + t))
        V.check('a beat starts on time', imp(u == 0, N * h == to_real(j) * t))
        got.append((p, j, u, h))
    (p, j, u, h), (p2, j2, u2, h2) = got
    rising(V, W, N * u, N * u2)
    V.check('never backwards within a beat', imp(j == j2, u <= u2, h <= h2))
    V.check('never backwards from beat to beat', imp(j < j2, h <= h2), hints=[to_real(j) * t + t <= to_real(j2) * t])
    x = V.real('phrasing')
    bent = V.real('bent')

    def stub(V, a):
        V.check('bend of this phase', And(to_real(a['phase']) == p, Z(a['n']) == n))
        return bent
    V.contracts[RH + 'harmonize'] = stub
    y = to_real(V.expect_ok('phrase', RH + 'phrase', [fn, p, x, n]))
    V.check('phrasing blends', y == (1 - x) * p + x * bent)


@U.unit('micro rhythm block', claim='the output is the bent input phase with the current phrasing, as many beats to the turn as fit in a whole')
def block(V):
    made = []
    it = Builtin('bend', lambda V, x: x)

    def make(V, a):
        made.append(a)
        return it
    V.contracts[RH + 'MicroRhyhtm.create_phase_interpolator'] = make
    notes, beat = V.mklist([frac(V, 'a'), frac(V, 'b')]), frac(V, 'beat')
    x0 = V.real('first phrasing')
    m = V.expect_ok('new', RH + 'MicroRhyhtm', [notes], dict(phrasing=x0, beatValue=beat))
    V.check('the bend of its notes', len(made) == 1 and made[0]['notes'] is notes)
    V.check('a phase and a phrasing input, one output', len(V.getattr(m, 'inputs').seq.items) == 2 and len(V.getattr(m, 'outputs').seq.items) == 1)
    asked = []

    def stub(V, a):
        asked.append(a)
        return r
    V.contracts[RH + 'phrase'] = stub
    x = x0
    for turn in (1, 2):
        p, r = V.real('phase'), V.real('result')
        V.expect_ok('set phase', V.getattr(V.getattr(m, 'input'), 'set_value'), [p])
        V.expect_ok('update', V.getattr(m, 'update'), [])
        V.check('bent once', len(asked) == 1)
        a = asked.pop()
        k = Z(a['n'])
        V.check('by its bend', a['func'] is it)
        V.check('phase and phrasing', And(to_real(a['phase']) == p, to_real(a['phrasing']) == x))
        V.check('beats of a turn', And(k * Z(beat.num) <= Z(beat.den), (k + 1) * Z(beat.num) > Z(beat.den)))
        V.check('put out', to_real(V.getattr(V.getattr(m, 'output'), 'value')) == r)
        x = V.real('next phrasing')
        V.expect_ok('set phrasing', V.getattr(V.getattr(m, 'phrasing'), 'set_value'), [x])


@U.unit('bend of notes', claim='the bend maps the running sums of the note values, scaled to one turn, onto evenly spaced phases')
def bend(V):
    for n in (1, 2, 3, 4):
        notes = [frac(V, 'note') for _ in range(n)]
        made = []

        def interp1d(V, x, y, kind='linear', *a, **kw):
            made.append((x, y, kind))
            return Builtin('bend', lambda V, x: x)
        V.overlay['scipy.interpolate.interp1d'] = Builtin('interp1d', interp1d)
        V.expect_ok('%d notes' % n, RH + 'MicroRhyhtm.create_phase_interpolator', [V.mklist(notes), 'linear'])
        V.check('one interpolation', len(made) == 1)
        x, y, kind = made[0]
        total = sum([value(f) for f in notes[1:]], value(notes[0]))
        V.check('linear', kind == 'linear')
        xs, ys = V.seq_of(x), V.seq_of(y)
        V.check('%d notes: one angle per note and the end' % n, const_int(xs.n) == n + 1 and const_int(ys.n) == n + 1)
        s = z3.RealVal(0)
        for k in range(n + 1):
            V.check('%d notes: angle %d' % (n, k), to_real(xs[k]) * total == tau(V) * s)
            V.check('%d notes: phase %d' % (n, k), to_real(ys[k]) * n == tau(V) * k)
            if k < n:
                s = s + value(notes[k])

"""C30: clock signals and percussion."""
from pyvc import models
from pyvc.ops import simp
from pyvc.spec import *
from contracts import c09_oscillators as c09
from contracts import c08_envelope as c08

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['frequencies, phases, times and decays are mathematical reals; exp(a + b) = exp(a) exp(b)',
               'numpy.random.random draws values in [0, 1)',
               'message queues deliver as in C03; the envelope block of the hi-hat behaves as in C08']
A, Y = 'klang.audio.synthesizer.', 'klang.audio.sync.'
B = 256
DT = z3.RealVal(1) / 44100
EXP = models.UFS['exp']


def tau(V):
    return 2 * PI(V)


def note_kind(V):
    return KNT(V.lookup('klang.messages.Note'), [KReal()] * 3)


def valid(x):
    p, v, f = x.vals
    return And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0)


def triggers(x):
    return And(to_real(x.vals[0]) > 0, to_real(x.vals[1]) > 0)


def notes(V):
    m = V.list('notes', note_kind(V)).seq
    V.assume(All((0, m.n), lambda i: valid(m[i]), pat=lambda i: m[i].vals[1]))
    return m


def exps(*terms):
    out, seen, todo = {}, set(), [z3.simplify(to_real(t)) for t in terms] + [to_real(t) for t in terms]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(EXP):
                out[x.get_id()] = x
            todo.extend(x.children())
    return list(out.values())


def functional_equation(V, *terms):
    """exp(a + b) = exp(a) exp(b) for the exponentials of the terms."""
    es = exps(*terms)
    for n, a in enumerate(es):
        for b in es[n + 1:]:
            V.axiom(EXP(a.arg(0) + b.arg(0)) == a * b)


def sample_index(V):
    i = V.int('i')
    V.assume(And(0 <= i, i < B))
    return i


def curve(V, decay, t):
    """The decay curve: one at time zero, one time constant per decay/pi seconds."""
    return EXP(-(PI(V) / decay * t))


def is_block(V, tag, y):
    V.check(tag + ': one block', isinstance(y, Arr) and len(y.shape) == 1 and const_int(y.shape[0]) == B)


@U.unit('exponential decay', claim='samples follow exp(-pi t / decay) from the given time on; the returned time is that of the next block')
def decay(V):
    d, t0 = V.real('decay'), V.real('t0')
    V.assume(And(d > 0, t0 >= 0))
    y, t1 = V.seq_of(V.expect_ok('decay', A + 'sample_exponential_decay', [d, t0])).items
    is_block(V, 'decay', y)
    V.check('time of the next block', to_real(t1) == t0 + B * DT)
    i = sample_index(V)
    want = curve(V, d, t0 + to_real(i) * DT)
    functional_equation(V, y.at(i))
    r = V.real('rate')
    V.assume(r == PI(V) / d)
    V.check('on the curve', to_real(y.at(i)) == want)


@U.unit('pitch decay', claim='frequencies fall along the decay curve from frequency (1 + intensity) towards frequency')
def pitch(V):
    d, t0, f, a = V.real('decay'), V.real('t0'), V.real('frequency'), V.real('intensity')
    V.assume(And(d > 0, t0 >= 0))
    env, nxt, asked = V.farray('curve', B), V.real('next'), []

    def curve(V, args):
        asked.append(args)
        return (env, nxt)
    V.contracts[A + 'sample_exponential_decay'] = curve
    y, t1 = V.seq_of(V.expect_ok('pitch', A + 'sample_pitch_decay', [f, d, a, t0])).items
    V.check('the curve is asked once', len(asked) == 1)
    V.check('for this decay and time', And(to_real(asked[0]['decay']) == d, to_real(asked[0]['t0']) == t0))
    is_block(V, 'pitch', y)
    V.check('time of the next block', to_real(t1) == nxt)
    V.check('pitch', All((0, B), lambda i: to_real(y.at(i)) == f * (1 + a * to_real(env.at(i))), pat=lambda i: env.at(i)))


@U.unit('kick', claim='the drum starts anew at every block with a note-on and plays on otherwise: pitch and loudness decay with their own time constants, phase and time go on from block to block')
def kick(V):
    f, d, a, pd = V.real('frequency'), V.real('decay'), V.real('intensity'), V.real('pitch decay')
    V.assume(And(d > 0, pd > 0))
    k = V.expect_ok('new', A + 'Kick', [], dict(frequency=f, decay=d, intensity=a, pitchDecay=pd))
    V.check('one message input, one output', len(V.getattr(k, 'outputs').seq.items) == 1 and len(V.getattr(k, 'inputs').seq.items) == 1)
    t0, p0 = V.real('time'), c09.phase(V)
    V.assume(t0 >= 0)
    if 'currentTime' not in k.fields or 'currentPhase' not in k.fields:
        raise Unsupported('state of the kick drum')
    V.check('starts at zero', And(to_real(V.getattr(k, 'currentTime')) == 0, to_real(V.getattr(k, 'currentPhase')) == 0))
    V.setattr(k, 'currentTime', t0)
    V.setattr(k, 'currentPhase', p0)
    m = notes(V)
    n = Z(m.n)
    message_ports(V, m, note_kind(V))
    hit = KBool().uf('hit', 1)                                            # a note-on was among the first i notes
    V.assume(Not(hit(0)))
    V.assume(All((0, n), lambda i: iff(hit(i + 1), Or(hit(i), triggers(m[i]))), pat=lambda i: m[i].vals[0]))

    def state(V, h):
        return And(to_real(V.getattr(k, 'currentTime')) == If(h, 0, t0), to_real(V.getattr(k, 'currentPhase')) == If(h, 0, p0))
    V.loops[A + 'Kick.update#0'] = LoopSpec(lambda V, L: [('a note-on restarts the drum', state(V, hit(L.k)))])
    asked, waves = [], []

    def curve_of(V, args):
        t = to_real(args['t0'])
        y = V.farray('curve', B)
        asked.append((to_real(args['decay']), t, y))
        return (y, t + B * DT)

    def sine_of(V, args):
        p, = args.values()
        is_block(V, 'phases', p)
        w, get = z3.Function(fresh_name('sine'), z3.RealSort(), z3.RealSort()), p.at
        waves.append((p, w))
        return V.mkarr(p.shape, lambda *i: w(to_real(get(*i))), 'float')
    V.contracts[A + 'sample_exponential_decay'] = curve_of
    V.contracts['klang.audio.waves.sine'] = sine_of
    V.expect_ok('update', V.getattr(k, 'update'), [])
    start, ph = If(hit(n), 0, t0), If(hit(n), 0, p0)
    V.check('one sine wave', len(waves) == 1)
    p, w = waves[0]
    V.check('two decays', len(asked) == 2)
    i = sample_index(V)
    y = V.getattr(V.getattr(k, 'output'), 'value')
    is_block(V, 'output', y)
    V.check('pitch and loudness decay from the same time', And(asked[0][1] == start, asked[1][1] == start))
    which = [x for x in (0, 1) if z3.eq(z3.simplify(asked[x][0]), pd) and z3.eq(z3.simplify(asked[1 - x][0]), d)]
    V.check('one decay for the pitch, one for the loudness', len(which) == 1)
    pitch, loud = asked[which[0]][2], asked[1 - which[0]][2]
    V.check('a sine wave shaped by the decay', to_real(y.at(i)) == to_real(loud.at(i)) * w(to_real(p.at(i))))
    g = lambda i: f * (1 + a * to_real(pitch.at(i)))
    c09.check_phases(V, 'phases', p, ph, V.getattr(k, 'currentPhase'), g)
    V.check('time of the next block', to_real(V.getattr(k, 'currentTime')) == start + B * DT)


def hihat(looped):
    @U.unit('hi-hat, %s' % ('looped noise' if looped else 'noise'), claim='a block is noise in [-1, 1] times the envelope, which gets all notes in order first', overlay=c08.OVERLAY)
    def body(V):
        d = V.real('decay')
        h = V.expect_ok('new', A + 'HiHat', [d, looped])
        V.check('one message input, one output', len(V.getattr(h, 'outputs').seq.items) == 1 and len(V.getattr(h, 'inputs').seq.items) == 1)
        m = notes(V)
        n, log, order, drawn = Z(m.n), Log(V, note_kind(V)), [], []
        message_ports(V, m, note_kind(V))

        class Port(models._HV):
            def attr(self, V, name):
                if name == 'push':
                    return Builtin('push', lambda V, x: log.send(V, x))
                raise Unsupported('envelope input: ' + name)

        class Out(models._HV):
            def attr(self, V, name):
                if name == 'value':
                    return env
                if name == 'get_value':
                    return Builtin('get_value', lambda V: env)
                raise Unsupported('envelope output: ' + name)

        class Env(models._HV):
            def attr(self, V, name):
                if name in ('input', 'trigger'):
                    return Port()
                if name == 'output':
                    V.check('the envelope runs before its samples are used', len(order) == len(seen))
                    return Out()
                if name == 'update':
                    return Builtin('update', lambda V: order.append(log.n))
                raise Unsupported('envelope: ' + name)
        if 'envelope' not in h.fields:
            raise Unsupported('envelope of the hi-hat')
        made = V.getattr(h, 'envelope')
        V.check('a decay only envelope', made.cls is V.lookup('klang.audio.envelopes.D'))
        V.check('of the given decay', to_real(V.getattr(made, 'decay')) == d)
        V.setattr(h, 'envelope', Env())
        V.loops[A + 'HiHat.update#0'] = LoopSpec(lambda V, L: [('notes are passed on', log.n == L.k),
                                                                ('in order', All((0, L.k), lambda i: And(*[to_real(log[i].vals[j]) == to_real(m[i].vals[j]) for j in range(3)]), pat=lambda i: log[i].vals[0]))])
        seen = [1]
        env = V.farray('envelope', B)
        V.expect_ok('update', V.getattr(h, 'update'), [])
        V.check('the envelope runs once', len(order) == 1)
        V.check('all notes come first', And(order[0] == n, log.n == n))
        V.check('notes in order', All((0, n), lambda i: And(*[to_real(log[i].vals[j]) == to_real(m[i].vals[j]) for j in range(3)]), pat=lambda i: log[i].vals[0]))
        i = sample_index(V)
        y = V.getattr(V.getattr(h, 'output'), 'value')
        is_block(V, 'output', y)
        e, v = to_real(env.at(i)), to_real(y.at(i))
        V.check('within the envelope', And(imp(e >= 0, And(-e <= v, v <= e)), imp(e == 0, v == 0)))
    return body


def clock(kind, edge):
    @U.unit('clock, %s edge, %s' % (edge, kind), claim='the clock is 1 during the duty part of its period and 0 in the rest; the period goes on from block to block while the frequency changes')
    def body(V):
        duty, s = V.real('duty'), c09.phase(V)
        V.assume(And(0 < duty, duty < 1))
        c = V.expect_ok('new', Y + 'Clock', [V.real('initial'), duty, edge])
        V.check('one input, one output', len(V.getattr(c, 'outputs').seq.items) == 1 and len(V.getattr(c, 'inputs').seq.items) == 1)
        V.check('the frequency input belongs to the clock', V.getattr(V.getattr(c, 'frequency'), 'owner') is c)
        ph = V.getattr(c, 'phasor')
        V.setattr(ph, 'currentPhase', s)
        for turn in ('first block', 'second block'):
            v, f = c09.frequency(V, kind)
            V.expect_ok('set frequency', V.getattr(V.getattr(c, 'frequency'), 'set_value'), [v])
            V.expect_ok('update', V.getattr(c, 'update'), [])
            y = V.getattr(V.getattr(c, 'output'), 'value')
            is_block(V, turn, y)
            i = sample_index(V)
            p = mod(V, to_real(s) + tau(V) * to_real(f(0)) * (to_real(i) * DT), tau(V))
            p = to_real(p)
            high = p < duty * tau(V) if edge == 'rising' else p > duty * tau(V)
            V.check(turn + ': clock signal', to_real(y.at(i)) == If(high, z3.RealVal(1), z3.RealVal(0)))
            end = to_real(V.getattr(ph, 'currentPhase'))
            V.check(turn + ': the phase goes on', c09.steps(V, s, end, tau(V) * to_real(f(0)) * (B * DT)))
            V.check(turn + ': in range', And(0 <= end, end < tau(V)))
            s = end
    return body


hihat(False)
hihat(True)
for _k in ('constant', 'note value'):
    for _e in ('rising', 'falling'):
        clock(_k, _e)

"""C09: phase continuity of the oscillators."""
from pyvc.ops import simp
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['frequencies, phases and times are mathematical reals (2 pi is exact, no rounding at the wrap)',
               'the start phase lies in [0, 2 pi); wave functions return one value per phase',
               'scipy.signal._chirp_phase computes the chirp phase of its documentation']
O, W = 'klang.audio.oscillators.', 'klang.audio.waves.'
I, R = z3.IntSort(), z3.RealSort()
B = 256
DT = z3.RealVal(1) / 44100
INTERVAL = B * DT


def tau(V):
    return 2 * PI(V)


def steps(V, a, b, d):
    """b = a + d modulo 2 pi."""
    ra, rb = z3.simplify(to_real(a)), z3.simplify(to_real(b))
    if all(z3.is_app(x) and x.decl().eq(PYMODR) for x in (ra, rb)) and z3.eq(ra.arg(1), rb.arg(1)):
        # one after the other: the unwrapped phases differ by d, the turns by their difference
        f = rb.arg(0) - ra.arg(0) == d
        if V.solve(Not(f))[0] == 'unsat':
            V.assume(f)
            return rb - ra - d == tau(V) * to_real(PYMODR_Q(ra.arg(0), ra.arg(1)) - PYMODR_Q(rb.arg(0), rb.arg(1)))
    qs, todo = [], [to_real(a), to_real(b)]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().eq(PYMODR):
            qs.append(PYMODR_Q(x.arg(0), x.arg(1)))
        todo.extend(x.children())
    qs = list({q.get_id(): q for q in qs}.values())
    ks = [z3.IntVal(0)] + [q for q in qs] + [-q for q in qs] + [p - q for p in qs for q in qs if p is not q]
    return some(V, ks, lambda k: to_real(b) - to_real(a) - d == tau(V) * to_real(k))


def phase(V, name='phase'):
    p = V.real(name)
    V.assume(And(0 <= p, p < tau(V)))
    return p


def frequency(V, kind):
    """A frequency input value and the frequency of each sample."""
    if kind == 'array':
        a = V.mkarr((B,), KReal().uf('frequencies', 1), 'float', readonly=True)
        return a, lambda i: a.at(i)
    if kind == 'note value':
        v = V.int('numerator'), V.int('denominator')
        V.assume(And(v[0] >= 1, v[1] >= 1))
        note, d = FracV(*v), V.real('duration')
        V.assume(And(d > 0, d * to_real(v[1]) == 2 * to_real(v[0])))       # seconds at 120 BPM in 4/4
        called = []

        def duration(V, a):
            called.append(V.check('note value', any(x is note for x in a.values())))
            return d
        V.contracts['klang.music.tempo.note_duration'] = duration
        return note, lambda i: 1 / d if called else to_real(v[1]) / (2 * to_real(v[0]))
    f = V.real('frequency')
    return f, lambda i: f


class Wave:
    """Records the phases it is asked for; the samples are a function of the phase."""

    def __init__(self, V):
        self.f = z3.Function(fresh_name('wave'), R, R)
        self.seen = []

        def wave(V, p):
            self.seen.append(p)
            if isinstance(p, Arr):
                get = p.at
                return V.mkarr(p.shape, lambda *i: self.f(to_real(get(*i))), 'float')
            return self.f(to_real(p))
        self.fn = Builtin('wave_func', wave)


def check_phases(V, tag, p, start, end, f):
    """p holds the phases of one block that begins at start; end is the phase of the next sample."""
    V.check(tag + ': one phase per sample', isinstance(p, Arr) and len(p.shape) == 1)
    V.check(tag + ': block length', Z(p.shape[0]) == B)
    V.check(tag + ': first phase', to_real(p.at(0)) == to_real(start))
    i = V.int('i')
    V.assume(And(0 <= i, i < B - 1))
    a, b = to_real(p.at(i)), to_real(p.at(i + 1))
    V.check(tag + ': in range', And(0 <= a, a < tau(V), 0 <= b, b < tau(V)))
    V.check(tag + ': step between samples', steps(V, a, b, tau(V) * f(i) * DT))
    V.check(tag + ': step to the next block', steps(V, p.at(B - 1), end, tau(V) * f(B - 1) * DT))
    V.check(tag + ': next phase in range', And(0 <= to_real(end), to_real(end) < tau(V)))


def phase_unit(kind):
    @U.unit('phases, %s frequency' % kind, claim='consecutive phases differ by 2 pi f / SR modulo 2 pi, the returned next phase continues them')
    def sample_phase(V):
        v, f = frequency(V, kind)
        s = phase(V)
        p, end = V.seq_of(V.expect_ok('sample_phase', O + 'sample_phase', [v, s])).items
        check_phases(V, 'phases', p, s, end, f)
        s = V.real('any phase')
        p, end = V.seq_of(V.expect_ok('sample_phase', O + 'sample_phase', [v, s])).items
        V.check('any start phase: first phase', steps(V, s, p.at(0), z3.RealVal(0)))
        V.check('any start phase: in range', And(0 <= to_real(p.at(0)), to_real(p.at(0)) < tau(V)))


phase_unit('constant')
phase_unit('array')


def set_frequency(V, o, v):
    V.expect_ok('set frequency', V.getattr(V.getattr(o, 'frequency'), 'set_value'), [v])


def update(V, o):
    V.expect_ok('update', V.getattr(o, 'update'), [])
    return V.getattr(V.getattr(o, 'output'), 'value')


KINDS = 'constant', 'array', 'note value'


def oscillator(kind):
    @U.unit('oscillator, %s frequency' % kind, claim='consecutive updates with changing frequencies produce the wave of continuous phases')
    def osc(V):
        w, s = Wave(V), phase(V)
        o = V.expect_ok('new', O + 'Oscillator', [V.real('initial')], dict(wave_func=w.fn, startPhase=s))
        for turn in ('first block', 'second block'):
            v, f = frequency(V, kind)
            set_frequency(V, o, v)
            y = update(V, o)
            V.check(turn + ': the wave is asked once', len(w.seen) == 1)
            p = w.seen.pop()
            end = V.getattr(o, 'currentPhase')
            check_phases(V, turn, p, s, end, f)
            V.check(turn + ': output', All((0, B), lambda i: to_real(y.at(i)) == w.f(to_real(p.at(i)))))
            s = end

    @U.unit('frequency modulation, %s frequency' % kind, claim='the carrier phase is continuous; the modulator samples shift the phase times the intensity')
    def fm(V):
        w, s, depth = Wave(V), phase(V), V.real('intensity')
        o = V.expect_ok('new', O + 'FmOscillator', [V.real('initial')], dict(wave_func=w.fn, startPhase=s, intensity=depth))
        v, f = frequency(V, kind)
        set_frequency(V, o, v)
        m = V.real('modulator phase')
        V.assume(And(0 <= m, m < tau(V)))
        V.setattr(V.getattr(o, 'modulator'), 'currentPhase', m)
        fm = V.real('modulator frequency')
        set_frequency(V, V.getattr(o, 'modulator'), fm)
        y = update(V, o)
        V.check('the wave is asked twice', len(w.seen) == 2)
        mp, p = w.seen
        check_phases(V, 'modulator', mp, m, V.getattr(V.getattr(o, 'modulator'), 'currentPhase'), lambda i: fm)
        carrier = V.mkarr((B,), lambda i: to_real(p.at(i)) - depth * w.f(to_real(mp.at(i))), 'float')
        end = V.getattr(o, 'currentPhase')
        i = V.int('i')
        V.assume(And(0 <= i, i < B - 1))
        a, b = carrier.at(i), carrier.at(i + 1)
        V.check('carrier: first phase', carrier.at(0) == s)
        V.check('carrier: step between samples', steps(V, a, b, tau(V) * f(i) * DT))
        V.check('carrier: step to the next block', steps(V, carrier.at(B - 1), end, tau(V) * f(B - 1) * DT))
        V.check('output', All((0, B), lambda i: to_real(y.at(i)) == w.f(to_real(p.at(i)))))

    @U.unit('pulse width, %s frequency' % kind, claim='+1 while the continuous phase is below the duty cycle, -1 otherwise')
    def pwm(V):
        s, d = phase(V), V.real('duty')
        o = V.expect_ok('new', O + 'PwmOscillator', [V.real('initial')], dict(startPhase=s))
        V.expect_ok('set duty cycle', V.getattr(V.getattr(o, 'dutyCycle'), 'set_value'), [d])
        v, f = frequency(V, kind)
        set_frequency(V, o, v)
        q, end = V.seq_of(V.expect_ok('sample_phase', O + 'sample_phase', [f(0) if kind != 'array' else v, s])).items
        y = update(V, o)
        V.check('state', to_real(V.getattr(o, 'currentPhase')) == to_real(end))
        V.check('output', All((0, B), lambda i: to_real(y.at(i)) == z3.If(to_real(q.at(i)) < tau(V) * d, z3.RealVal(1), z3.RealVal(-1))))


@U.unit('note value', claim='a note value lasts its fraction of a bar of four beats at 120 BPM')
def note_value(V):
    p, q = V.int('numerator'), V.int('denominator')
    V.assume(And(p >= 1, q >= 1))
    V.check('duration', to_real(V.expect_ok('note_duration', 'klang.music.tempo.note_duration', [FracV(p, q)])) * to_real(q) == 2 * to_real(p))


for _k in KINDS:
    oscillator(_k)


def block_rate(kind):
    @U.unit('phasor, %s frequency' % kind, claim='block phases advance by the block duration')
    def phasor(V):
        s = phase(V)
        o = V.expect_ok('new', O + 'Phasor', [V.real('initial'), s])
        for turn in ('first block', 'second block'):
            v, f = frequency(V, kind)
            set_frequency(V, o, v)
            y = update(V, o)
            end = V.getattr(o, 'currentPhase')
            V.check(turn + ': phase', to_real(y) == to_real(s))
            V.check(turn + ': step', steps(V, s, end, tau(V) * f(0) * INTERVAL))
            V.check(turn + ': in range', And(0 <= to_real(end), to_real(end) < tau(V)))
            s = end

    @U.unit('low frequency oscillator, one value per block, %s frequency' % kind, claim='phases advance by the block duration; [-1, 1] is mapped linearly onto the output range')
    def lfo(V):
        w, s, lo, hi = Wave(V), phase(V), V.real('lo'), V.real('hi')
        o = V.expect_ok('new', O + 'Lfo', [V.real('initial')], dict(wave_func=w.fn, startPhase=s, outputRange=(lo, hi)))
        for turn in ('first block', 'second block'):
            v, f = frequency(V, kind)
            set_frequency(V, o, v)
            y = to_real(update(V, o))
            V.check(turn + ': the wave is asked once', len(w.seen) == 1)
            p = w.seen.pop()
            end = V.getattr(o, 'currentPhase')
            V.check(turn + ': phase', to_real(p) == to_real(s))
            V.check(turn + ': step', steps(V, s, end, tau(V) * f(0) * INTERVAL))
            V.check(turn + ': in range', And(0 <= to_real(end), to_real(end) < tau(V)))
            V.check(turn + ': output range', 2 * y == (hi - lo) * (w.f(to_real(p)) + 1) + 2 * lo)
            s = end


for _k in ('constant', 'note value'):
    block_rate(_k)


def lfo_samples(kind):
    @U.unit('low frequency oscillator, one value per sample, %s frequency' % kind, claim='phases are continuous; [-1, 1] is mapped linearly onto the output range')
    def lfo(V):
        w, s, lo, hi = Wave(V), phase(V), V.real('lo'), V.real('hi')
        o = V.expect_ok('new', O + 'Lfo', [V.real('initial')], dict(wave_func=w.fn, startPhase=s, outputRange=(lo, hi), shape=B))
        v, f = frequency(V, kind)
        set_frequency(V, o, v)
        y = update(V, o)
        V.check('the wave is asked once', len(w.seen) == 1)
        p = w.seen.pop()
        check_phases(V, 'phases', p, s, V.getattr(o, 'currentPhase'), f)
        V.check('output range', All((0, B), lambda i: 2 * to_real(y.at(i)) == (hi - lo) * (w.f(to_real(p.at(i))) + 1) + 2 * lo))


for _k in KINDS:
    lfo_samples(_k)


@U.unit('wave range', claim='every wave form stays in [-1, 1] at every phase')
def waves(V):
    for name in ('sine', 'square', 'sawtooth', 'triangle'):
        x = V.real('phase')
        y = to_real(V.expect_ok(name, W + name, [x]))
        V.check(name + ': in range', And(-1 <= y, y <= 1))
        a = V.mkarr((B,), KReal().uf('phases', 1), 'float', readonly=True)
        y = V.expect_ok(name, W + name, [a])
        i = V.int('i')
        V.assume(And(0 <= i, i < B))
        V.check(name + ': samples in range', And(-1 <= to_real(y.at(i)), to_real(y.at(i)) <= 1))


@U.unit('wave shape', claim='one period of every wave form, at every phase')
def shapes(V):
    tau = simp(to_real(V.module_attr('klang.constants', 'TAU')))
    half = simp(tau / 2)
    n, r = V.int('turns'), V.real('angle')
    V.assume(And(0 <= r, r < Z(tau)))
    x = to_real(n) * Z(tau) + r
    wrapped = z3.If(r < Z(half), r, r - Z(tau))
    unique = lemma(V, 'quotients are unique', [KInt(), KReal()], lambda d, e: imp(to_real(d) * Z(tau) + e == 0, -Z(tau) < e, e < Z(tau), And(d == 0, e == 0)))

    def quotients():
        for q in apps(V, PYMODR_Q):
            if q.children()[1].eq(Z(tau)):
                for k in (0, 1):
                    unique(q - n - k, PYMODR(*q.children()) - (q.children()[0] - (to_real(n) + k) * Z(tau)))
    w = to_real(V.expect_ok('wrap', 'klang.math.wrap', [x]))
    quotients()
    V.check('wrap: the angle between minus and plus half a turn', w == wrapped)

    def wrap(V, a):
        if not z3.is_expr(a['phase']) or not a['phase'].eq(x):
            raise Unsupported('wrap of another phase')
        return wrapped
    V.contracts['klang.math.wrap'] = wrap

    def wave(name):
        y = to_real(V.expect_ok(name, W + name, [x]))
        quotients()
        return y
    V.check('square: first half up, second half down', wave('square') == z3.If(r < Z(half), z3.RealVal(1), z3.RealVal(-1)))
    V.check('sawtooth: rises from -1 to 1', wave('sawtooth') * Z(tau) == 2 * r - Z(tau))
    V.check('triangle: rises in the first half, falls in the second', wave('triangle') * Z(half) == z3.If(r < Z(half), 2 * r - Z(half), 3 * Z(half) - 2 * r))


@U.unit('output mapping', claim='the wave range is mapped into the output range')
def mapping(V):
    lo, hi, u, y = [V.real(n) for n in ('lo', 'hi', 'u', 'y')]
    lemma(V, 'between', [KReal()] * 4, lambda lo, hi, u, y: imp(-1 <= u, u <= 1, 2 * y == (hi - lo) * (u + 1) + 2 * lo, lo <= hi, And(imp(lo <= hi, lo <= y, y <= hi, True), (hi - lo) * (u + 1) >= 0, (hi - lo) * (1 - u) >= 0)))


@U.unit('chirp', claim='every block continues the chirp where the last one ended; after the end time the phase goes on at the end frequency')
def chirp(V):
    G = z3.Function('chirp_phase', R, R)
    f0, f1, end = V.real('start frequency'), V.real('end frequency'), V.real('duration')
    V.assume(And(end > 0, f0 != f1))

    def scipy_phase(V, t, f0_=None, t1=None, f1_=None, method='linear', vertex_zero=True, **kw):
        f0_, f1_ = kw.get('f0', f0_), kw.get('f1', f1_)
        V.check('chirp of the block', And(to_real(f0_) == f0, to_real(t1) == end, to_real(f1_) == f1, method == 'quadratic'))
        if not isinstance(t, Arr):
            return G(to_real(t))
        get = t.at
        return V.mkarr(t.shape, lambda *i: G(to_real(get(*i))), 'float')
    V.overlay[O + '_chirp_phase'] = Builtin('_chirp_phase', scipy_phase)
    w = Wave(V)
    c = V.expect_ok('new', O + 'Chirper', [f0, end, f1, 'quadratic', w.fn])
    t0 = V.getattr(c, 't')
    V.check('starts at time zero', And(Z(t0.shape[0]) == B, V.formula(All((0, B), lambda i: to_real(t0.at(i)) == to_real(i) * DT))))
    k = V.int('blocks so far')
    V.assume(k >= 0)
    V.setattr(c, 't', V.mkarr((B,), lambda i: (to_real(k) * B + to_real(i)) * DT, 'float'))
    y = update(V, c)
    V.check('the wave is asked once', len(w.seen) == 1)
    p, = w.seen
    time = lambda i: (to_real(k) * B + to_real(i)) * DT
    V.check('one phase per sample', Z(p.shape[0]) == B)
    V.check('chirp before its end', All((0, B), lambda i: imp(time(i) < end, to_real(p.at(i)) == G(time(i)))))
    V.check('end frequency afterwards', All((0, B), lambda i: imp(time(i) >= end, to_real(p.at(i)) == G(end) + tau(V) * f1 * (time(i) - end))))
    V.check('output', All((0, B), lambda i: to_real(y.at(i)) == w.f(to_real(p.at(i)))))
    t1 = V.getattr(c, 't')
    V.check('time of the next block', All((0, B), lambda i: to_real(t1.at(i)) == time(i) + B * DT))
    V.expect_ok('reset', V.getattr(c, 'reset'), [])
    t2 = V.getattr(c, 't')
    V.check('starts over', All((0, B), lambda i: to_real(t2.at(i)) == to_real(i) * DT))


@U.unit('chirp of one frequency', claim='equal start and end frequencies give a constant frequency')
def no_chirp(V):
    f = V.real('frequency')
    w = Wave(V)
    c = V.expect_ok('new', O + 'Chirper', [f, V.real('duration'), f, 'linear', w.fn])
    t = V.mkarr((B,), KReal().uf('time', 1), 'float')
    V.setattr(c, 't', t)
    before = V.mkarr((B,), t.storage.get, 'float')
    update(V, c)
    p, = w.seen
    V.check('phase', All((0, B), lambda i: to_real(p.at(i)) == tau(V) * f * to_real(before.at(i))))


COPIES = {
    'Phasor': lambda V, w: {},
    'Oscillator': lambda V, w: dict(wave_func=w.fn),
    'Lfo': lambda V, w: dict(wave_func=w.fn, outputRange=(V.real('lo'), V.real('hi'))),
    'Lfo of samples': lambda V, w: dict(wave_func=w.fn, outputRange=(V.real('lo'), V.real('hi')), shape=B),
    'FmOscillator': lambda V, w: dict(wave_func=w.fn, intensity=V.real('intensity'), modFrequency=V.real('modulator frequency')),
    'PwmOscillator': lambda V, w: dict(dutyCycle=V.real('duty')),
}


def copies(kind, settings):
    @U.unit('copy: %s' % kind, claim='a copy taken at any time goes on exactly as its original')
    def copy(V):
        w = Wave(V)
        o = V.expect_ok('new', O + kind.split()[0], [V.real('initial')], dict(settings(V, w), startPhase=phase(V)))
        set_frequency(V, o, V.real('frequency'))
        update(V, o)
        c = V.expect_ok('copy', V.getattr(o, '__deepcopy__'), [V.mkdict([])])
        V.check('the copy is a new one of the same type', c is not o and c.cls is o.cls)
        y, z = update(V, o), update(V, c)
        if isinstance(y, Arr):
            V.check('next block', All((0, B), lambda i: to_real(y.at(i)) == to_real(z.at(i))))
        else:
            V.check('next block', to_real(y) == to_real(z))
        V.check('then', to_real(V.getattr(o, 'currentPhase')) == to_real(V.getattr(c, 'currentPhase')))
        if kind == 'FmOscillator':
            V.check('then: modulator', to_real(V.getattr(V.getattr(o, 'modulator'), 'currentPhase')) == to_real(V.getattr(V.getattr(c, 'modulator'), 'currentPhase')))


for _k, _f in COPIES.items():
    copies(_k, _f)

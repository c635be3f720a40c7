"""C27: filter block, reverb, ring modulator and stereo delay."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['floats are mathematical reals',
               'scipy.signal.lfilter(b, a, x, zi) returns the filtered signal and the state to go on with; numpy.logspace gives increasing frequencies',
               'comb and echo filters: contract of C07 (a new array per call); prime search: contract of C21; oscillators: contract of C09; delays: contract of C13']
E = 'klang.audio.effects.'
I, R = z3.IntSort(), z3.RealSort()
NYQUIST = z3.RealVal(44100) / 2
PYTHON = {'klang.audio._filters.' + t: ABSENT for t in ('ForwardCombFilter', 'BackwardCombFilter', 'EchoFilter')}     # the default echo type is not used


# ---- library contracts

def design(V, made):
    def f(V, *args, **kw):
        w = kw.pop('Wn', None)
        made.append((args, kw))
        return (w, args, tuple(sorted(kw.items(), key=lambda x: x[0])))
    return Builtin('design', f)


@U.unit('coefficients', claim='one set of coefficients per tabulated frequency, designed for that frequency with the given arguments; '
        'a cutoff selects the first tabulated frequency not below it, the last one beyond the end')
def coefficients(V):
    n = V.int('frequencies')
    F = z3.Function('F', I, R)
    V.assume(n >= 1)
    V.assume(All((0, n - 1), lambda i: F(i) < F(i + 1), pat=lambda i: F(i + 1)))
    V.assume(All([(0, n), (0, n)], lambda i, j: imp(i < j, F(i) < F(j)), pat=lambda i, j: [[F(i), F(j)]]))
    asked = []

    def logspace(V, lo, hi, num=50, base=10):
        asked.append((lo, hi, num, base))
        return V.mkarr((n,), lambda i: F(i), 'float')
    V.overlay['numpy.logspace'] = Builtin('logspace', logspace)
    made = []
    c = V.expect_ok('new', E + 'FilterCoefficients', [design(V, made), 4], dict(btype='lowpass'))
    LOG2 = UFS['log2']
    V.check('frequency range', len(asked) == 1)
    lo, hi, num, base = asked[0]
    V.check('lowest and highest frequency', And(to_real(lo) == LOG2(z3.RealVal(20)), to_real(hi) == LOG2(z3.RealVal(20000)), Z(to_real(base)) == 2))
    f = V.real('cutoff')
    got = V.expect_ok('get', V.getattr(c, 'get_coefficients'), [f])
    w = to_real(got[0])
    V.check('design arguments', got[1] == (4,) and got[2] == (('btype', 'lowpass'),))
    j = z3.Int('J')
    # the index that has to be chosen: first not below the cutoff, else the last
    V.assume(And(0 <= j, j < n, Or(F(j) >= f, j == n - 1)))
    V.assume(All((0, j), lambda i: F(i) < f, pat=lambda i: F(i)))
    V.check('coefficients of the first tabulated frequency not below the cutoff', w == F(j) / NYQUIST)


class Coefficients(models._HV):
    """FilterCoefficients by contract: a pair of coefficients per frequency."""

    def attr(self, V, name):
        if name == 'get_coefficients':
            return Builtin(name, lambda V, f: (('b', to_real(f)), ('a', to_real(f))))
        raise Unsupported('coefficients attribute ' + name)


@U.unit('chunks', claim='every chunk is filtered with the current coefficients and the state the previous chunk left; changing the frequency keeps the state')
def chunks(V):
    B = V.int('n')
    V.assume(B >= 1)
    V.overlay[E + 'FilterCoefficients'] = Builtin('FilterCoefficients', lambda V, *a, **k: Coefficients())
    calls, zero = [], V.mkobj(V.builtin('object'))

    def lfiltic(V, b, a, y, x=None):
        V.check('silence before the start', const_int(length(V, y)) == 0 and x is None)
        return zero

    def lfilter(V, b, a, x, axis=-1, zi=None):
        k = len(calls)
        y, z = V.mkarr((B,), KReal().uf('y%d' % k, 1), 'float'), V.mkobj(V.builtin('object'))
        calls.append((b, a, x, zi, y, z))
        return (y, z)
    V.overlay['scipy.signal.lfilter'] = Builtin('lfilter', lfilter)
    V.overlay['scipy.signal.lfiltic'] = Builtin('lfiltic', lfiltic)
    f = V.expect_ok('new', E + '_Filter', [V.mkobj(V.builtin('object'))])
    cut = NYQUIST / 2
    for k in range(4):
        if k in (1, 3):
            cut = V.real('cutoff%d' % k)
            V.expect_ok('set frequency', V.getattr(f, 'set_frequency'), [cut])
        x = V.mkarr((B,), KReal().uf('x%d' % k, 1), 'float')
        before = x.storage.get
        y = V.expect_ok('filter', V.getattr(f, 'filter'), [x])
        V.check('one filter run per chunk', len(calls) == k + 1)
        b, a, cx, zi, cy, z = calls[-1]
        V.check('the result is the filtered chunk', y is cy)
        V.check('the chunk is filtered', cx is x)
        V.check('input is left unchanged', x.storage.get is before)
        V.check('state of the previous chunk', zi is (calls[-2][5] if k else zero))
        V.check('numerator and denominator in their places', b[0] == 'b' and a[0] == 'a')
        V.check('current coefficients', And(b[1] == cut, a[1] == cut))


class Fil(models._HV):
    """_Filter by contract; remembers what happened to it."""

    def __init__(self, V, B):
        self.B, self.log = B, []

    def attr(self, V, name):
        if name == 'set_frequency':
            return Builtin(name, lambda V, f: self.log.append(('frequency', f)))
        if name == 'filter':
            def fil(V, x):
                x = ops.as_operand(V, x)
                y = V.mkarr((self.B,), KReal().uf(fresh_name('fy'), 1), 'float')
                self.log.append(('filter', x, x.storage.get, x.imap, y))
                return y
            return Builtin(name, fil)
        raise Unsupported('filter attribute ' + name)


@U.unit('filter block', claim='every channel goes through its own filter, once per update; a new cutoff frequency is set on all filters before filtering, and only when it changed')
def filter_block(V):
    B = V.lookup('klang.config.BUFFER_SIZE')
    fils = []

    def make(V, *a, **k):
        fils.append(Fil(V, B))
        return fils[-1]
    V.overlay[E + '_Filter'] = Builtin('_Filter', make)
    V.overlay['scipy.signal.butter'] = Builtin('butter', None)
    f0 = V.real('frequency0')
    blk = V.expect_ok('new', E + 'Filter', [], dict(frequency=f0))
    V.check('filters for two channels', len(fils) == 2)
    prev = None
    for turn in range(3):
        f = f0 if not turn else V.real('frequency%d' % turn)
        if turn:
            V.expect_ok('set cutoff', V.getattr(V.getattr(blk, 'frequency'), 'set_value'), [f])
        for x in fils:
            x.log.clear()
        stereo = V.decide(V.bool('stereo%d' % turn))
        x = V.mkarr((2, B) if stereo else (B,), KReal().uf('x%d' % turn, 2 if stereo else 1), 'float')
        before = x.storage.get
        V.expect_ok('set input', V.getattr(V.getattr(blk, 'input'), 'set_value'), [x])
        V.expect_ok('update', V.getattr(blk, 'update'), [])
        V.check('input is left unchanged', x.storage.get is before)
        y = V.getattr(V.getattr(blk, 'output'), 'value')
        V.check('shape', isinstance(y, Arr) and len(y.shape) == len(x.shape) and all(const_int(a) == const_int(b) for a, b in zip(y.shape, x.shape)))
        for c, fil in enumerate(fils):
            runs = [l for l in fil.log if l[0] == 'filter']
            sets = [l for l in fil.log if l[0] == 'frequency']
            V.check('each channel is filtered once', len(runs) == (1 if c < (2 if stereo else 1) else 0))
            if runs:
                _, a, get, imap, out = runs[0]
                V.check('its own channel', All((0, B), lambda i: get(*imap(i)) == (before(c, i) if stereo else before(i)), pat=lambda i: before(c, i) if stereo else before(i)))
                V.check('its own result', All((0, B), lambda i: (y.at(c, i) if stereo else y.at(i)) == out.at(i), pat=lambda i: out.at(i)))
                V.check('the cutoff is set before', fil.log.index(runs[0]) >= len(sets))
            V.check('the cutoff is set at most once', len(sets) <= 1)
            if sets:
                V.check('current cutoff', to_real(sets[0][1]) == f)
            V.check('the cutoff is set when it changes', bool(sets) if prev is None else Or(bool(sets), f == prev))
        prev = f


# ---- reverb

class Echo(models._HV):
    def __init__(self, k, alpha, j=None, run=None):
        self.k, self.alpha, self.j, self.run = k, alpha, j, run

    def attr(self, V, name):
        if name == 'filter':
            return Builtin('filter', lambda V, x: self.run(V, self.j, x))
        raise Unsupported('echo attribute ' + name)


@U.unit('reverb construction', claim='one echo filter per consecutive prime delay from the pre-delay on, with gain exp(-pi * delay / decay), no gain without decay; mix clipped to [0, 1]', overlay=PYTHON)
def reverb_new(V):
    n, m, decay, pre, mix = V.int('echos'), V.int('more'), V.real('decay'), V.real('preDelay'), V.real('mix')
    V.assume(And(pre >= 0))
    P = z3.Function('P', I, I)
    asked = []

    def primes(V, d):
        asked.append((d['n'], d['start']) if 'n' in d else tuple(d.values())[:2])
        V.assume(All((0, n), lambda i: P(i) >= 2, pat=lambda i: P(i)))
        return V.mklist(Seq(n, lambda i: P(i), None, KInt()))
    V.contracts['klang.primes.find_next_primes'] = primes
    echo = Builtin('echo', lambda V, k, alpha=None: (k, alpha))
    res = V.outcome(E + 'Reverb', [decay, pre, mix, n, echo])
    if res[0] == 'raise':
        V.check('refused only without echos', And(res[1].cls.name == 'AssertionError', n <= 0))
        return
    V.check('accepted only with echos', n >= 1)
    r = res[1]
    V.check('one search', len(asked) == 1)
    V.check('as many primes as echos', Z(asked[0][0]) == n)
    V.check('search starts at the pre-delay', And(z3.ToReal(Z(asked[0][1])) <= pre * 44100, pre * 44100 < z3.ToReal(Z(asked[0][1])) + 1))
    fs = V.seq_of(V.getattr(r, 'filters'))
    V.check('one filter per echo', Z(fs.n) == n)
    j = V.int('j')
    V.assume(And(0 <= j, j < n))
    e = fs[j]
    V.check('delay', Z(e[0]) == P(j))
    x = -to_real(V.lookup('klang.constants.PI')) * (z3.ToReal(P(j)) / 44100) / decay
    a = to_real(e[1])
    V.check('gain without decay', imp(decay <= 0, a == 0))
    V.check('gain', imp(decay > 0, a == UFS['exp'](x)))
    w = to_real(V.getattr(r, 'dryWet'))
    V.check('mix inside its range', w == If(mix < 0, 0, If(mix > 1, 1, mix)))


@U.unit('reverb', claim='the output is (1-mix) * input + mix * average of all echo filters run on the input, each once per block; the input is left unchanged', overlay=PYTHON)
def reverb(V):
    B = V.lookup('klang.config.BUFFER_SIZE')
    n = V.int('filters')
    V.assume(n >= 1)
    mk = Builtin('echo', lambda V, k, alpha=None: Echo(k, alpha))
    V.contracts['klang.primes.find_next_primes'] = lambda V, d: V.mklist([2, 3])
    r = V.expect_ok('new', E + 'Reverb', [], dict(nEchos=2, echoType=mk))
    mix = V.real('mix')
    V.setattr(r, 'dryWet', mix)
    F, P = z3.Function('ECHO', I, I, R), z3.Function('SUMS', I, I, R)
    V.assume(All((0, B), lambda i: P(0, i) == 0, pat=lambda i: P(0, i)))
    V.assume(All([(0, n), (0, B)], lambda k, i: P(k + 1, i) == P(k, i) + F(k, i), pat=lambda k, i: P(k + 1, i)))
    x = V.mkarr((B,), KReal().uf('x', 1), 'float')
    before = x.storage.get
    log = Log(V, KInt())

    def run(V, j, a):
        V.check('filters run on the input', isinstance(a, Arr) and len(a.shape) == 1 and const_int(a.shape[0]) == B)
        V.check('filters run on the unchanged input', All((0, B), lambda i: a.at(i) == before(i), pat=lambda i: before(i)))
        log.send(V, Z(j))
        return V.mkarr((B,), lambda i: F(j, i), 'float')
    V.setattr(r, 'filters', V.mklist(Seq(n, lambda j: Echo(None, None, j, run), None, None)))
    V.loops[E + 'Reverb.update#0'] = LoopSpec(lambda V, L: [
        ('one run per filter', log.n == L.k + 1), ('each filter once', All((0, L.k + 1), lambda i: log[i] == i, pat=lambda i: log[i])),
        ('partial sum', All((0, B), lambda i: L['y'].at(i) == P(L.k + 1, i), pat=lambda i: [L['y'].at(i), P(L.k + 1, i)]))],
        hints={'y': lambda V, L: V.mkarr((B,), KReal().uf('y', 1), 'float')})
    V.assume(All((0, B), lambda i: P(1, i) == F(0, i), pat=lambda i: F(0, i)))
    V.expect_ok('set input', V.getattr(V.getattr(r, 'input'), 'set_value'), [x])
    V.expect_ok('update', V.getattr(r, 'update'), [])
    V.check('every filter is run once', And(log.n == n, True))
    V.check('each', All((0, n), lambda i: log[i] == i, pat=lambda i: log[i]))
    y = V.getattr(V.getattr(r, 'output'), 'value')
    V.check('block', isinstance(y, Arr) and len(y.shape) == 1 and const_int(y.shape[0]) == B)
    V.check('mix of input and average echo', All((0, B), lambda i: y.at(i) == (1 - mix) * before(i) + mix * (P(n, i) / z3.ToReal(n)), pat=lambda i: y.at(i)))
    V.check('input is left unchanged', x.storage.get is before)


# ---- ring modulator

class Port(models._HV):
    def __init__(self, read=None, write=None):
        self.read, self.write = read, write

    def attr(self, V, name):
        if name == 'value' and self.read:
            return self.read()
        if name == 'get_value' and self.read:
            return Builtin(name, lambda V: self.read())
        if name == 'set_value' and self.write:
            return Builtin(name, lambda V, v: self.write(v))
        raise Unsupported('port attribute ' + name)


class Osc(models._HV):
    """Oscillator by contract: an update puts out the next block of the frequencies set on it."""

    def __init__(self, V, name, B, order):
        self.name, self.order, self.given = name, order, []
        self.out = V.mkarr((B,), KReal().uf(name + ' samples', 1), 'float')
        self.kept = self.out.storage.get
        self.stale = V.mkarr((B,), KReal().uf(name + ' stale', 1), 'float')

    def attr(self, V, name):
        if name == 'update':
            return Builtin(name, lambda V: self.order.append(self.name))
        if name == 'output':
            return Port(lambda: self.out if self.name in self.order else self.stale)
        if name == 'frequency':
            def write(v):
                self.given.append((v, len(self.order)))
            return Port(write=write)
        raise Unsupported('oscillator attribute ' + name)


@U.unit('ring modulator', claim='the modulator runs at frequency + amount * LFO, the output is (1-mix) * input + mix * modulator * input; inputs are left unchanged')
def ring(V):
    B = V.lookup('klang.config.BUFFER_SIZE')
    r = V.expect_ok('new', E + 'RingModulator', [])
    lfo = V.getattr(r, 'lfo')
    V.check('the rate input drives the LFO', V.getattr(V.getattr(r, 'rate'), 'outgoingConnections') is not None)
    names = ('frequency', 'amount', 'dryWet')
    f, amount, mix = vals = [V.real(k) for k in names]
    for k, v in zip(names, vals):
        V.expect_ok('set ' + k, V.getattr(V.getattr(r, k), 'set_value'), [v])
    V.check('five distinct inputs', len({id(V.getattr(r, k)) for k in names + ('input', 'rate')}) == 5)
    order = []
    lfo, mod = Osc(V, 'lfo', B, order), Osc(V, 'modulator', B, order)
    V.setattr(r, 'lfo', lfo)
    V.setattr(r, 'modulator', mod)
    x = V.mkarr((B,), KReal().uf('x', 1), 'float')
    before = x.storage.get
    V.expect_ok('set input', V.getattr(V.getattr(r, 'input'), 'set_value'), [x])
    V.expect_ok('update', V.getattr(r, 'update'), [])
    V.check('each oscillator runs once, the LFO first', order == ['lfo', 'modulator'])
    V.check('the frequencies are set once, before the modulator runs', len(mod.given) == 1 and mod.given[0][1] == 1)
    g = mod.given[0][0]
    V.check('one frequency per sample', isinstance(g, Arr) and len(g.shape) == 1 and const_int(g.shape[0]) == B)
    V.check('modulated frequency', All((0, B), lambda i: g.at(i) == f + amount * lfo.kept(i), pat=lambda i: lfo.kept(i)))
    y = V.getattr(V.getattr(r, 'output'), 'value')
    V.check('block', isinstance(y, Arr) and len(y.shape) == 1 and const_int(y.shape[0]) == B)
    V.check('modulated signal', All((0, B), lambda i: y.at(i) == (1 - mix) * before(i) + mix * (mod.kept(i) * before(i)), pat=lambda i: before(i)))
    V.check('input is left unchanged', x.storage.get is before)
    V.check('oscillator blocks are left unchanged', lfo.out.storage.get is lfo.kept and mod.out.storage.get is mod.kept)


# ---- stereo delay

@U.unit('stereo delay', claim='left and right run through their own delay with their own time and feedback, in one update')
def stereo_delay(V):
    B = V.lookup('klang.config.BUFFER_SIZE')
    made = []

    def init(V, a):
        made.append(a)
        V.call(V.lookup('klang.block.Block.__init__'), [a['self']], dict(nInputs=1, nOutputs=1))
    V.contracts[E + 'Delay.__init__'] = init
    ran = []

    def update(V, a):
        s = a['self']
        x = V.getattr(V.getattr(s, 'input'), 'value')
        x = ops.as_operand(V, x)
        y = V.mkarr((B,), KReal().uf(fresh_name('delayed'), 1), 'float')
        ran.append((s, x.storage.get, x.imap, y))
        V.expect_ok('put out', V.getattr(V.getattr(s, 'output'), 'set_value'), [y])
    V.contracts[E + 'Delay.update'] = update
    tl, tr, fl, fr, mix = args = [V.real(k) for k in ('left time', 'right time', 'left feedback', 'right feedback', 'mix')]
    d = V.expect_ok('new', E + 'StereoDelay', args)
    V.check('two delays', len(made) == 2)
    V.check('mono input and output ends', len(V.getattr(d, 'inputs').seq.items) == 1 and len(V.getattr(d, 'outputs').seq.items) == 1)
    x = V.mkarr((2, B), KReal().uf('x', 2), 'float')
    before = x.storage.get
    V.expect_ok('set input', V.getattr(V.getattr(d, 'input'), 'set_value'), [x])
    V.expect_ok('update', V.getattr(d, 'update'), [])
    y = V.getattr(V.getattr(d, 'output'), 'value')
    V.check('stereo block', isinstance(y, Arr) and len(y.shape) == 2 and [const_int(s) for s in y.shape] == [2, B])
    V.check('each delay runs once', len(ran) == 2 and ran[0][0] is not ran[1][0])
    for c, (t, f) in enumerate(((tl, fl), (tr, fr))):
        # the delay that was made for this side
        mine = [r for r in ran if any(m['self'] is r[0] and z3.eq(Z(m['time']), t) for m in made)]
        V.check('a delay per side', len(mine) == 1)
        s, get, imap, out = mine[0]
        a = next(m for m in made if m['self'] is s)
        V.check('its settings', And(to_real(a['feedback']) == f, to_real(a['drywet']) == mix))
        V.check('its channel', All((0, B), lambda i: get(*imap(i)) == before(c, i), pat=lambda i: before(c, i)))
        V.check('its result', All((0, B), lambda i: y.at(c, i) == out.at(i), pat=lambda i: out.at(i)))
    V.check('input is left unchanged', x.storage.get is before)

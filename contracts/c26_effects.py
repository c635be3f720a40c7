"""C26: signal-shaping effects."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['floats are mathematical reals; numpy float-to-int conversion truncates and is exact inside the target range',
               'scipy.signal.lfilter computes the first order difference equation; exp is positive and below 1 for negative arguments; |tanh| <= 1',
               'round trips of a connected splitter and combiner are proved for 1 to 4 channels, splitting and combining on their own for any number; sub-sampling for every valid factor, bit reduction for every valid bit number; signals are arbitrary']
E, M, W = 'klang.audio.effects.', 'klang.math.', 'klang.audio.wavfile.'


def signals(V, name='x', stereo=True):
    """A mono or stereo signal of any length, or a scalar."""
    n = V.int('n')
    V.assume(n >= 1)
    if not stereo or not V.decide(V.bool('stereo')):
        return V.mkarr((n,), KReal().uf(name, 1), 'float')
    return V.mkarr((2, n), KReal().uf(name + '2', 2), 'float')


def everywhere(x, f):
    """f at every index of the array."""
    if not x.shape:
        return f()
    if len(x.shape) == 1:
        return All((0, x.shape[0]), lambda i: f(i))
    return All([(0, x.shape[0]), (0, x.shape[1])], lambda c, i: f(c, i))


def bounded(V, x, lo=-1, hi=1):
    V.assume(everywhere(x, lambda *i: And(lo <= x.at(*i), x.at(*i) <= hi)))


def same_shape(V, label, y, x):
    ok = isinstance(y, Arr) and len(y.shape) == len(x.shape)
    V.check(label, ok)
    V.check(label, And(*[Z(a) == Z(b) for a, b in zip(y.shape, x.shape)]))


def feed(V, blk, x):
    V.expect_ok('set input', V.getattr(V.getattr(blk, 'input'), 'set_value'), [x])


def result(V, blk):
    return V.getattr(V.getattr(blk, 'output'), 'value')


def through(V, blk, x, stateful=False):
    """Output of the block for input x; x must come back unmodified. An earlier update with other contents of the same array comes first."""
    before = x.storage.get if isinstance(x, Arr) else None
    if before is not None and not stateful:
        u = (KReal() if x.dtype == 'float' else KInt()).uf('earlier', len(x.shape))
        if x.dtype == 'float':
            V.assume(everywhere(x, lambda *i: And(-1 <= u(*i), u(*i) <= 1)))
        x.storage.get = lambda *i: u(*i)
        feed(V, blk, x)
        V.expect_ok('earlier update', V.getattr(blk, 'update'), [])
        x.storage.get = before
    feed(V, blk, x)
    V.expect_ok('update', V.getattr(blk, 'update'), [])
    if before is not None:
        V.check('input is left unchanged', x.storage.get is before)
    return result(V, blk)


@U.unit('gain', claim='output is gain times input, for scalar gains and gain signals, mono and stereo')
def gain(V):
    x, g = signals(V), V.real('gain')
    blk = V.expect_ok('new', E + 'Gain', [V.real('initial')])
    V.expect_ok('set gain', V.getattr(V.getattr(blk, 'gain'), 'set_value'), [g])
    y = through(V, blk, x)
    same_shape(V, 'shape', y, x)
    V.check('gain times signal', everywhere(x, lambda *i: y.at(*i) == g * x.at(*i)))
    gs = V.mkarr((x.shape[-1],), KReal().uf('gains', 1), 'float')
    V.expect_ok('set gain', V.getattr(V.getattr(blk, 'gain'), 'set_value'), [gs])
    y = through(V, blk, x)
    same_shape(V, 'shape with a gain signal', y, x)
    V.check('gain signal times signal', everywhere(x, lambda *i: y.at(*i) == gs.at(i[-1]) * x.at(*i)))


@U.unit('default gain', claim='the gain given at construction applies')
def gain0(V):
    g, x = V.real('gain'), V.real('x')
    blk = V.expect_ok('new', E + 'Gain', [g])
    V.check('gain times signal', to_real(through(V, blk, x)) == g * x)


@U.unit('transformer from limits', claim='[0, 1] and [-1, 1] are mapped linearly and exactly onto [lower, upper]')
def limits(V):
    lo, hi = V.real('lower'), V.real('upper')
    V.assume(lo < hi)
    for name, a in (('from_limits', 0), ('from_limits_2', -1)):
        t = V.expect_ok(name, V.getattr(V.lookup(E + 'Transformer'), name), [lo, hi])
        V.check(name + ': lower end', to_real(through(V, t, z3.RealVal(a))) == lo)
        V.check(name + ': upper end', to_real(through(V, t, z3.RealVal(1))) == hi)
        x = signals(V)
        y = through(V, t, x)
        same_shape(V, name + ': shape', y, x)
        V.check(name + ': linear', everywhere(x, lambda *i: (y.at(*i) - lo) * (1 - a) == (hi - lo) * (x.at(*i) - a)))


@U.unit('transformer from ranges', claim='any input range is mapped linearly and exactly onto any output range')
def ranges(V):
    x0, x1, y0, y1 = [V.real(n) for n in ('x0', 'x1', 'y0', 'y1')]
    V.assume(x0 != x1)
    t = V.expect_ok('from_ranges', V.getattr(V.lookup(E + 'Transformer'), 'from_ranges'), [(x0, x1), (y0, y1)])
    V.check('lower end', to_real(through(V, t, x0)) == y0)
    V.check('upper end', to_real(through(V, t, x1)) == y1)
    r = V.expect_ok('linear_mapping', M + 'linear_mapping', [(x0, x1), (y0, y1)])
    r = V.seq_of(r)
    V.check('two coefficients', r.n == 2)
    a, b = to_real(r[0]), to_real(r[1])
    V.check('coefficients', And(a * x0 + b == y0, a * x1 + b == y1))
    t = V.expect_ok('new', E + 'Transformer', [a, b])
    x = signals(V)
    y = through(V, t, x)
    V.check('scale and offset', everywhere(x, lambda *i: y.at(*i) == a * x.at(*i) + b))


@U.unit('blend', claim='dry/wet mixing is the convex combination')
def blend(V):
    x, w = signals(V, 'a'), V.real('w')
    b = V.mkarr(x.shape, KReal().uf('b', len(x.shape)), 'float')
    g1, g2 = x.storage.get, b.storage.get
    y = V.expect_ok('blend', M + 'blend', [x, b, w])
    same_shape(V, 'shape', y, x)
    V.check('convex combination', everywhere(x, lambda *i: y.at(*i) == (1 - w) * x.at(*i) + w * b.at(*i)))
    V.check('signals are left unchanged', x.storage.get is g1 and b.storage.get is g2)
    p, q = V.real('p'), V.real('q')
    r = to_real(V.expect_ok('blend', M + 'blend', [p, q, w]))
    V.check('scalar', r == (1 - w) * p + w * q)
    V.check('dry only', imp(w == 0, r == p))
    V.check('wet only', imp(w == 1, r == q))
    V.assume(And(0 <= w, w <= 1))
    V.assume((q - p) * w == q * w - p * w)
    V.check('between dry and wet', imp(p <= q, And(p <= r, r <= q)))


@U.unit('clip', claim='clip is the nearest value inside the bounds')
def clip(V):
    x, lo, hi = V.real('x'), V.real('lo'), V.real('hi')
    V.assume(lo <= hi)
    y = to_real(V.expect_ok('clip', M + 'clip', [x, lo, hi]))
    V.check('inside', And(lo <= y, y <= hi))
    V.check('unchanged inside', imp(lo <= x, x <= hi, y == x))
    V.check('ends', And(imp(x < lo, y == lo), imp(x > hi, y == hi)))


EXP = UFS['exp']


def exp_facts(V):
    for t in apps(V, EXP):
        V.axiom(EXP(t.arg(0)) > 0)
        V.axiom(imp(t.arg(0) < 0, EXP(t.arg(0)) < 1))


@U.unit('low pass coefficients', claim='for every frequency b0 = 1 - |a1| with 0 <= |a1| <= 1, so the filter never leaves the range of its input and state')
def coefficients(V):
    f = V.real('f')
    V.assume(f >= 0)
    b, a = V.expect_ok('low_pass_coefficients', E + 'low_pass_coefficients', [f])
    exp_facts(V)
    b, a = V.seq_of(b), V.seq_of(a)
    V.check('one numerator and two denominator coefficients', And(b.n == 1, a.n == 2))
    b0, a0, a1 = to_real(b[0]), to_real(a[0]), to_real(a[1])
    V.check('normalised', a0 == 1)
    V.check('coefficients', And(-1 <= a1, a1 <= 0, b0 == 1 + a1))
    SR, tau = [to_real(V.module_attr(*x)) for x in (('klang.config', 'SAMPLING_RATE'), ('klang.constants', 'TAU'))]
    V.check('exponential decay at the cutoff', imp(f > 0, Not(eq(V, f, V.module_attr('klang.constants', 'INF'))), a1 == -EXP(-(tau * f / SR))))
    b, a = [V.seq_of(x) for x in V.expect_ok('low_pass_coefficients', E + 'low_pass_coefficients', [V.module_attr('klang.constants', 'INF')])]
    V.check('an infinite cutoff passes everything', And(to_real(b[0]) == 1, to_real(a[1]) == 0))


def tremolo_unit(stereo):
    @U.unit('tremolo, %s' % ('stereo' if stereo else 'mono'), claim='however rate, depth, smoothness and duty cycle change between updates, every output sample is the input times a factor in [1 - depth, 1]', time_limit=200)
    def tremolo(V):
        n = 256

        def lowpass(V, a):
            pole = V.real('pole')
            V.assume(And(-1 <= pole, pole <= 0))
            return (V.mklist([1 + pole]), V.mklist([z3.RealVal(1), pole]))
        t = V.expect_ok('new', E + 'Tremolo', [V.real('rate')])
        V.contracts[E + 'low_pass_coefficients'] = lowpass
        last = V.real('last')
        V.assume(And(-1 <= last, last <= 1))
        if 'lastPwm' in t.fields:
            V.setattr(t, 'lastPwm', last)
        for step in (1, 2):
            depth = V.real('depth')
            V.assume(And(0 <= depth, depth <= 1))
            for name, v in (('depth', depth), ('smoothness', V.real('smoothness')), ('dutyCycle', V.real('duty')), ('rate', V.real('rate'))):
                V.expect_ok('set ' + name, V.getattr(V.getattr(t, name), 'set_value'), [v])
            x = V.mkarr((2, n), KReal().uf('x', 2), 'float') if stereo else V.mkarr((n,), KReal().uf('x', 1), 'float')
            y = through(V, t, x, True)
            same_shape(V, 'shape', y, x)
            if 'lfilter' in V.ghost:
                f, instance, a1, src = V.ghost.pop('lfilter')
                V.check('pulse is -1 or 1', everywhere(src, lambda i: Or(src.at(i) == 1, src.at(i) == -1)))
                prod = lemma(V, 'products of non-negative numbers', [KReal()] * 2, lambda p, q: imp(p >= 0, q >= 0, p * q >= 0))

                def one(p, u, v):
                    prod(1 + p, 1 - u), prod(1 + p, 1 + u), prod(-p, 1 - v), prod(-p, 1 + v)
                u0 = src.at(0)
                one(a1, u0, last)
                instance(0)
                V.check('first pulse', And(-1 <= u0, u0 <= 1))
                V.check('filtered pulse starts in range', And(-1 <= f(0), f(0) <= 1))
                i = V.int('i')
                V.assume(And(1 <= i, i < n, src.at(i) == src.at(i), f(i) == f(i), f(i - 1) == f(i - 1)))
                one(a1, src.at(i), f(i - 1))
                instance(i), instance(i - 1)
                V.check('pulse', And(-1 <= src.at(i), src.at(i) <= 1))
                V.check('filtered pulse stays in range', imp(-1 <= f(i - 1), f(i - 1) <= 1, And(-1 <= f(i), f(i) <= 1)))
                V.assume(All((0, n), lambda j: And(-1 <= f(j), f(j) <= 1)))      # induction over the samples
                last = f(n - 1)
                fac = lambda i: (1 - depth) + depth * (z3.Q(1, 2) + z3.Q(1, 2) * f(i))
                k, c = V.int('k'), V.int('c')
                V.assume(And(0 <= k, k < n, 0 <= c, c < 2, f(k) == f(k)))
                prod(depth, 1 - f(k)), prod(depth, 1 + f(k))
                V.check('filtered pulse in range', And(-1 <= f(k), f(k) <= 1))
                ix = (c, k) if stereo else (k,)
                V.check('input times the envelope', y.at(*ix) == fac(k) * x.at(*ix))
                V.check('envelope between 1 - depth and 1', And(1 - depth <= fac(k), fac(k) <= 1))


tremolo_unit(False)
tremolo_unit(True)


@U.unit('distortions', claim='octave and tanh distortion map [-1, 1] into [-1, 1]')
def distortions(V):
    x = signals(V)
    bounded(V, x)
    y = through(V, V.expect_ok('new', E + 'OctaveDistortion', []), x)
    same_shape(V, 'octave: shape', y, x)
    V.check('octave: value', everywhere(x, lambda *i: y.at(*i) == 2 * x.at(*i) * x.at(*i) - 1))
    sq = lemma(V, 'square in range', [KReal()], lambda u: imp(-1 <= u, u <= 1, And(0 <= u * u, u * u <= 1)))
    ix = [V.int('i%d' % k) for k in range(len(x.shape))]
    V.assume(And(*[And(0 <= i, i < Z(m)) for i, m in zip(ix, x.shape)]))
    sq(x.at(*ix))
    V.check('octave: in range', And(-1 <= y.at(*ix), y.at(*ix) <= 1))
    d = V.real('drive')
    z = through(V, V.expect_ok('new', E + 'TanhDistortion', [d]), x)
    same_shape(V, 'tanh: shape', z, x)
    V.check('tanh: in range', And(-1 <= z.at(*ix), z.at(*ix) <= 1))
    V.check('tanh: value', z.at(*ix) == UFS['tanh'](d * x.at(*ix)))


def factors(V):
    s = V.lookup('klang.config.BUFFER_SIZE')
    return [2 ** i for i in range(1, int(s).bit_length() - 1)]


def subsample_unit(f):
    @U.unit('sub-sampling by %d' % f, claim='every %d-th sample is repeated %d times' % (f, f))
    def subsample(V):
        blk = V.expect_ok('new', E + 'Subsampler', [f])
        m = V.int('m')
        V.assume(m >= 1)
        for x in (V.mkarr((f * m,), KReal().uf('x', 1), 'float'), V.mkarr((2, f * m), KReal().uf('x2', 2), 'float')):
            y = through(V, blk, x)
            same_shape(V, 'shape', y, x)
            V.check('held samples', everywhere(x, lambda *i: y.at(*i) == x.at(*i[:-1], f * (Z(i[-1]) / f))))


for _i in range(1, 8):
    subsample_unit(2 ** _i)


@U.unit('sub-sampling factors', claim='only the powers of two below the block size are accepted')
def subsample_factors(V):
    f = V.int('factor')
    r = V.outcome(E + 'Subsampler', [f])
    V.check('accepted exactly when valid', (r[0] == 'ok') == Or(*[f == g for g in factors(V)]))


def crush_unit(b):
    @U.unit('bit reduction by %d' % b, claim='the integer amplitude is rounded down to a multiple of 2^%d' % b)
    def crush(V):
        blk = V.expect_ok('new', E + 'Bitcrusher', [b])
        x = signals(V)
        bounded(V, x)
        y = through(V, blk, x)
        same_shape(V, 'shape', y, x)
        ix = [V.int('i%d' % k) for k in range(len(x.shape))]
        V.assume(And(*[And(0 <= i, i < Z(m)) for i, m in zip(ix, x.shape)]))
        v = 32767 * x.at(*ix)
        s = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        V.check('multiple of the step, not above, less than one step below', y.at(*ix) * 32768 == z3.ToReal(2 ** b * (s / 2 ** b)))


for _b in range(16):
    crush_unit(_b)


@U.unit('bit numbers', claim='bit numbers outside [0, 16) are refused')
def bits(V):
    b = V.int('bits')
    r = V.outcome(E + 'Bitcrusher', [b])
    V.check('accepted exactly when valid', (r[0] == 'ok') == And(0 <= b, b < 16))


def toint_unit(dt, top):
    @U.unit('amplitude to %s' % dt, claim='full scale stays in range and the error is below one step; integers are refused')
    def toint(V):
        x = signals(V)
        bounded(V, x)
        y = V.expect_ok('convert_samples_to_int', W + 'convert_samples_to_int', [x] if dt == 'int16' and V.decide(V.bool('default')) else [x, models.external(V, 'numpy', dt)])
        same_shape(V, 'shape', y, x)
        V.check('integer type', y.dtype == dt)
        ix = [V.int('i%d' % k) for k in range(len(x.shape))]
        V.assume(And(*[And(0 <= i, i < Z(m)) for i, m in zip(ix, x.shape)]))
        e = z3.ToReal(y.at(*ix)) - top * x.at(*ix)
        V.check('in range', And(-top <= y.at(*ix), y.at(*ix) <= top))
        V.check('error below one step', And(-1 < e, e < 1))
        V.check('integers are refused', V.outcome(W + 'convert_samples_to_int', [y])[0] == 'raise')
        z = V.expect_ok('convert_samples_to_float', W + 'convert_samples_to_float', [y])
        same_shape(V, 'shape back', z, x)
        V.check('float type', z.dtype == 'float')
        V.check('value back', z.at(*ix) * (top + 1) == z3.ToReal(y.at(*ix)))


for _d, _t in (('int8', 2 ** 7 - 1), ('int16', 2 ** 15 - 1), ('int32', 2 ** 31 - 1)):
    toint_unit(_d, _t)


@U.unit('integer to amplitude', claim='samples become value / full scale, within [-1, 1); float samples are refused')
def tofloat(V):
    n = V.int('n')
    V.assume(n >= 1)
    for dt, full in (('int8', 2 ** 7), ('int16', 2 ** 15), ('int32', 2 ** 31)):
        v = KInt().uf('v' + dt, 1)
        V.assume(All((0, n), lambda i: And(-full <= v(i), v(i) < full)))
        x = V.mkarr((n,), lambda i: v(i), dt)
        z = V.expect_ok('convert_samples_to_float', W + 'convert_samples_to_float', [x])
        same_shape(V, 'shape', z, x)
        V.check('value', All((0, n), lambda i: z.at(i) * full == z3.ToReal(v(i)), pat=lambda i: v(i)))
        V.check('range', All((0, n), lambda i: And(-1 <= z.at(i), z.at(i) < 1), pat=lambda i: v(i)))
    V.check('floats are refused', V.outcome(W + 'convert_samples_to_float', [signals(V)])[0] == 'raise')


class Out(models._HV):
    """Output k of a splitter: remembers what was put out."""

    def __init__(self, V, k, put):
        self.k, self.put = k, put

    def attr(self, V, name):
        if name in ('set_value', '_value'):
            return Builtin(name, lambda V, v: self.put(V, self.k, v))
        raise Unsupported('output attribute ' + name)

    def assign(self, V, name, v):
        if name != 'value':
            raise Unsupported('output attribute ' + name)
        self.put(V, self.k, v)


class In(models._HV):
    """Input k of a combiner: a mono signal."""

    def __init__(self, V, k, X, n):
        self.k, self.X, self.n = k, X, n

    def attr(self, V, name):
        if name == 'value':
            return self.read(V)
        if name == 'get_value':
            return Builtin('get_value', lambda V: self.read(V))
        raise Unsupported('input attribute ' + name)

    def read(self, V):
        return V.mkarr((self.n,), lambda i: self.X(self.k, i), 'float', readonly=True)


def split_unit(mono):
    @U.unit('split %s' % ('mono' if mono else 'any number of channels'), claim='every output gets exactly its channel, mono goes to every output; the input is left unchanged')
    def split(V):
        n = V.lookup('klang.config.BUFFER_SIZE')
        m, k = V.int('outputs'), V.int('channels')
        V.assume(And(m >= 1, k >= 1))
        s = V.expect_ok('new', E + 'AudioSplitter', [m])
        V.check('one output per channel', Z(length(V, V.getattr(s, 'outputs'))) == m)
        x = V.mkarr((n,) if mono else (k, n), KReal().uf('x', 1 if mono else 2), 'float')
        before = x.storage.get
        log = Log(V, KInt())

        def put(V, j, v):
            ok = isinstance(v, Arr) and len(v.shape) == 1
            V.check('outputs get mono signals', ok)
            V.check('channel length', Z(v.shape[0]) == n)
            V.check('channel', All((0, n), lambda i: v.at(i) == (x.at(i) if mono else x.at(j, i)), pat=lambda i: v.at(i)))
            log.send(V, Z(j))
        V.setattr(s, 'outputs', V.mklist(Seq(m, lambda j: Out(V, j, put), None, None)))
        for o in range(3):
            V.loops[E + 'AudioSplitter.update#%d' % o] = LoopSpec(lambda V, L: [('one per round', log.n == L.k), ('in order', All((0, L.k), lambda i: log[i] == i, pat=lambda i: log[i]))])
        feed(V, s, x)
        V.expect_ok('split', V.getattr(s, 'update'), [])
        want = m if mono else If(m < k, m, k)
        V.check('every output that has a channel is served', log.n == want)
        V.check('each once', All((0, want), lambda i: log[i] == i, pat=lambda i: log[i]))
        V.check('input is left unchanged', x.storage.get is before)


split_unit(True)
split_unit(False)


@U.unit('combine any number of channels', claim='the combined signal has exactly one row per input, the input\'s signal, written into memory of the combiner')
def combine(V):
    n, k = V.lookup('klang.config.BUFFER_SIZE'), V.int('inputs')
    V.assume(k >= 1)
    c = V.expect_ok('new', E + 'AudioCombiner', [k])
    V.check('one input per channel', Z(length(V, V.getattr(c, 'inputs'))) == k)
    o = V.getattr(V.getattr(c, 'output'), 'value')
    V.check('shape', isinstance(o, Arr) and len(o.shape) == 2 and const_int(o.shape[1]) == n)
    V.check('rows', Z(o.shape[0]) == k)
    V.check('silent at first', All([(0, k), (0, n)], lambda j, i: o.at(j, i) == 0))
    for turn in (1, 2):
        X = KReal().uf('X%d' % turn, 2)
        V.setattr(c, 'inputs', V.mklist(Seq(k, lambda j: In(V, j, X, n), None, None)))
        V.loops[E + 'AudioCombiner.update#0'] = LoopSpec(lambda V, L: [('rows so far', All([(0, L.k), (0, n)], lambda j, i: out(V, c).at(j, i) == X(j, i), pat=lambda j, i: X(j, i)))])
        V.expect_ok('combine', V.getattr(c, 'update'), [])
        y = out(V, c)
        V.check('shape', len(y.shape) == 2 and const_int(y.shape[1]) == n)
        V.check('rows', Z(y.shape[0]) == k)
        V.check('combined', All([(0, k), (0, n)], lambda j, i: y.at(j, i) == X(j, i), pat=lambda j, i: X(j, i)))


def out(V, c):
    return V.getattr(V.getattr(c, 'output'), 'value')


def both_unit(k):
    @U.unit('split and combine %d channels' % k, claim='combining the split channels gives the signal back and splitting combined signals gives them back; mono goes to every channel')
    def split(V):
        n = V.lookup('klang.config.BUFFER_SIZE')
        s, c = V.expect_ok('new', E + 'AudioSplitter', [k]), V.expect_ok('new', E + 'AudioCombiner', [k])
        outs, ins = V.seq_of(V.getattr(s, 'outputs')), V.seq_of(V.getattr(c, 'inputs'))
        V.check('one end per channel', And(outs.n == k, ins.n == k))
        for j in range(k):
            V.expect_ok('connect', V.getattr(outs[j], 'connect'), [ins[j]])
        x = V.mkarr((k, n), KReal().uf('x', 2), 'float')
        before = x.storage.get
        feed(V, s, x)
        for turn in (1, 2):
            V.expect_ok('split', V.getattr(s, 'update'), [])
            V.expect_ok('combine', V.getattr(c, 'update'), [])
            V.check('input is left unchanged', x.storage.get is before)
            y = result(V, c)
            same_shape(V, 'shape', y, x)
            for j in range(k):
                o = V.getattr(outs[j], 'value')
                V.check('channel shape', And(isinstance(o, Arr) and len(o.shape) == 1, Z(o.shape[0]) == n))
                V.check('channel', All((0, n), lambda i: o.at(i) == x.at(j, i), pat=lambda i: x.at(j, i)))
                V.check('combined', All((0, n), lambda i: y.at(j, i) == x.at(j, i), pat=lambda i: x.at(j, i)))
            x = V.mkarr((k, n), KReal().uf('z', 2), 'float')
            before = x.storage.get
            feed(V, s, x)
        c2 = V.expect_ok('new', E + 'AudioCombiner', [k])
        xs = [V.mkarr((n,), KReal().uf('a%d' % j, 1), 'float') for j in range(k)]
        for j, i in enumerate(V.seq_of(V.getattr(c2, 'inputs')).items):
            V.expect_ok('set input', V.getattr(i, 'set_value'), [xs[j]])
        V.expect_ok('combine', V.getattr(c2, 'update'), [])
        for j in range(k):
            xs[j].storage.get = KReal().uf('b%d' % j, 1)      # written in place by its source
        V.expect_ok('combine again', V.getattr(c2, 'update'), [])
        y = result(V, c2)
        for j in range(k):
            V.check('combined after in-place changes', All((0, n), lambda i: y.at(j, i) == xs[j].at(i), pat=lambda i: xs[j].at(i)))
        m = V.mkarr((n,), KReal().uf('m', 1), 'float')
        feed(V, s, m)
        V.expect_ok('split', V.getattr(s, 'update'), [])
        for j in range(k):
            o = V.getattr(outs[j], 'value')
            V.check('mono broadcast shape', isinstance(o, Arr) and len(o.shape) == 1)
            V.check('mono broadcast', All((0, n), lambda i: o.at(i) == m.at(i), pat=lambda i: m.at(i)))


for _k in range(1, 5):
    both_unit(_k)

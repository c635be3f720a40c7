"""C24: offline rendering, channel collection and the cycle counter."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['durations, times and samples are mathematical reals (the output buffer rounds to 32 bit floats)',
               'the duration is finite and, when a file is written, at least one block long; channel blocks carry BUFFER_SIZE samples',
               'what update() of the blocks computes is the business of the blocks; values arrive at inputs as in C02']
G = 'klang.audio.klanggeber.'
B = 256
I, R = z3.IntSort(), z3.RealSort()
DT = z3.RealVal(1) / 44100
INTERVAL = B * DT


class Dac(models._HV):
    """An output block; the samples collected in cycle c are SIG(c, row, channel)."""

    def __init__(self, channels, collect):
        self.channels, self.collect = channels, collect

    def attr(self, V, name):
        if name == 'nChannels':
            return self.channels
        if name == 'collect_samples':
            return Builtin(name, lambda V: self.collect(V))
        raise Unsupported('output block attribute ' + name)


class Adc(models._HV):
    def attr(self, V, name):
        if name == 'nChannels':
            return 0
        raise Unsupported('input block attribute ' + name)


def render(V, filepath, fading):
    SIG = z3.Function('signal', I, I, I, R)
    C, D, F = V.int('channels'), V.real('duration'), V.real('fadeout')
    V.assume(And(C >= 1, D >= 0, F >= 0))
    if filepath:
        V.assume(D >= INTERVAL)
    V.assume(F > 0 if fading else F == 0)
    n = V.int('whole blocks')
    V.assume(And(to_real(n) * INTERVAL <= D, D < to_real(n + 1) * INTERVAL))
    log = Log(V, KReal())         # clock values at which all blocks were executed
    clock = GhostCell(V, z3.RealVal(-1), lambda V: KReal().fresh('clock'))
    V.contracts['klang.clock.ClockMixin.set_current_time'] = lambda V, a: clock.set(V, to_real(a['time']))
    V.contracts['klang.progress_bar.ProgressBar.print'] = lambda V, a: V.check('the counter stays in range', And(Z(a['i']) >= 0, Z(a['i']) < n))
    V.contracts['klang.progress_bar.ProgressBar.__init__'] = lambda V, a: V.check('as many cycles as whole blocks', eq(V, a['length'], n))
    written = []
    V.contracts['klang.audio.wavfile.write_wave'] = lambda V, a: written.append((a['audio'], a['filepath']))

    def collect(V):
        c = log.n - 1
        return V.mkarr((B, C), lambda r, k: SIG(c, Z(r), Z(k)), 'float')
    execute = Builtin('execute_all_blocks', lambda V: log.send(V, clock.value))

    def frame_ok(x, c, r, k):
        t = to_real(c) * INTERVAL + to_real(r) * DT
        s = SIG(c, r, k)
        return And(imp(t < D - F, x == s), imp(t >= D - F, x * F == s * (D - t)) if fading else x == s)

    def inv(V, L):
        k = L.k
        out = [('cycles', And(k <= n, log.n == k)),
               ('time', eq(V, V.caller_var(G + 'run_audio_engine', 'playTime'), to_real(k) * INTERVAL)),
               ('the clock shows the start of the cycle', All((0, k), lambda i: log[i] == to_real(i) * INTERVAL, pat=lambda i: log[i]))]
        if filepath:
            s = V.seq_of(V.caller_var(G + 'run_audio_engine', 'capturedFrames'))
            out.append(('frames', Z(s.n) == k))
            if const_int(s.n) != 0:
                out.append(('captured', All([(0, k), (0, B), (0, C)], lambda i, r, c: frame_ok(to_real(s[i].at(r, c)), i, r, c), pat=lambda i, r, c: [[SIG(i, r, c)]])))
        return out
    V.loops['klang.progress_bar.ProgressBar.range#0'] = LoopSpec(inv)
    V.expect_ok('render', G + 'run_audio_engine', [Adc(), Dac(C, collect), execute], dict(duration=D, fadeout=F, filepath='out.wav' if filepath else '', offline=True))
    V.check('one execution per whole block', log.n == n)
    V.check('the clock shows the start of the cycle', All((0, n), lambda i: log[i] == to_real(i) * INTERVAL))
    if filepath:
        V.check('written once', len(written) == 1 and written[0][1] == 'out.wav')
        a = written[0][0]
        V.check('size', And(Z(a.shape[0]) == n * B, Z(a.shape[1]) == C))
        V.check('all cycles in order', All([(0, n), (0, B), (0, C)], lambda i, r, c: frame_ok(to_real(a.at(i * B + r, c)), i, r, c)))
    else:
        V.check('nothing written', not written)


for filepath in (True, False):
    for fading in (True, False):
        def u(V, filepath=filepath, fading=fading):
            render(V, filepath, fading)
        U.unit('render%s%s' % (' to a file' if filepath else '', ' with fade-out' if fading else ''),
               claim='exactly the whole blocks of the duration are executed, the clock at the start time; all output is captured in order, faded linearly over the fade-out', time_limit=250)(u)


@U.unit('clock', claim='the clock shows what was set')
def clock(V):
    t = V.real('time')
    c = V.lookup('klang.clock.ClockMixin')
    V.expect_ok('set', V.getattr(c, 'set_current_time'), [t])
    V.check('clock', eq(V, V.expect_ok('get', V.getattr(c, 'clock'), []), t))


@U.unit('progress bar', claim='every count of every length is shown without failing')
def bar(V):
    n, i, start = V.int('length'), V.int('count'), V.real('start')
    V.assume(And(0 <= i, i < n))
    b = V.expect_ok('new', 'klang.progress_bar.ProgressBar', [n], dict(prefix='Bouncing'))
    V.setattr(b, 'startTime', start)
    V.setattr(b, 'stream', Opaque('stream'))
    V.setattr(b, 'clock', Builtin('clock', lambda V: V.real('now')))
    V.expect_ok('print', V.getattr(b, 'print'), [i])
    V.check('shown', True)


class Port(models._HV):
    """Input i: a number, one channel or W(i) channels with samples X(i, channel, sample)."""

    def __init__(self, i, shape, W, X):
        self.i, self.shape, self.W, self.X = i, shape, W, X

    def attr(self, V, name):
        if name in ('get_value', 'value'):
            get = lambda V: self.value(V)
            return Builtin(name, get) if name == 'get_value' else get(V)
        raise Unsupported('input attribute ' + name)

    def value(self, V):
        i, X = Z(self.i), self.X
        if V.decide(self.shape(i) == 0):
            return X(i, 0, 0)
        if V.decide(self.shape(i) == 1):
            return V.mkarr((B,), lambda s: X(i, 0, Z(s)), 'float', readonly=True)
        return V.mkarr((self.W(i), B), lambda c, s: X(i, Z(c), Z(s)), 'float', readonly=True)


def channels(V, enough):
    n, C = V.int('inputs'), V.int('channels')
    V.assume(And(n >= 0, C >= 1))
    S, W = z3.Function('dimensions', I, I), z3.Function('width', I, I)
    X = z3.Function('sample', I, I, I, R)
    T = z3.Function('channels before', I, I)
    V.assume(All((0, n), lambda i: And(S(i) >= 0, S(i) <= 2, W(i) >= 0, imp(S(i) == 0, W(i) == 0), imp(S(i) == 1, W(i) == 1)), pat=lambda i: S(i)))
    V.assume(All((0, n), lambda i: And(S(i) >= 0, S(i) <= 2, W(i) >= 0, imp(S(i) == 0, W(i) == 0), imp(S(i) == 1, W(i) == 1)), pat=lambda i: W(i)))
    V.assume(T(0) == 0)
    V.assume(All((0, n), lambda i: T(i + 1) == T(i) + W(i), pat=lambda i: T(i + 1)))
    V.assume(All((0, n), lambda i: T(i + 1) == T(i) + W(i), pat=lambda i: W(i)))
    prefix_monotone(V, T, n)
    V.assume(T(n) >= C if enough else T(n) < C)
    d = V.mkobj(G + 'Dac', inputs=V.mklist(Seq(n, lambda i: Port(i, S, W, X), None, None)), nChannels=C, name='')
    q = G + 'Dac.iterate_channels'
    place = {}

    def upto(i, s):
        """All channels of the first i inputs."""
        return All([(0, i), (0, None), (0, B)], lambda a, c, t: imp(c < W(a), And(T(a) >= 0, T(a) + c < Z(s.n), T(a) + W(a) <= Z(s.n), s[T(a) + c].at(t) == X(a, c, t))), pat=lambda a, c, t: [[X(a, c, t)]])

    def base(i, s, k):
        r = [('counted', And(T(i) >= 0, eq(V, k, s.n)))]
        return r

    def outer(V, L):
        s = V.seq_of(V.collecting[-1])
        place['i'] = L.k
        r = base(L.k, s, L['channelCount']) + [('as many as received', And(Z(s.n) == T(L.k), Z(s.n) < C))]
        return r + ([] if const_int(s.n) == 0 else [('channels', upto(L.k, s))])

    def inner(V, L):
        i = place['i']
        s = V.seq_of(V.collecting[-1])
        r = base(i, s, L['channelCount']) + [('as many as received', And(Z(s.n) == T(i) + L.k, Z(s.n) < C))]
        if const_int(s.n) == 0:
            return r
        return r + [('channels', upto(i, s)), ('this input', All([(0, L.k), (0, B)], lambda c, t: s[T(i) + c].at(t) == X(i, c, t), pat=lambda c, t: [[X(i, c, t)]]))]
    V.loops[q + '#0'] = LoopSpec(outer)
    V.loops[q + '#1'] = LoopSpec(inner)

    def pack(V, L):
        s, ret = V.seq_of(L['signals']), L['ret']
        return [('packed', All([(0, L.k), (0, B)], lambda c, t: ret.at(t, c) == s[c].at(t)))]
    V.loops[G + 'pack_signals#0'] = LoopSpec(pack)
    if not enough:
        how, v = V.outcome(V.getattr(d, 'collect_samples'), [])
        V.check('too few channels are refused', how == 'raise' and v.cls.name == 'ChannelMismatch')
        return
    a = V.expect_ok('collect', V.getattr(d, 'collect_samples'), [])
    V.check('one column per channel', And(Z(a.shape[0]) == B, Z(a.shape[1]) == C))
    V.check('channels in order', All([(0, n), (0, None), (0, B)], lambda i, c, t: imp(c < W(i), T(i) >= 0, T(i) + c < C, to_real(a.at(t, T(i) + c)) == X(i, c, t))))


@U.unit('collect channels', claim='the channels arriving at the inputs, one after the other, become the columns', time_limit=250)
def collect(V):
    channels(V, True)


@U.unit('missing channels', claim='fewer channels than the output has are refused', time_limit=250)
def missing(V):
    channels(V, False)


@U.unit('audio blocks', claim='the first output block of the network is the one which is rendered')
def audio_blocks(V):
    adc, dac, blk = (V.lookup(G + x) for x in ('Adc', 'Dac', 'Block'))
    n = V.int('blocks')
    V.assume(n >= 0)
    V.heap_field('__type__', KInt())
    V.heap_field('nChannels', KInt())
    s = Seq(n, lambda i: Ref(Z(i), (adc, dac, blk)), None, KRef((adc, dac, blk)))
    t = lambda i: V.heap['__type__'].get(Z(i))
    V.assume(All((0, n), lambda i: Or(*[t(i) == c.code for c in (adc, dac, blk)]), pat=lambda i: t(i)))
    for k, c in ((0, adc), (1, dac)):
        V.loops[G + 'look_for_audio_blocks#%d' % k] = LoopSpec(lambda V, L, c=c: [('none before', All((0, L.k), lambda i: t(i) != c.code, pat=lambda i: t(i)))])
    a, d = V.expect_ok('look', G + 'look_for_audio_blocks', [V.mklist(s)])
    for x, c in ((a, adc), (d, dac)):
        if isinstance(x, Ref):
            V.check('first %s' % c.name, And(x.term >= 0, x.term < n, t(x.term) == c.code, V.formula(All((0, x.term), lambda i: t(i) != c.code, pat=lambda i: t(i)))))
        else:
            V.check('no %s' % c.name, V.formula(All((0, n), lambda i: t(i) != c.code, pat=lambda i: t(i))))
            V.check('without channels', eq(V, V.getattr(x, 'nChannels'), 0))


@U.unit('sound card blocks', claim='an output block has one input of its own per channel, an input block one output per channel, all silent at first')
def ports(V):
    B = V.lookup('klang.config.BUFFER_SIZE')
    for name, side in (('Dac', 'inputs'), ('Adc', 'outputs')):
        for n in range(4):
            b = V.expect_ok('new ' + name, G + name, [n])
            ps = V.seq_of(V.getattr(b, side))
            V.check(name + ': one port per channel', const_int(ps.n) == n and const_int(V.seq_of(V.getattr(b, {'inputs': 'outputs', 'outputs': 'inputs'}[side])).n) == 0)
            V.check(name + ': number of channels', eq(V, V.getattr(b, 'nChannels'), n))
            for k in range(n):
                V.check(name + ': its own port', V.getattr(ps[k], 'owner') is b)
                x = V.getattr(ps[k], 'value')
                V.check(name + ': one block of silence', isinstance(x, Arr) and len(x.shape) == 1 and V.truth(x.shape[0] == B))
                V.check(name + ': silent', All((0, B), lambda i: to_real(x.at(i)) == 0))


@U.unit('network', claim='every cycle updates each block of the execution order once, in that order')
def network(V):
    n = V.int('blocks')
    V.assume(n >= 1)
    blk = V.lookup('klang.block.Block')
    order = V.mklist(Seq(n, lambda i: Ref(Z(i) + 1000, blk), None, KRef(blk)))
    V.contracts['klang.klang.validate_global_execution_order'] = lambda V, a: None
    start = V.mkobj(blk, name='', inputs=V.mklist([]), outputs=V.mklist([]))
    ask, calls = [], []
    V.contracts['klang.execution.determine_execution_order'] = lambda V, a: ask.append(V.seq_of(a['blocks'])) or order
    adc, dac = Adc(), Dac(V.int('channels'), None)
    V.assume(dac.channels >= 1)
    V.contracts[G + 'look_for_audio_blocks'] = lambda V, a: (adc, dac)
    log = Log(V, KInt())
    V.contracts['klang.block.Block.update'] = lambda V, a: log.send(V, a['self'].term)

    def engine(V, a):
        calls.append(a)
    V.contracts[G + 'run_audio_engine'] = engine
    D, F = V.real('duration'), V.real('fadeout')
    V.expect_ok('run', 'klang.klang.run_klang', [start], dict(duration=D, fadeout=F, filepath='x.wav', offline=True))
    V.check('order of the given blocks', len(ask) == 1 and const_int(ask[0].n) == 1 and ask[0][0] is start)
    V.check('one engine', len(calls) == 1)
    a = calls[0]
    V.check('settings', And(a['adc'] is adc, a['dac'] is dac, eq(V, a['duration'], D), eq(V, a['fadeout'], F), a['filepath'] == 'x.wav', a['offline'] is True))
    V.check('nothing updated yet', log.n == 0)
    inv = lambda V, L: [('once each', And(log.n == L.k)), ('in order', All((0, L.k), lambda i: log[i] == i + 1000, pat=lambda i: log[i]))]
    V.loops['klang.klang.run_klang.execute_all_blocks#0'] = LoopSpec(inv)
    V.expect_ok('one cycle', a['execute_all_blocks'], [])
    V.check('once each', log.n == n)
    V.check('in order', All((0, n), lambda i: log[i] == i + 1000))

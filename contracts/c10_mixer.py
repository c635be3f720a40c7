"""C10: mono and stereo mixer."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['floats are mathematical reals', 'channel values are blocks of the configured size or plain numbers (C02: what a channel reads), read only',
               'panning amplitudes: contract of C11 (a left and a right number per level, mode and pan law)']
M, SM = 'klang.audio.mixer.Mixer', 'klang.audio.mixer.StereoMixer'


class Channel(models._HV):
    """Input k of a mixer: its value is a read-only block X(k, .) or a plain number."""

    def __init__(self, V, X, k, stereo, B):
        self.X, self.k, self.stereo, self.B = X, k, stereo, B

    def attr(self, V, name):
        if name == 'value':
            return self.read(V)
        if name == 'get_value':
            return Builtin('get_value', lambda V: self.read(V))
        raise Unsupported('channel attribute ' + name)

    def read(self, V):
        k, X = self.k, self.X
        if self.stereo is None:
            if V.decide(UFB('number', z3.IntSort(), z3.BoolSort())(Z(k))):
                V.assume(All((0, self.B), lambda i: X(k, i) == X(k, 0), pat=lambda i: X(k, i)))
                return X(k, 0)
            return V.mkarr((self.B,), lambda i: X(k, i), 'float', readonly=True)
        if V.decide(UFB('number', z3.IntSort(), z3.BoolSort())(Z(k))):
            V.assume(All([(0, 2), (0, self.B)], lambda c, i: X(k, c, i) == X(k, 0, 0), pat=lambda c, i: X(k, c, i)))
            return X(k, 0, 0)
        if V.decide(UFB('mono', z3.IntSort(), z3.BoolSort())(Z(k))):
            V.assume(All((0, self.B), lambda i: X(k, 1, i) == X(k, 0, i), pat=lambda i: X(k, 1, i)))
            return V.mkarr((self.B,), lambda i: X(k, 0, i), 'float', readonly=True)
        return V.mkarr((2, self.B), lambda c, i: X(k, c, i), 'float', readonly=True)


def UFB(name, *sorts):
    return z3.Function('chan.' + name, *sorts)


def inputs_of(V, m, n, X, stereo, B):
    seq = Seq(n, lambda k: Channel(V, X, k, stereo, B), None, None)
    V.setattr(m, 'inputs', V.mklist(seq))


@U.unit('mono mix', claim='the output is the sum of gain times signal over all channels divided by their number')
def mono(V):
    B = V.lookup('klang.config.BUFFER_SIZE')
    n = V.int('channels')
    V.assume(n >= 0)
    m = V.expect_ok('new', M, [])
    X = z3.Function('X', z3.IntSort(), z3.IntSort(), z3.RealSort())
    P = z3.Function('P', z3.IntSort(), z3.IntSort(), z3.RealSort())
    inputs_of(V, m, n, X, None, B)
    gains = V.list('gains', KReal(), n)
    V.setattr(m, 'gains', gains)
    g = gains.seq
    V.assume(All((0, B), lambda i: P(0, i) == 0, pat=lambda i: P(0, i)))
    V.assume(All([(0, n), (0, B)], lambda k, i: P(k + 1, i) == P(k, i) + g[k] * X(k, i), pat=lambda k, i: P(k + 1, i)))
    V.loops[M + '.update#0'] = LoopSpec(lambda V, L: [('partial sum', All((0, B), lambda i: L['signalSum'].at(i) == P(L.k, i), pat=lambda i: [L['signalSum'].at(i), P(L.k, i)]))],
        hints={'signalSum': lambda V, L: V.mkarr((B,), KReal().uf('sum', 1), 'float')})
    V.expect_ok('update', V.getattr(m, 'update'), [])
    y = V.getattr(V.getattr(m, 'output'), 'value')
    V.check('block', len(y.shape) == 1 and const_int(y.shape[0]) == const_int(B))
    V.check('average of the gain-scaled inputs', All((0, B), lambda i: y.at(i) * z3.ToReal(If(n > 1, n, 1)) == P(n, i), pat=lambda i: y.at(i)))
    V.check('gains unchanged', V.getattr(m, 'gains') is gains and gains.seq is g)
    V.check('output is writable memory of its own', not y.readonly)


def stereo_unit(mode, law):
    @U.unit('stereo mix, %s%s' % (mode, ' with pan law' if law else ''), claim='additionally left and right are scaled by the panning amplitudes of each channel', time_limit=200)
    def stereo(V):
        B = V.lookup('klang.config.BUFFER_SIZE')
        n = V.int('channels')
        V.assume(n >= 0)
        panLaw = V.real('panLaw') if law else None
        m = V.expect_ok('new', SM, [], dict(mode=mode, panLaw=panLaw))
        X = z3.Function('X', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        P = z3.Function('P', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
        amp = z3.Function('amp', z3.RealSort(), z3.IntSort(), z3.RealSort())

        def amplitudes(V, a):
            V.check('mode and pan law of the mixer are used', And(a['mode'] == mode, a['panLaw'] is None if not law else Z(a['panLaw']) == panLaw))
            p = to_real(a['panLevel'])
            return V.mkarr((2, 1), lambda c, i: amp(p, Z(c)), 'float', readonly=True)
        V.contracts['klang.audio.panning.panning_amplitudes'] = amplitudes
        inputs_of(V, m, n, X, True, B)
        gains, pans = V.list('gains', KReal(), n), V.list('pannings', KReal(), n)
        V.setattr(m, 'gains', gains)
        V.setattr(m, 'pannings', pans)
        g, p = gains.seq, pans.seq
        V.assume(All([(0, 2), (0, B)], lambda c, i: P(0, c, i) == 0, pat=lambda c, i: P(0, c, i)))
        V.assume(All([(0, n), (0, 2), (0, B)], lambda k, c, i: P(k + 1, c, i) == P(k, c, i) + g[k] * amp(p[k], c) * X(k, c, i), pat=lambda k, c, i: P(k + 1, c, i)))
        V.loops[SM + '.update#0'] = LoopSpec(lambda V, L: [('partial sum', All([(0, 2), (0, B)], lambda c, i: L['signalSum'].at(c, i) == P(L.k, c, i), pat=lambda c, i: [L['signalSum'].at(c, i), P(L.k, c, i)]))],
                                             hints={'signalSum': lambda V, L: V.mkarr((2, B), KReal().uf('sum', 2), 'float')})
        V.expect_ok('update', V.getattr(m, 'update'), [])
        y = V.getattr(V.getattr(m, 'output'), 'value')
        V.check('block', And(len(y.shape) == 2, const_int(y.shape[0]) == 2, const_int(y.shape[1]) == const_int(B)))
        for c in (0, 1):
            V.check('average of the gain-scaled, panned inputs, side %d' % c, All((0, B), lambda i: y.at(c, i) * z3.ToReal(If(n > 1, n, 1)) == P(n, c, i), pat=lambda i: y.at(c, i)))
        V.check('settings unchanged', And(V.getattr(m, 'gains') is gains, V.getattr(m, 'pannings') is pans, gains.seq is g, pans.seq is p))


for _m in ('constant_power', 'linear', 'mixture'):
    stereo_unit(_m, False)
stereo_unit('constant_power', True)


def outputs(V):
    o = V.expect_ok('new output', 'klang.connections.Output', [])
    b = V.expect_ok('new block', 'klang.block.Block', [], dict(nOutputs=1))
    return o, b


def settings(V, m, stereo, n):
    ins, gains = V.getattr(m, 'inputs'), V.getattr(m, 'gains')
    V.check('number of channels', Z(V.getattr(m, 'nInputs')) == n)
    V.check('one gain per channel', Z(length(V, V.seq_of(gains))) == n)
    if stereo:
        V.check('one panning per channel', Z(length(V, V.seq_of(V.getattr(m, 'pannings')))) == n)
    return V.seq_of(ins), V.seq_of(gains), V.seq_of(V.getattr(m, 'pannings')) if stereo else None


def new_unit(stereo, given):
    cls = SM if stereo else M

    @U.unit('construction, %s, %s' % ('stereo' if stereo else 'mono', 'settings given' if given else 'defaults'), claim='there is exactly one gain (and panning) per channel: those given or unity and centre; lists are not shared')
    def new(V):
        n = V.int('channels')
        V.assume(n >= 0)
        ng, npan = V.int('number of gains'), V.int('number of pannings')
        V.assume(And(ng >= 0, npan >= 0))
        kw = {}
        if given:
            kw['gains'] = V.list('gains', KReal(), ng)
            if stereo:
                kw['pannings'] = V.list('pannings', KReal(), npan)
        res = V.outcome(cls, [n], kw)
        fits = And(ng == n, Or(not stereo, npan == n)) if given else True
        if res[0] == 'raise':
            V.check('refused only when the settings do not match the channels', And(res[1].cls.name == 'AssertionError', Not(fits)))
            return
        m = res[1]
        V.check('accepted only when the settings match the channels', fits)
        ins, gains, pans = settings(V, m, stereo, n)
        V.check('gains', All((0, n), lambda i: gains[i] == (kw['gains'].seq[i] if given else 1)))
        if stereo:
            V.check('pannings', All((0, n), lambda i: pans[i] == (kw['pannings'].seq[i] if given else 0)))
        if given:
            V.check('lists are not shared with the caller', V.getattr(m, 'gains') is not kw['gains'] and (not stereo or V.getattr(m, 'pannings') is not kw['pannings']))
        V.check('one output', Z(V.getattr(m, 'nOutputs')) == 1)


for _s in (False, True):
    for _g in (False, True):
        new_unit(_s, _g)


def add_unit(stereo, how):
    cls = SM if stereo else M

    @U.unit('adding a channel, %s, %s' % ('stereo' if stereo else 'mono', how), claim='the new channel comes last with its setting or unity and centre; all others keep theirs')
    def add(V):
        n = V.int('channels')
        V.assume(n >= 0)
        m = V.expect_ok('new', cls, [n], {})
        V.setattr(m, 'gains', V.list('gains', KReal(), n))
        if stereo:
            V.setattr(m, 'pannings', V.list('pannings', KReal(), n))
        ins0, g0, p0 = settings(V, m, stereo, n)
        g, p = z3.RealVal(1), z3.RealVal(0)
        src = None
        if how == 'method':
            kw = {}
            if V.decide(V.bool('gain given')):
                kw['gain'] = g = V.real('gain')
            if stereo and V.decide(V.bool('panning given')):
                kw['panning'] = p = V.real('panning')
            V.expect_ok('add', V.getattr(m, 'add_new_channel'), [], kw)
        else:
            o, b = outputs(V)
            blk = V.decide(V.bool('block'))
            src = V.getattr(b, 'output') if blk else o
            r = V.expect_ok('add', V.getattr(m, {'+=': '__iadd__', '+': '__add__', 'reversed +': '__radd__'}[how]), [b if blk else o])
            V.check('returns the mixer', r is m)
        ins, gains, pans = settings(V, m, stereo, n + 1)
        V.check('gains', All((0, n + 1), lambda i: gains[i] == If(i < n, g0[i], g)))
        if stereo:
            V.check('pannings', All((0, n + 1), lambda i: pans[i] == If(i < n, p0[i], p)))
        last = ins[n]
        V.check('the new channel belongs to the mixer', V.getattr(last, 'owner') is m)
        inc = V.getattr(last, 'incomingConnection')
        V.check('connected to what was added', inc is src)


for _s in (False, True):
    for _h in ('method', '+=', '+', 'reversed +'):
        add_unit(_s, _h)


@U.unit('mix operator', claim='adding two blocks or outputs gives a mixer with these two as its channels, at unity gain')
def operator(V):
    o, b = outputs(V)
    o2, b2 = outputs(V)
    l, r = V.decide(V.bool('left block')), V.decide(V.bool('right block'))
    m = V.expect_ok('mix', 'klang.block.mix_operator', [b if l else o, b2 if r else o2])
    ins, gains, _ = settings(V, m, False, 2)
    V.check('unity gains', And(gains[0] == 1, gains[1] == 1))
    V.check('left operand first', V.getattr(ins[0], 'incomingConnection') is (V.getattr(b, 'output') if l else o))
    V.check('right operand second', V.getattr(ins[1], 'incomingConnection') is (V.getattr(b2, 'output') if r else o2))

"""C33: live audio: the callback of the sound card, the engine around it and the main loop without audio."""
from pyvc import models
from pyvc.engine import PyRaise
from pyvc.spec import *
from contracts.c24_render import B, DT, INTERVAL, Dac

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['times and samples are mathematical reals (output buffers round to 32 bit floats)',
               'the sound card asks for BUFFER_SIZE frames per callback and hands over as many channels as the stream was opened with',
               'callbacks run one after the other while the stream is active; at least one has run when a file is written',
               'sleeping lasts at least as long as asked for and time does not run backwards',
               'collecting the channels at the output block: specified in C24']
G, K = 'klang.audio.klanggeber.', 'klang.klang.'
I, R = z3.IntSort(), z3.RealSort()
CONTINUE, COMPLETE, ABORT = 0, 1, 2


class Card(models._HV):
    """pyaudio.PyAudio()"""

    def __init__(self, V, events, stream, ins, outs):
        self.events, self.stream, self.ins, self.outs, self.opened = events, stream, ins, outs, None

    def attr(self, V, name):
        if name == 'get_default_input_device_info':
            return Builtin(name, lambda V: V.mkdict([('maxInputChannels', self.ins)]))
        if name == 'get_default_output_device_info':
            return Builtin(name, lambda V: V.mkdict([('maxOutputChannels', self.outs)]))
        if name == 'terminate':
            return Builtin(name, lambda V: self.events.append('terminate'))
        if name == 'open':
            return Builtin(name, self.open)
        raise Unsupported('sound card: ' + name)

    def open(self, V, **kw):
        self.events.append('open')
        self.opened = kw
        return self.stream


class Stream(models._HV):
    def __init__(self, events, poll):
        self.events, self.poll = events, poll

    def attr(self, V, name):
        if name == 'is_active':
            return Builtin(name, self.poll)
        if name in ('start_stream', 'stop_stream', 'close'):
            return Builtin(name, lambda V: self.events.append(name))
        raise Unsupported('stream: ' + name)


class Ports(models._HV):
    """An input block with a number of channels."""

    def __init__(self, channels, inject):
        self.channels, self.inject = channels, inject

    def attr(self, V, name):
        if name == 'nChannels':
            return self.channels
        if name == 'inject_samples':
            return Builtin(name, self.inject)
        raise Unsupported('input block attribute ' + name)


class Names(models._HV):
    def attr(self, V, name):
        if name == 'get':
            return Builtin(name, lambda V, k, d=None: V.decide(z3.FreshConst(z3.BoolSort(), 'known')) and Opaque('name') or d)
        raise Unsupported('status names: ' + name)


class Data(models._HV):
    """Incoming bytes of one callback."""

    def __init__(self, n):
        self.n = n

    def truth(self, V):
        return True

    def attr(self, V, name):
        raise Unsupported('bytes: ' + name)


def world(V):
    for k, v in dict(paContinue=CONTINUE, paComplete=COMPLETE, paAbort=ABORT, paFloat32=1).items():
        V.overlay['pyaudio.' + k] = v
    V.overlay[G + 'PY_AUDIO_CODE_NAMES'] = Names()


def engine(V, filepath, fading, endless=False, source=True, sink=True):
    world(V)
    PLAYED = z3.Function('played', I, I, I, R)    # history of the frames handed to the sound card
    SIG, INP = z3.Function('signal', I, I, I, R), z3.Function('incoming', I, I, R)
    BAD, HEARD, OPEN = z3.Function('missing', I, z3.BoolSort()), z3.Function('input', I, z3.BoolSort()), z3.Function('still', I, z3.BoolSort())
    C = V.int('outputs') if sink else 0
    A = V.int('ins') if source else 0
    if sink:
        V.assume(C >= 1)
    if source:
        V.assume(A >= 1)
    F = V.real('fadeout')
    V.assume(F > 0 if fading else F == 0)
    D = V.real('duration')
    V.assume(D >= 0)
    wide = C if sink else A
    log = Log(V, KReal())
    clock = GhostCell(V, z3.RealVal(-1), lambda V: KReal().fresh('clock'))
    heard = GhostCell(V, z3.IntVal(0), lambda V: V.int('injected'))
    over = GhostCell(V, z3.BoolVal(False), lambda V: z3.FreshConst(z3.BoolSort(), 'over'))
    failed = GhostCell(V, z3.IntVal(0), lambda V: V.int('failed'))
    turn = GhostCell(V, z3.IntVal(0), lambda V: V.int('turn'))
    events, written, warned = [], [], []
    V.contracts['klang.clock.ClockMixin.set_current_time'] = lambda V, a: clock.set(V, to_real(a['time']))
    V.contracts['klang.audio.wavfile.write_wave'] = lambda V, a: written.append((a['audio'], a['filepath']))

    def inject(V, samples):
        V.check('one frame per sample, one column per channel', And(Z(samples.shape[0]) == B, Z(samples.shape[1]) == wide) if len(samples.shape) == 2 else False)
        V.check('channels taken apart', All([(0, B), (0, wide)], lambda t, c: to_real(samples.at(t, c)) == INP(Z(turn.value), t * wide + c)))
        V.check('before the blocks run', log.n == turn.value)
        heard.set(V, Z(heard.value) + 1)

    def frombuffer(V, data, dtype=None):
        n = data.n
        return V.mkarr((B * Z(wide),), lambda i: INP(n, Z(i)), 'float', readonly=True)
    V.overlay['numpy.frombuffer'] = Builtin('frombuffer', frombuffer)

    def collect(V):
        c = log.n - 1
        V.check('collected after the blocks have run', log.n == turn.value + 1)
        if V.decide(BAD(c)):
            raise PyRaise(V.expect_ok('error', G + 'ChannelMismatch', ['missing']))
        return V.mkarr((B, C), lambda r, k: SIG(c, Z(r), Z(k)), 'float')
    execute = Builtin('execute_all_blocks', lambda V: log.send(V, clock.value))

    def frame(x, c, r, k):
        if endless:
            return x == SIG(c, r, k)
        t = to_real(c) * INTERVAL + to_real(r) * DT
        s = SIG(c, r, k)
        return And(imp(t < D - F, x == s), imp(And(t >= D - F, t < D), x * F == s * (D - t)) if fading else True, imp(t > D, x == 0))

    def poll(V):
        """The card may have asked for a block since the last look, or ended the stream itself."""
        if V.decide(z3.FreshConst(z3.BoolSort(), 'nothing happened')):
            return Not(over.value)
        if V.decide(z3.FreshConst(z3.BoolSort(), 'card failed')):
            events.append('error')
            V.throw('OSError', 'card')
        if V.decide(over.value):
            return False
        c = log.n
        turn.set(V, c)
        if endless:
            V.assume(to_real(c + 1) * INTERVAL < V.lookup('klang.constants.INF') - F)     # in this lifetime
        before, some = heard.value, source and V.decide(HEARD(c))
        data = Data(c) if some else None
        res = V.expect_ok('callback', card.opened['stream_callback'], [data, B, Opaque('time info'), V.int('status')])
        out, flag = V.seq_of(res).items
        V.check('the blocks run once', log.n == c + 1)
        V.check('at the time of the block', log[c] == to_real(c) * INTERVAL)
        V.check('incoming samples handed over once', eq(V, heard.value, Z(before) + (1 if some else 0)))
        V.check('one frame per sample', And(Z(out.shape[0]) == B, Z(out.shape[1]) == C) if isinstance(out, Arr) and len(out.shape) == 2 else False)
        bad = V.decide(BAD(c))
        if bad:
            V.check('aborts', eq(V, flag, ABORT))
            V.check('silence', All([(0, B), (0, C)], lambda r, k: to_real(out.at(r, k)) == 0))
        else:
            V.assume(All([(0, B), (0, C)], lambda r, k: to_real(out.at(r, k)) == PLAYED(c, r, k), pat=lambda r, k: [[PLAYED(c, r, k)]]))
            V.check('what the blocks play', All([(0, B), (0, C)], lambda r, k: frame(to_real(out.at(r, k)), c, r, k)))
            V.check('ends with the duration', eq(V, flag, CONTINUE) if endless else And(imp(to_real(c + 1) * INTERVAL >= D, Z(flag) == COMPLETE), imp(to_real(c + 1) * INTERVAL < D, Z(flag) == CONTINUE)))
        on = eq(V, flag, CONTINUE)
        failed.set(V, Z(1 if bad else 0))
        over.set(V, Not(on))
        return on
    card = Card(V, events, Stream(events, poll), V.int('device inputs', 0), V.int('device outputs', 0))
    V.assume(And(Z(A) <= card.ins, Z(C) <= card.outs))
    V.overlay['pyaudio.PyAudio'] = Builtin('PyAudio', lambda V: card)

    def sleep(V, t):
        if V.decide(z3.FreshConst(z3.BoolSort(), 'interrupted')):
            events.append('interrupt')
            V.throw('KeyboardInterrupt', '')
    V.overlay['time.sleep'] = Builtin('sleep', sleep)

    def inv(V, L):
        n = log.n
        out = [('time', eq(V, L['playTime'], to_real(n) * INTERVAL)),
               ('running', And(n >= 0, Z(failed.value) == 0, Not(over.value))),
               ('the clock shows the start of the block', All((0, n), lambda i: log[i] == to_real(i) * INTERVAL, pat=lambda i: log[i]))]
        if filepath:
            s = V.seq_of(L['capturedFrames'])
            out.append(('frames', Z(s.n) == n))
            if const_int(s.n) != 0:
                out.append(('captured', All([(0, n), (0, B), (0, C)], lambda i, r, c: to_real(s[i].at(r, c)) == PLAYED(i, r, c), pat=lambda i, r, c: [[PLAYED(i, r, c)]])))
        return out
    V.loops[G + 'run_audio_engine#1'] = LoopSpec(inv)
    kw = dict(fadeout=F, filepath='out.wav' if filepath else '')
    if not endless:
        kw['duration'] = D
    how, err = V.outcome(G + 'run_audio_engine', [Ports(A, inject), Dac(C, collect), execute], kw)
    n = log.n
    V.check('opened once, ended in order', [e for e in events if e not in ('interrupt', 'error')] == ['open', 'start_stream', 'stop_stream', 'close', 'terminate'])
    o = card.opened
    V.check('as the network needs it', And(eq(V, o['rate'], 44100), eq(V, o['frames_per_buffer'], B), eq(V, o['format'], 1), eq(V, o['channels'], wide), Z(V.truth(o['input'])) == source, Z(V.truth(o['output'])) == sink))
    if 'error' in events:
        V.check('errors of the card are passed on', how == 'raise' and err.cls.name == 'OSError')
        V.check('no file after an error', not written)
        return
    if how == 'raise' and filepath and V.decide(n - Z(failed.value) == 0):
        return    # nothing was played, nothing to write
    V.check('ends without error', how == 'ok')
    if filepath:
        m = n - Z(failed.value)
        V.check('written once', len(written) == 1 and written[0][1] == 'out.wav')
        a = written[0][0]
        V.check('as long as played', And(Z(a.shape[0]) == m * B, Z(a.shape[1]) == C))
        V.check('as played', All([(0, m), (0, B), (0, C)], lambda i, r, c: to_real(a.at(i * B + r, c)) == PLAYED(i, r, c)))
    else:
        V.check('no file', not written)


CLAIM = 'every callback sets the time, hands over the incoming channels, runs the blocks once, and returns their faded output until the duration is reached; whatever ends the run, the stream is stopped, closed and the audio system terminated'
for _file in (False, True):
    for _fade in (False, True):
        def u(V, f=_file, g=_fade):
            engine(V, f, g)
        U.unit('engine%s%s' % (', captured' if _file else '', ', faded' if _fade else ''), claim=CLAIM, time_limit=300)(u)


@U.unit('engine, without end', claim=CLAIM + ' (forever by default)', time_limit=200)
def forever(V):
    engine(V, False, False, endless=True)


@U.unit('engine, output only', claim=CLAIM, time_limit=200)
def output_only(V):
    engine(V, False, True, source=False)


@U.unit('engine, input only', claim=CLAIM, time_limit=200)
def input_only(V):
    engine(V, False, False, sink=False)


@U.unit('engine, too few channels', claim='a sound card with too few channels is refused before anything is opened')
def refused(V):
    world(V)
    events = []
    A, C, a, c = (V.int(n, 0) for n in ('ins', 'outputs', 'device inputs', 'device outputs'))
    V.assume(Or(A > a, C > c))
    card = Card(V, events, None, a, c)
    V.overlay['pyaudio.PyAudio'] = Builtin('PyAudio', lambda V: card)

    def nothing(V, *a):
        V.check('nothing runs', False)
    how, err = V.outcome(G + 'run_audio_engine', [Ports(A, nothing), Dac(C, nothing), Builtin('execute', nothing)], dict(duration=V.real('duration')))
    V.check('refused', how == 'raise' and err.cls.name == 'ValueError')
    V.check('nothing opened', 'open' not in events)


class Port(models._HV):
    def __init__(self, i, set_value):
        self.i, self.set_value = i, set_value

    def attr(self, V, name):
        if name == 'set_value':
            return Builtin(name, lambda V, x: self.set_value(V, Z(self.i), x))
        raise Unsupported('output attribute ' + name)


@U.unit('inject samples', claim='channel k of the incoming samples is the value of output k, for as many as there are of both')
def inject(V):
    n, k = V.int('outputs', 0), V.int('channels', 0)
    X = z3.Function('incoming', I, I, R)
    log = Log(V, KInt())

    def set_value(V, i, x):
        V.check('samples', And(Z(x.shape[0]) == B) if isinstance(x, Arr) and len(x.shape) == 1 else False)
        V.check('its channel', All((0, B), lambda t: to_real(x.at(t)) == X(t, i)))
        log.send(V, i)
    d = V.mkobj(G + 'Adc', outputs=V.mklist(Seq(n, lambda i: Port(i, set_value), None, None)), nChannels=n, name='')
    V.loops[G + 'Adc.inject_samples#0'] = LoopSpec(lambda V, L: [('one channel each', log.n == L.k), ('in order', All((0, L.k), lambda i: log[i] == i, pat=lambda i: log[i]))])
    V.expect_ok('inject', V.getattr(d, 'inject_samples'), [V.mkarr((B, k), lambda t, c: X(Z(t), Z(c)), 'float', readonly=True)])
    m = z3.If(n < k, n, k)
    V.check('as many as there are of both', log.n == m)
    V.check('each once', All((0, m), lambda i: log[i] == i))


# ---- the order of execution with its composites taken apart

@U.unit('unravel', claim='the blocks of an order with composites replaced by their blocks, in order, however deep (by induction on the depth)')
def unravel(V):
    block, comp = V.lookup('klang.block.Block'), V.lookup('klang.composite.Composite')
    kinds = (block, comp)
    t = V.heap_field('__type__', KInt())
    N, AT, COUNT, LEAF, S, DEPTH = (z3.Function(n, *s) for n, s in (('size', (I, I)), ('member', (I, I, I)), ('leaves', (I, I)), ('leaf', (I, I, I)), ('before', (I, I, I)), ('depth', (I, I))))
    is_comp = lambda x: t.get(x) == comp.code
    V.assume(All([None], lambda x: And(N(x) >= 0, Or(is_comp(x), t.get(x) == block.code)), pat=lambda x: N(x)))
    V.assume(All([None], lambda x: And(N(x) >= 0, Or(is_comp(x), t.get(x) == block.code)), pat=lambda x: t.get(x)))
    V.assume(All([None], lambda x: imp(Not(is_comp(x)), And(COUNT(x) == 1, LEAF(x, 0) == x)), pat=lambda x: COUNT(x)))
    V.assume(All([None], lambda x: COUNT(x) >= 0, pat=lambda x: COUNT(x)))

    def order(V, x):
        """The list of members of x: leaves are counted and numbered member by member."""
        V.assume(And(N(x) >= 0, S(x, 0) == 0, COUNT(x) == S(x, N(x))))
        V.assume(All((0, N(x)), lambda i: And(S(x, i + 1) == S(x, i) + COUNT(AT(x, i)), DEPTH(AT(x, i)) < DEPTH(x), DEPTH(AT(x, i)) >= 0), pat=lambda i: AT(x, i)))
        V.assume(All([(0, N(x)), (0, None)], lambda i, j: imp(j < COUNT(AT(x, i)), LEAF(x, S(x, i) + j) == LEAF(AT(x, i), j)), pat=lambda i, j: LEAF(AT(x, i), j)))
        l = V.mklist(Seq(N(x), lambda i: Ref(AT(x, Z(i)), kinds), None, KRef(kinds)))
        l.ident = x
        return l
    from contracts.net import View
    View(V, 'execOrder', lambda o: order(V, o.term))
    root = V.int('root')
    top = order(V, root)
    leaf = lambda x: x.term

    def handler(V, a):
        x = getattr(a['execOrder'], 'ident', None)
        V.check('taken apart: the order of a member', x is not None)
        V.check('induction: not as deep', And(DEPTH(x) >= 0, DEPTH(x) < DEPTH(root)))
        return Seq(COUNT(x), lambda k: Ref(LEAF(x, Z(k)), kinds), None, KRef(kinds))
    V.contracts['klang.klang.unravel'] = handler

    def inv(V, L):
        s = V.seq_of(V.collecting[-1])
        r = [('as many leaves as the members so far have', And(Z(s.n) == S(root, L.k)))]
        if const_int(s.n) != 0:
            r.append(('leaves in order', All([(0, L.k), (0, None)], lambda i, j: imp(j < COUNT(AT(root, i)), And(S(root, i) >= 0, S(root, i) + j < Z(s.n), leaf(s[S(root, i) + j]) == LEAF(AT(root, i), j))), pat=lambda i, j: LEAF(AT(root, i), j))))
        return r
    V.loops['klang.klang.unravel#0'] = LoopSpec(inv)
    f = V.lookup('klang.klang.unravel')
    V.inline_once = f.qual
    s = V.seq_of(V.call_func(f, [top], {}))
    V.check('as many as there are leaves', Z(s.n) == COUNT(root))
    V.check('each in its place', All([(0, N(root)), (0, None)], lambda i, j: imp(j < COUNT(AT(root, i)), leaf(s[S(root, i) + j]) == LEAF(AT(root, i), j))))


class Counter(models._HV):
    """collections.Counter of a sequence: distinct keys in order of appearance with their numbers of occurrences."""

    def __init__(self, V, s):
        self.s = s
        n = Z(s.n)
        self.m = V.int('distinct', 0)
        f = lambda name: z3.Function(fresh_name(name), I, I)
        self.first, self.other, self.count, entry = f('first'), f('other'), f('count'), f('entry')
        self.key = lambda k: s[self.first(Z(k))]
        ident = lambda i: s[i].term
        self.of = lambda i: entry(ident(i))
        V.assume(All((0, self.m), lambda k: And(self.first(k) >= 0, self.first(k) < n, self.of(self.first(k)) == k, self.count(k) >= 1, self.other(k) >= 0, self.other(k) < n,
                                                imp(self.count(k) > 1, And(self.other(k) > self.first(k), ident(self.other(k)) == ident(self.first(k))))), pat=lambda k: self.count(k)))

        def element(i):
            k = self.of(i)
            V.assume(imp(And(0 <= i, i < n), And(k >= 0, k < self.m, ident(self.first(k)) == ident(i), imp(self.first(k) != i, self.count(k) > 1))))
        self.element = element

    def attr(self, V, name):
        if name == 'values':
            return Builtin(name, lambda V: Seq(self.m, lambda k: self.count(Z(k)), None, KInt()))
        if name == 'items':
            return Builtin(name, lambda V: Seq(self.m, lambda k: (self.key(k), self.count(Z(k))), None, None))
        raise Unsupported('Counter.' + name)


class Logger(models._HV):
    def __init__(self):
        self.warned = 0

    def attr(self, V, name):
        if name == 'warning':
            def warn(V, *a):
                self.warned += 1
            return Builtin(name, warn)
        return Builtin(name, lambda V, *a, **k: None)


@U.unit('repeated blocks', claim='a warning is given exactly when some block of the order is in it more than once, composites taken apart')
def repeated(V):
    blk = V.lookup('klang.block.Block')
    n = V.int('blocks', 0)
    at = z3.Function('block', I, I)
    s = Seq(n, lambda i: Ref(at(Z(i)), blk), None, KRef(blk))
    asked = []
    order = V.mklist([])
    V.contracts['klang.klang.unravel'] = lambda V, a: asked.append(a['execOrder']) or s
    V.contracts['klang.block.Block.__str__'] = lambda V, a: Opaque('name')
    made = []

    def counter(V, x):
        made.append(Counter(V, V.seq_of(x)))
        return made[-1]
    V.overlay['collections.Counter'] = Builtin('Counter', counter)
    log = Logger()
    V.expect_ok('validate', 'klang.klang.validate_global_execution_order', [order, log])
    V.check('the whole order', len(asked) == 1 and asked[0] is order)
    i, j = V.int('i'), V.int('j')
    if log.warned:
        V.check('one warning', log.warned == 1)
        c = made[0]
        V.check('some block twice', V.exists(0, c.m, lambda k: And(0 <= c.first(k), c.first(k) < c.other(k), c.other(k) < n, at(c.first(k)) == at(c.other(k)))))
    else:
        V.assume(And(0 <= i, i < n, 0 <= j, j < n, at(i) == at(j)))
        for c in made:
            c.element(i)
            c.element(j)
        V.check('no block twice', i == j)


# ---- without audio

def timing(V):
    now = GhostCell(V, V.real('now'), lambda V: V.real('now'))

    def look(V):
        t = V.real('time')
        V.assume(t >= Z(now.value))
        now.set(V, t)
        return t

    def sleep(V, d):
        d = to_real(d)
        V.check('no sleep of negative length', d >= 0)
        t = V.real('woken')
        V.assume(t >= Z(now.value) + d)
        now.set(V, t)
        if V.decide(z3.FreshConst(z3.BoolSort(), 'interrupted')):
            V.throw('KeyboardInterrupt', '')
    V.overlay['time.perf_counter'] = Builtin('perf_counter', look)
    V.overlay['time.sleep'] = Builtin('sleep', sleep)
    return now


def whole(x):
    y = x / INTERVAL
    return z3.ToReal(z3.ToInt(y)) == y


@U.unit('next cycle', claim='sleeps until the next whole multiple of the block duration, and returns it')
def next_cycle(V):
    now = timing(V)
    before = now.value
    how, t = V.outcome('klang.klang.sleep_until_next_cycle', [])
    if how == 'raise':
        V.check('interrupted', t.cls.name == 'KeyboardInterrupt')
        return
    t = to_real(t)
    V.check('a whole multiple', whole(t))
    V.check('in the future, until when it slept', And(t >= before, Z(now.value) >= t))


@U.unit('main loop', claim='without audio blocks all blocks run once per cycle, at whole multiples of the block duration in ascending order, until interrupted')
def main_loop(V):
    n = V.int('blocks')
    V.assume(n >= 1)
    blk = V.lookup('klang.block.Block')
    order = V.mklist(Seq(n, lambda i: Ref(Z(i) + 1000, blk), None, KRef(blk)))
    checked = []
    V.contracts['klang.klang.validate_global_execution_order'] = lambda V, a: checked.append(a['execOrder'])
    start = V.mkobj(blk, name='', inputs=V.mklist([]), outputs=V.mklist([]))
    V.contracts['klang.execution.determine_execution_order'] = lambda V, a: order
    V.contracts[G + 'look_for_audio_blocks'] = lambda V, a: (Dac(0, None), Dac(0, None))
    clock = GhostCell(V, z3.RealVal(-1), lambda V: KReal().fresh('clock'))
    set_at = Log(V, KReal())
    runs = GhostCell(V, z3.IntVal(0), lambda V: V.int('runs'))
    log = Log(V, KInt())
    due = GhostCell(V, z3.RealVal(0), lambda V: V.real('due'))

    def until(V, a):
        """Contract of sleep_until_next_cycle (unit: next cycle)."""
        if V.decide(z3.FreshConst(z3.BoolSort(), 'interrupted')):
            V.throw('KeyboardInterrupt', '')
        t = V.real('cycle')
        V.assume(And(whole(t), t >= Z(due.value)))
        due.set(V, t)
        return t
    V.contracts['klang.klang.sleep_until_next_cycle'] = until
    V.contracts['klang.clock.ClockMixin.set_current_time'] = lambda V, a: (clock.set(V, to_real(a['time'])), set_at.send(V, a['time']))[0]

    def update(V, a):
        V.check('at the time of the cycle', Z(clock.value) == Z(due.value))
        log.send(V, a['self'].term)
    V.contracts['klang.block.Block.update'] = update
    V.loops['klang.klang.run_klang.execute_all_blocks#0'] = LoopSpec(lambda V, L: [
        ('once each', log.n == (set_at.n - 1) * n + L.k),
        ('in order', All((0, L.k), lambda i: log[(set_at.n - 1) * n + i] == i + 1000, pat=lambda i: log[(set_at.n - 1) * n + i]))])
    V.loops['klang.klang.run_klang#0'] = LoopSpec(lambda V, L: [
        ('all blocks once per cycle', And(set_at.n >= 0, log.n == set_at.n * n)),
        ('cycles', And(imp(set_at.n > 0, set_at[set_at.n - 1] <= Z(due.value))))])
    how, err = V.outcome('klang.klang.run_klang', [start], {})
    V.check('runs until interrupted', how == 'raise' and err.cls.name == 'KeyboardInterrupt')
    V.check('repeated blocks are looked for', len(checked) == 1 and checked[0] is order)
    V.check('all blocks once per cycle', log.n == set_at.n * n)


@U.unit('nothing to run', claim='without blocks there is an error')
def nothing(V):
    how, err = V.outcome('klang.klang.run_klang', [], {})
    V.check('refused', how == 'raise' and err.cls.name == 'ValueError')

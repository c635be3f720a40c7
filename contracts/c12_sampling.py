"""C12: sample playback."""
from pyvc import models
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['floats are mathematical reals', 'the resampling library (samplerate) fetches and hands out frames in order; reading is proved for the built-in resampler at original speed',
               'raw audio data has one or two axes, at least one frame']
S = 'klang.audio.sampling.Sample'


def data_of(V, tag='d'):
    """Raw audio data: n frames, mono (one axis) or with channels."""
    n = V.int('frames')
    if V.decide(V.bool('one axis')):
        V.assume(n >= 1)
        return V.mkarr((n,), KReal().uf(tag, 1), 'float'), n, None
    c = V.int('channels')
    V.assume(And(c >= 1, n > c))
    return V.mkarr((n, c), KReal().uf(tag, 2), 'float'), n, c


def sample(V, loop=None, mode='crude', **kw):
    """A sample with any valid marks and playback position."""
    data, n, c = data_of(V)
    a, b, cur = V.int('start'), V.int('stop'), V.int('current')
    V.assume(And(0 <= a, a < b, b <= n, a <= cur, cur <= b))
    if loop is None:
        loop = V.decide(V.bool('loop'))
    rate = V.lookup('klang.config.SAMPLING_RATE')
    s = V.expect_ok('new', S, [rate, data, a, b, loop], dict(mode=mode, **kw))
    return s, data, n, c, a, b, cur


def marks(V, s, a, b):
    return And(Z(V.getattr(s, 'start')) == a, Z(V.getattr(s, 'stop')) == b)


def frames(V, label, chunk, m, c, want):
    """chunk has m frames; frame i is want(i) (an index into the data)."""
    V.check(label + ': array', isinstance(chunk, Arr) and len(chunk.shape) == (1 if c is None else 2))
    V.check(label + ': number of frames', Z(chunk.shape[0]) == m)
    if c is None:
        V.check(label + ': frames', All((0, m), lambda i: chunk.at(i) == want(i), pat=lambda i: chunk.at(i)))
    else:
        V.check(label + ': number of channels', Z(chunk.shape[1]) == c)
        V.check(label + ': frames', All([(0, m), (0, c)], lambda i, j: chunk.at(i, j) == want(i, j), pat=lambda i, j: chunk.at(i, j)))


@U.unit('construction', claim='marks are accepted exactly when 0 <= start < stop <= length; playback begins at the start mark')
def construct(V):
    data, n, c = data_of(V)
    a = V.int('start')
    b = V.int('stop') if V.decide(V.bool('stop given')) else None
    end = n if b is None else b
    if b is not None:
        V.assume(b != 0)
    loop = V.decide(V.bool('loop'))
    mode = 'linear' if V.decide(V.bool('library resampler')) else 'crude'
    res = V.outcome(S, [V.lookup('klang.config.SAMPLING_RATE'), data, a, b, loop], dict(mode=mode))
    ok = And(0 <= a, a < end, end <= n)
    if res[0] == 'raise':
        V.check('only AssertionError is raised', res[1].cls.name == 'AssertionError')
        V.check('refused only outside the data', Not(ok))
        return
    s = res[1]
    V.check('accepted only inside the data', ok)
    V.check('marks', marks(V, s, a, end))
    V.check('begins at the start mark', Z(V.getattr(s, 'currentIndex')) == a)
    V.check('playing', V.truth(V.getattr(s, 'playing')))
    V.check('data is kept', V.getattr(s, 'data') is data)


@U.unit('fetch, played once', claim='each fetch returns the next frames before the stop mark, all of them exactly once, and then nothing')
def once(V):
    s, data, n, c, a, b, cur = sample(V, False)
    V.setattr(s, 'currentIndex', cur)
    before = data.storage.get
    k = V.int('nFrames')
    V.assume(k >= 0)
    V.check('playing until the stop mark', iff(V.truth(V.getattr(s, 'playing')), cur < b))
    chunk = V.expect_ok('callback', V.getattr(s, 'callback'), [k])
    m = If(cur + k <= b, k, b - cur)
    frames(V, 'fetched', chunk, m, c, lambda i, *j: data.at(cur + i, *j))
    V.check('position advances by the fetched frames', Z(V.getattr(s, 'currentIndex')) == cur + m)
    V.check('marks unchanged', marks(V, s, a, b))
    V.check('data unchanged', data.storage.get is before)


@U.unit('fetch, looping', claim='each fetch is complete; the frame after the last before the stop mark is the one at the start mark')
def looping(V):
    s, data, n, c, a, b, cur = sample(V, True)
    V.setattr(s, 'currentIndex', cur)
    before = data.storage.get
    k = V.int('nFrames')
    V.assume(k >= 0)
    chunk = V.expect_ok('callback', V.getattr(s, 'callback'), [k])
    pos = lambda i: a + mod(V, cur - a + i, b - a)
    frames(V, 'fetched', chunk, k, c, lambda i, *j: data.at(pos(i), *j))
    V.check('next position', Z(V.getattr(s, 'currentIndex')) == pos(k))
    V.check('still playing', V.truth(V.getattr(s, 'playing')))
    V.check('marks unchanged', marks(V, s, a, b))
    V.check('data unchanged', data.storage.get is before)


@U.unit('loop order', claim='the positions fetched when looping start at the current one and follow each other inside the marks, the start mark after the last one')
def order(V):
    a, b, cur, i = V.int('start'), V.int('stop'), V.int('current'), V.int('i')
    V.assume(And(0 <= a, a < b, a <= cur, cur <= b, i >= 0))
    pos = lambda i: a + mod(V, cur - a + i, b - a)
    L = b - a
    V.check('first', pos(0) == If(cur == b, a, cur))
    p, q = pos(i), div(V, cur - a + i, L)
    V.check('inside the marks', And(a <= p, p < b))
    r = p - a
    V.check('decomposition', cur - a + i == q * L + r)
    nxt = pos(i + 1)
    q2, r2 = div(V, cur - a + i + 1, L), nxt - a
    V.check('decomposition of the next', cur - a + i + 1 == q2 * L + r2)
    dq = V.int('difference of quotients')
    V.assume(dq == q2 - q)
    V.check('quotients differ', dq * L == r + 1 - r2)
    V.check('by at most one', And(dq >= 0, dq <= 1), hints=[imp(dq >= 2, dq * L >= 2 * L), imp(dq <= -1, dq * L <= -L)])
    V.check('the next offset', Or(And(dq == 0, r2 == r + 1), And(dq == 1, r2 == r + 1 - L)), hints=[imp(dq == 0, dq * L == 0), imp(dq == 1, dq * L == L)])
    V.check('successor', nxt == If(p + 1 == b, a, p + 1))


@U.unit('marks and rewinding', claim='moving the marks keeps the position inside them; rewinding goes to the start mark')
def trimming(V):
    s, data, n, c, a, b, cur = sample(V)
    V.setattr(s, 'currentIndex', cur)
    x = V.int('start2')
    y = V.int('stop2') if V.decide(V.bool('stop given')) else None
    if y is not None:
        V.assume(y != 0)
    end = n if y is None else y
    res = V.outcome(V.getattr(s, 'trim'), [x, y])
    now = Z(V.getattr(s, 'currentIndex'))
    if res[0] == 'raise':
        V.check('refused only outside the data', And(res[1].cls.name == 'AssertionError', Not(And(0 <= x, x < end, end <= n))))
        V.check('a refused change leaves marks and position', And(marks(V, s, a, b), now == cur))
    else:
        V.check('accepted only inside the data', And(0 <= x, x < end, end <= n))
        V.check('marks', marks(V, s, x, end))
        V.check('position is clipped to the marks', now == If(cur < x, x, If(cur > end, end, cur)))
    start = Z(V.getattr(s, 'start'))
    V.expect_ok('rewind', V.getattr(s, 'rewind'), [])
    V.check('rewound', Z(V.getattr(s, 'currentIndex')) == start)
    V.check('playing after rewinding', V.truth(V.getattr(s, 'playing')))


class Library(models._HV):
    """A resampler that tells when it is reset."""

    def __init__(self):
        self.resets = 0

    def attr(self, V, name):
        if name == 'reset':
            def reset(V):
                self.resets += 1
            return Builtin('reset', reset)
        raise Unsupported('resampler attribute ' + name)


@U.unit('rewinding the resampler', claim='rewinding makes the resampler forget what it has fetched, wherever the sample stands')
def rewind_library(V):
    s, data, n, c, a, b, cur = sample(V, mode='linear')
    V.setattr(s, 'currentIndex', cur)
    r = Library()
    V.setattr(s, 'resampler', r)
    V.expect_ok('rewind', V.getattr(s, 'rewind'), [])
    V.check('the resampler is reset', r.resets > 0)
    V.check('rewound', Z(V.getattr(s, 'currentIndex')) == a)


def fixed_sample(V, k, loop, mode, speed=1):
    n = V.int('frames')
    V.assume(n >= max(1, (k or 0) + 1))
    data = V.mkarr((n,) if not k else (n, k), KReal().uf('d', 2 if k else 1), 'float')
    a, b, cur = V.int('start'), V.int('stop'), V.int('current')
    V.assume(And(0 <= a, a < b, b <= n, a <= cur, cur <= b))
    s = V.expect_ok('new', S, [V.lookup('klang.config.SAMPLING_RATE'), data, a, b, loop], dict(mode=mode))
    V.setattr(s, 'currentIndex', cur)
    return s, data, n, a, b, cur


def read_unit(mode, k):
    @U.unit('read at original speed, %s, %s' % (mode, 'one axis' if not k else '%d channels' % k),
            claim='reading a block hands out the fetched frames unchanged', time_limit=200)
    def read(V):
        B = V.lookup('klang.config.BUFFER_SIZE')
        loop = V.decide(V.bool('loop'))
        s, data, n, a, b, cur = fixed_sample(V, k, loop, mode)
        if V.decide(V.bool('speed set')):
            V.expect_ok('set speed', V.getattr(s, 'set_playback_speed'), [z3.RealVal(1)])
        out = V.expect_ok('read', V.getattr(s, 'read'), [])
        m = Z(B) if loop else If(cur + B <= b, Z(B), b - cur)
        pos = (lambda i: a + mod(V, cur - a + i, b - a)) if loop else (lambda i: cur + i)
        V.check('number of frames', Z(out.shape[0]) == m)
        if V.decide(m == 0):
            return
        if not k:
            V.check('one axis', len(out.shape) == 1)
            V.check('frames', All((0, m), lambda i: out.at(i) == data.at(pos(i)), pat=lambda i: out.at(i)))
        else:
            V.check('channels', len(out.shape) == 2 and Z(out.shape[1]) == k)
            for j in range(k):
                V.check('frames of channel %d' % j, All((0, m), lambda i: out.at(i, j) == data.at(pos(i), j), pat=lambda i: out.at(i, j)))
        V.check('position', Z(V.getattr(s, 'currentIndex')) == (pos(m) if loop else cur + m))


for _m in ('crude', 'very_crude'):
    for _k in (0, 1, 2):
        read_unit(_m, _k)


def file_unit(k):
    @U.unit('audio file, %d channels' % k, claim='a playing audio file outputs the frames read, channel first, completed with silence; a paused one silence', time_limit=200)
    def audio_file(V):
        B = V.lookup('klang.config.BUFFER_SIZE')
        n = V.int('frames')
        V.assume(n > k)
        data = V.mkarr((n, k), KReal().uf('d', 2), 'float')
        rate = V.int('rate')
        V.assume(rate >= 1)
        V.contracts['klang.audio.wavfile.load_wave'] = lambda V, path: (rate, data)
        mono = V.decide(V.bool('mono'))
        f = V.expect_ok('new', 'klang.audio.sampling.AudioFile', ['file.wav', mono])
        ch = 1 if mono else k
        V.check('not playing at first', Not(V.truth(V.getattr(f, 'playing'))))
        m, ended = V.int('frames read'), V.bool('more to play')
        V.assume(And(0 <= m, m <= B))
        r = V.mkarr((m,) if ch == 1 else (m, ch), KReal().uf('r', 2 if ch > 1 else 1), 'float')
        reads = []

        def read(V, args):
            reads.append(args['nFrames'])
            V.setattr(args['self'], 'currentIndex', If(ended, 0, n))
            return r
        V.contracts['klang.audio.sampling.Sample.read'] = read
        on = V.decide(V.bool('play'))
        V.expect_ok('play', V.getattr(f, 'play' if on else 'pause'), [])
        V.expect_ok('update', V.getattr(f, 'update'), [])
        y = V.getattr(V.getattr(f, 'output'), 'value')
        if not on:
            V.check('silence when paused', All([(0, s) for s in y.shape], lambda *i: y.at(*i) == 0))
            V.check('nothing is read when paused', not reads)
            return
        V.check('one block is read', len(reads) == 1 and const_int(reads[0]) == const_int(B))
        V.check('keeps playing until the end', iff(V.truth(V.getattr(f, 'playing')), ended))
        V.check('block shape', And(len(y.shape) == (1 if ch == 1 else 2), Z(y.shape[-1]) == B, ch == 1 or Z(y.shape[0]) == ch))
        for j in range(ch):
            V.check('samples of channel %d' % j, All((0, B), lambda i: y.at(*((j, i) if ch > 1 else (i,))) == If(i < m, r.at(*((i, j) if ch > 1 else (i,))), 0)))


for _k in (1, 2):
    file_unit(_k)


@U.unit('audio file controls', claim='pausing keeps the position, rewinding and stopping go back to the start mark; positions and durations are frames over the rate of the file')
def controls(V):
    n, rate, pos, start = V.int('frames', 1), V.int('rate', 1), V.int('position', 0), V.int('start', 0)
    data = V.mkarr((n, 1), KReal().uf('d', 2), 'float')
    V.assume(And(n > 1, start < n, start <= pos, pos <= n))
    V.contracts['klang.audio.wavfile.load_wave'] = lambda V, path: (rate, data)
    f = V.expect_ok('new', 'klang.audio.sampling.AudioFile', ['file.wav'], dict(start=start))
    s = V.getattr(f, 'sample')
    at = lambda: Z(V.getattr(s, 'currentIndex'))
    V.check('duration', to_real(V.getattr(f, 'duration')) * to_real(rate) == to_real(n))
    V.setattr(s, 'currentIndex', pos)
    V.check('position', to_real(V.getattr(f, 'playingPosition')) * to_real(rate) == to_real(pos))
    for name, playing, place in (('play', True, pos), ('pause', False, pos), ('play', True, pos), ('rewind', True, start), ('stop', False, start)):
        V.expect_ok(name, V.getattr(f, name), [])
        V.check(name + ': playing', Z(V.truth(V.getattr(f, 'playing'))) == playing)
        V.check(name + ': position', at() == place)
    V.setattr(s, 'currentIndex', pos)
    V.expect_ok('stop', V.getattr(f, 'stop'), [])
    V.check('stop goes back', And(at() == start, Not(V.truth(V.getattr(f, 'playing')))))
    V.check('the sound stays', And(V.getattr(s, 'data') is data, Z(V.getattr(s, 'start')) == start, Z(V.getattr(s, 'stop')) == n))

"""C35: sounds keep their shape, rate and waveform in files."""
from pyvc import models
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['scipy.io.wavfile.write stores the samples it is given under the given path and rate, and the wave module reads what such a file holds (frames after each other, channels next to each other in a frame)',
               'floats are mathematical reals', 'sounds have frames x channels samples']
W = 'klang.audio.wavfile.'


def sound(V, channels=None):
    m, n = V.int('frames'), V.int('channels') if channels is None else channels
    V.assume(And(n >= 1, m > n))
    x = KReal().uf('x', 2)
    return V.mkarr((m, n), lambda i, j: x(i, j), 'float'), m, n


def writing(dt, top):
    @U.unit('writing ' + dt, claim='the file gets one sample for each sample of the sound, scaled by one positive factor that makes the loudest one full scale, less than a step off; the rate and path are those given; silence is refused', time_limit=200)
    def unit(V):
        a, m, n = sound(V)
        saved = []
        V.overlay['scipy.io.wavfile.write'] = Builtin('write', lambda V, filename, rate, data: saved.append((filename, rate, data)))
        path = Opaque('path')
        rate = V.int('rate', 1)
        args, kw = [a, path], {}
        if V.decide(V.bool('given rate')):
            args.append(rate)
        else:
            rate = V.module_attr(V.module('klang.config'), 'SAMPLING_RATE')
        if dt != 'int16' or V.decide(V.bool('given type')):
            kw['dtype'] = models.external(V, 'numpy', dt)
        i, j = V.int('i'), V.int('j')
        V.assume(And(0 <= i, i < m, 0 <= j, j < n))
        before = a.at(i, j)
        how, r = V.outcome(W + 'write_wave', args, kw)
        if how == 'raise':
            V.check('refused', r.cls.name == 'ValueError')
            V.check('only silence', before == 0)
            V.check('nothing was saved', not saved)
            return
        V.check('the sound itself stays', a.at(i, j) == before)
        V.check('one file', len(saved) == 1)
        f, rt, y = saved[0]
        V.check('its path', f is path)
        V.check('its rate', eq(V, rt, rate))
        V.check('sample type', y.dtype == dt)
        V.check('as many frames and channels', And(len(y.shape) == 2, Z(y.shape[0]) == m, Z(y.shape[1]) == n))
        k, l = V.int('k'), V.int('l')
        size = lambda p, q: If(a.at(p, q) < 0, -a.at(p, q), a.at(p, q))
        loud = size(k, l)
        peak = And(0 <= k, k < m, 0 <= l, l < n, V.formula(All([(0, m), (0, n)], lambda p, q: And(a.at(p, q) <= loud, -a.at(p, q) <= loud), pat=lambda p, q: [[a.at(p, q)]])))
        V.assume(peak)                                  # (k, l): a loudest sample
        V.check('not silent', loud > 0)
        e = z3.ToReal(y.at(i, j)) * loud - top * before
        V.check('scaled, less than one step off', And(-loud < e, e < loud))
        V.check('the loudest is full scale', z3.ToReal(y.at(k, l)) * loud == top * a.at(k, l))
    return unit


writing('int16', 2 ** 15 - 1)
writing('int32', 2 ** 31 - 1)


@U.unit('not silent', claim='every sound with a sample other than 0 is written')
def loud(V):
    a, m, n = sound(V)
    saved = []
    V.overlay['scipy.io.wavfile.write'] = Builtin('write', lambda V, filename, rate, data: saved.append(filename))
    i, j = V.int('i'), V.int('j')
    V.assume(And(0 <= i, i < m, 0 <= j, j < n, a.at(i, j) != 0))
    V.expect_ok('write_wave', W + 'write_wave', [a, Opaque('path')])
    V.check('saved', len(saved) == 1)


class Reader(models._HV):
    """wave.open(...): a file of frames with some channels, each sample of some bytes."""

    def __init__(self, V, frames, channels, width, rate, value):
        self.n, self.c, self.w, self.r, self.value, self.closed, self.raw = frames, channels, width, rate, value, 0, Opaque('frames')
        self.pos = 0

    def attr(self, V, name):
        fs = dict(getnframes=self.n, getnchannels=self.c, getsampwidth=self.w, getframerate=self.r)
        if name in fs:
            return Builtin(name, lambda V: fs[name])
        if name == 'readframes':
            return Builtin(name, self.read)
        if name == '__enter__':
            return Builtin(name, lambda V: self)
        if name == '__exit__':
            return Builtin(name, lambda V, *a: self.close())
        if name == 'close':
            return Builtin(name, lambda V: self.close())
        if name == 'getparams':
            return Builtin(name, lambda V: V.mkobj(V.builtin('object'), nchannels=self.c, sampwidth=self.w, framerate=self.r, nframes=self.n))
        raise Unsupported('wave attribute ' + name)

    def close(self):
        self.closed += 1

    def read(self, V, k):
        V.check('all frames are read', Or(eq(V, k, -1), eq(V, k, self.n)))
        V.check('once', self.pos == 0)
        self.pos = 1
        return self.raw


def reading(channels):
    @U.unit('reading%s' % (' mono' if channels == 1 else ' stereo' if channels == 2 else ''), claim='all frames of a 16 bit file are read in order, each channel its own column, every sample divided by 32768; the rate is that of the file; other widths are refused', time_limit=200)
    def unit(V):
        n, w, rate = V.int('frames', 0), V.int('width', 1), V.int('rate', 1)
        c = channels
        v = KInt().uf('v', 2)
        V.assume(All([(0, n), (0, c)], lambda i, j: And(-2 ** 15 <= v(i, j), v(i, j) < 2 ** 15), pat=lambda i, j: [[v(i, j)]]))
        rd = Reader(V, n, c, w, rate, v)
        path = Opaque('path')
        asked = []

        def opened(V, f, mode=None):
            V.check('path and mode', f is path and mode in (None, 'r', 'rb'))
            asked.append(f)
            return rd

        def frombuffer(V, data, dtype=None):
            V.check('the frames of the file', data is rd.raw)
            V.check('16 bit samples', models.parse_dtype(V, dtype) == 'int16')
            r = V.mkarr((c * n,), lambda i: v(Z(i) / c, Z(i) % c), 'int16')
            r.readonly = True
            return r
        V.overlay['wave.open'] = Builtin('open', opened)
        V.overlay['numpy.frombuffer'] = Builtin('frombuffer', frombuffer)
        how, r = V.outcome(W + 'load_wave', [path])
        V.check('opened and closed', len(asked) == 1 and rd.closed >= 1)
        if how == 'raise':
            V.check('refused', And(r.cls.name == 'ValueError', w != 2))
            return
        V.check('16 bit', w == 2)
        rt, data = V.seq_of(r).items
        V.check('rate', eq(V, rt, rate))
        V.check('frames and channels', And(len(data.shape) == 2, Z(data.shape[0]) == n, Z(data.shape[1]) == c, data.dtype == 'float'))
        i = V.int('i')
        V.assume(And(0 <= i, i < n))
        for j in range(c):
            V.check('sample of channel %d' % j, data.at(i, j) * 32768 == z3.ToReal(v(i, j)))
    return unit


reading(1)
reading(2)


@U.unit('normalising', claim='the result is the signal times one positive factor, with largest magnitude 1; silence is refused')
def normal(V):
    n = V.int('n', 1)
    x = KReal().uf('x', 1)
    a = V.mkarr((n,), lambda i: x(i), 'float')
    i = V.int('i')
    V.assume(And(0 <= i, i < n))
    how, r = V.outcome('klang.math.normalize_values', [a])
    if how == 'raise':
        V.check('refused', r.cls.name == 'ValueError')
        V.check('only silence', x(i) == 0)
        return
    V.check('length', Z(r.shape[0]) == n)
    V.check('between -1 and 1', And(-1 <= r.at(i), r.at(i) <= 1))
    k = V.int('k')
    V.assume(And(0 <= k, k < n, V.formula(All((0, n), lambda p: And(x(p) <= If(x(k) < 0, -x(k), x(k)), -x(p) <= If(x(k) < 0, -x(k), x(k))), pat=lambda p: x(p)))))
    loud = If(x(k) < 0, -x(k), x(k))
    V.check('not silent', loud > 0)
    V.check('one factor', r.at(i) * loud == x(i))
    V.check('largest magnitude 1', Or(r.at(k) == 1, r.at(k) == -1))
    V.check('the signal itself stays', a.at(i) == x(i))

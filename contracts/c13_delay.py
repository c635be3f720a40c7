"""C13: delay effect."""
from pyvc.spec import *
from contracts import c06_ring as ring

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['floats are mathematical reals', 'blocks have the configured block size; delay times of at least one block']
D = 'klang.audio.effects.Delay'
S = ring.S


def config(V):
    return V.lookup('klang.config.BUFFER_SIZE'), V.lookup('klang.config.SAMPLING_RATE'), V.getattr(V.lookup(D), 'MAX_TIME')


def line(V, d):
    r = V.getattr(d, 'ring')
    return r, Z(V.getattr(r, 'length')), Z(V.getattr(r, 'capacity'))


def times(V):
    """A delay time in seconds or as note value, and its duration (note values at the default tempo and metre)."""
    if V.decide(V.bool('note value')):
        num, den = V.int('num'), V.int('den')
        V.assume(And(num >= 1, den >= 1))
        f = FracV(num, den)
        return f, to_real(V.expect_ok('note_duration', 'klang.music.tempo.note_duration', [f]))
    t = V.real('time')
    return t, t


@U.unit('construction', claim='every delay time up to the maximum is accepted, given in seconds or as a note value, and yields a silent line of that many whole samples; longer ones are refused')
def construct(V):
    B, SR, top = config(V)
    time, seconds = times(V)
    V.assume(seconds * SR >= B)
    fb, mix = V.real('feedback'), V.real('mix')
    res = V.outcome(D, [time, fb, mix])
    if res[0] == 'raise':
        V.check('only ValueError is raised', res[1].cls.name == 'ValueError')
        V.check('refused only beyond the maximum', seconds > to_real(top))
        return
    d = res[1]
    V.check('accepted only up to the maximum', seconds <= to_real(top))
    r, L, C = line(V, d)
    V.check('delay in whole samples', And(z3.ToReal(L) <= seconds * SR, seconds * SR < z3.ToReal(L) + 1))
    ring.silent(V)
    V.check('line is at least one block and fits', And(L >= B, L <= C))
    for name, f in ring.invariant(V, r, L, C, Z(B), Z(0), None):
        V.check(name, f)
    V.check('settings are kept', And(to_real(V.getattr(d, 'feedback')) == fb, to_real(V.getattr(d, 'drywet')) == mix))


def update_unit(multi):
    @U.unit('update, %s' % ('any number of channels' if multi else 'mono'), claim='the output is (1-mix)*input + mix*w, w stored one delay earlier; input + feedback*w is stored; several channels are averaged', time_limit=200)
    def update(V):
        B, SR, top = config(V)
        time = V.real('time')
        V.assume(And(time * SR >= B, time <= to_real(top)))
        d = V.expect_ok('new', D, [time, V.real('feedback0'), V.real('mix0')])
        r, L, C = line(V, d)
        t, p = V.int('t'), V.int('pos')
        V.assume(And(t >= 0, L >= B, L <= C))
        data = V.mkarr((C + B,), KReal().uf('data', 1), 'float')
        V.setattr(r, 'data', data)
        V.setattr(r, 'pos', p)
        for _, f in ring.invariant(V, r, L, C, Z(B), t, None):
            V.assume(f)
        fb, mix = V.real('feedback'), V.real('mix')
        V.setattr(d, 'feedback', fb)
        V.setattr(d, 'drywet', mix)
        k = V.int('channels')
        V.assume(k >= 1)
        x = V.mkarr((k, B) if multi else (B,), KReal().uf('x', 2 if multi else 1), 'float')
        before = x.storage.get
        total = models.line_sums(V, before, k, B) if multi else None
        inp = (lambda i: total(k, i) / z3.ToReal(k)) if multi else (lambda i: before(i))
        V.assume(All((t, t + B), lambda i: S(i, 0) == inp(i - t) + fb * S(i - L, 0), pat=lambda i: S(i, 0)))
        V.expect_ok('set input', V.getattr(V.getattr(d, 'input'), 'set_value'), [x])
        V.expect_ok('update', V.getattr(d, 'update'), [])
        y = V.getattr(V.getattr(d, 'output'), 'value')
        V.check('mono block', isinstance(y, Arr) and len(y.shape) == 1)
        V.check('block length', Z(y.shape[0]) == B)
        V.check('mix of input and delayed signal', All((0, B), lambda i: y.at(i) == (1 - mix) * inp(i) + mix * S(t - L + i, 0), pat=lambda i: y.at(i)))
        V.check('input is left unchanged', x.storage.get is before)
        V.check('output is not part of the line', y.storage is not V.getattr(r, 'data').storage)
        for name, f in ring.invariant(V, r, L, C, Z(B), t + B, None):
            V.check(name, f)


update_unit(False)
update_unit(True)

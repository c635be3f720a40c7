"""C08: envelopes.

The C type is executed from clang's AST of the current _envelope.c (pyvc/cfront.py).  Object invariant INV: the curve
coefficients lie in [0, 1) and the base values belong to them; every function is checked to keep it.  A sample is a
function of (stage, value) of the object; ST(t), VA(t) is the history of stages and values.
"""
import ast

from pyvc.spec import *
from pyvc.cfront import C, PyV, BAD, TypeObj
from pyvc.ops import simp

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['parameters are finite reals, the sampling interval is positive, sustain given to the constructor lies in [0, 1]',
               'doubles as reals: a curve that is flat within rounding may reach its end late',
               'the C compiler and the Python and numpy C API behave as specified in pyvc/cfront.py',
               'the envelope blocks are checked over the interface of the compiled type; the Python fallback in envelope.py is out of scope',
               'message queues deliver as in C03']
EN = 'klang.audio.envelopes.'
STAGES = ('OFF', 'ATTACKING', 'DECAYING', 'SUSTAINING', 'RELEASING')
LO, HI = z3.RealVal('1e-9'), z3.RealVal('1e9')
R, I = z3.RealSort(), z3.IntSort()


def stages(c):
    if not all(s in c.file.enumnames for s in STAGES):
        raise Unsupported('stages of the envelope')
    return [c.file.enumnames[s] for s in STAGES]


CURVES = (('attack', lambda f, o: 1 + o), ('decay', lambda f, o: Z(f['sustain']) - o), ('release', lambda f, o: -o))


def params(f):
    o, s = to_real(f['overshoot']), to_real(f['sustain'])
    return [('overshoot has headroom', And(LO <= o, o <= HI)), ('sustain level', And(0 <= s, s <= 1)), ('sampling interval', to_real(f['dt']) > 0)]


def curves(f):
    o, out = to_real(f['overshoot']), []
    for name, target in CURVES:
        k = to_real(f[name + 'Coef'])
        out.append(('%s coefficient' % name, And(0 <= k, k < 1)))
        out.append(('%s base value' % name, to_real(f[name + 'Base']) == target(f, o) * (1 - k)))
    return out


def position(c, f):
    st = stages(c)
    return [('value in range', And(0 <= to_real(f['value']), to_real(f['value']) <= 1)), ('known stage', Or(*[Z(f['stage']) == s for s in st]))]


def invariant(c, f):
    return params(f) + curves(f) + position(c, f)


def envelope(c):
    names = {f for f, _, _ in c.file.records['Envelope']} if 'Envelope' in c.file.records else set()
    if not {'attack', 'decay', 'sustain', 'release', 'dt', 'overshoot', 'retrigger', 'loop', 'stage', 'value', 'enabled', 'attackCoef', 'attackBase', 'decayCoef',
            'decayBase', 'releaseCoef', 'releaseBase'} <= names:
        raise Unsupported('fields of the envelope')
    o = c.struct('Envelope')
    for _, f in invariant(c, o.fields):
        c.V.assume(f)
    return o


def unchanged(c, o, before, but=()):
    for k, v in before.items():
        if k not in but:
            w = o.fields[k]
            c.V.check('%s is left alone' % k, v is w or simp(Z(v) == Z(w)))


def number(c, name):
    v = c.V.real(name)
    return v, c.new('number', v, True)


def references(c, *results):
    for p in c.py:
        if p in results:
            c.V.check('the result is handed over', p.owned == 1)
        else:
            c.V.check('no reference is kept', p.owned == 0)


def compiled(V):
    c = C(V, '_envelope')
    V.ghost['c'] = c
    return c


# ---- parameters

def setter(name):
    def body(V):
        c = compiled(V)
        o = envelope(c)
        before = dict(o.fields)
        v, p = number(c, 'new value')
        rc = c.call(c.file.entry('Envelope', 'set:' + name), o, p, None)
        valid = And(v >= 0, v <= 1) if name == 'sustain' else v >= 0
        if V.decide(simp(Z(rc) == 0)):
            V.check('no exception when accepted', c.error is None)
            V.check('only sensible values are accepted', valid)
            V.check('the value is stored', to_real(o.fields[name]) == (If(v < LO, LO, If(v > HI, HI, v)) if name == 'overshoot' else v))
            for label, f in invariant(c, o.fields):
                V.check('afterwards: ' + label, f)
            unchanged(c, o, before, (name,) + tuple(n + x for n, _ in CURVES for x in ('Coef', 'Base')))
            # curves that do not depend on the value stay as they were
            g = c.call(c.file.entry('Envelope', 'get:' + name), o, None)
            V.check('the attribute shows it', And(c.error is None, isinstance(g, PyV) and simp(to_real(g.value) == to_real(o.fields[name]))))
            references(c, g)
        else:
            V.check('a refusal sets an exception', And(Z(rc) == -1, c.error is not None))
            unchanged(c, o, before)
            V.check('only improper values are refused', Or(Not(valid), c.conversion_failed), assume_after=False)
            references(c)
    return body


for _n in ('attack', 'decay', 'sustain', 'release', 'overshoot'):
    U.unit('compiled: set %s' % _n, claim='setting %s keeps the invariant, the stage and the level, or refuses the value and changes nothing' % _n, time_limit=120)(setter(_n))


@U.unit('compiled: new envelope', claim='a new envelope is off at level 0 with the given settings; initialising again keeps stage, level and gate', time_limit=200)
def new(V):
    c = compiled(V)
    again = V.decide(V.bool('initialised again'))
    vals = {n: V.real(n) for n in ('attack', 'decay', 'sustain', 'release', 'dt')}
    V.assume(And(vals['sustain'] >= 0, vals['sustain'] <= 1, vals['dt'] > 0))
    more = {}
    if V.decide(V.bool('overshoot given')):
        more['overshoot'] = V.real('overshoot')
    if V.decide(V.bool('flags given')):
        more['retrigger'], more['loop'] = V.bool('retrigger'), V.bool('loop')
    if 'overshoot' in more and V.decide(V.bool('positional')) or not more and V.decide(V.bool('positional')):
        c.given = (list(vals.values()) + [more[k] for k in ('overshoot', 'retrigger', 'loop') if k in more], {})
    else:
        c.given = ([], dict(vals, **more))
    if again:
        o = envelope(c)
    else:
        o = c.call(c.file.entry('Envelope', 'tp_new'), TypeObj(c, 'Envelope'), None, None)
        if o is None:
            V.check('a refusal sets an exception', c.error is not None)
            return
    before = dict(o.fields)
    rc = c.call(c.file.entry('Envelope', 'tp_init'), o, None, None)
    V.check('accepted', And(Z(rc) == 0, c.error is None))
    for k, v in vals.items():
        V.check('%s is stored' % k, to_real(o.fields[k]) == v)
    if 'overshoot' in more:
        v = more['overshoot']
        V.check('overshoot is stored', to_real(o.fields['overshoot']) == If(v < LO, LO, If(v > HI, HI, v)))
    elif not again:
        V.check('default overshoot', to_real(o.fields['overshoot']) == z3.RealVal('1/1000'))
    for k in ('retrigger', 'loop'):
        V.check(k + ' flag', iff(c.bool(o.fields[k]), more[k] if k in more else c.bool(before[k]) if again else False))
    for label, f in invariant(c, o.fields):
        V.check('afterwards: ' + label, f)
    unchanged(c, o, before, ('attack', 'decay', 'sustain', 'release', 'dt', 'overshoot', 'retrigger', 'loop') + tuple(n + x for n, _ in CURVES for x in ('Coef', 'Base')))
    if not again:
        OFF = stages(c)[0]
        V.check('off', Z(o.fields['stage']) == OFF)
        V.check('level 0', to_real(o.fields['value']) == 0)
        V.check('no gate', Not(c.bool(o.fields['enabled'])))
        c.call(c.file.entry('Envelope', 'tp_dealloc'), o)
        V.check('the object is released', o.freed)


# ---- gate, active

@U.unit('compiled: gate', claim='gate-on starts an attack from the current level when off, releasing or retriggerable; gate-off starts a release from attack, decay and sustain')
def gate(V):
    c = compiled(V)
    OFF, ATT, DEC, SUS, REL = stages(c)
    o = envelope(c)
    before = dict(o.fields)
    on = V.bool('on')
    r = c.call(c.file.entry('Envelope', 'gate'), o, c.new('trigger', on, True))
    V.check('no exception', c.error is None)
    s, s2 = Z(before['stage']), Z(o.fields['stage'])
    start = Or(c.bool(before['retrigger']), s == OFF, s == REL)
    V.check('gate-on', Implies(on, s2 == If(start, ATT, s)))
    V.check('gate-off', Implies(Not(on), s2 == If(Or(s == ATT, s == DEC, s == SUS), REL, s)))
    V.check('the gate is remembered', iff(c.bool(o.fields['enabled']), on))
    unchanged(c, o, before, ('stage', 'enabled'))
    from pyvc.cfront import Const
    V.check('returns None', isinstance(r, Const) or isinstance(r, PyV))


@U.unit('compiled: active', claim='an envelope is active unless it is off')
def active(V):
    c = compiled(V)
    OFF = stages(c)[0]
    o = envelope(c)
    before = dict(o.fields)
    r = c.call(c.file.entry('Envelope', 'get:active'), o, None)
    V.check('active', iff(truth_of(c, r), Z(before['stage']) != OFF))
    unchanged(c, o, before)


def truth_of(c, r):
    n = getattr(r, 'name', None)
    if n in ('_Py_TrueStruct', '_Py_FalseStruct'):
        return n == '_Py_TrueStruct'
    if isinstance(r, PyV) and r.value is not None:
        return c.bool(r.value)
    raise Unsupported('truth value returned by C')


# ---- samples

def steps(V, c, f, s, v, s2, v2):
    """The rules of one sample: from stage s and level v to stage s2 and level v2."""
    OFF, ATT, DEC, SUS, REL = stages(c)
    o, sus, loop, gated = to_real(f['overshoot']), to_real(f['sustain']), c.bool(f['loop']), c.bool(f['enabled'])
    pace = lambda n: (1 - to_real(f[n + 'Coef'])) * o
    return [('samples lie between 0 and 1', And(0 <= v2, v2 <= 1)),
            ('off: 0 and stays off', Implies(s == OFF, And(v2 == 0, s2 == OFF))),
            ('attack: rises towards 1', Implies(And(s == ATT, s2 == ATT), And(v2 >= v + pace('attack'), v2 <= 1))),
            ('attack: ends at 1 with the decay', Implies(And(s == ATT, s2 != ATT), And(v2 == 1, s2 == DEC))),
            ('decay: falls towards the sustain level', Implies(And(s == DEC, s2 == DEC), And(v2 <= v - pace_while_above(v, sus, pace('decay')), v2 >= sus))),
            ('decay: ends at the sustain level', Implies(And(s == DEC, s2 != DEC), And(v2 == sus, s2 == If(loop, REL, SUS)))),
            ('sustain: holds the level', Implies(s == SUS, And(v2 == sus, s2 == SUS))),
            ('release: falls towards 0', Implies(And(s == REL, s2 == REL), And(v2 <= v - pace('release'), v2 >= 0))),
            ('release: ends at 0, off or looped', Implies(And(s == REL, s2 != REL), And(v2 == 0, s2 == If(And(loop, gated), ATT, OFF))))]


def pace_while_above(v, sus, pace):
    return If(v >= sus, pace, 0)


@U.unit('compiled: one sample', claim='one sample follows the stage machine: in range, rising in the attack, falling in decay and release by a fixed pace at least, holding the sustain level, 0 when off',
        time_limit=200)
def one(V):
    c = compiled(V)
    o = envelope(c)
    before = dict(o.fields)
    if 'Envelope_single_sample' not in c.file.functions:
        raise Unsupported('no function for one sample')
    y = c.call('Envelope_single_sample', o)
    s, v, s2, v2 = Z(before['stage']), to_real(before['value']), Z(o.fields['stage']), to_real(o.fields['value'])
    V.check('the sample is the level', to_real(y) == v2)
    for label, f in steps(V, c, before, s, v, s2, v2):
        V.check(label, f, assume_after=False)
    for label, f in invariant(c, o.fields):
        V.check('afterwards: ' + label, f)
    unchanged(c, o, before, ('stage', 'value'))


@U.unit('compiled: sample', claim='sample(n) appends n samples to the history of (stage, level), so that any partition gives the same samples; all of them follow the stage machine',
        time_limit=200)
def sample(V):
    c = compiled(V)
    o = envelope(c)
    f0 = dict(o.fields)
    if 'Envelope_single_sample' not in c.file.functions:
        raise Unsupported('no function for one sample')
    NV, NS = z3.Function('NEXT_VALUE', I, R, R), z3.Function('NEXT_STAGE', I, R, I)
    ST, VA = z3.Function('STAGE', I, I), z3.Function('LEVEL', I, R)
    t = V.int('t')
    V.assume(And(t >= 0, Z(o.fields['stage']) == ST(t), to_real(o.fields['value']) == VA(t)))
    V.assume(All((None, None), lambda k: And(VA(k + 1) == NV(ST(k), VA(k)), ST(k + 1) == NS(ST(k), VA(k))), pat=lambda k: NV(ST(k), VA(k))))

    def single(V, e):
        V.check('samples of this envelope', e is o)
        s, v = Z(o.fields['stage']), to_real(o.fields['value'])
        for label, f in position(c, o.fields):
            V.check('one sample: ' + label, f, assume_after=False)
        for k, w in f0.items():
            if k not in ('stage', 'value') and o.fields[k] is not w:
                V.check('one sample: %s is as before' % k, simp(Z(o.fields[k]) == Z(w)))
        s2, v2 = NS(s, v), NV(s, v)
        for _, f in steps(V, c, f0, s, v, s2, v2):
            V.assume(f)
        for fld, x in (('stage', s2), ('value', v2)):
            V.setfield(o, fld, x)
        for _, f in position(c, o.fields):
            V.assume(f)
        return v2
    V.contracts['c._envelope.Envelope_single_sample'] = single

    def inv(V, L):
        out = [p for p in c.py if getattr(p, 'mem', None) is not None and p.mem.what == 'output array']
        if len(out) != 1:
            raise Unsupported('output array')
        y, k = out[0].mem.arr, Z(L.k)
        return [('rounds', And(0 <= k, k <= n))] + position(c, o.fields) + \
            [('the state is that of the history', And(Z(o.fields['stage']) == ST(t + k), to_real(o.fields['value']) == VA(t + k))),
             ('samples so far are those of the history', All((0, k), lambda j: y.at(j) == VA(t + j + 1), pat=lambda j: y.at(j))),
             ('samples so far are in range', All((0, k), lambda j: And(0 <= y.at(j), y.at(j) <= 1), pat=lambda j: y.at(j)))]
    for fn in c.file.functions:
        for i in range(3):
            V.loops['c._envelope.%s#%d' % (fn, i)] = LoopSpec(inv)
    n = V.int('n')
    V.assume(And(n >= 0, n < 2 ** 62))
    r = c.call(c.file.entry('Envelope', 'sample'), o, c.new('number of samples', n, True))
    if r is None:
        V.check('a refusal sets an exception', c.error is not None)
        unchanged(c, o, f0)
        references(c)
        return
    V.check('no exception', c.error is None)
    if not isinstance(r, PyV) or getattr(r, 'mem', None) is None:
        V.check('the result is an array', False)
    V.check('one-dimensional', const_int(r.nd) == 1)
    V.check('as many samples', Z(r.n) == n)
    V.check('the samples are those of the history', All((0, n), lambda j: r.mem.arr.at(j) == VA(t + j + 1), pat=lambda j: r.mem.arr.at(j)))
    V.check('the samples are in range', All((0, n), lambda j: And(0 <= r.mem.arr.at(j), r.mem.arr.at(j) <= 1), pat=lambda j: r.mem.arr.at(j)))
    V.check('the state is that of the history', And(Z(o.fields['stage']) == ST(t + n), to_real(o.fields['value']) == VA(t + n)))
    unchanged(c, o, f0, ('stage', 'value'))
    references(c, r)


# ---- envelope blocks over the interface of the compiled type

STUB = '''
class Envelope:
    def __init__(self, attack, decay, sustain, release, dt, overshoot=None, retrigger=None, loop=None):
        self.attack, self.decay, self.sustain, self.release, self.dt = attack, decay, sustain, release, dt
        self.overshoot, self.retrigger, self.loop = overshoot, retrigger, loop
        self.fresh = True
    def gate(self, trigger):
        pass
    def sample(self, bufferSize):
        pass
'''


def interface(V):
    if 'Envelope' not in V.ghost:
        tree = ast.parse(STUB)
        m = V.module('klang.audio.helpers')
        V.ghost['Envelope'] = V.define(tree.body[0], m.env, 'interface')
    return V.ghost['Envelope']


OVERLAY = {EN + 'Envelope': interface}
def note_kind(V):
    return KNT(V.lookup('klang.messages.Note'), [KReal()] * 3)


def valid(x):
    p, v, f = x.vals
    return And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0)


def on(x):
    return to_real(x.vals[1]) > 0


ARGS = dict(ADSR=('attack', 'decay', 'sustain', 'release'), AR=('attack', 'release'), D=('decay',), R=('release',))
FIXED = dict(ADSR={}, AR=dict(decay=0, sustain=1), D=dict(attack=0, sustain=0), R=dict(attack=0, decay=0, sustain=1))
DT = z3.RealVal(1) / 44100


def block_unit(cls):
    def settings(V, e, vals, o, rt, loop, tag):
        want = dict(vals, **FIXED[cls])
        if cls == 'D':
            want['release'] = vals['decay']
        for k in ('attack', 'decay', 'sustain', 'release'):
            V.check('%s: %s' % (tag, k), to_real(V.getattr(e, k)) == to_real(want[k]))
        V.check(tag + ': sampling interval', to_real(V.getattr(e, 'dt')) == DT)
        V.check(tag + ': overshoot', to_real(V.getattr(e, 'overshoot')) == o)
        V.check(tag + ': flags', And(iff(V.truth(V.getattr(e, 'retrigger')), rt), iff(V.truth(V.getattr(e, 'loop')), loop)))
        V.check(tag + ': one output, one input', len(V.getattr(e, 'outputs').seq.items) == 1 and len(V.getattr(e, 'inputs').seq.items) == 1)

    def body(V):
        vals = {k: V.real(k) for k in ARGS[cls]}
        kw, o, rt, loop = {}, z3.RealVal('1/1000'), False, False
        if V.decide(V.bool('settings given')):
            o, rt, loop = V.real('overshoot'), V.bool('retrigger'), V.bool('loop')
            kw = dict(overshoot=o, retrigger=rt, loop=loop)
        e = V.expect_ok('new', EN + cls, list(vals.values()), kw)
        settings(V, e, vals, o, rt, loop, 'new')
        d = V.expect_ok('copy', V.getattr(e, '__deepcopy__'), [V.mkdict([])])
        V.check('the copy is a new envelope', d is not e)
        V.check('the copy has the same type', d.cls is e.cls)
        settings(V, d, vals, o, rt, loop, 'copy')
        settings(V, e, vals, o, rt, loop, 'original')
    return body


for _c in ARGS:
    U.unit('block: %s' % _c, claim='%s passes its settings to the envelope; a copy is a new envelope with the same settings' % _c, overlay=OVERLAY)(block_unit(_c))


@U.unit('block: update', claim='an update gates the envelope with its notes in order, then puts out one block of samples', overlay=OVERLAY)
def update(V):
    e = V.expect_ok('new', EN + 'ADSR', [V.real('a'), V.real('d'), V.real('s'), V.real('r')])
    m = V.list('messages', note_kind(V)).seq
    V.assume(All((0, m.n), lambda i: valid(m[i]), pat=lambda i: m[i].vals[1]))
    message_ports(V, m, note_kind(V))
    log, y, n = Log(V, KBool()), V.farray('samples', 256), Z(m.n)
    asked = []

    def gate(V, a):
        V.check('gates come before the samples', not asked)
        log.send(V, V.truth(a['trigger']))

    def sample(V, a):
        V.check('one block of samples, once', len(asked) == 0 and simp(Z(a['bufferSize']) == 256))
        V.check('all notes are passed on before', log.n == n)
        asked.append(a)
        return y
    V.contracts['interface.Envelope.gate'], V.contracts['interface.Envelope.sample'] = gate, sample
    V.loops[EN + 'EnvelopeBase.update#0'] = LoopSpec(lambda V, L: [('one gate per note', log.n == L.k),
                                                    ('gates follow the notes', All((0, L.k), lambda i: iff(log[i], on(m[i])), pat=lambda i: log[i]))])
    V.expect_ok('update', V.getattr(e, 'update'), [])
    V.check('one gate per note', log.n == n)
    V.check('gates follow the notes', All((0, n), lambda i: iff(log[i], on(m[i])), pat=lambda i: log[i]))
    V.check('the block is sampled', len(asked) == 1)
    V.check('the samples are put out', V.getattr(V.getattr(e, 'output'), 'value') is y)
    lvl = V.getattr(e, 'current_level')
    V.check('the current level is the last sample', to_real(lvl) == to_real(y.at(255)))


@U.unit('compiled: flags', claim='the retrigger and loop attributes of the compiled envelope read and write the flags its state machine uses')
def flag_attributes(V):
    c = C(V, '_envelope')
    for name in ('retrigger', 'loop'):
        row = c.file.member('Envelope', name)
        if row is None:
            raise Unsupported('%s is no plain member' % name)
        typ, field, flags = row
        V.check(name + ': names its field', field == name)
        V.check(name + ': member type fits the field', (typ, c.file.sizeof(c.file.field('Envelope', field))) == (14, 1))
        V.check(name + ': writable', flags == 0)

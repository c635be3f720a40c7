"""C18: notes are always valid and survive serialisation."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['json.loads(json.dumps(d)) equals d for a dict of text keys and numbers (external contract; CPython/PyPy write the shortest text that reads back equal)',
               'floats are mathematical reals: NaN is not modelled by the proof (the bounded executions include it)',
               'the tuning frequency of a pitch is positive (C20)']
NOTE = 'klang.messages.Note'
PF = z3.Function('PITCH_FREQUENCY', z3.IntSort(), z3.RealSort(), z3.RealSort())


def tuning(V, which=0):
    """pitch_2_frequency of the tuning by its contract: some positive number depending on tuning and pitch."""
    def p2f(V, a):
        t = a['self']
        V.ghost['asked'] = (t, a['pitch'])
        r = PF(z3.IntVal(id_of(V, t)), to_real(a['pitch']))
        V.axiom(r > 0)
        return r
    V.contracts['klang.music.tunings.Temperament.pitch_2_frequency'] = p2f


def id_of(V, t):
    ids = V.ghost.setdefault('tunings', [])
    for i, x in enumerate(ids):
        if x is t:
            return i
    ids.append(t)
    return len(ids) - 1


def kinds(V, name):
    return V.int(name) if V.decide(V.bool(name + '_is_int')) else V.real(name + '_r')


def fields(V, n):
    return [V.getattr(n, k) for k in ('pitch', 'velocity', 'frequency')]


def same_note(V, a, b):
    return And(*[eq(V, x, y) for x, y in zip(fields(V, a), fields(V, b))])


def is_note(V, n):
    return isinstance(n, NT) and n.cls is V.lookup(NOTE) and len(n.vals) == 3


def valid(V, n):
    p, v, f = [to_real(x) for x in fields(V, n)]
    return And(p >= 0, p < 128, v >= 0, v <= 1, f >= 0)


def any_note(V):
    """An arbitrary existing note (built by the constructor)."""
    p, v, f = kinds(V, 'pitch'), kinds(V, 'velocity'), kinds(V, 'frequency')
    V.assume(And(to_real(p) >= 0, to_real(p) < 128, to_real(v) >= 0, to_real(v) <= 1, to_real(f) >= 0))
    return V.expect_ok('Note', NOTE, [p, v, f])


@U.unit('construction', claim='a note with these pitch, velocity and frequency is built exactly when pitch in [0, 128), velocity in [0, 1], frequency >= 0; otherwise ValueError', time_limit=200)
def construct(V):
    p, v, f = kinds(V, 'pitch'), kinds(V, 'velocity'), kinds(V, 'frequency')
    good = And(to_real(p) >= 0, to_real(p) < 128, to_real(v) >= 0, to_real(v) <= 1, to_real(f) >= 0)
    st, r = V.outcome(NOTE, [p, v, f])
    if st == 'ok':
        V.check('only valid notes exist', good)
        V.check('is a note', is_note(V, r))
        V.check('fields as given', And(*[eq(V, x, y) for x, y in zip(fields(V, r), (p, v, f))]))
    else:
        V.check('refused with ValueError', r.cls.name == 'ValueError')
        V.check('only invalid notes are refused', Not(good))


@U.unit('default frequency', claim='without frequency the note gets the pitch frequency of the given tuning, or of equal temperament', time_limit=200)
def default(V):
    tuning(V)
    p, v = V.int('pitch'), kinds(V, 'velocity')
    eqt = V.module_attr(V.module('klang.music.tunings'), 'EQUAL_TEMPERAMENT')
    other = V.mkobj('klang.music.tunings.Temperament')
    given = V.decide(V.bool('given'))
    good = And(to_real(p) >= 0, to_real(p) < 128, to_real(v) >= 0, to_real(v) <= 1)
    st, r = V.outcome(NOTE, [p, v], dict(temperament=other) if given else {})
    if st == 'ok':
        V.check('only valid notes exist', good)
        V.check('is a note', is_note(V, r))
        q, w, f = fields(V, r)
        V.check('pitch and velocity as given', And(eq(V, q, p), eq(V, w, v)))
        V.check('valid', valid(V, r))
        V.check('frequency of the tuning', f == PF(z3.IntVal(id_of(V, other if given else eqt)), to_real(p)))
    else:
        V.check('refused with ValueError', r.cls.name == 'ValueError')
        V.check('only invalid notes are refused', Not(good))


@U.unit('default velocity', claim='full velocity unless given')
def velocity(V):
    tuning(V)
    p = V.int('pitch', 0, 127)
    r = V.expect_ok('Note', NOTE, [p])
    V.check('full velocity', eq(V, V.getattr(r, 'velocity'), 1))


@U.unit('on, off and silence', claim='on exactly for positive velocity, off exactly for zero; silence keeps pitch and frequency, has velocity zero and is a valid note-off', time_limit=200)
def onoff(V):
    n = any_note(V)
    before = fields(V, n)
    v = to_real(before[1])
    on, off = V.truth(V.getattr(n, 'on')), V.truth(V.getattr(n, 'off'))
    V.check('on exactly for positive velocity', iff(on, v > 0))
    V.check('off exactly for zero velocity', iff(off, v == 0))
    s = V.expect_ok('silence', V.getattr(n, 'silence'), [])
    V.check('a note', is_note(V, s))
    a, b = fields(V, s), before
    V.check('same pitch and frequency', And(eq(V, a[0], b[0]), eq(V, a[2], b[2])))
    V.check('velocity zero', eq(V, a[1], 0))
    V.check('valid', valid(V, s))
    V.check('note-off', And(V.truth(V.getattr(s, 'off')), Not(V.truth(V.getattr(s, 'on')))))
    V.check('the note itself is unchanged', And(*[eq(V, x, y) for x, y in zip(fields(V, n), before)]))


@U.unit('dictionary and text form', claim='from_dict(to_dict(n)) and from_json(to_json(n)) are notes equal to n; converting twice works and n is unchanged', time_limit=200)
def codec(V):
    n = any_note(V)
    for _ in range(2):
        d = V.expect_ok('to_dict', V.getattr(n, 'to_dict'), [])
        m = V.expect_ok('from_dict', V.getattr(V.lookup(NOTE), 'from_dict'), [d])
        V.check('dictionary form: a note', is_note(V, m))
        V.check('dictionary form: equal', same_note(V, m, n))
        t = V.expect_ok('to_json', V.getattr(n, 'to_json'), [])
        k = V.expect_ok('from_json', V.getattr(V.lookup(NOTE), 'from_json'), [t])
        V.check('text form: a note', is_note(V, k))
        V.check('text form: equal', same_note(V, k, n))
    s = V.expect_ok('silence', V.getattr(n, 'silence'), [])
    t = V.expect_ok('to_json', V.getattr(s, 'to_json'), [])
    k = V.expect_ok('from_json', V.getattr(V.lookup(NOTE), 'from_json'), [t])
    V.check('silenced note round-trips', same_note(V, k, s))


@U.unit('invalid dictionaries', claim='a dictionary of another type or with invalid fields is refused')
def invalid(V):
    n = any_note(V)
    d = V.expect_ok('to_dict', V.getattr(n, 'to_dict'), [])
    which = V.int('field', 0, 2)
    key = 'pitch' if V.decide(which == 0) else 'velocity' if V.decide(which == 1) else 'frequency'
    x = V.real('bad')
    V.assume({'pitch': Or(x < 0, x >= 128), 'velocity': Or(x < 0, x > 1), 'frequency': x < 0}[key])
    V.setitem(d, key, x)
    st, r = V.outcome(V.getattr(V.lookup(NOTE), 'from_dict'), [d])
    V.check('invalid %s is refused' % key, st == 'raise' and r.cls.name == 'ValueError')
    e = V.expect_ok('to_dict', V.getattr(n, 'to_dict'), [])
    V.setitem(e, 'type', 'Other')
    st, r = V.outcome(V.getattr(V.lookup(NOTE), 'from_dict'), [e])
    V.check('another type is refused', st == 'raise' and r.cls.name == 'ValueError')

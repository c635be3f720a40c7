"""C11: panning laws."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['floats are mathematical reals; sin, cos, sqrt, log10 and powers are uninterpreted functions with the textbook facts listed in trig(), power() and loglaw()']

FN = 'klang.audio.panning.panning_amplitudes'
MODES = ['linear', 'constant_power', 'mixture']
SIN, COS, LOG10, SQRT = UFS['sin'], UFS['cos'], UFS['log10'], UFS['sqrt']


def terms(V):
    return [t.arg(0) for t in apps(V, SIN)] + [t.arg(0) for t in apps(V, COS)]


def uniq(ts):
    out = {}
    for t in ts:
        out.setdefault(t.get_id(), t)
    return list(out.values())


def trig(V):
    """Facts about sin and cos on [0, pi/2] for the angles that occur."""
    pi = to_real(PI(V))
    ts = uniq(terms(V))
    for t in ts:
        inside = And(t >= 0, t <= pi / 2)
        V.axiom(imp(inside, And(SIN(t) >= 0, COS(t) >= 0, SIN(t) <= 1, COS(t) <= 1, SIN(t) * SIN(t) + COS(t) * COS(t) == 1)))
        V.axiom(imp(t == 0, And(SIN(t) == 0, COS(t) == 1)))
        V.axiom(imp(t == pi / 2, And(SIN(t) == 1, COS(t) == 0)))
        V.axiom(imp(inside, t > 0, SIN(t) > 0))
        V.axiom(imp(inside, t < pi / 2, COS(t) > 0))
        V.axiom(imp(inside, t < pi / 2, SIN(t) < 1))
        V.axiom(imp(inside, t > 0, COS(t) < 1))
    for i, t in enumerate(ts):
        for u in ts[i:]:
            both = And(t >= 0, t <= pi / 2, u >= 0, u <= pi / 2)
            V.axiom(imp(both, t <= u, And(SIN(t) <= SIN(u), COS(t) >= COS(u))))
            V.axiom(imp(both, u <= t, And(SIN(u) <= SIN(t), COS(u) >= COS(t))))
            V.axiom(imp(t + u == pi / 2, And(SIN(t) == COS(u), COS(t) == SIN(u))))


def power(V):
    """Powers with positive exponent are monotone in the base (instances for the powers that occur)."""
    ps = uniq(apps(V, RPOW))
    for p in ps:
        V.axiom(imp(p.arg(0) >= 0, p >= 0))
    for i, p in enumerate(ps):
        for q in ps[i + 1:]:
            for a, b in ((p, q), (q, p)):
                V.axiom(imp(a.arg(0) >= 0, a.arg(1) > 0, a.arg(1) == b.arg(1), a.arg(0) <= b.arg(0), a <= b))


def roots(V):
    rs = uniq(apps(V, SQRT))
    for i, p in enumerate(rs):
        V.axiom(imp(p.arg(0) <= 1, p.arg(0) >= 0, p <= 1))
        V.axiom(imp(p.arg(0) < 1, p.arg(0) >= 0, p < 1))
        V.axiom(imp(p.arg(0) > 0, p > 0))
        for q in rs[i + 1:]:
            for a, b in ((p, q), (q, p)):
                V.axiom(imp(a.arg(0) >= 0, a.arg(0) <= b.arg(0), a <= b))
                fa, fb = factors(a.arg(0)), factors(b.arg(0))
                if fa and fb:
                    # products of ordered non-negative factors are ordered
                    V.axiom(imp(fa[0] >= 0, fa[1] >= 0, fa[0] <= fb[0], fa[1] <= fb[1], a.arg(0) <= b.arg(0)))


def factors(t):
    if t.decl().kind() == z3.Z3_OP_MUL and t.num_args() >= 2:
        r = t.arg(0)
        for i in range(1, t.num_args() - 1):
            r = r * t.arg(i)
        return r, t.arg(t.num_args() - 1)


def loglaw(V):
    """log10 of powers, products and constants that occur."""
    for t in uniq(apps(V, LOG10)):
        x = t.arg(0)
        V.axiom(imp(x > 1, t > 0))
        V.axiom(imp(x > 0, x < 1, t < 0))


def facts(V):
    for _ in range(2):
        trig(V)
    roots(V)
    power(V)
    loglaw(V)


def amplitudes(V, level, mode, law):
    r = V.expect_ok('panning_amplitudes', FN, [level], dict(mode=mode, panLaw=law))
    V.check('two rows, one column', isinstance(r, Arr) and len(r.shape) == 2 and const_int(r.shape[0]) == 2 and const_int(r.shape[1]) == 1)
    return to_real(r.at(0, 0)), to_real(r.at(1, 0))


def make(mode, withlaw):
    name = '%s, %s' % (mode, 'any pan law' if withlaw else 'no pan law')

    @U.unit(name + ': range, ends, law', claim='amplitudes in [0, 1]; ends 0 and 1; levels beyond the ends act like the ends; sum / power law', time_limit=100)
    def one(V):
        level = V.real('level')
        law = V.real('law', None, 0) if withlaw else None
        l, r = amplitudes(V, level, mode, law)
        facts(V)
        V.check('left amplitude within [0, 1]', And(l >= 0, l <= 1))
        V.check('right amplitude within [0, 1]', And(r >= 0, r <= 1))
        V.check('from the left end on: only left', imp(level <= -1, And(l == 1, r == 0)))
        V.check('from the right end on: only right', imp(level >= 1, And(l == 0, r == 1)))
        if not withlaw and mode == 'linear':
            V.check('left plus right is one', l + r == 1)
        if not withlaw and mode == 'constant_power':
            V.check('left squared plus right squared is one', l * l + r * r == 1)

    @U.unit(name + ': symmetry and order', claim='negating the level swaps the sides; a larger level never raises left nor lowers right', time_limit=100)
    def two(V):
        a, b = V.real('a'), V.real('b')
        law = V.real('law', None, 0) if withlaw else None
        la, ra = amplitudes(V, a, mode, law)
        lb, rb = amplitudes(V, b, mode, law)
        facts(V)
        if V.decide(a <= b):
            V.check('a larger level never raises left', lb <= la)
            V.check('a larger level never lowers right', ra <= rb)
        V.check('negation swaps the sides', imp(b == -a, And(lb == ra, rb == la)))

    if withlaw:
        @U.unit(mode + ': centre', claim='the centre has left^2 + right^2 equal to the pan law in decibels (20 log10)', time_limit=100)
        def centre(V):
            law = V.real('law', None, 0)
            l, r = amplitudes(V, z3.RealVal(0), mode, law)
            facts(V)
            V.check('both sides equal', l == r)
            p = [t for t in apps(V, RPOW) if not t.eq(r)]
            base, alpha = (l.arg(0), l.arg(1)) if z3.is_app(l) and l.decl().eq(RPOW) else (l, z3.RealVal(1))
            V.check('amplitude is positive', l > 0)
            # log10 of a power and of a product
            V.axiom(imp(base > 0, LOG10(l) == alpha * LOG10(base)))
            V.axiom(LOG10(2 * l * l) == LOG10(z3.RealVal(2)) + 2 * LOG10(l))
            for t in uniq(apps(V, LOG10)):
                V.axiom(imp(t.arg(0) == base, t == LOG10(base)))
            V.check('centre amplitudes below one', And(base > 0, LOG10(base) < 0))
            V.check('decibels of the centre', 20 * LOG10(2 * l * l) == law)


for m in MODES:
    for w in (False, True):
        make(m, w)


@U.unit('rejected arguments', claim='unknown modes and positive pan laws are refused with an error')
def rejected(V):
    st, v = V.outcome(FN, [V.real('level')], dict(mode='other'))
    V.check('unknown mode is refused', st == 'raise' and v.cls.name == 'ValueError')
    st, v = V.outcome(FN, [V.real('level2')], dict(panLaw=V.real('law')))
    V.check('positive pan law is refused', st == 'raise' and v.cls.name == 'ValueError' if V.decide(z3.Real('law') > 0) else st == 'ok')


@U.unit('pan_signal', claim='each side is the signal times its amplitude; the signal is unchanged')
def pan_signal(V):
    n, level = V.int('n', 0), V.real('level')
    x = V.farray('x', n)
    law = V.real('law', None, 0)
    before = x.storage.get

    def amp(V, a):
        V.check('level, mode and pan law are passed on', And(eq(V, a['panLevel'], level), eq(V, a['mode'], 'mixture'), eq(V, a['panLaw'], law)))
        return V.mkarr((2, 1), lambda i, j: If(Z(i) == 0, z3.Real('l'), z3.Real('r')))
    V.contracts[FN] = amp
    y = V.expect_ok('pan_signal', 'klang.audio.panning.pan_signal', [x, level, 'mixture', law])
    V.check('two rows', len(y.shape) == 2 and const_int(y.shape[0]) == 2)
    V.check('as long as the signal', Z(y.shape[1]) == n)
    V.check('left', All((0, n), lambda i: eq(V, y.at(0, i), arith(V, 'mul', z3.Real('l'), x.at(i)))))
    V.check('right', All((0, n), lambda i: eq(V, y.at(1, i), arith(V, 'mul', z3.Real('r'), x.at(i)))))
    V.check('signal unchanged', x.storage.get is before)

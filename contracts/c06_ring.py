"""C06: delay line."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['sample values are arbitrary reals (dtype float)',
               'line length is not changed while running; reads ask for at most the block size']
R = 'klang.ring_buffer.RingBuffer'
S = z3.Function('WRITTEN', z3.IntSort(), z3.IntSort(), z3.RealSort())      # ghost: sample written at a time (and channel), 0 before time 0


def params(V):
    L, C, B = V.int('length'), V.int('capacity'), V.int('block')
    V.assume(And(1 <= B, B <= L, L <= C))
    return L, C, B


def cell(data, j, c):
    return data.at(j) if len(data.shape) == 1 else data.at(j, c)


def over(data, lo, hi, f):
    """f(j, channel) for every slot of the range."""
    pat = (lambda j: data.at(j)) if len(data.shape) == 1 else (lambda j, c: data.at(j, c))
    if len(data.shape) == 1:
        return All((lo, hi), lambda j: f(j, 0), pat=pat)
    return All([(lo, hi), (0, data.shape[1])], lambda j, c: f(j, c), pat=pat)


def age(p, L, j):
    """Slot j will be read after this many further samples."""
    return If(j >= p, j - p, j - p + L)


def invariant(V, r, L, C, B, t, nch):
    data, pos, length = V.getattr(r, 'data'), V.getattr(r, 'pos'), V.getattr(r, 'length')
    ok = isinstance(data, Arr) and len(data.shape) == (1 if nch is None else 2)
    if not ok:
        return [('storage', False)]
    return [('length', Z(length) == L), ('storage size', Z(data.shape[0]) == C + B), ('channels', True if nch is None else Z(data.shape[1]) == nch),
            ('position inside the line', And(0 <= Z(pos), Z(pos) < L)),
            ('slots hold the last samples', over(data, 0, L, lambda j, c: cell(data, j, c) == S(t - L + age(Z(pos), L, j), c))),
            ('mirror region', over(data, L, L + B, lambda j, c: cell(data, j, c) == S(t - L + age(Z(pos), L, j - L), c)))]


def silent(V):
    V.assume(All([(None, None), (None, None)], lambda t, c: Implies(t < 0, S(t, c) == 0), pat=lambda t, c: S(t, c)))


def arbitrary(V, nch):
    """A delay line in any state reachable after t samples."""
    L, C, B = params(V)
    r = V.expect_ok('new', R, [L, C, B], {} if nch is None else dict(nChannels=nch))
    t, p = V.int('t'), V.int('pos')
    V.assume(t >= 0)
    data = V.mkarr((C + B,) if nch is None else (C + B, nch), KReal().uf('data', 1 if nch is None else 2), 'float')
    V.setattr(r, 'data', data)
    V.setattr(r, 'pos', p)
    for _, f in invariant(V, r, L, C, B, t, nch):
        V.assume(f)
    return r, L, C, B, t


def channels(V):
    if V.decide(V.bool('multi channel')):
        n = V.int('channels')
        V.assume(n >= 2)
        return n
    return None


def block(V, nch, t, name='values', n=None):
    n = V.int('n') if n is None else n
    V.assume(n >= 0)
    if nch is None:
        x = V.mkarr((n,), KReal().uf(name, 1), 'float')
        if V.decide(V.bool('as list')):
            u = KReal().uf(name, 1)
            x = V.mklist(Seq(n, lambda i: u(i), None, KReal()))
            get = lambda i, c: u(i)
        else:
            get = lambda i, c, g=x.storage.get: g(i)
    else:
        x = V.mkarr((n, nch), KReal().uf(name + '2', 2), 'float')
        get = x.storage.get
    return x, n, get


def written(V, t, n, get, nch):
    """Ghost: these samples are written now."""
    if nch is None:
        V.assume(All((0, n), lambda i: S(t + i, 0) == get(i, 0), pat=lambda i: get(i, 0)))
        V.assume(All((t, t + n), lambda i: S(i, 0) == get(i - t, 0), pat=lambda i: S(i, 0)))
    else:
        V.assume(All([(t, t + n), (0, nch)], lambda i, c: S(i, c) == get(i - t, c), pat=lambda i, c: S(i, c)))


def delayed(V, label, y, n, t, L, nch):
    ok = isinstance(y, Arr) and len(y.shape) == (1 if nch is None else 2)
    V.check(label + ': shape', ok)
    V.check(label + ': as many samples', And(Z(y.shape[0]) == n, True if nch is None else Z(y.shape[1]) == nch))
    V.check(label + ': written one length earlier', over(y, 0, n, lambda i, c: cell(y, i, c) == S(t - L + i, c)))


@U.unit('new line', claim='a new line of any length, capacity, block size and channel number is silent')
def new(V):
    L, C, B = params(V)
    nch = channels(V)
    silent(V)
    kw = {} if nch is None else dict(nChannels=nch)
    if V.decide(V.bool('default capacity')):
        V.assume(C == L)
        r = V.expect_ok('new', R, [L], dict(bufferSize=B, **kw))
    else:
        r = V.expect_ok('new', R, [L, C, B], kw)
    for name, f in invariant(V, r, L, C, B, Z(0), nch):
        V.check(name, f)


@U.unit('read', claim='peek(n) and peek() give the samples written one line length before, for every n up to the block size')
def peek(V):
    nch = channels(V)
    r, L, C, B, t = arbitrary(V, nch)
    n = V.int('n')
    V.assume(And(0 <= n, n <= B))
    data = V.getattr(r, 'data')
    before = data.storage.get
    y = V.expect_ok('peek', V.getattr(r, 'peek'), [n])
    delayed(V, 'n samples', y, n, t, L, nch)
    y = V.expect_ok('peek', V.getattr(r, 'peek'), [])
    delayed(V, 'one block', y, B, t, L, nch)
    V.check('nothing is modified', V.getattr(r, 'data') is data and data.storage.get is before)
    for name, f in invariant(V, r, L, C, B, t, nch):
        V.check(name, f)


@U.unit('single write', claim='append stores one sample and keeps the rest of the line')
def append(V):
    nch = channels(V)
    r, L, C, B, t = arbitrary(V, nch)
    if nch is None:
        v = V.real('value')
        V.assume(S(t, 0) == v)
    else:
        v = V.mkarr((nch,), KReal().uf('value', 1), 'float')
        V.assume(All((0, nch), lambda c: S(t, c) == v.at(c), pat=lambda c: S(t, c)))
    V.expect_ok('append', V.getattr(r, 'append'), [v])
    for name, f in invariant(V, r, L, C, B, t + 1, nch):
        V.check(name, f)


@U.unit('block write', claim='extend stores a block of any size up to the block size, in order, and refuses larger ones without change', time_limit=300)
def extend(V):
    nch = channels(V)
    r, L, C, B, t = arbitrary(V, nch)
    x, n, get = block(V, nch, t)
    data, pos = V.getattr(r, 'data'), V.getattr(r, 'pos')
    before = data.storage.get
    if V.decide(n > B):
        res = V.outcome(V.getattr(r, 'extend'), [x])
        V.check('refused', res[0] == 'raise' and res[1].cls.name == 'ValueError')
        V.check('nothing is modified', V.getattr(r, 'data') is data and data.storage.get is before)
        V.check('position is kept', Z(V.getattr(r, 'pos')) == Z(pos))
        return
    written(V, t, n, get, nch)
    V.expect_ok('extend', V.getattr(r, 'extend'), [x])
    for name, f in invariant(V, r, L, C, B, t + n, nch):
        V.check(name, f)


@U.unit('read and write', claim='peek_extend returns the delayed samples (unaffected by the write) and stores the new ones', time_limit=300)
def peek_extend(V):
    nch = channels(V)
    r, L, C, B, t = arbitrary(V, nch)
    x, n, get = block(V, nch, t)
    V.assume(n <= B)
    written(V, t, n, get, nch)
    y = V.expect_ok('peek_extend', V.getattr(r, 'peek_extend'), [x])
    delayed(V, 'returned', y, n, t, L, nch)
    for name, f in invariant(V, r, L, C, B, t + n, nch):
        V.check(name, f)

"""C07: comb and echo filters.

The C functions are executed from clang's AST of the current _filters.c (pyvc/cfront.py), entry points taken from the
method tables of the exported types.  Ghost: H(n) = value written into the delay line as number n (0 for n < 0).
"""
import ast

from pyvc.spec import *
from pyvc.cfront import C, PyV, BAD, Mem, FakeFunc, TypeObj
from pyvc.ops import simp

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['sample values and gains are arbitrary reals', 'signals of one call are shorter than 2^31 samples',
               'the C compiler, the Python and numpy C API and memory allocation behave as specified in pyvc/cfront.py',
               'the Python variants use the delay line contract proved for C06; delays not shorter than the block']
TYPES = ('ForwardCombFilter', 'BackwardCombFilter', 'EchoFilter')
H = z3.Function('LINE', z3.IntSort(), z3.RealSort())
MAXLEN = 60 * 44100


def silent(V):
    V.assume(All((None, None), lambda t: Implies(t < 0, H(t) == 0), pat=lambda t: H(t)))


def age(p, k, j):
    return If(Z(j) >= p, Z(j) - p, Z(j) - p + k)


def ring_state(ring, k, t):
    """The ring holds the last k values after t of them were written."""
    mem, p = ring.fields['data'], Z(ring.fields['position'])
    return [('length', Z(ring.fields['length']) == k), ('room', Z(mem.arr.shape[0]) >= k), ('position inside the line', And(0 <= p, p < k)),
            ('the line holds the last values', All((0, k), lambda j: mem.arr.at(j) == H(t - k + age(p, k, j)), pat=lambda j: mem.arr.at(j)))]


def arbitrary_ring(V, c):
    k, t = V.int('delay'), V.int('t')
    V.assume(And(k >= 1, k <= MAXLEN, t >= 0))
    ring = c.struct('RingBuffer', data=c.doubles(k, KReal().uf('data', 1), 'delay line'))
    c.ring, c.k, c.t = ring, k, t
    for _, f in ring_state(ring, k, t):
        V.assume(f)
    return ring


def filter_object(V, c):
    ring = arbitrary_ring(V, c)
    fields = {f: q2 for f, _, q2 in c.file.records['RingBufferFilterObject']}
    if not {'alpha', 'ringBuffer'} <= set(fields):
        raise Unsupported('fields of the filter object')
    c.alpha = V.real('alpha')
    return c.struct('RingBufferFilterObject', alpha=c.alpha, ringBuffer=ring)


def written(kind, a, x, old):
    """(output, value for the delay line) of one sample."""
    if kind == 'ForwardCombFilter':
        return x + a * old, x
    if kind == 'BackwardCombFilter':
        return x + a * old, x + a * old
    return old, x + a * old


def references(V, c, result=None):
    for o in c.py:
        if o is result:
            V.check('the result is handed over', o.owned == 1)
        else:
            V.check('no other array is kept', o.owned == 0)


def filter_unit(kind):
    def body(V):
        c = C(V, '_filters')
        V.ghost['c'] = c
        self = filter_object(V, c)
        entry = c.file.entry(kind, 'filter')
        n = V.int('n')
        V.assume(And(n >= 0, n < 2 ** 31))
        x = KReal().uf('x', 1)
        given = c.array(n, lambda i: x(i), 'input array')
        k, t, a = c.k, c.t, c.alpha
        # ghost: what the difference equation writes into the line from now on
        V.assume(All((0, n), lambda i: H(t + i) == written(kind, a, x(i), H(t + i - k))[1], pat=lambda i: [[x(i)], [H(t + i)]]))
        silent(V)
        before = given.mem.arr.storage.get

        def inv(V, L):
            out = [o for o in c.py if o is not given and o.mem is not None and not o.mem.readonly and o.mem.what == 'output array']
            if len(out) != 1:
                raise Unsupported('output array')
            y = out[0].mem.arr
            i = Z(L.k)
            return [('rounds', And(0 <= i, i <= n))] + ring_state(self.fields['ringBuffer'], k, t + i) + \
                [('gain is kept', Z(self.fields['alpha']) == a)] + \
                [('samples so far satisfy the difference equation', All((0, i), lambda j: y.at(j) == written(kind, a, x(j), H(t + j - k))[0], pat=lambda j: y.at(j)))]
        for f in c.file.functions:
            for o in range(3):
                V.loops['c._filters.%s#%d' % (f, o)] = LoopSpec(inv)
        r = c.call(entry, self, given)
        if r is None:
            V.check('a refusal sets an exception', c.error is not None)
            references(V, c)
            for name, f in ring_state(self.fields['ringBuffer'], k, t):
                V.check('refused, nothing changes: ' + name, f)
            V.check('refused, nothing changes: gain', Z(self.fields['alpha']) == a)
            return
        V.check('no exception with a result', c.error is None)
        if not isinstance(r, PyV):
            V.check('the result is an array', False)
        V.check('only one-dimensional signals are accepted', const_int(r.nd) == 1)
        V.check('as many samples', Z(r.n) == n)
        V.check('every sample satisfies the difference equation', All((0, n), lambda j: r.mem.arr.at(j) == written(kind, a, x(j), H(t + j - k))[0], pat=lambda j: r.mem.arr.at(j)))
        V.check('the result is a new array', r is not given)
        V.check('the input is not written', given.mem.arr.storage.get is before)
        references(V, c, r)
        for name, f in ring_state(self.fields['ringBuffer'], k, t + n):
            V.check('afterwards: ' + name, f)
        V.check('afterwards: gain', Z(self.fields['alpha']) == a)
        V.check('afterwards: the line', self.fields['ringBuffer'] is c.ring)
    return body


for _kind in TYPES:
    U.unit('compiled: %s.filter' % _kind, claim='%s.filter continues the difference equation for any block from any state of the delay line; input untouched, '
           'all accesses inside the line and the arrays' % _kind, time_limit=200)(filter_unit(_kind))


def new_unit(kind):
    def body(V):
        c = C(V, '_filters')
        silent(V)
        from pyvc.cfront import TypeObj
        length, alpha = V.int('length'), V.real('alpha')
        V.assume(And(length >= -2 ** 63, length < 2 ** 63))
        with_alpha = V.decide(V.bool('gain given'))
        positional = V.decide(V.bool('positional'))
        if positional:
            c.given = ([length] + ([alpha] if with_alpha else []), {})
        else:
            c.given = ([], dict([('length', length)] + ([('alpha', alpha)] if with_alpha else [])))
        make, init = c.file.entry(kind, 'tp_new'), c.file.entry(kind, 'tp_init')
        o = c.call(make, TypeObj(c, 'RingBufferFilterObject'), None, None)
        if o is None:
            V.check('a refusal sets an exception', c.error is not None)
            return
        V.check('only delays of at least one sample', length >= 1)
        V.check('no exception with a result', c.error is None)
        rc = c.call(init, o, None, None)
        V.check('initialisation succeeds', And(simp(Z(rc) == 0), c.error is None))
        V.check('gain', Z(o.fields['alpha']) == (alpha if with_alpha else Z(.9)))
        ring = o.fields['ringBuffer']
        for name, f in ring_state(ring, length, Z(0)):
            V.check('new line: ' + name, f)
        g = c.call(c.file.entry(kind, 'get:length'), o, None)
        V.check('length attribute', simp(Z(g.value) == Z(length)))
        c.call(c.file.entry(kind, 'tp_dealloc'), o)
        V.check('line and object are released', ring.freed and o.freed)
    return body


for _kind in TYPES:
    U.unit('compiled: new %s' % _kind, claim='a new filter has a silent delay line of the given length and the given gain; delays below one sample are refused')(new_unit(_kind))


# ---- pure Python variants over the contract of the delay line (C06)

PF = 'klang.audio.filters.Py%s'


def python_unit(kind):
    def body(V):
        k, t, n, a = V.int('delay'), V.int('t'), V.int('n'), V.real('alpha')
        V.assume(And(k >= 1, t >= 0, 0 <= n, n <= k, n <= 256))
        x = KReal().uf('x', 1)
        silent(V)
        V.assume(All((0, n), lambda i: H(t + i) == written(kind, a, x(i), H(t + i - k))[1], pat=lambda i: [[x(i)], [H(t + i)]]))
        views, written_ = [], []
        state = dict(t=t)

        def peek(V, d):
            m = d['nValues']
            m = 256 if m is None else m
            V.check('reads of the delay line are not longer than a block', And(Z(m) <= 256, Z(m) >= 0, Z(m) <= k), assume_after=False)
            now = state['t']
            v = V.mkarr((m,), lambda i: H(now + Z(i) - k), 'float', readonly=True)
            views.append(v)
            return v

        def extend(V, d):
            v = d['values']
            v = ops.as_operand(V, v)
            V.check('the written block is not longer than a block', And(Z(v.n) <= 256, Z(v.n) <= k), assume_after=False)
            V.check('one block is written', len(written_) == 0 and simp(Z(v.n) == n), assume_after=False)
            get = v.at
            V.check('the right values are written into the line', All((0, n), lambda i: get(i) == H(state['t'] + i), pat=lambda i: get(i)), assume_after=False)
            written_.append(v)
            state['t'] = state['t'] + n
            # what peek returned was a view: its contents are not the delayed samples any more
            for w in views:
                g = KReal().uf('overwritten', 1)
                w.storage.get = lambda i, g=g: g(i)
        R = 'klang.ring_buffer.RingBuffer.'

        def peek_extend(V, d):
            y = peek(V, dict(nValues=ops.as_operand(V, d['values']).n)).copy()
            V.track(y)
            extend(V, d)
            return y
        V.contracts[R + 'peek'] = peek
        V.contracts[R + 'extend'] = extend
        V.contracts[R + 'peek_extend'] = peek_extend
        V.contracts[R + '__init__'] = lambda V, d: V.check('delay of the line', simp(Z(d['length']) == k))
        f = V.expect_ok('new', PF % kind, [k, a])
        xs = V.mkarr((n,), lambda i: x(i), 'float')
        before = xs.storage.get
        y = V.expect_ok('filter', V.getattr(f, 'filter'), [xs])
        V.check('as many samples', Z(y.n) == n)
        V.check('every sample satisfies the difference equation', All((0, n), lambda j: y.at(j) == written(kind, a, x(j), H(t + j - k))[0], pat=lambda j: y.at(j)))
        V.check('the result is a new array', y.storage is not xs.storage and not any(y.storage is w.storage for w in views))
        V.check('the input is not written', xs.storage.get is before)
        V.check('the block is stored', len(written_) == 1)
        V.check('gain is kept', Z(V.getattr(f, 'alpha')) == a)
    return body


for _kind in TYPES:
    U.unit('fallback: Py%s' % _kind, claim='the Python variant continues the same difference equation for blocks up to the delay')(python_unit(_kind))


# ---- the names users import, and the attribute tables

def marker(cls):
    return lambda V: V.ghost.setdefault('compiled ' + cls, V.define(ast.parse('class %s:\n    pass\n' % cls).body[0], V.module('klang.audio.helpers').env, 'compiled'))


@U.unit('filters: compiled classes', claim='with the extension present, the public filter classes are the compiled ones',
        overlay={'klang.audio._filters.' + t: marker(t) for t in TYPES})
def public_compiled(V):
    for t in TYPES:
        V.check(t, V.lookup('klang.audio.filters.' + t) is marker(t)(V))


@U.unit('filters: fallback classes', claim='without the extension, the public filter classes are the Python ones of the same kind',
        overlay={'klang.audio._filters.' + t: ABSENT for t in TYPES})
def public_fallback(V):
    for t in TYPES:
        V.check(t, V.lookup('klang.audio.filters.' + t) is V.lookup(PF % t))


@U.unit('compiled: gain attribute', claim='the gain attribute of the compiled filters reads and writes the gain the difference equation uses')
def gain_attribute(V):
    c = C(V, '_filters')
    for t in TYPES:
        row = c.file.member(t, 'alpha')
        if row is None:
            raise Unsupported('alpha is no plain member')
        typ, field, flags = row
        V.check(t + ': names the gain field', field == 'alpha')
        V.check(t + ': member type is that of the field', (typ, c.file.field('RingBufferFilterObject', field).kind) == (4, 'double'))
        V.check(t + ': writable', flags == 0)

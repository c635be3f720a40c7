"""What contract files import."""
from fractions import Fraction

import z3

from .values import *
from .values import _cases
from .engine import *
from .engine import V as Interp
from . import ops, models
from .ops import Z, const_num, arith, cmp, eq, length, pick, POW2, RPOW, PYDIV, PYMOD, PYMODR, PYMODR_Q
from .models import PI, UFS, NT


class Units:
    def __init__(self):
        self.units = []

    def unit(self, name, time_limit=120, claim='', overlay=None):
        """Register a verification unit: a function V -> None that sets up symbolic inputs, runs code and checks."""
        def dec(f):
            self.units.append(dict(name=name, body=f, time_limit=time_limit, claim=claim or (f.__doc__ or '').strip(), overlay=overlay))
            return f
        return dec


def lemma(V, label, kinds, stmt, hints=()):
    """Prove stmt for fresh constants of the given kinds; returns a function that adds an instance as assumption."""
    xs = [k.fresh('l') for k in kinds]
    V.check('lemma: ' + label, V.merged(lambda: V.formula(stmt(*xs))), assume_after=False)
    return lambda *ts: V.assume(V.merged(lambda: V.formula(stmt(*ts))))


def prefix_monotone(V, T, n):
    """T(i) <= T(j) for i <= j, given (assumed) T(i) <= T(i+1): by induction on j."""
    i, j = z3.Int(fresh_name('ind_i')), z3.Int(fresh_name('ind_j'))
    V.check('induction, sums do not fall: step', imp(0 <= i, i <= j, j < n, T(i) <= T(j), T(i) <= T(j + 1)), assume_after=False)
    V.assume(All([(0, Z(n) + 1), (0, Z(n) + 1)], lambda a, b: imp(a <= b, T(a) <= T(b)), pat=lambda a, b: [[T(a), T(b)]]))


def imp(*fs):
    return Implies(And(*fs[:-1]), fs[-1])


def iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def mod(V, a, b):
    return arith(V, 'mod', a, b, True)


def div(V, a, b):
    return arith(V, 'floordiv', a, b, True)


def apps(V, fn):
    """All ground applications of fn occurring in the path's facts (candidate witnesses)."""
    out, seen, todo = [], set(), list(V.pc) + list(V.axioms)
    while todo:
        x = todo.pop()
        if not is_z3(x) or x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(fn):
                out.append(x)
            todo.extend(x.children())
    return out


def some(V, cands, pred):
    """Existential goal shown with one of the candidate witnesses (stronger than the existential)."""
    return Or(*[pred(c) for c in cands])


def at(s, i, kind=KInt()):
    """s[i] inside specifications (total: an unspecified value when s is the literal empty sequence)."""
    return kind.fresh('undef') if const_int(s.n) == 0 else s[i]


class Log(GhostCell):
    """Ghost record of the messages sent by an output."""

    def __init__(self, V, kind):
        self.kind = kind
        super().__init__(V, Seq.of([]), lambda V: self.fresh(V))

    def fresh(self, V):
        n = KInt().fresh('sent')
        V.assume(n >= 0)
        return Seq.fresh('log', self.kind, n)

    def send(self, V, m):
        self.set(V, self.value.concat(Seq.of([m])))

    @property
    def n(self):
        return Z(self.value.n)

    def __getitem__(self, i):
        return at(self.value, i, self.kind)


def message_ports(V, incoming, kind, pending=None):
    """Contracts (C03) of the message queues: an input hands out its pending messages once, in order; an output records what it sends.
    pending: ghost dictionary input -> Seq; incoming: messages of every other input."""
    log = Log(V, kind)
    seen = []

    def receive(V, a):
        V.check('pending messages are taken once', not any(x is a['self'] for x in seen), assume_after=False)
        seen.append(a['self'])
        return V.mklist(incoming)

    def latest(V, a):
        V.check('pending messages are taken once', not any(x is a['self'] for x in seen), assume_after=False)
        seen.append(a['self'])
        if V.decide(Z(incoming.n) == 0):
            return None
        return incoming[Z(incoming.n) - 1]
    V.contracts['klang.connections._MessageQueue.receive'] = receive
    V.contracts['klang.connections._MessageQueue.receive_latest'] = latest
    V.contracts['klang.connections.MessageOutput.send'] = lambda V, a: log.send(V, a['message'])
    return log

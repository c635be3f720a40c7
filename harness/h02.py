import numpy as np

from common import *
from klang.connections import Input, Output, Relay

KINDS = dict(o=Output, i=Input, r=Relay)


class Token:
    """A value without any operations; only its identity counts."""

    def __bool__(self):
        raise AssertionError('value was tested')

    def __eq__(self, other):
        raise AssertionError('value was compared')
    __hash__ = None


def root(src, j):
    while j in src:
        j = src[j]
    return j


def check_all(ends, src, own):
    for j, e in enumerate(ends):
        want = own[root(src, j)]
        expect(e.value is want, 'end %d: value is not that of end %d', j, root(src, j))
        expect(e.get_value() is want, 'end %d: get_value() is not that of end %d', j, root(src, j))


def history(kinds, ops):
    own, ends, src = [], [], {}
    for k in kinds:
        v = Token()
        if k == 'r':
            e = Relay()
            e.set_value(v)
        else:
            e = KINDS[k](value=v)
        ends.append(e)
        own.append(v)
    check_all(ends, src, own)
    for op, i, j in ops:
        if op == 'set':
            own[i] = v = [Token(), 1., np.zeros(3), None, 0][j % 5]
            if j % 2:
                ends[i].value = v
            else:
                ends[i].set_value(v)
        elif op == 'connect' and kinds[i] != 'i' and kinds[j] != 'o' and j not in src and root(src, i) != j:
            (ends[i].connect if kinds[i] == 'o' or (i + j) % 2 or kinds[j] == 'r' else lambda x: x.connect(ends[i]) if x is not ends[i] else None)(ends[j])
            src[j] = i
        elif op == 'disconnect' and j in src:
            ends[src[j]].disconnect(ends[j])
            del src[j]
        elif op == 'refused':
            try:
                ends[i].connect(ends[j])
            except Exception:
                pass
            else:
                # accepted: take it back unless it is a new connection that the model can follow
                s, d = (i, j) if kinds[i] == 'o' or (kinds[i] == 'r' and kinds[j] != 'o') else (j, i)
                ends[s].disconnect(ends[d])
        check_all(ends, src, own)


def chain(n):
    """A chain of n relays, built from either end."""
    for order in (1, -1):
        o, rs, i = Output(), [Relay() for _ in range(n)], Input()
        ends = [o] + rs + [i]
        for a, b in list(zip(ends, ends[1:]))[::order]:
            a.connect(b)
        for e in ends[1:]:
            e.set_value(Token())
        v = Token()
        o.set_value(v)
        expect(all(e.value is v and e.get_value() is v for e in ends), 'chain of %d relays', n)
        k = n // 2
        ends[k].disconnect(ends[k + 1])
        w = Token()
        ends[k + 1].set_value(w)
        expect(all(e.value is v for e in ends[:k + 1]) and all(e.value is w for e in ends[k + 1:]), 'chain of %d relays, cut', n)


CHECKS = dict(history=history, chain=chain)


def cases(rng, tier):
    for n in (0, 1, 2, 3, 10, 50, 150):
        yield 'chain', dict(n=n)
    for _ in range(400 if tier == 'quick' else 6000):
        kinds = [rng.choice('ooirrri') for _ in range(rng.randrange(2, 9))]
        n = len(kinds)
        ops = []
        for _ in range(rng.randrange(1, 40)):
            op = rng.choice(['set', 'set', 'connect', 'connect', 'connect', 'disconnect', 'refused'])
            ops.append([op, rng.randrange(n), rng.randrange(n)])
        yield 'history', dict(kinds=''.join(kinds), ops=ops)


if __name__ == '__main__':
    main('C02', CHECKS, cases)

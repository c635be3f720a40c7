from common import *
from klang.config import BUFFER_SIZE, SAMPLING_RATE, TEMPO
from klang.arpeggiator import VALID_ORDERS, Arpeggiator, Arpeggio, arpeggio_index_permutation, interleave
from klang.connections import MessageInput, MessageOutput
from klang.messages import Note


def cycle(order, n):
    """Indices of one cycle (as a sorted list for random order)."""
    up = list(range(n))
    if n < 2:
        return up
    down = up[::-1]
    if order == 'upDown':
        return up + down[1:-1]
    if order == 'downUp':
        return down + up[1:-1]
    if order == 'alternating':
        r, lo, hi = [], 0, n - 1
        while lo <= hi:
            r.append(lo)
            if hi > lo:
                r.append(hi)
            lo, hi = lo + 1, hi - 1
        return r
    return down if order == 'down' else up


def permutation(order, n):
    p = list(arpeggio_index_permutation(order, n))
    want = cycle(order, n)
    expect((sorted(p) if order == 'random' else p) == want, 'play order %s of %d: %r', order, n, p)
    try:
        arpeggio_index_permutation(order, n).append(n)      # the caller's own
    except AttributeError:
        pass
    q = list(arpeggio_index_permutation(order, n))
    expect((sorted(q) if order == 'random' else q) == want, 'play order %s of %d, the second time: %r', order, n, q)


def weave(p, q, kind):
    a, b = ['a%d' % i for i in range(p)], ['b%d' % i for i in range(q)]
    if kind == 'tuple':
        a, b = tuple(a), tuple(b)
    m = min(p, q)
    want = [x for i in range(m) for x in (a[i], b[i])] + list(a[m:]) + list(b[m:])
    expect(interleave(a, b) == want, 'interleave %d %d', p, q)
    expect(len(a) == p and len(b) == q, 'arguments changed')


class Shadow:
    def __init__(self, order, notes):
        self.order, self.notes = order, []
        for n in notes:
            self.add(n)

    def add(self, n):
        if all(n.pitch != m.pitch for m in self.notes):
            self.notes.append(n)
            self.notes.sort(key=lambda m: m.pitch)
            return True

    def remove(self, n):
        for m in self.notes:
            if m.pitch == n.pitch:
                self.notes.remove(m)
                return True


def same(a, b):
    return tuple(a) == tuple(b) and type(a) is type(b)


def check(a, s, what):
    expect(len(a) == len(s.notes) and all(same(x, y) for x, y in zip(a, s.notes)), '%s: holds %r instead of %r', what, list(a), s.notes)


def whole_cycle(a, s, what):
    c = cycle(s.order, len(s.notes))
    got = [next(a) for _ in c]
    expect(all(any(same(x, y) for y in s.notes) for x in got), '%s: played a note not held', what)
    got = [[same(x, y) for y in s.notes].index(True) for x in got]
    if s.order == 'random':
        expect(sorted(got) == c, '%s: cycle %r', what, got)
    else:
        expect(any(got == c[k:] + c[:k] for k in range(max(1, len(c)))), '%s: cycle %r instead of %r', what, got, c)


def arpeggio(order, initial, ops):
    note = lambda p: Note(*p)
    a = Arpeggio(order, tuple(note(p) for p in initial)) if initial is not None else Arpeggio(order)
    s = Shadow(order, [note(p) for p in initial or []])
    check(a, s, 'new')
    last = None
    for k, (op, *x) in enumerate(ops):
        what = '%s %r at %d' % (op, x, k)
        if op == 'add':
            a.add_note(note(x[0]))
            s.add(note(x[0]))
        elif op == 'remove':
            n = note(x[0])
            try:
                a.remove_note(n)
                ok = True
            except ValueError:
                ok = False
            expect(ok == bool(s.remove(n)), '%s: %s', what, 'removed' if ok else 'refused')
        elif op == 'next':
            try:
                n = next(a)
            except StopIteration:
                expect(not s.notes, '%s: nothing played', what)
            else:
                expect(any(same(n, m) for m in s.notes), '%s: played %r which is not held', what, n)
        else:
            whole_cycle(a, s, what)
        check(a, s, what)
    whole_cycle(a, s, 'at the end')


def turns(interval, n):
    """Does the phase come round in the first n blocks? (None: too close to tell)"""
    seconds = interval * 4 * 60 / TEMPO if isinstance(interval, Fraction) else interval     # a note value: beats are quarters
    step = Fraction(BUFFER_SIZE, SAMPLING_RATE) / Fraction(seconds)
    res = [True]
    for k in range(1, n):
        x = step * k
        near = abs(x - round(x)) < Fraction(1, 10 ** 6)
        res.append(None if near else x // 1 > (x - step) // 1)
    return res


def block(order, interval, ops):
    a = Arpeggiator(interval, order)
    out, src = MessageInput(), MessageOutput()
    src.connect(a.input)
    a.output.connect(out)
    s = Shadow(order, [])
    sounding, run = None, []
    for k, (notes, turn) in enumerate(zip(ops, turns(interval, len(ops)))):
        for p in notes:
            n = Note(*p)
            src.send(n)
            s.add(n) if n.on else s.remove(n)
        if notes:
            run = []
        a.update()
        check(a.arpeggio, s, 'update %d' % k)
        got = list(out.receive())
        if turn is None:
            turn = bool(got) or bool(sounding is None and not s.notes)
        want = int(turn and sounding is not None) + int(turn and bool(s.notes))
        expect(len(got) == want, 'update %d (%s, %s, %d held): sent %r', k, 'a turn' if turn else 'within a turn', 'sounding' if sounding else 'silent', len(s.notes), got)
        if not turn:
            continue
        if sounding is not None:
            m = got.pop(0)
            expect(m.off and m.pitch == sounding.pitch, 'update %d: %r ends by %r', k, sounding, m)
            sounding = None
        for m in got:
            expect(m.on and any(same(m, n) for n in s.notes), 'update %d: played %r which is not held', k, m)
            sounding = m
            run.append(m.pitch)
            if order not in ('upDown', 'downUp') and len(run) > len(s.notes):
                expect(order == 'random' or run[-1] == run[-1 - len(s.notes)], 'update %d: order %r', k, run)
                expect(len(set(run[-len(s.notes):])) == len(s.notes) , 'update %d: %d notes held, played %r', k, len(s.notes), run)


def bad(order):
    for f in (lambda: Arpeggio(order), lambda: arpeggio_index_permutation(order, 3)):
        try:
            f()
        except ValueError:
            continue
        raise Fail('order %r accepted' % (order,))


CHECKS = dict(permutation=permutation, weave=weave, arpeggio=arpeggio, block=block, bad=bad)


def cases(rng, tier):
    for o in VALID_ORDERS:
        for n in range(60 if tier == 'thorough' else 25):
            yield 'permutation', dict(order=o, n=n)
    for p in range(6):
        for q in range(6):
            yield 'weave', dict(p=p, q=q, kind='list')
            yield 'weave', dict(p=p, q=q, kind='tuple')
    for o in ('', 'Up', 'sideways', None):
        yield 'bad', dict(order=o)
    for _ in range(6000 if tier == 'thorough' else 900):
        wide = rng.random() < .3
        pitch = lambda: rng.choice([0, 127]) if rng.random() < .2 else rng.randrange(50, 50 + (40 if wide else 5))
        between = rng.random() < .3
        place = lambda: (lambda p: p + (.5 if between and p < 127 and rng.random() < .4 else 0))(pitch())
        note = lambda: (place(), rng.choice([1., .5, .25])) + ((rng.choice([100., 200.]),) if between or rng.random() < .2 else ())
        ops = []
        for _ in range(rng.randrange(1, 25)):
            x = rng.random()
            ops.append(('add', note()) if x < .35 else ('remove', (place(), 0., 100.)) if x < .55 else ('next',) if x < .9 else ('cycle',))
        yield 'arpeggio', dict(order=rng.choice(VALID_ORDERS), initial=rng.choice([None, [], [note() for _ in range(rng.randrange(1, 6))], [note() for _ in range(30)]]), ops=ops)
    for _ in range(600 if tier == 'thorough' else 80):
        holding = rng.random() < .5
        yield 'block', dict(order=rng.choice(VALID_ORDERS), interval=rng.choice([.006, .01, .02, .0075, .013]),
                            ops=[[(rng.randrange(50, 56), rng.choice([0., 1., .3])) for _ in range(rng.choice([0, 0, 1, 2]) if not holding or k < 3 else rng.choice([0] * 12 + [1]))] for k in range(rng.randrange(5, 70))])
    for order in VALID_ORDERS:
        for interval in (.006, .0203, Fraction(1, 128)):
            yield 'block', dict(order=order, interval=interval, ops=[[]] * 3 + [[(60, 1.), (64, .5), (67, .3)]] + [[]] * 60 + [[(60, 0.), (64, 0.)]] + [[]] * 20 + [[(67, 0.)]] + [[]] * 30 + [[(50, 1.)]] + [[]] * 20)


if __name__ == '__main__':
    main('C14', CHECKS, cases)

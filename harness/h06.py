import numpy as np

from common import *
from klang.ring_buffer import RingBuffer


def line(length, extra, block, channels, ops, kind):
    kw = dict(nChannels=channels) if channels > 1 else {}
    r = RingBuffer(length, None if extra is None else length + extra, bufferSize=block, **kw)
    hist = [np.zeros(channels) if channels > 1 else 0.] * length
    k = 1

    def check(what, got, n):
        want = np.array(hist[len(hist) - length:len(hist) - length + n]).reshape((n, channels) if channels > 1 else (n,))
        expect(np.shape(got) == want.shape and np.array_equal(got, want), '%s of %d after %d samples gives %r instead of %r', what, n, len(hist) - length, list(got)[:8], list(want)[:8])
    for op, n in ops:
        vals = np.arange(k, k + n * channels, dtype=float).reshape((n, channels) if channels > 1 else (n,))
        keep = vals.copy()
        arg = vals if kind == 'array' or channels > 1 else [v for v in vals]
        k += n * channels
        if op == 'append':
            for v in vals:
                r.append(v)
                hist.append(v)
        elif op == 'extend':
            if n > block:
                before = np.array(r.peek(block), copy=True)
                try:
                    r.extend(arg)
                except ValueError:
                    expect(np.array_equal(before, r.peek(block)), 'refused block modified the line')
                    continue
                raise Fail('block of %d samples accepted with block size %d' % (n, block))
            r.extend(arg)
            hist.extend(list(vals))
        elif op == 'peek':
            check('peek', r.peek(min(n, block)), min(n, block))
            check('peek', r.peek(), block)
        else:
            n = min(n, block)
            vals, arg = vals[:n], arg[:n]
            y = r.peek_extend(arg)
            check('peek_extend', y, n)
            hist.extend(list(vals))
        expect(np.array_equal(keep[:len(vals)], vals), 'values were modified')
        check('peek', r.peek(), block)


CHECKS = dict(line=line)


def cases(rng, tier):
    for length in range(1, 8):
        for block in range(1, length + 1):
            for n in range(0, block + 2):
                yield 'line', dict(length=length, extra=None, block=block, channels=1, ops=[('extend', n)] * 9, kind='array')
                yield 'line', dict(length=length, extra=2, block=block, channels=1, ops=[('peek_extend', n), ('append', 1)] * 6, kind='list')
    for _ in range(20000 if tier == 'thorough' else 1500):
        length = rng.choice([1, 2, 3, 5, 8, 13, 256, 300, rng.randrange(1, 600)])
        block = rng.choice([length, 1, rng.randrange(1, length + 1), min(256, length)])
        ops = [(rng.choice(['append', 'extend', 'extend', 'peek', 'peek_extend']), rng.choice([0, 1, block, block, rng.randrange(0, block + 1), block + 1 if rng.random() < .2 else 1])) for _ in range(rng.randrange(1, 25))]
        ops = [(o, min(n, 40) if o == 'append' else n) for o, n in ops]
        yield 'line', dict(length=length, extra=rng.choice([None, 0, 1, rng.randrange(0, 700)]), block=block, channels=rng.choice([1, 1, 1, 2, 3]), ops=ops, kind=rng.choice(['array', 'list']))


if __name__ == '__main__':
    main('C06', CHECKS, cases)

import bisect

from common import *
from klang import primes

FULL = primes.PRIMES


def slow_prime(n):
    return n >= 2 and all(n % d for d in range(2, int(n ** .5) + 1))


def with_table(table, fn):
    """Run fn with the prime table replaced (the module's table is restored)."""
    old = primes.PRIMES
    primes.PRIMES = list(table)
    try:
        return fn(), primes.PRIMES
    finally:
        primes.PRIMES = old


def table_ok(t):
    ref = upto(t[-1])
    expect(t == ref, 'table is %r... but the primes up to its end are %r...', t[-8:], ref[-8:])


def upto(n, cache={}):
    if n < 3000:
        return [p for p in range(2, n + 1) if slow_prime(p)]
    if n > cache.get('n', 0):
        cache['n'] = m = 2 * n
        flags = bytearray([1]) * (m + 1)
        for i in range(2, int(m ** .5) + 1):
            if flags[i]:
                flags[i * i::i] = bytes(len(range(i * i, m + 1, i)))
        cache['primes'] = [i for i in range(2, m + 1) if flags[i]]
    return cache['primes'][:bisect.bisect_right(cache['primes'], n)]


def next_ref(n):
    n = max(n, 2)
    while not slow_prime(n):
        n += 1
    return n


def is_prime(n):
    expect(bool(primes.is_prime(n)) == slow_prime(n), 'is_prime(%d) is %r', n, primes.is_prime(n))


def sieve(limit):
    got = list(primes.sieve_of_sundaram(limit))
    ref = [p for p in range(2, limit + 1) if slow_prime(p)]
    expect(got == ref, 'sieve(%d) gives %r, expected %r', limit, got[-6:], ref[-6:])


def search(array, value):
    if value > array[-1]:
        try:
            r = primes.binary_search_with_upper(list(array), value)
        except ValueError:
            return
        raise Fail('search beyond the end returned %r' % (r,))
    r = primes.binary_search_with_upper(list(array), value)
    ref = min(x for x in array if x >= value)
    expect(r == ref, 'search of %d in %r gives %r', value, array, r)


def find_next(n, table=None):
    if table is None:
        expect(primes.find_next_prime(n) == next_ref(n), 'find_next_prime(%d) is %r', n, primes.find_next_prime(n))
        expect(primes.PRIMES[-1] >= n, 'table shrank')
        return
    r, t = with_table(table, lambda: primes.find_next_prime(n))
    expect(r == next_ref(n), 'with table up to %d find_next_prime(%d) is %r', table[-1], n, r)
    expect(t[:len(table)] == list(table), 'table entries changed')
    table_ok(t)


def session(table, numbers):
    """Several searches one after another on one growing table."""
    def go():
        out = []
        for i, n in enumerate(numbers):
            n = n if isinstance(n, int) else n[1]
            if isinstance(numbers[i], int):
                r, ref = primes.find_next_prime(n), next_ref(n)
            else:
                r, ref = list(primes.find_next_primes(numbers[i][0], n)), many_ref(numbers[i][0], n)
            expect(r == ref, 'search %d (%r) gives %r, expected %r', i, numbers[i], r, ref)
            table_ok(primes.PRIMES)
    with_table(upto(table), go)


def many_ref(n, start):
    ref, s = [], start
    for _ in range(n):
        ref.append(next_ref(s))
        s = ref[-1] + 1
    return ref


def beyond(offset):
    """Beyond the end of the precomputed table."""
    last = primes.PRIMES[-1]
    n = last + offset
    size = len(primes.PRIMES)
    r = primes.find_next_prime(n)
    expect(r == next_ref(n), 'find_next_prime(%d) is %r beyond the table', n, r)
    t = primes.PRIMES[size - 1:]
    ref = [p for p in upto(t[-1]) if p >= last]
    expect(t == ref, 'table was extended by %r instead of %r', t, ref)


def find_many(n, start, table=None):
    ref, s = [], start
    for _ in range(n):
        ref.append(next_ref(s))
        s = ref[-1] + 1
    if table is None:
        got = primes.find_next_primes(n, start)
    else:
        got, t = with_table(table, lambda: primes.find_next_primes(n, start))
        table_ok(t)
    expect(list(got) == ref, 'find_next_primes(%d, %d) is %r, expected %r', n, start, got, ref)


def grow(table, steps):
    def go():
        for _ in range(steps):
            primes._increase_cache(primes.PRIMES)
    if not hasattr(primes, '_increase_cache'):
        return
    _, t = with_table(table, go)
    expect(len(t) == len(table) + steps, 'table grew by %d instead of %d', len(t) - len(table), steps)
    table_ok(t)


def whole_table():
    t = FULL
    n = t[-1]
    flags = bytearray([1]) * (n + 1)
    for i in range(2, int(n ** .5) + 1):
        if flags[i]:
            flags[i * i::i] = bytes(len(range(i * i, n + 1, i)))
    ref = [i for i in range(2, n + 1) if flags[i]]
    expect(list(t) == ref, 'precomputed table differs from the primes up to its end')
    expect(t[-1] >= 44100, 'precomputed table ends at %d', t[-1])


CHECKS = dict(session=session, is_prime=is_prime, sieve=sieve, search=search, find_next=find_next, beyond=beyond, find_many=find_many, grow=grow, whole_table=whole_table)
SMALL = [p for p in range(2, 60) if slow_prime(p)]


def cases(rng, tier):
    yield 'whole_table', {}
    for n in range(-20, 1500):
        yield 'is_prime', dict(n=n)
    for limit in range(-5, 260):
        yield 'sieve', dict(limit=limit)
    for n in range(-10, 400):
        yield 'find_next', dict(n=n)
    for k in range(1, len(SMALL) + 1):
        for n in range(-2, 130):
            yield 'find_next', dict(n=n, table=SMALL[:k])
        for st in (0, 1, 2, 5, 30):
            yield 'grow', dict(table=SMALL[:k], steps=st)
        for c in (0, 1, 2, 7):
            for s in (-3, 1, 2, 3, 4, 14, 50):
                yield 'find_many', dict(n=c, start=s, table=SMALL[:k])
    yield 'grow', dict(table=[], steps=12)
    for n in range(0, 30):
        for s in range(-5, 60, 3):
            yield 'find_many', dict(n=n, start=s)
    for n in range(1, 9):
        for v in range(-1, 3 * n + 3):
            yield 'search', dict(array=[2 * i + 1 for i in range(n)], value=v)
            yield 'search', dict(array=[i * i for i in range(n)], value=v)
    for table in (2, 3, 5, 7, 100, 5000):
        for far in (500, 1300, 9000, 12000, 40000):
            yield 'session', dict(table=table, numbers=[far, far // 2, 3 * far, [4, 2 * far], [3, far + 7], 1])
    for _ in range(150):
        yield 'session', dict(table=rng.choice([2, 3, 7, 50, 1000]), numbers=[rng.choice([1, rng.randrange(3000), [rng.randrange(9), rng.randrange(3000)],
                                                                           rng.randrange(30000)]) for _ in range(6)])
    for off in (1, 2, 3, 10, 50, 200, 1000, 3000, 15000, 70000, 250000):
        yield 'beyond', dict(offset=off)
    for _ in range(3000 if tier == 'quick' else 30000):
        m = rng.choice([10 ** 4, 10 ** 5, 4 * 10 ** 5])
        a = rng.randrange(m)
        yield 'find_next', dict(n=a)
        p, q = rng.choice(FULL[:2000]), rng.choice(FULL[:2000])
        yield 'is_prime', dict(n=p * q)
        yield 'is_prime', dict(n=p * q + rng.choice([2, 4, 6]))
        yield 'find_many', dict(n=rng.randrange(12), start=a)
    for p in FULL[:300 if tier == 'quick' else 3000]:
        yield 'is_prime', dict(n=p * p)


if __name__ == '__main__':
    main('C21', CHECKS, cases)

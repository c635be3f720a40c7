"""C21: prime search."""
from pyvc.spec import *

U = Units()
LEVEL = 'proof'
ASSUMPTIONS = ['termination of the search loops (there is always a next prime) is not proved',
               'integers are unbounded (as in Python); int(x / 2) is taken over the reals']

P = z3.Function('PRIME', z3.IntSort(), z3.BoolSort())      # "n is prime", used by the callers' contracts
TRIG = z3.Function('TRIG', z3.IntSort(), z3.IntSort(), z3.BoolSort())
PR = 'klang.primes.'


def nondiv(V, n, lo, hi):
    return All((lo, hi), lambda d: Not(eq(V, mod(V, n, d), 0)), pat=lambda d: PYMOD(n, d))


@U.unit('is_prime', claim='is_prime(n) is true exactly when n >= 2 has no divisor d with 1 < d < n, for every integer n')
def is_prime(V):
    n = V.int('n')
    def inv(V, L):
        i = L['i']
        return [('i is 5 mod 6', And(i >= 5, mod(V, i, 6) == 5)),
                ('no divisor below i', nondiv(V, n, 2, i))]

    def after(V, L):
        # the six candidates passed in this step
        i = L['i']
        j = i - 6
        for off in range(6):
            d = j + off
            r, q = mod(V, n, d), div(V, n, d)
            if off in (1, 3, 5):      # even
                h = (j + off) / 2
                V.check('step: multiples of 2 are even', imp(r == 0, n == 2 * (h * q)))
            elif off == 4:
                h = (j + off) / 3
                V.check('step: multiples of 3', imp(r == 0, n == 3 * (h * q)))
            V.check('step: candidate %d of six does not divide' % off, r != 0)
    V.loops[PR + 'is_prime#0'] = LoopSpec(inv, after_body=after)
    r = V.expect_ok('is_prime', PR + 'is_prime', [n])
    res = V.truth(r)
    if V.decide(res):
        V.check('true: at least two', n >= 2)
        d = z3.Int('d')
        V.assume(And(d >= 2, d < n, mod(V, n, d) == 0))
        q = div(V, n, d)
        V.check('true: cofactor is smaller', And(q >= 2, q < n))
        rq, qq = mod(V, n, q), div(V, n, q)
        t = d - qq
        V.check('true: cofactor divides', Or(And(t == 0, rq == 0), And(t >= 1, rq == q * t, q * t >= q), And(t <= -1, rq == q * t, q * t < 0)))
        V.check('true: cofactor divides exactly', rq == 0)
        V.check('true: no proper divisor', False, assume_after=False)
    else:
        cand = [2, 3] + [t.arg(1) for t in apps(V, PYMOD)]
        V.check('false: below two or a proper divisor exists', Or(n < 2, some(V, cand, lambda d: And(2 <= Z(d), Z(d) < n, mod(V, n, d) == 0))), assume_after=False)


# ---- facts about PRIME (its definition, instantiated where needed)
def composite(V, a, b):
    """a * b with a, b >= 2 is not prime (proved from the definition in unit 'product')."""
    V.assume(imp(a >= 2, b >= 2, Not(P(a * b))))


@U.unit('product', claim='a product of two factors >= 2 is not prime, so PRIME facts used by the callers follow from the definition')
def product(V):
    a, b = V.int('a', 2), V.int('b', 2)
    n = a * b
    # definition: n prime iff n >= 2 and no d in [2, n) divides n
    r, q = mod(V, n, a), div(V, n, a)
    t = b - q
    V.check('remainder is zero', Or(And(t == 0, r == 0), And(t >= 1, r == a * t, a * t >= a), And(t <= -1, r == a * t, a * t < 0)))
    V.check('a divides a*b', r == 0)
    V.check('a is a proper divisor', And(2 <= a, a < n), assume_after=False)


def is_prime_contract(V, a):
    return P(Z(a['number']))


def table(V, seq, label=None):
    """The cache invariant: all primes from 2 to its end, in order."""
    n = seq.n
    return [('holds at least one prime', n >= 1),
            ('starts at two', imp(n >= 1, Z(seq[0]) == 2)),
            ('sorted', All([(0, n), (0, n)], lambda i, j: imp(i < j, Z(seq[i]) < Z(seq[j])), pat=lambda i, j: (Z(seq[i]), Z(seq[j])))),
            ('every entry is prime', All((0, n), lambda i: P(Z(seq[i])), pat=lambda i: Z(seq[i]))),
            ('no prime between neighbours', All([(0, n - 1), None], lambda i, x: imp(Z(seq[i]) < x, x < Z(seq[i + 1]), Not(P(x))),
                                                pat=lambda i, x: (Z(seq[i]), P(x))))]


@U.unit('_increase_cache', claim='given a table of all primes up to its end, exactly the next prime is appended (an empty table gets 2)')
def increase_cache(V):
    cache = V.list('cache', KInt())
    c0 = cache.seq
    small = lambda x: V.assume(imp(x < 2, Not(P(x))))
    V.contracts[PR + 'is_prime'] = is_prime_contract
    V.assume(P(z3.IntVal(2)))
    if V.decide(c0.n == 0):
        V.expect_ok('_increase_cache', PR + '_increase_cache', [cache])
        V.check('empty table gets the first prime', And(cache.seq.n == 1, Z(cache.seq[0]) == 2))
        return
    for label, f in table(V, c0):
        V.assume(f)
    last = Z(c0[c0.n - 1])
    two = V.merged(lambda: Z(c0[0]))
    V.check('last entry is two or more', last >= 2)
    # even numbers above two are not prime; the last entry is odd or two
    even = lambda x: composite(V, z3.IntVal(2), x / 2)
    even(last)

    def even_at(x):
        V.assume(imp(x % 2 == 0, x > 2, Not(P(x))))      # composite(2, x / 2) and x == 2 * (x / 2)
    even_at(last)
    even_at(last + 1)

    def inv(V, L):
        num = L['number']
        return [('candidate is odd', Z(num) % 2 == 1),
                ('candidate is beyond the table', Z(num) > last),
                ('nothing prime was passed', All(None, lambda x: imp(last < x, x < Z(num), Not(P(x))), pat=lambda x: P(x)))]

    def after(V, L):
        even_at(Z(L['number']) - 1)
    V.loops[PR + '_increase_cache#0'] = LoopSpec(inv, after_body=after)
    V.expect_ok('_increase_cache', PR + '_increase_cache', [cache])
    c1 = cache.seq
    V.check('one entry added', c1.n == c0.n + 1)
    V.check('old entries kept', All((0, c0.n), lambda i: Z(c1[i]) == Z(c0[i])))
    new = Z(c1[c0.n])
    V.check('the new entry is prime', P(new))
    V.check('the new entry is larger', new > last)
    V.check('no prime in between', All(None, lambda x: imp(last < x, x < new, Not(P(x)))))


@U.unit('even', claim='even numbers above two are not prime (instance used by _increase_cache and the sieve)')
def even_unit(V):
    x = V.int('x', 3)
    V.assume(x % 2 == 0)
    composite(V, z3.IntVal(2), x / 2)
    V.check('not prime', Not(P(x)))


@U.unit('binary_search_with_upper', claim='on a sorted non-empty list the smallest entry not below the value is returned; values above the last are refused')
def binary_search(V):
    a = V.list('array', KInt())
    s = a.seq
    v = V.int('value')
    V.assume(s.n >= 1)
    V.assume(All([(0, s.n), (0, s.n)], lambda i, j: imp(i < j, Z(s[i]) < Z(s[j])), pat=lambda i, j: (Z(s[i]), Z(s[j]))))

    def inv(V, L):
        lo, up = Z(L['lower']), Z(L['upper'])
        return [('bounds', And(lo >= 0, up <= s.n - 1, lo <= up + 1, lo <= s.n - 1)),
                ('left of lower is smaller', All((0, lo), lambda i: Z(s[i]) < v, pat=lambda i: Z(s[i]))),
                ('right of upper is larger', All((up + 1, s.n), lambda i: Z(s[i]) > v, pat=lambda i: Z(s[i]))),
                ('value is covered', Z(s[s.n - 1]) >= v)]
    V.loops[PR + 'binary_search_with_upper#0'] = LoopSpec(inv, variant=lambda V, L: Z(L['upper']) - Z(L['lower']) + 1)
    st, r = V.outcome(PR + 'binary_search_with_upper', [a, v])
    if st == 'raise':
        V.check('only values above the last are refused', v > Z(s[s.n - 1]))
        return
    V.check('not below the value', Z(r) >= v)
    f = Z(s[z3.IntVal(0)]).decl() if z3.is_app(Z(s[z3.Int('w')])) else None
    idx = [t.arg(0) for t in apps(V, Z(s[z3.Int('w')]).decl())]
    if z3.is_app(Z(r)) and Z(r).num_args() == 1:
        idx.append(Z(r).arg(0))
    V.check('is an entry', some(V, idx, lambda k: And(0 <= k, k < s.n, Z(s[k]) == Z(r))))
    V.check('no smaller entry qualifies', All((0, s.n), lambda i: imp(Z(s[i]) >= v, Z(s[i]) >= Z(r))))
    V.check('the list is unchanged', a.seq is s)


def next_prime(V, x, r):
    """r is the smallest prime not below x."""
    return [P(r), r >= x, All(None, lambda y: imp(x <= y, y < r, Not(P(y))), pat=lambda y: P(y))]


@U.unit('find_next_prime', claim='the result is the smallest prime not below the argument, inside and beyond the table, and the table stays complete')
def find_next_prime(V):
    x = V.int('x')
    m = V.module('klang.primes')
    cache = V.list('PRIMES', KInt())
    V.overlay['klang.primes.PRIMES'] = cache
    m.attrs['PRIMES'] = cache
    for label, f in table(V, cache.seq):
        V.assume(f)
    V.assume(All(None, lambda y: imp(y < 2, Not(P(y))), pat=lambda y: P(y)))

    def increase(V, a):
        c = a['cache']
        s = c.seq
        for label, f in table(V, s):
            V.check('_increase_cache is given a complete table: ' + label, f)
        new = KInt().fresh('next')
        last = Z(s[s.n - 1])
        V.setseq(c, s.append(new))
        V.assume(And(P(new), new > last))
        V.assume(All(None, lambda y: imp(last < y, y < new, Not(P(y))), pat=lambda y: P(y)))
        return None

    def search(V, a):
        s, v = a['array'].seq, Z(a['value'])
        V.check('the value searched lies within the table', And(s.n >= 1, v <= Z(s[s.n - 1])))
        V.check('the table searched is sorted', dict(table(V, s))['sorted'])
        k, r = KInt().fresh('k'), KInt().fresh('r')
        V.assume(And(0 <= k, k < s.n, r == Z(s[k]), r >= v))
        V.assume(All((0, s.n), lambda i: imp(Z(s[i]) >= v, Z(s[i]) >= r), pat=lambda i: Z(s[i])))
        V.ghost['k'] = k
        return r
    V.contracts[PR + '_increase_cache'] = increase
    V.contracts[PR + 'binary_search_with_upper'] = search
    V.loops[PR + 'find_next_prime#0'] = LoopSpec(lambda V, L: [('table: ' + l, f) for l, f in table(V, cache.seq)])
    r = Z(V.expect_ok('find_next_prime', PR + 'find_next_prime', [x]))
    for label, f in table(V, cache.seq):
        V.check('afterwards the table is complete: ' + label, f)
    V.check('result is prime', P(r))
    V.check('result is not below the argument', r >= x)
    s, k = cache.seq, V.ghost.get('k')
    if k is not None:
        V.check('the entry before is below the argument', Or(k == 0, Z(s[k - 1]) < x))
    V.check('no prime lies between', All(None, lambda y: imp(x <= y, y < r, Not(P(y)))))


@U.unit('find_next_primes', claim='n consecutive primes starting with the smallest prime not below start')
def find_next_primes(V):
    n, start = V.int('n', 0), V.int('start')

    def fnp(V, a):
        r = KInt().fresh('p')
        for f in next_prime(V, Z(a['number']), r):
            V.assume(f)
        return r
    V.contracts[PR + 'find_next_prime'] = fnp

    def facts(V, s, upto):
        return [('primes', All((0, upto), lambda i: P(Z(s[i])), pat=lambda i: Z(s[i]))),
                ('first', imp(upto >= 1, And(Z(at(s, 0)) >= start))),
                ('none skipped before the first', All(None, lambda y: imp(upto >= 1, start <= y, y < Z(at(s, 0)), Not(P(y))), pat=lambda y: P(y))),
                ('increasing', All((0, upto - 1), lambda i: Z(s[i]) < Z(s[i + 1]), pat=lambda i: Z(s[i + 1]))),
                ('none skipped in between', All([(0, upto - 1), None], lambda i, y: imp(Z(s[i]) < y, y < Z(s[i + 1]), Not(P(y))),
                                                pat=lambda i, y: (Z(s[i]), P(y))))]

    def inv(V, L):
        s = L['primes'].seq
        return [('one prime per step', s.n == L.k),
                ('search continues behind the last', Z(L['start']) == If(Z(L.k) == 0, start, Z(at(s, s.n - 1)) + 1))] + facts(V, s, Z(L.k))
    V.loops[PR + 'find_next_primes#0'] = LoopSpec(inv, hints={})
    r = V.expect_ok('find_next_primes', PR + 'find_next_primes', [n, start])
    s = r.seq
    V.check('as many as asked for', s.n == n)
    for label, f in facts(V, s, s.n):
        V.check(label, f)


@U.unit('sieve_of_sundaram', claim='all primes up to the limit are produced in order and nothing else, for every limit')
def sieve(V):
    limit = V.int('limit')
    V.assume(P(z3.IntVal(2)))
    V.assume(All(None, lambda y: imp(y < 2, Not(P(y))), pat=lambda y: P(y)))
    V.assume(All(None, lambda y: imp(y > 2, y % 2 == 0, Not(P(y))), pat=lambda y: P(y)))      # unit 'even'
    last = GhostCell(V, z3.IntVal(1), lambda V: KInt().fresh('last'))
    isin = lambda s, x: ops.contains_set(V, s, x)
    idx = lambda i, j: i + j + 2 * (i * j)

    def covered(marked, lo, hi, half):
        """every index i+j+2ij <= half with lo <= i < hi, i <= j is marked"""
        return All([(lo, hi), None], lambda i, j: imp(j >= i, idx(i, j) <= half, isin(marked, idx(i, j))), pat=lambda i, j: TRIG(i, j))

    def marked_composite(marked):
        return All(None, lambda m: imp(isin(marked, m), Not(P(2 * m + 1))), pat=lambda m: TRIG(m, m))

    def inv_outer(V, L):
        marked, half = L['marked'], Z(L['half'])
        return [('marked numbers are composite', marked_composite(marked)),
                ('products of passed factors are marked', covered(marked, 1, 1 + Z(L.k), half))]

    def inv_inner(V, L):
        marked, half, i, j = L['marked'], Z(L['half']), Z(L['i']), Z(L['j'])
        return [('marked numbers are composite', marked_composite(marked)),
                ('products of passed factors are marked', covered(marked, 1, i, half)),
                ('j runs from i', j >= i),
                ('products with i so far are marked', All(None, lambda b: imp(i <= b, b < j, isin(marked, idx(i, b))), pat=lambda b: TRIG(i, b)))]

    def after_inner(V, L):
        i, j = Z(L['i']), Z(L['j']) - 1
        composite(V, 2 * i + 1, 2 * j + 1)
        V.check('product of the two odd numbers', (2 * i + 1) * (2 * j + 1) == 2 * idx(i, j) + 1)
        V.check('so its index is composite', Not(P(2 * idx(i, j) + 1)))

    def inv_out(V, L):
        k = Z(L.k)
        return [('everything up to the current number was produced',
                 All(None, lambda y: imp(last.value < y, y <= 2 * k + 2, y <= limit, Not(P(y))), pat=lambda y: P(y))),
                ('last produced', And(last.value >= 1, last.value <= 2 * k + 2, imp(limit >= 2, last.value >= 2), imp(k >= 1, limit >= 3)))]
    trig = lambda *p: [V.axiom(TRIG(Z(x), Z(y))) for x, y in p]
    V.loops[PR + 'sieve_of_sundaram#0'] = LoopSpec(inv_outer, hints={'j': KInt(), 'i': KInt()})
    V.loops[PR + 'sieve_of_sundaram#1'] = LoopSpec(inv_inner, after_body=after_inner)
    V.loops[PR + 'sieve_of_sundaram#2'] = LoopSpec(inv_out)
    g = V.expect_ok('sieve', PR + 'sieve_of_sundaram', [limit])

    def produced(x):
        x = Z(x)
        i = x / 2
        # (unit 'odd composites') an odd number that is not prime is (2a+1)(2b+1), 1 <= a <= b
        a, b = KInt().fresh('a'), KInt().fresh('b')
        V.assume(imp(x >= 3, x % 2 == 1, Not(P(x)), And(a >= 1, b >= a, x == 2 * idx(a, b) + 1, a * b >= a)))
        trig((a, b), (i, i))
        V.check('produced numbers are at most the limit', x <= limit)
        V.check('produced numbers are prime', P(x))
        V.check('in increasing order', x > last.value)
        V.check('none skipped', All(None, lambda y: imp(last.value < y, y < x, Not(P(y)))))
        last.set(V, x)

    def skipped(V, L):
        i = Z(L['i'])
        trig((i, i))
    V.loops[PR + 'sieve_of_sundaram#2'].after_body = skipped
    V.run_gen(g, produced)
    V.check('complete up to the limit', All(None, lambda y: imp(last.value < y, y <= limit, Not(P(y)))))


@U.unit('odd composites', claim='an odd number with a proper divisor is a product (2a+1)(2b+1) with 1 <= a <= b')
def odd_composites(V):
    x, d = V.int('x', 3), V.int('d', 2)
    V.assume(And(x % 2 == 1, d < x, mod(V, x, d) == 0))
    q = div(V, x, d)
    V.check('cofactor', x == d * q)
    V.check('cofactor is proper', And(q >= 2))
    hd, hq = d / 2, q / 2
    V.check('divisor is odd', imp(d % 2 == 0, x == 2 * (hd * q)))
    V.check('divisor is odd.', d % 2 == 1)
    V.check('cofactor is odd', imp(q % 2 == 0, x == 2 * (hq * d)))
    V.check('cofactor is odd.', q % 2 == 1)
    V.check('d and q as 2a+1', And(d == 2 * hd + 1, q == 2 * hq + 1))
    V.check('product', x == 2 * (hd + hq + 2 * (hd * hq)) + 1)
    V.check('one of the two orders', Or(And(hd >= 1, hq >= hd), And(hq >= 1, hd >= hq)))


@U.unit('initial table', claim='the table is initialised with the sieve, so it holds all primes up to its end')
def initial(V):
    calls = []

    def sv(V, a):
        calls.append(a['limit'])
        return V.list('primes', KInt())
    V.contracts[PR + 'sieve_of_sundaram'] = sv
    m = V.module('klang.primes')
    v = V.module_attr(m, 'PRIMES')
    V.check('the table comes from the sieve', len(calls) == 1 and isinstance(v, SList))
    V.check('with a limit of at least two', len(calls) == 1 and cmp(V, 'ge', calls[0], 2))

from common import *
from klang.music.rhythm import euclidian_rhythm


def rhythm(pulses, slots):
    got = euclidian_rhythm(pulses, slots)
    r = list(got)
    got = got if isinstance(got, list) else list(got)
    expect(len(r) == slots, '%d slots instead of %d', len(r), slots)
    expect(all(x in (0, 1) for x in r), 'entries other than 0 and 1: %r', r)
    expect(sum(r) == pulses, '%d pulses instead of %d: %r', sum(r), pulses, r)
    if pulses >= 2:
        at = [i for i, x in enumerate(r) if x]
        gaps = [(b - a) % slots or slots for a, b in zip(at, at[1:] + at[:1])]
        expect(max(gaps) - min(gaps) <= 1, 'uneven distances %r in %r', gaps, r)
    if slots:
        # there is one most even pattern, up to rotation
        even = ''.join(str((i + 1) * pulses // slots - i * pulses // slots) for i in range(slots))
        expect(''.join(str(int(x)) for x in r) in even + even, 'uneven: stretches of equal length in %r hold numbers of pulses that differ by more than one', r)
    got[:] = [1 - x for x in got] + [1]         # the result belongs to the caller
    again = list(euclidian_rhythm(pulses, slots))
    expect(again == r, 'the second time %r instead of %r', again, r)


CHECKS = dict(rhythm=rhythm)


def cases(rng, tier):
    top = 90 if tier == 'quick' else 220
    for n in range(0, top):
        for k in range(0, n + 1):
            yield 'rhythm', dict(pulses=k, slots=n)
    for _ in range(300):
        n = rng.randrange(1, 600)
        yield 'rhythm', dict(pulses=rng.randrange(0, n + 1), slots=n)


if __name__ == '__main__':
    main('C22', CHECKS, cases)

import os
import tempfile
from common import *
import numpy as np
import klang
from klang import util as U
from klang.music import chords, intervals, scales, tunings

DATA = os.path.join(os.path.dirname(klang.__file__), 'music', 'data')


def recurrence(a, b, dele=1, ins=1, sub=1):
    last = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        row = [i]
        for j, y in enumerate(b, 1):
            row.append(min(last[j] + dele, row[-1] + ins, last[j - 1] + (sub if x != y else 0)))
        last = row
    return last[-1]


def abbreviates(name, key):
    """Same first letter, the others in order."""
    if not name or not key or name[0] != key[0]:
        return False
    rest = iter(key[1:])
    return all(c in rest for c in name[1:])


def distance(a, b, costs):
    got = U.levenshtein(a, b, *costs)
    want = recurrence(a, b, *costs)
    expect(got == want, '%r to %r with costs %r: %r instead of %r', a, b, costs, got, want)
    if costs == []:
        expect(U.levenshtein(b, a) == got and (got == 0) == (a == b), '%r and %r: %r, back %r', a, b, got, U.levenshtein(b, a))
    if costs[:2] == [1, 0] and len(costs) < 3:
        expect((got == 0) == abbreviates(a, b), '%r abbreviates %r: distance %r', a, b, got)


def check_find(find, table, name, same):
    try:
        got = find(name)
    except ValueError as e:
        got = e
    matches = [k for k in table if abbreviates(name, k)]
    if name in table:
        expect(same(got, table[name]), '%r is not found by its name: %r', name, got)
    elif len(matches) == 1:
        expect(same(got, table[matches[0]]), '%r means %r, found %r', name, matches, got)
    else:
        expect(isinstance(got, ValueError), '%r is found although it may mean %r', name, matches)
        d = {k: recurrence(name, k, ins=0) for k in table if k}
        for k in d:
            if d[k] == min(d.values()):
                expect(k in str(got), '%r: %r is not named in %s', name, k, got)
            else:
                expect(repr(k) not in str(got) or k == name, '%r: %r is named in %s, although others are closer', name, k, got)


def find(keys, name):
    table = {k: object() for k in keys}
    check_find(lambda n: U.find_item(table, n), table, name, lambda a, b: a is b)
    expect(list(table) == keys, 'table was changed')


def lines(name):
    with open(os.path.join(DATA, name + '.csv')) as f:
        return [l.split(',') for l in f.read().splitlines()]


def values(xs):
    return [float(x) for x in xs]


def same_numbers(a, b):
    return not isinstance(a, Exception) and np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), np.asarray(b, float))


def composition(steps):
    """The intervals between the different pitches of a scale."""
    ps, p = {0}, 0
    for x in steps:
        p += x
        ps.add(p % 12)
    ps = sorted(ps) + [12]
    return [b - a for a, b in zip(ps, ps[1:])]


def music(kind, name):
    """Lookups in the tables that come with the library."""
    if kind == 'chord':
        check_find(chords.find_chord, {k: values(v) for k, *v in lines('chords')}, name, same_numbers)
    elif kind == 'scale':
        check_find(scales.find_scale, {k: composition([int(x) for x in v]) for k, *v in lines('scales')}, name, same_numbers)
    elif kind == 'interval':
        check_find(intervals.find_interval, {k: Fraction(v[0].strip()) for k, *v in lines('intervals')}, name, lambda a, b: isinstance(a, Fraction) and a == b)
    else:
        known = dict(tunings.TEMPERAMENTS)
        cents = {k.title().strip(): values(v) for k, *v in lines('tunings')}
        expect(set(cents) <= set(known) and 'Equal' in known, 'missing temperaments: %r', set(cents) - set(known))
        known.update(cents)
        check_find(tunings.find_temperament, known, name, lambda a, b: a is b if isinstance(b, tunings.Temperament) else isinstance(a, tunings.Temperament) and np.allclose(a.ratios, 2 ** (np.array(b) / 1200), rtol=1e-12))


def number(x):
    try:
        return int(x)
    except ValueError:
        pass
    try:
        return float(x)
    except ValueError:
        return x


def parse(rows, sep, how):
    text = '\n'.join(sep.join([k] + vs) for k, vs in rows)
    want = {k: [number(v) for v in vs] for k, vs in rows}
    if how == 'file':
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'x.csv')
            with open(p, 'w') as f:
                f.write(text)
            got = U.load_music_data_from_csv(p, sep)
    else:
        got = U.parse_music_data_from_csv(text.encode() if how == 'bytes' else text, sep)
    expect(got == want and list(got) == list(want), '%r gives %r', text, got)
    for k in want:
        expect([type(x) for x in got[k]] == [type(x) for x in want[k]], 'types of %r: %r', want[k], got[k])


def staying(steps):
    got = scales.scale_2_code(steps)
    want, p = {0}, 0
    for x in steps:
        p += x
        want.add(p % 12)
    expect(got == sum(2 ** p for p in want), 'scale %r: code %r', steps, got)


CHECKS = dict(staying=staying, distance=distance, find=find, music=music, parse=parse)


def cut(rng, key):
    if rng.random() < .2:
        return ''.join(rng.choice(key) for _ in range(rng.randrange(1, 6)))
    k = [c for i, c in enumerate(key) if i == 0 or rng.random() < rng.choice([.3, .7, .9])]
    return ''.join(k)


def cases(rng, tier):
    word = lambda letters, lo, hi: ''.join(rng.choice(letters) for _ in range(rng.randrange(lo, hi)))
    for a in ('a', 'ab', 'ba', 'abc', 'Ab'):
        for b in ('a', 'b', 'ab', 'bab', 'aabb', 'cabc'):
            for costs in ([], [1, 0], [1, 0, 1], [2, 3, 4], [1, 1, 2], [5, 1, 0]):
                yield 'distance', dict(a=a, b=b, costs=costs)
    for keys, name in ((['a'], 'a'), ([], 'x'), (['abc', 'abd'], 'abd'), (['abc', 'abd'], 'ab'), (['abc', 'abd'], 'ac'), (['abc', 'xbc'], 'bc'), (['ab', 'abc'], 'ab'), (['ab', 'abc'], 'a'), (['abc'], 'zz'), (['abc', 'bcd', 'q'], 'cd'), (['abc'], 'abcd'), (['abc'], 'cba')):
        yield 'find', dict(keys=keys, name=name)
    files = dict(chord='chords', scale='scales', interval='intervals', temperament='tunings')
    for kind, f in files.items():
        keys = [l[0] if kind != 'temperament' else l[0].title().strip() for l in lines(f)] + (['Equal', 'Young', 'Pythagorean', 'Just', 'Random'] if kind == 'temperament' else [])
        for k in keys if len(keys) < 100 else keys[::9] + keys[-3:]:
            yield 'music', dict(kind=kind, name=k)
        for _ in range(60 if tier == 'thorough' else 8):
            yield 'music', dict(kind=kind, name=cut(rng, rng.choice(keys)))
    for rows, sep in (([], ','), ([['a', ['1', '2']]], ','), ([['x y', ['1.5', '-3', 'abc', '1/2']], ['b', ['0']]], ','), ([['a', ['1']], ['b', ['2', 'x,y']]], ';')):
        for how in ('text', 'bytes', 'file'):
            yield 'parse', dict(rows=rows, sep=sep, how=how)
    for _ in range(2000 if tier == 'thorough' else 200):
        yield 'distance', dict(a=word('abA', 1, 7), b=word('abA', 1, 7), costs=rng.choice([[], [], [1, 0], [rng.randrange(5) for _ in range(3)]]))
        steps = composition([rng.randrange(1, 12) for _ in range(rng.randrange(0, 6))])
        yield 'staying', dict(steps=[x for s in steps for x in ([s] if rng.random() < .7 else [0, s] if rng.random() < .5 else [s, 0, 0])])
        keys = list(dict.fromkeys(word('abcA', 1, 7) for _ in range(rng.randrange(1, 6))))
        yield 'find', dict(keys=keys, name=rng.choice([word('abcA', 1, 4), cut(rng, rng.choice(keys)), rng.choice(keys)]))
        rows = [[word('abc ', 1, 6), [rng.choice(['1', '-2', '0.25', '1e3', 'x', '3/4', 'b 2']) for _ in range(rng.randrange(1, 5))]] for _ in range(rng.randrange(0, 5))]
        yield 'parse', dict(rows=rows, sep=rng.choice([',', ';', '\t']), how=rng.choice(['text', 'bytes', 'file']))


if __name__ == '__main__':
    main('C34', CHECKS, cases)

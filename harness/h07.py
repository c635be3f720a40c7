"""C07: comb and echo filters against their difference equations."""
import gc
import importlib.util
import sys
import weakref

import numpy as np

from common import *

load_extensions()
import warnings
warnings.simplefilter('ignore')
from klang.audio import filters as LF


def fallback():
    """The filters module as it is without the compiled extension."""
    spec = importlib.util.spec_from_file_location('klang_filters_fallback', LF.__file__)
    mod = importlib.util.module_from_spec(spec)
    keep = sys.modules.get('klang.audio._filters')
    import klang.audio
    attr = klang.audio.__dict__.pop('_filters', None)
    sys.modules['klang.audio._filters'] = None
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.modules.pop('klang.audio._filters', None)
        if keep is not None:
            sys.modules['klang.audio._filters'] = keep
        if attr is not None:
            klang.audio._filters = attr
    return mod


NAMES = {'forward': 'ForwardCombFilter', 'backward': 'BackwardCombFilter', 'echo': 'EchoFilter'}


class Reference:
    def __init__(self, kind, k, a):
        self.kind, self.a, self.line = kind, a, [0.] * k

    def filter(self, xs):
        out = []
        for x in xs:
            old = self.line.pop(0)
            if self.kind == 'forward':
                y = x + self.a * old
                self.line.append(x)
            elif self.kind == 'backward':
                y = x + self.a * old
                self.line.append(y)
            else:
                y = old
                self.line.append(x + self.a * old)
            out.append(y)
        return out


def make(variant, kind, k, a):
    mod = LF if variant == 'compiled' else FALLBACK
    cls = getattr(mod, NAMES[kind])
    return cls(k) if a is None else cls(k, a)


def dress(x, form):
    """The same samples in another container."""
    x = np.asarray(x, dtype=float)
    if form == 'list':
        return x.tolist()
    if form == 'tuple':
        return tuple(x.tolist())
    if form == 'strided':
        b = np.full(2 * len(x) + 1, 77.)
        b[:2 * len(x):2] = x
        return b[:2 * len(x):2]
    if form == 'reversed':
        return x[::-1].copy()[::-1]
    if form == 'column':
        b = np.full((len(x), 3), 55.)
        b[:, 1] = x
        return b[:, 1]
    if form == 'readonly':
        x = x.copy()
        x.flags.writeable = False
        return x
    if form == 'int':
        return x.astype(int)
    if form == 'float32':
        return x.astype(np.float32)
    if form == 'swapped':
        return x.astype('>f8')
    return x.copy()


def blocks(xs, cuts):
    out, i = [], 0
    for c in cuts:
        out.append(xs[i:i + c])
        i += c
    out.append(xs[i:])
    return out


def equation(variant, kind, k, a, xs, cuts, form='plain', alphas=None):
    f = make(variant, kind, k, a)
    r = Reference(kind, k, .9 if a is None else a)
    for i, b in enumerate(blocks(xs, cuts)):
        if alphas:
            f.alpha = r.a = alphas[i % len(alphas)]
        x = dress(b, form)
        before = np.array(x, dtype=float)
        y = f.filter(x)
        expect(isinstance(y, np.ndarray) and y.ndim == 1 and len(y) == len(b), 'block %d: %d samples in, %r out', i, len(b), np.shape(y))
        want = r.filter([float(v) for v in before])
        for j, (u, v) in enumerate(zip(y.tolist(), want)):
            expect(close(u, v), 'block %d sample %d is %r, the difference equation gives %r', i, j, u, v)
        expect(np.array_equal(np.asarray(x, dtype=float), before), 'block %d: the input was changed', i)
        if isinstance(x, np.ndarray):
            expect(not np.shares_memory(x, y), 'block %d: the output is the input', i)


def long(variant, kind, k, size, blocks, seed):
    """Long delays: the sample k places ago comes from the right place."""
    f = make(variant, kind, k, .5)
    x = np.random.RandomState(seed).uniform(-1, 1, size=size * blocks)
    y = np.concatenate([f.filter(x[i:i + size]) for i in range(0, len(x), size)])
    want = np.zeros(len(x)) if kind == 'echo' else x.copy()
    for i in range(k, len(x), k):
        j = min(i + k, len(x))
        n = j - i
        want[i:j] += .5 * (x if kind == 'forward' else want)[i - k:i - k + n] if kind != 'echo' else x[i - k:i - k + n] + .5 * want[i - k:i - k + n]
    bad = np.flatnonzero(abs(y - want) > 1e-9)
    expect(not len(bad), 'delay %d: sample %s is %s, the difference equation gives %s', k, bad[:1], y[bad[:1]], want[bad[:1]])


def kept(variant, kind, k, sizes):
    """Returned arrays stay what they were, whatever is filtered afterwards."""
    f = make(variant, kind, k, .5)
    outs = []
    for i, n in enumerate(sizes):
        y = f.filter(np.arange(1., n + 1) * (i + 1))
        outs.append((y, y.copy()))
    for i, (y, c) in enumerate(outs):
        expect(np.array_equal(y, c), 'output of block %d changed later: %r was %r', i, y.tolist(), c.tolist())


def separate(variant, kind, k, n):
    """Two filters do not see each other."""
    f, g = make(variant, kind, k, .5), make(variant, kind, k, .25)
    rf, rg = Reference(kind, k, .5), Reference(kind, k, .25)
    for i in range(4):
        x, z = np.arange(n) + 1. + i, -np.arange(n) * 3. - i
        for u, v in zip(f.filter(x).tolist(), rf.filter(x.tolist())):
            expect(close(u, v), 'first filter: %r, expected %r', u, v)
        for u, v in zip(g.filter(z).tolist(), rg.filter(z.tolist())):
            expect(close(u, v), 'second filter: %r, expected %r', u, v)


def length(kind, k):
    """Only delays of at least one sample; the length of the line is what was asked for."""
    try:
        f = make('compiled', kind, k, .5)
    except (ValueError, RuntimeError, MemoryError, OverflowError):
        expect(k < 1 or k > 60 * 44100, 'a delay of %d samples was refused', k)
        return
    expect(k >= 1, 'a delay of %d samples was accepted', k)
    expect(f.length == k, 'length is %r instead of %d', f.length, k)
    f.filter(np.ones(3))


BAD = {'text': lambda: 'abc', 'none': lambda: None, 'two dimensions': lambda: np.ones((2, 3)), 'number': lambda: 3.5, 'mixed': lambda: [1., 'a'],
       'object': lambda: object(), 'ragged': lambda: [[1.], [1., 2.]]}


def refused(kind, bad):
    """What is no signal is refused and leaves no trace."""
    f = make('compiled', kind, 3, .5)
    r = Reference(kind, 3, .5)
    r.filter(f.filter([1., 2., 3.]) * 0 + [1., 2., 3.])
    try:
        f.filter(BAD[bad]())
    except Exception:
        pass
    else:
        raise Fail('%s was accepted' % bad)
    for u, v in zip(f.filter(np.ones(7)).tolist(), r.filter([1.] * 7)):
        expect(close(u, v), 'after the refusal: %r, expected %r', u, v)


class Block(np.ndarray):
    pass


def released(kind, form):
    """Filtered arrays are not kept alive."""
    f = make('compiled', kind, 3, .5)
    refs = []
    for i in range(20):
        x = np.ones((2, 2) if form == 'refused' else 5).view(Block)
        refs.append(weakref.ref(x))
        try:
            f.filter(x)
        except ValueError:
            pass
        del x
    for _ in range(4):
        gc.collect()
    n = sum(r() is not None for r in refs)
    expect(n <= 2, '%d of 20 arrays are still in memory after they were filtered', n)


FALLBACK = fallback()
CHECKS = dict(long=long, equation=equation, kept=kept, separate=separate, length=length, refused=refused, released=released)


def cases(rng, tier):
    forms = ['plain', 'list', 'tuple', 'strided', 'reversed', 'column', 'readonly', 'int', 'float32', 'swapped']
    for kind in NAMES:
        for k in (0, -1, 1, 2, 60 * 44100, 60 * 44100 + 1, 2 ** 31 - 1):
            yield 'length', dict(kind=kind, k=k)
        for b in BAD:
            yield 'refused', dict(kind=kind, bad=b)
        for form in ('plain', 'refused'):
            yield 'released', dict(kind=kind, form=form)
        for k in (1, 2, 3, 5, 8):
            for n in (1, 2, 3, 7, 20):
                yield 'equation', dict(variant='compiled', kind=kind, k=k, a=.5, xs=[float(1 + i * i % 7) for i in range(n)], cuts=[])
                yield 'equation', dict(variant='compiled', kind=kind, k=k, a=-.75, xs=[float(1 + i * i % 7) for i in range(n)], cuts=[n // 3, 0, n // 2])
        for form in forms:
            yield 'equation', dict(variant='compiled', kind=kind, k=4, a=.5, xs=[float(3 * i % 11 - 4) for i in range(23)], cuts=[1, 6, 0, 4], form=form)
        yield 'equation', dict(variant='compiled', kind=kind, k=4, a=None, xs=[float(3 * i % 11 - 4) for i in range(23)], cuts=[5, 6])
        yield 'equation', dict(variant='compiled', kind=kind, k=4, a=.5, xs=[float(3 * i % 11 - 4) for i in range(23)], cuts=[5, 6], alphas=[.1, .9])
        for k, n in ((1, 5), (3, 2), (3, 5), (6, 6)):
            yield 'kept', dict(variant='compiled', kind=kind, k=k, sizes=[n] * 5)
            yield 'separate', dict(variant='compiled', kind=kind, k=k, n=n)
        for k, size, n in ((300, 256, 40), (5000, 256, 60), (33000, 5000, 20), (66000, 10 ** 4, 20), (132300, 2 * 10 ** 4, 20)):
            yield 'long', dict(variant='compiled', kind=kind, k=k, size=size, blocks=n, seed=k)
        yield 'long', dict(variant='fallback', kind=kind, k=1400, size=256, blocks=20, seed=7)
        # fallback: delay at least the block
        for k in (1, 3, 8, 200, 400):
            for c in sorted({1, min(k, 2), min(k, 5), min(k, 256), max(1, k // 2)}):
                n = min(5 * k + 3, 900)
                cuts = [c] * (n // c) if c else []
                yield 'equation', dict(variant='fallback', kind=kind, k=k, a=.5, xs=[float(1 + i * i % 7) for i in range(c * len(cuts))], cuts=cuts[:-1])
        for k, n in ((3, 2), (6, 6)):
            yield 'kept', dict(variant='fallback', kind=kind, k=k, sizes=[n] * 5)
            yield 'separate', dict(variant='fallback', kind=kind, k=k, n=n)
        for k in (255, 256, 257):
            yield 'equation', dict(variant='compiled', kind=kind, k=k, a=.6, xs=[float(i * 7 % 13) for i in range(1000)], cuts=[256, 256, 256])
            m = min(k, 256)
            yield 'equation', dict(variant='fallback', kind=kind, k=k, a=.6, xs=[float(i * 7 % 13) for i in range(4 * m)], cuts=[m] * 3)
    while True:
        kind = rng.choice(list(NAMES))
        k = rng.choice([1, 1, 2, 3, 4, 7, 10, 31])
        n = rng.randrange(0, 60)
        form = rng.choice(forms)
        a = rng.choice([None, 0., 1., -1., .5, 1.5, rng.uniform(-1, 1)])
        xs = [float(rng.randrange(-9, 10)) for _ in range(n)]
        cuts, left = [], n
        variant = rng.choice(['compiled', 'compiled', 'fallback'])
        alphas = rng.choice([None, None, [.5, .25, -.5]])
        while left > 0 and rng.random() < .9:
            c = rng.randrange(0, min(left, k if variant == 'fallback' else 12) + 1)
            cuts.append(c)
            left -= c
        if variant == 'fallback':
            form = 'plain'
            xs = xs[:sum(cuts)]
        yield 'equation', dict(variant=variant, kind=kind, k=k, a=a, xs=xs, cuts=cuts, form=form, alphas=alphas)


if __name__ == '__main__':
    main('C07', CHECKS, cases, journal=True)

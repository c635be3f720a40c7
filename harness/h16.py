from common import *
from klang.clock import ClockMixin
from klang.connections import MessageInput, MessageOutput
from klang.messages import Note
from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener


def rig(block, k=1):
    srcs = [MessageOutput() for _ in range(k)]
    for s, i in zip(srcs, block.inputs):
        s.connect(i)
    sent, out = [], MessageInput()
    out.push = sent.append
    block.output.connect(out)
    return srcs, sent


def same(a, b):
    return type(a) is type(b) and tuple(a) == tuple(b)


def off_of(n):
    return Note(n.pitch, 0., n.frequency)


def compare(sent, want, what):
    expect(len(sent) == len(want) and all(same(a, b) for a, b in zip(sent, want)), '%s: sent %r instead of %r', what, sent, want)


def lengthener(duration, schedule):
    b = NoteLengthener(duration)
    (src,), sent = rig(b)
    active = []
    old = ClockMixin.currentTime
    try:
        for k, (now, notes) in enumerate(schedule):
            ClockMixin.set_current_time(now)
            notes = [Note(*n) for n in notes]
            for n in notes:
                src.send(n)
            b.update()
            want = []
            while active and active[0][0] <= now:
                want.append(off_of(active.pop(0)[1]))
            for n in notes:
                if n.velocity > 0:
                    want.append(n)
                    active.append((now + duration, n))
            compare(sent, want, 'update %d at %g' % (k, now))
            del sent[:]
    finally:
        ClockMixin.set_current_time(old)


def limiter(maximum, schedule):
    b = MaxNotes(maximum)
    (src,), sent = rig(b)
    ons, ended, sounding = [], 0, 0
    for k, notes in enumerate(schedule):
        notes = [Note(*n) for n in notes]
        for n in notes:
            src.send(n)
        b.update()
        i = 0
        for n in notes:
            if n.velocity > 0:
                want = []
                if len(ons) - ended == maximum:
                    want.append(off_of(ons[ended]))
                    ended += 1
                ons.append(n)
                want.append(n)
                compare(sent[i:i + len(want)], want, 'update %d' % k)
                i += len(want)
        expect(i == len(sent), 'update %d: also sent %r', k, sent[i:])
        for m in sent:
            sounding += 1 if m.on else -1
            expect(sounding <= maximum, '%d notes sound', sounding)
        del sent[:]


def mixer(n, extra, schedule):
    b = MessageMixer(n)
    for _ in range(extra):
        b.add_new_channel()
    k = n + extra
    expect(b.nInputs == k, 'inputs')
    srcs, sent = rig(b, k)
    for u, groups in enumerate(schedule):
        want, c = [[] for _ in range(k)], 0
        for i in groups:
            if k:
                srcs[i % k].send((i % k, c))
                want[i % k].append((i % k, c))
            c += 1
        b.update()
        expect(sent == [x for w in want for x in w], 'update %d: forwarded %r instead of %r', u, sent, want)
        del sent[:]


CHECKS = dict(lengthener=lengthener, limiter=limiter, mixer=mixer)


def cases(rng, tier):
    def note():
        n = (rng.choice([60, 62, 64, 60, rng.randrange(128)]), rng.choice([1., .5, 0., 1e-9, .25]))
        return n + ((rng.choice([0., 100., 440.]),) if rng.random() < .3 else ())
    for _ in range(5000 if tier == 'thorough' else 700):
        now, sched = rng.choice([0., 3.25]), []
        for _ in range(rng.randrange(1, 16)):
            sched.append((now, [note() for _ in range(rng.choice([0, 0, 1, 2, 5]))]))
            now += rng.choice([0., .125, .125, .25, .5, 3.])
        yield 'lengthener', dict(duration=rng.choice([0., .125, .25, .375, 1.]), schedule=sched)
        yield 'limiter', dict(maximum=rng.choice([1, 1, 2, 3, 8]), schedule=[[note() for _ in range(rng.choice([0, 1, 1, 2, 4, 12]))] for _ in range(rng.randrange(1, 8))])
        if _ % 100 == 0:
            sched, now = [], 0.
            for _ in range(40):
                sched.append((now, [note() for _ in range(30)]))
                now += .125
            yield 'lengthener', dict(duration=rng.choice([2.5, 3., 1.25]), schedule=sched + [(now + k, []) for k in range(4)])
            yield 'limiter', dict(maximum=rng.choice([100, 300, 700]), schedule=[[note() for _ in range(40)] for _ in range(30)])
        n, extra = rng.randrange(0, 4), rng.randrange(0, 3)
        yield 'mixer', dict(n=n, extra=extra, schedule=[[rng.randrange(12) for _ in range(rng.choice([0, 1, 5, 20]))] for _ in range(rng.randrange(1, 5))])


if __name__ == '__main__':
    main('C16', CHECKS, cases)

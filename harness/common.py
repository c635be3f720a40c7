"""Bounded execution of the real code (PyPy): enumerated and seeded-random cases, every failure replayable.

A harness module defines CHECKS {name: function(params)} raising Fail, and cases(rng, tier) yielding (name, params).
"""
import argparse
import json
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

REPO = os.environ.get('KLANG_REPO', '/repo')
SO_DIR = os.environ.get('KLANG_SO_DIR')


class Fail(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    pass


def expect(cond, msg, *args):
    if not cond:
        raise Fail(msg % args if args else msg)


def close(a, b, rel=1e-9, abs_=1e-9):
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), abs_)


def load_extensions():
    """Import C extensions built from the current source (SO_DIR), never stale build products."""
    import importlib.util
    import importlib.machinery
    if SO_DIR is None:
        return
    mods = {}
    for name in ('_filters', '_envelope'):
        path = os.path.join(SO_DIR, name + '.so')
        full = 'klang.audio.' + name
        if os.path.exists(path):
            loader = importlib.machinery.ExtensionFileLoader(full, path)
            spec = importlib.util.spec_from_file_location(full, path, loader=loader)
            mod = importlib.util.module_from_spec(spec)
            loader.exec_module(mod)
            sys.modules[full] = mods[name] = mod
        else:
            sys.modules[full] = None
    import klang.audio
    for name, mod in mods.items():
        setattr(klang.audio, name, mod)


def on_alarm(sig, frame):
    raise Hang()


def wrong_value(e):
    """The harness tripped over a value of the wrong type, shape or length (rather than over a changed interface)."""
    if isinstance(e, (ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError)):
        return True
    if isinstance(e, TypeError):
        return 'argument' not in str(e)
    if isinstance(e, AttributeError):
        if str(e).endswith(tuple("has no attribute '%s'" % a for a in ('input', 'output', 'inputs', 'outputs', 'value', 'update'))):
            return True
        return any("'%s' object" % t in str(e) for t in ('NoneType', 'bool', 'int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'numpy.ndarray', 'ndarray', 'numpy.float64', 'float64', 'function', 'method', 'Fraction', 'Decimal', 'deque', 'generator', 'range'))
    return False


def run_one(fn, params, limit):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        fn(**params)
        return None
    except Fail as e:
        return dict(message=str(e), key=e.key)
    except Hang:
        return dict(message='did not finish within %g s' % limit, key='hang')
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/klang/' in f.filename]
        loc = '%s:%d' % (os.path.basename(where[-1].filename), where[-1].lineno) if where else 'harness'
        if not where and wrong_value(e):
            return dict(message='a result cannot be used: %s: %s' % (type(e).__name__, e), key=None)
        if not where:
            return dict(harness_error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]), params=None)
        return dict(message='unexpected %s: %s (%s)' % (type(e).__name__, e, loc), key=None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main(prop, checks, cases, limit=10.0, journal=False):
    p = argparse.ArgumentParser()
    p.add_argument('--out')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--tier', default='quick')
    p.add_argument('--budget', type=float, default=40.0)
    p.add_argument('--replay')
    a = p.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        c = rec['case']
        params = eval(c['params'], {'Fraction': Fraction, 'inf': float('inf'), 'nan': float('nan')})
        r = run_one(checks[c['check']], params, 60)
        print('replay of %s: %s' % (c['check'], r or 'no failure'))
        sys.exit(1 if r else 0)
    rng = random.Random(a.seed)
    random.seed(a.seed)
    try:
        import numpy
        numpy.random.seed(a.seed)
    except ImportError:
        pass
    t0 = time.time()
    n, seen, failures, errors, per, samples = 0, set(), [], [], {}, []
    nfail, nerror = {}, {}
    stopped = False
    for name, params in cases(rng, a.tier):
        if time.time() - t0 > a.budget:
            stopped = True
            break
        if nfail.get(name, 0) >= 2 or nerror.get(name, 0) >= 4:
            continue
        key = (name, repr(params))
        if journal and a.out:
            with open(a.out + '.case', 'w') as f:
                json.dump(dict(check=name, params=repr(params)), f)
        r = run_one(checks[name], params, limit)
        n += 1
        per[name] = per.get(name, 0) + 1
        if hash(key) not in seen:
            seen.add(hash(key))
            if len(samples) < 6 and per[name] <= 2:
                samples.append('%s(%s)' % (name, repr(params)[:200]))
        if r is not None:
            if 'harness_error' in r:
                errors.append('%s(%s): %s' % (name, repr(params)[:300], r['harness_error']))
                nerror[name] = nerror.get(name, 0) + 1
            else:
                nfail[name] = nfail.get(name, 0) + 1
                failures.append(dict(check=name, params=repr(params), message=r['message'], key=r['key']))
    out = dict(property=prop, evaluations=n, distinct=len(seen), per_check=per, samples=samples, failures=failures, errors=errors,
               wall_s=time.time() - t0, budget_reached=stopped)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f, indent=1)
    else:
        print(json.dumps(out, indent=1))

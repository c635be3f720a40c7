#!/opt/veriftools/pyvenv/bin/python
"""Check one property: discharge its contracts on /repo's current source, execute the real code, report.

usage: python3-vt run.py C11 [--thorough] [--replay FILE] [--units SUBSTRING] [--no-harness] [-v]
"""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from pyvc import shapes
REPO = os.environ.get('KLANG_REPO', '/repo')
PYPY = '/opt/pypyvenv/bin/pypy3'


def pypy_env(so_dir):
    env = dict(os.environ)
    env.update(PYTHONPATH=REPO + ':' + os.path.join(VERIF, 'harness'), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1',
               PYNPUT_BACKEND='dummy', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', KLANG_SO_DIR=so_dir, KLANG_REPO=REPO)
    return env


def build_extensions(so_dir):
    """Compile the C extensions from the current source for PyPy."""
    inc = subprocess.run([PYPY, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
                         capture_output=True, text=True, env=pypy_env(so_dir)).stdout.split()
    procs = []
    for name in ('_filters', '_envelope'):
        src = os.path.join(REPO, 'klang', 'audio', name + '.c')
        if os.path.exists(src):
            procs.append(subprocess.Popen(['gcc', '-O2', '-fPIC', '-shared', '-w', '-include', os.path.join(VERIF, 'harness', 'guard.h'), src, '-o', os.path.join(so_dir, name + '.so')] + ['-I' + i for i in inc],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    for p in procs:
        p.communicate()


def unit_worker(conn, mod, idx, tier, scale=1):
    try:
        sys.setrecursionlimit(20000)
        import threading
        threading.stack_size(256 * 1024 * 1024)
        box = []

        def go():
            try:
                from pyvc.engine import V, verify
                V.SCALE = scale
                m = importlib.import_module(mod)
                u = m.U.units[idx]
                tl = u['time_limit'] * (3 if tier == 'thorough' else 1) * scale
                r = verify(u['name'], u['body'], time_limit=tl, overlay=u['overlay'])
                box.append(dict(name=u['name'], claim=u['claim'], obligations=r.obligations, unsupported=r.unsupported, paths=r.paths, live=r.live_paths,
                                functions=sorted(r.functions), contracts=sorted(r.contracts_used), loops=sorted(r.loops), assumed=sorted(r.assumed),
                                solver_time=r.solver_time, time=r.time, backend=r.backend))
            except BaseException as e:
                box.append(dict(name=str(idx), error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-3000:]))
        t = threading.Thread(target=go)
        t.start()
        t.join()
        conn.send(box[0])
    except BaseException as e:
        conn.send(dict(name=str(idx), error=repr(e), trace=''))
    finally:
        conn.close()


def run_units(mod, units, tier, jobs, which=None, scale=1, deadline=None):
    """Each unit in its own process, with a hard deadline."""
    ctx = mp.get_context('fork')
    todo = list(range(len(units))) if which is None else list(which)
    running, results = {}, {}
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            if not units[i].get('selected', True):
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=unit_worker, args=(b, mod, i, tier, scale))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, t) in list(running.items()):
            lim = units[i]['time_limit'] * (3 if tier == 'thorough' else 1) * 1.6 * scale + 20
            if deadline is not None:
                lim = min(lim, deadline - t)
            if a.poll(0.02):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = dict(name=units[i]['name'], error='worker died', trace='')
                p.join()
                del running[i]
            elif time.time() - t > lim or not p.is_alive():
                if p.is_alive():
                    p.kill()
                p.join()
                results[i] = dict(name=units[i]['name'], error='hard time limit' if time.time() - t > lim else 'worker died', trace='')
                del running[i]
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--units')
    ap.add_argument('--no-harness', action='store_true')
    ap.add_argument('--no-units', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=6)
    a = ap.parse_args()
    prop = a.prop
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='klang-%s-' % prop)
    try:
        rc = check(a, prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(a, prop, tier, seed, t0, scratch):
    hpath = os.path.join(VERIF, 'harness', 'h%s.py' % prop[1:])
    build_extensions(scratch)
    if a.replay:
        return subprocess.run([PYPY, hpath, '--replay', os.path.abspath(a.replay)], env=pypy_env(scratch), cwd=scratch).returncode
    hproc, hout = None, os.path.join(scratch, 'harness.json')
    hbudget = 150.0 if tier == 'thorough' else 45.0
    if os.path.exists(hpath) and not a.no_harness:
        hlog = open(os.path.join(scratch, 'harness.log'), 'w')
        hproc = subprocess.Popen([PYPY, hpath, '--out', hout, '--seed', str(seed), '--tier', tier, '--budget', str(hbudget)],
                                 env=pypy_env(scratch), cwd=scratch, stdout=hlog, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    hstart = time.time()

    # deductive part
    mods = [os.path.basename(p)[:-3] for p in glob.glob(os.path.join(VERIF, 'contracts', 'c%s_*.py' % prop[1:]))]
    results, units, modname, meta = {}, [], None, None
    load_error = None
    if mods and not a.no_units:
        modname = 'contracts.' + mods[0]
        try:
            meta = importlib.import_module(modname)
            units = meta.U.units
            if a.units:
                for u in units:
                    u['selected'] = a.units in u['name']
            results = run_units(modname, units, tier, a.jobs)
        except Exception as e:
            load_error = traceback.format_exc()
            if a.v:
                print(load_error)

    # harness result
    h = None
    crash = None
    if hproc is not None:
        try:
            hproc.wait(timeout=max(5, hbudget * 1.5 + 120 - (time.time() - hstart)))
        except subprocess.TimeoutExpired:
            hproc.kill()
            hproc.wait()
            crash = 'harness exceeded its time limit'
        if os.path.exists(hout):
            with open(hout) as f:
                h = json.load(f)
        else:
            with open(os.path.join(scratch, 'harness.log')) as f:
                log = f.read()[-3000:]
            sig = hproc.returncode
            crash = crash or 'harness ended with %s' % sig
            if os.path.exists(hout + '.case') and sig is not None and sig < 0 and sig != -9:
                with open(hout + '.case') as f:
                    case = json.load(f)
                h = dict(evaluations=1, distinct=1, per_check={}, samples=[], errors=[], wall_s=0,
                         failures=[dict(check=case['check'], params=case['params'], message='the process died with signal %d' % -sig, key='crash')])
            else:
                crash += '\n' + log
    # what the solver gave up on may be a matter of load: once more, with more time and fewer at once
    if modname and not (h or {}).get('failures'):
        again = [i for i, r in results.items() if r.get('error') == 'hard time limit' or 'time limit' in str(r.get('unsupported')) or
                 any(o['status'] == 'unknown' for o in r.get('obligations', {}).values()) and not any(o['status'] == 'refuted' for o in r['obligations'].values())]
        left = 420 - (time.time() - t0)
        if again and left > 60:
            for i, r in run_units(modname, units, tier, 3, again, 4, time.time() + left).items():
                if r.get('error') is None:
                    results[i] = r
    # collect
    nob = ndis = 0
    undis, unsup, funcs, contracts, loops, assumed, backend = [], [], set(), set(), set(), set(), {}
    solver = 0.
    unit_rows = []
    for i, u in enumerate(units):
        r = results.get(i)
        if r is None:
            continue
        if 'error' in r:
            unsup.append('%s: %s' % (u['name'], r['error']))
            if a.v:
                print('  UNIT %-50s ERROR %s\n%s' % (u['name'], r['error'], r['trace']))
            continue
        funcs.update(r['functions'])
        contracts.update(r['contracts'])
        loops.update(r['loops'])
        assumed.update(r['assumed'])
        solver += r['solver_time']
        for k, v in r['backend'].items():
            backend[k] = backend.get(k, 0) + v
        if r['unsupported']:
            unsup.append('%s: %s' % (u['name'], r['unsupported']))
        n = len(r['obligations'])
        ok = sum(o['status'] == 'proved' for o in r['obligations'].values())
        if r['unsupported'] is None and n == 0:
            undis.append(dict(unit=u['name'], obligation='(no obligation was generated)', status='vacuous', model=None, detail=''))
        bad = [(l, o) for l, o in r['obligations'].items() if o['status'] != 'proved']
        if bad and r['unsupported'] is None:
            changed = shapes.rewritten(REPO, set(r['functions']) | {l.split('#')[0] for l in r['loops']})
            if changed:
                r['unsupported'] = 'loops of %s were rewritten, the invariants do not fit (%s)' % (', '.join(changed), '; '.join(l for l, _ in bad[:3]))
                unsup.append('%s: %s' % (u['name'], r['unsupported']))
        if r['unsupported'] is None:
            nob += n
            ndis += ok
            for l, o in bad:
                undis.append(dict(unit=u['name'], obligation=l, status=o['status'], model=o['model'], detail=o['detail']))
        unit_rows.append(dict(unit=u['name'], claim=u['claim'][:300], obligations=n, discharged=ok, paths=r['paths'], seconds=round(r['time'], 2),
                              unsupported=r['unsupported']))
        if a.v:
            print('  UNIT %-50s %3d/%3d obligations, %3d paths, %6.1fs %s' % (u['name'], ok, n, r['paths'], r['time'], 'UNSUPPORTED ' + r['unsupported'] if r['unsupported'] else ''))
            for l, o in r['obligations'].items():
                if o['time'] > 1.5:
                    print('      slow %5.1fs (%d) %s' % (o['time'], o['instances'], l))
            for l, o in bad:
                print('      %s %s\n         %s\n         %s' % (o['status'].upper(), l, o['model'], o['detail'][:600]))
    if load_error:
        unsup.append('contract file: ' + load_error[-400:])

    known = []
    kf = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)['findings'] if k.get('property') == prop and k.get('status') == 'open']
    failures, knownhit = [], set()
    for f in (h or {}).get('failures', []):
        k = next((k for k in known if k['check'] == f['check'] and k['key'] == f['key']), None)
        if k is not None:
            knownhit.add(k['what'])
        else:
            failures.append(f)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    violation = None
    evdir = os.path.join(VERIF, 'evidence') if not a.no_evidence else scratch
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.json')
    if os.path.exists(rpath):
        os.unlink(rpath)
    replay_cmd = 'python3-vt run.py %s --replay %s' % (prop, os.path.relpath(rpath, VERIF))
    if failures:
        violation = 'input'
        with open(rpath, 'w') as f:
            json.dump(dict(property=prop, case=failures[0], all_failures=failures, undischarged=undis, replay_cmd=replay_cmd), f, indent=1)
    elif undis:
        violation = 'obligation'
        with open(rpath, 'w') as f:
            json.dump(dict(property=prop, failed_obligations=undis, note='no failing input found', cmd='python3-vt run.py %s -v' % prop), f, indent=1)

    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/run.py %s -v' % prop,
               trusted_base=['pyvc (verification condition generator, /verif/pyvc)', 'z3 4.x python binding (python3-vt)', 'cvc5 1.1.2 as second opinion',
                             'clang 18 AST (C sources)'] + sorted(x for x in assumed if x.startswith('contract of ')),
               functions_executed_from_source=sorted(funcs), functions_replaced_by_contract=sorted(contracts), loops_with_invariant=sorted(loops),
               units=unit_rows, undischarged=undis[:20], outside_fragment=unsup, solver_seconds=round(solver, 2), backends=backend,
               bounded=dict(what='real code executed on PyPy against the same statements; not counted as proved',
                            evaluations=(h or {}).get('evaluations', 0), distinct=(h or {}).get('distinct', 0), per_check=(h or {}).get('per_check', {}),
                            samples=(h or {}).get('samples', []), errors=(h or {}).get('errors', []) + ([crash] if crash else []),
                            budget_reached=(h or {}).get('budget_reached')))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(meta, 'LEVEL', 'proof'), coverage=cov,
              assumptions=list(getattr(meta, 'ASSUMPTIONS', [])) + sorted(x for x in assumed if not x.startswith('contract of ')),
              wall_s=round(time.time() - t0, 2), violations=len(failures) if failures else (1 if undis else 0))
    if ev['level'] != 'proof':
        cov['explanation'] = getattr(meta, 'EXPLANATION', 'see DESIGN.md')
        cov['evaluations'] = (h or {}).get('evaluations', 0)
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d obligations discharged in %d units (%.1fs solver), %d bounded executions, %.1fs' %
          (prop, ndis, nob, len(unit_rows), solver, cov['bounded']['evaluations'], time.time() - t0))
    for x in unsup:
        print('  outside the verified fragment (bounded this run): %s' % x[:300])
    for x in cov['bounded']['errors']:
        print('  harness error: %s' % x[:1500])
    if violation == 'input':
        print('  %s(%s): %s' % (failures[0]['check'], failures[0]['params'][:400], failures[0]['message'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
        return 1
    if violation == 'obligation':
        for u in undis[:5]:
            print('  obligation not discharged (%s): %s / %s' % (u['status'], u['unit'], u['obligation']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
        return 1
    return 0


if __name__ == '__main__':
    main()

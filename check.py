#!/usr/bin/env python3-vt
"""Decides one property: checks every contract it depends on against the IR of
/repo's current sources, and runs the property's replay harnesses."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pkgutil
import queue
import shutil
import signal
import subprocess
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vcgen import build  # noqa

mp.set_start_method('fork', force=True)
T0 = time.time()


def load_specs():
    from vcgen import api
    import spec
    for m in sorted(x.name for x in pkgutil.iter_modules(spec.__path__)):
        importlib.import_module('spec.' + m)
    return api


def key_of(tu, defs):
    return tu + ('-' + hashlib.sha1(' '.join(defs).encode()).hexdigest()[:8] if defs else '')


# ------------------------------------------------------------------ verifier
def run_task(t, mod, tier, q, gkey):
    from vcgen import api
    from vcgen.solver import Solver
    res = {'task': t.name, 'key': gkey, 'unsupported': None, 'obls': []}
    t0 = time.time()
    s = Solver(cross=(tier == 'thorough'))
    T = None
    try:
        T = api.Task(mod, s, t.fn)
        res['fn'] = T.label
        t.body(T)
    except (api.Unsupported, api.IRError, api.CannotMerge) as e:
        res['unsupported'] = '%s: %s' % (type(e).__name__, e)
    except KeyError as e:
        res['unsupported'] = 'not found in the sources: %s' % e
        res['trace'] = traceback.format_exc(limit=-4)
    except RecursionError:
        res['unsupported'] = 'term too deep'
    except Exception as e:
        res['unsupported'] = 'engine: %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc(limit=-6)
    if T is not None:
        ex = T.ex
        for o in ex.obls:
            d = {'id': o.ident(), 'kind': o.kind, 'status': o.status, 'time': round(o.time, 3), 'backend': o.backend, 'info': o.info}
            if o.status != 'valid':
                try:
                    d['goal'] = str(o.goal)[:4000]
                    d['model'] = str(o.model)[:6000] if o.model is not None else ''
                    d['assumptions'] = [str(x)[:400] for x in (o.pc or [])][-40:]
                except Exception:
                    pass
            res['obls'].append(d)
        res['returns'] = T.returns
        res['inlined'] = sorted(ex.inlined)
        res['contracts'] = sorted(x for x in ex.contracts if x in ex.used_models)
        res['models'] = sorted(x for x in ex.used_models if x not in ex.contracts)
        res['assumed'] = sorted(ex.assumptions)
        res['loops'] = [[n, str(l), len(i)] for n, l, i, k in ex.loops_done]
        if T.vacuous:
            res['unsupported'] = res['unsupported'] or 'vacuous: ' + T.vacuous
    res['solver_s'] = round(s.t_total, 2)
    res['queries'] = s.n
    res['backends'] = s.backends
    res['crossed'] = s.crossed
    res['cross_fail'] = s.cross_fail
    res['time'] = round(time.time() - t0, 2)
    q.put(res)
    q.close()
    q.join_thread()
    os._exit(0)


def group(gkey, tu, defs, tasks, tier, q, sem, outdir, limit):
    os.setpgid(0, 0)
    ll = os.path.join(outdir, gkey + '.ll')

    def skip(why):
        for t in tasks:
            q.put({'task': t.name, 'key': gkey, 'unsupported': why, 'obls': []})
        q.close()
        q.join_thread()
        os._exit(0)
    with sem:
        rc, out = build.run(build.ir_cmd(tu, defs, ll))
        if rc:
            skip('tu/%s.cpp does not compile: %s' % (tu, '\n'.join(out.splitlines()[-6:])))
        try:
            from vcgen.ir import Module
            sys.setrecursionlimit(20000)
            mod = Module(ll)
        except Exception as e:
            skip('IR of tu/%s.cpp: %s' % (tu, e))
    ps = []
    for t in tasks:
        sem.acquire()
        p = mp.Process(target=run_task, args=(t, mod, tier, q, gkey))
        p.start()

        def wait(p=p, t=t):
            p.join(limit)
            if p.is_alive():
                p.kill()
                p.join()
                q.put({'task': t.name, 'key': gkey, 'unsupported': 'no answer within %d s' % limit, 'obls': []})
            elif p.exitcode != 0:
                q.put({'task': t.name, 'key': gkey, 'unsupported': 'the verifier ended with status %s' % p.exitcode, 'obls': []})
            sem.release()
        th = threading.Thread(target=wait)
        th.start()
        ps.append(th)
    for th in ps:
        th.join()
    q.close()
    q.join_thread()
    os._exit(0)


# ---------------------------------------------------------------- falsifiers
def run_falsifier(f, prop, tier, seed, outdir, res):
    os.makedirs(outdir, exist_ok=True)
    exe = os.path.join(outdir, f.name)
    t0 = time.time()
    r = {'name': f.name, 'built': False, 'violation': None, 'evaluations': 0, 'distinct': 0, 'samples': [], 'rule': f.rule}
    res[f.name] = r
    flags = f.flags() if callable(f.flags) else f.flags
    rc, out, cmd = build.native(f.src, flags, exe)
    r['build_s'] = round(time.time() - t0, 1)
    if rc:
        r['error'] = 'build: ' + '\n'.join(out.splitlines()[:12])
        return
    r['built'] = True
    scratch = os.path.join(outdir, f.name + '.scratch')
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    budget = f.budget if tier == 'quick' else f.budget * 8
    args = [exe, '--seed=%d' % seed, '--budget=%g' % budget, '--prop=' + prop] + (['--thorough'] if tier == 'thorough' else []) + list(f.args)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
               UBSAN_OPTIONS='print_stacktrace=0', HOME=scratch)
    t1 = time.time()
    limit = budget * 4 + 90
    try:
        p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=scratch, env=env, text=True,
                             errors='replace', start_new_session=True)
        try:
            out, _ = p.communicate(timeout=limit)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            rc = -999
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    r['run_s'] = round(time.time() - t1, 1)
    r['cmd'] = cmd + '\n' + ' '.join(args)
    for l in out.splitlines():
        if l.startswith('OK evaluations='):
            a = dict(x.split('=') for x in l[3:].split())
            r['evaluations'], r['distinct'] = int(a['evaluations']), int(a['distinct'])
        elif l.startswith('SAMPLE '):
            r['samples'].append(l[7:])
    if rc == 0 and r['evaluations']:
        return
    fail = [l for l in out.splitlines() if l.startswith('FAIL: ')]
    if rc == 77:
        r['built'] = False
        r['error'] = 'the harness cannot run here: ' + out[-500:]
        return
    r['violation'] = (fail[0][6:] if fail else 'the harness %s (status %s)' % ('did not return' if rc == -999 else 'crashed', rc))
    r['output'] = out[-12000:]


def known_findings():
    k = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('property='):
                pid, _, rest = l[9:].partition(' ')
                ident, _, text = rest.partition(' :: ')
                k.append((pid, ident.strip(), text.strip()))
    return k


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--no-falsify', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    api = load_specs()
    if a.selftest or not a.prop:
        from vcgen import selftest
        return selftest.main()
    prop = a.prop
    outdir = os.path.join(HERE, 'out', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tasks = [t for t in api.TASKS if prop in t.props and (a.tier == 'thorough' or not t.thorough) and (not a.only or a.only in t.name)]
    fals = [] if a.no_falsify else [f for f in api.FALSIFIERS if prop in f.props and (a.tier == 'thorough' or not f.thorough)]
    if not tasks and not fals:
        print('no machinery for property ' + prop)
        return 2
    limit = 330 if a.tier == 'quick' else 1500
    groups = {}
    for t in tasks:
        groups.setdefault((t.tu, t.defs), []).append(t)
    q = mp.Queue()
    sem = mp.Semaphore(max(1, a.j))
    procs = []
    for (tu, defs), ts in groups.items():
        p = mp.Process(target=group, args=(key_of(tu, defs), tu, defs, ts, a.tier, q, sem, outdir, limit))
        p.start()
        procs.append(p)
    fres = {}
    fth = []

    def fal_all():
        # two at a time
        ths = []
        s = threading.Semaphore(3)

        def one(f):
            with s:
                try:
                    run_falsifier(f, prop, a.tier, a.seed, os.path.join(outdir, 'fal'), fres)
                except Exception as e:
                    fres.setdefault(f.name, {}).update(name=f.name, built=False, error='driver: %s' % e, violation=None)
        for f in fals:
            th = threading.Thread(target=one, args=(f,))
            th.start()
            ths.append(th)
        for th in ths:
            th.join()
    ft = threading.Thread(target=fal_all)
    ft.start()
    want = {(t.name, key_of(t.tu, t.defs)) for t in tasks}
    results = {}
    deadline = T0 + (820 if a.tier == 'quick' else 3 * 3600)
    while len(results) < len(want) and time.time() < deadline:
        try:
            r = q.get(timeout=1)
            k = (r['task'], r['key'])
            if k not in results:
                results[k] = r
        except queue.Empty:
            if not any(p.is_alive() for p in procs) and q.empty():
                time.sleep(0.3)
                if q.empty():
                    break
    for p in procs:
        if p.is_alive():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        p.join(5)
    for k in want:
        results.setdefault(k, {'task': k[0], 'key': k[1], 'unsupported': 'no answer', 'obls': []})
    ft.join(max(1, deadline + 40 - time.time()))

    # ------------------------------------------------------------- verdict
    failed = []
    nobl = ndis = 0
    bounded = []
    for k in sorted(results):
        r = results[k]
        for o in r['obls']:
            nobl += 1
            if o['status'] == 'valid':
                ndis += 1
            else:
                failed.append((r, o))
        if r['unsupported']:
            bounded.append((r['task'], r['unsupported']))
    viol = [(n, r) for n, r in sorted(fres.items()) if r.get('violation')]
    kf = [x for x in known_findings() if x[0] == prop]
    shown = set()

    def is_known(text):
        for pid, ident, desc in kf:
            if ident in text:
                if (pid, ident) not in shown:
                    shown.add((pid, ident))
                    print('KNOWN-FINDING: property=%s %s' % (pid, desc or ident))
                return True
        return False
    failed = [(r, o) for r, o in failed if not is_known(o['id'])]
    viol = [(n, r) for n, r in viol if not is_known(r['violation'] + '\n' + r.get('output', ''))]
    if a.v:
        for k in sorted(results):
            r = results[k]
            print('%-40s %s obligations %d time %s solver %s %s' % (r['task'], r['key'], len(r['obls']), r.get('time'), r.get('solver_s'), r['unsupported'] or ''))
            if r.get('trace'):
                print(r['trace'])
        for n, r in sorted(fres.items()):
            print('harness %-30s %s' % (n, {x: r.get(x) for x in ('built', 'build_s', 'run_s', 'evaluations', 'distinct', 'error', 'violation')}))
    for t, why in bounded:
        print('BOUNDED: %s is outside the verifier\'s reach on this tree (%s); only the bounded harnesses decide it' % (t, why.splitlines()[0]))
    for r, o in failed:
        print('OBLIGATION NOT DISCHARGED (%s): %s [%s] task %s %s' % (o['status'], o['id'], o['kind'], r['task'], o['info']))
    for n, r in sorted(fres.items()):
        if not r.get('built'):
            print('HARNESS %s unavailable: %s' % (n, r.get('error')))
    cross = [c for r in results.values() for c in r.get('cross_fail', [])]
    for c in cross:
        print('SOLVER DISAGREEMENT: %s' % (c,))
    nv = 0
    rc = 0
    if viol or failed:
        rc = 1
        rp = os.path.join(outdir, 'violation.txt')
        with open(rp, 'w') as f:
            f.write('property %s\n\n' % prop)
            for n, r in viol:
                f.write('== failing input, replayed against the real code by harness %s ==\n%s\n\nbuild and run:\n%s\n\noutput:\n%s\n\n' % (n, r['violation'], r['cmd'], r['output']))
            for r, o in failed:
                f.write('== failed obligation ==\n%s\nkind: %s\nstatus: %s (%s)\nfunction under contract: %s\n%s\ngoal:\n%s\n\nverifier counterexample:\n%s\n\nassumptions (last):\n%s\n\n' % (
                    o['id'], o['kind'], 'counterexample' if o['status'] == 'cex' else o['status'], o['backend'], r.get('fn'), o['info'],
                    o.get('goal'), o.get('model') or 'none', '\n'.join(o.get('assumptions', []))))
        for n, r in viol:
            print('FAILING INPUT (%s): %s' % (n, r['violation']))
            cs = [l for l in r['output'].splitlines() if l.startswith('CASE: ')]
            if cs:
                print('  ' + cs[0][:2000])
        nv = len(viol) + len(failed)
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if viol else ' no-failing-input-found'))
    elif bounded and not any(r.get('built') for r in fres.values()):
        print('neither the verifier nor a harness could decide the property')
        rc = 2
    # ------------------------------------------------------------- evidence
    from vcgen import trusted
    bk = {}
    inl, mods, con, asm = set(), set(), set(), set()
    for r in results.values():
        for b, n in r.get('backends', {}).items():
            bk[b] = bk.get(b, 0) + n
        inl |= set(r.get('inlined', []))
        mods |= set(r.get('models', []))
        con |= set(r.get('contracts', []))
        asm |= set(r.get('assumed', []))
    cov = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, a.tier),
        'trusted_base': trusted.BASE + ['assumed contract: ' + trusted.describe(m) for m in sorted(mods)],
        'functions_under_contract': [{'task': r['task'], 'function': r.get('fn'), 'obligations': len(r['obls']),
                                      'discharged': sum(o['status'] == 'valid' for o in r['obls']),
                                      'paths_returning': r.get('returns'), 'loops_with_inferred_invariants': r.get('loops'),
                                      'time_s': r.get('time'), 'solver_s': r.get('solver_s'), 'config': r['key']}
                                     for k, r in sorted(results.items()) if not r['unsupported']],
        'verified_inline_in_their_callers': sorted(inl)[:400],
        'callees_replaced_by_proved_contracts': sorted(con),
        'outside_verifier_reach_bounded_only': [{'task': t, 'reason': w} for t, w in bounded],
        'obligations_by_backend': bk,
        'solver_s': round(sum(r.get('solver_s', 0) for r in results.values()), 2),
        'solver_queries': sum(r.get('queries', 0) for r in results.values()),
        'cross_checked_with_second_solver': sum(r.get('crossed', 0) for r in results.values()),
        'bounded_harnesses': [{x: r.get(x) for x in ('name', 'built', 'error', 'evaluations', 'distinct', 'rule', 'samples', 'run_s')} for n, r in sorted(fres.items())],
        'evaluations': sum(r.get('evaluations', 0) for r in fres.values()),
        'distinct_nontrivial': sum(r.get('distinct', 0) for r in fres.values()),
        'rule': 'bounded replay harnesses only; every obligation counted above is for all inputs. ' + ' | '.join(sorted({r.get('rule') or '' for r in fres.values()})),
        'samples': [s for n, r in sorted(fres.items()) for s in r.get('samples', [])[:3]],
    }
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': 'proof', 'coverage': cov,
          'assumptions': trusted.ASSUMPTIONS + sorted(asm) + trusted.for_property(prop),
          'wall_s': round(time.time() - T0, 2), 'violations': nv}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for x in os.listdir(outdir):
        if x.endswith('.ll'):
            os.unlink(os.path.join(outdir, x))
    if not viol:
        shutil.rmtree(os.path.join(outdir, 'fal'), ignore_errors=True)
    print('%s: %s; obligations %d, discharged %d, %d functions, harness cases %d, %.0f s' % (
        prop, 'VIOLATED' if rc == 1 else 'UNDECIDED' if rc else 'held on everything explored', nobl, ndis,
        len(results) - len(bounded), cov['evaluations'], time.time() - T0))
    return rc


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

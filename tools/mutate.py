#!/usr/bin/env python3-vt
"""Development tool: mutation sweep. Changes one operator of the sources at a
time (in a copy of the repository), rebuilds the IR and runs the verification
tasks that execute a changed function. Reports the changes no task notices.

  VERIF_REPO=/scratch/copy tools/mutate.py base            # run everything once
  VERIF_REPO=/scratch/copy tools/mutate.py run FILE [FROM-TO] [N]   # mutants of a file
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import pkgutil
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
mp.set_start_method('fork', force=True)
from vcgen import api, build  # noqa
import spec  # noqa
for m in sorted(x.name for x in pkgutil.iter_modules(spec.__path__)):
    importlib.import_module('spec.' + m)
from vcgen.ir import Module  # noqa
from vcgen.solver import Solver  # noqa

W = os.environ.get('MUT_DIR', '/tmp/mu')
JOBS = int(os.environ.get('JOBS', '8'))
os.makedirs(W, exist_ok=True)


def gkey(tu, defs):
    return tu + ('-' + hashlib.sha1(' '.join(defs).encode()).hexdigest()[:8] if defs else '')


def groups():
    g = {}
    for t in api.TASKS:
        g.setdefault((t.tu, t.defs), []).append(t)
    return g


def compile_(k, out):
    p = subprocess.run(build.ir_cmd(k[0], k[1], out), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def bodies(path):
    """Hash of every function (and of the constants) without debug information."""
    r = {}
    cur = None
    h = None
    for l in open(path):
        l = re.sub(r',? ?!\w+ !\d+', '', l)
        l = re.sub(r' #\d+', '', l)
        if l.startswith('define '):
            cur = re.search(r'@("[^"]*"|[\w.$]+)\(', l).group(1)
            h = hashlib.sha1(l.encode())
        elif l.startswith('}') and cur:
            r[cur] = h.hexdigest()
            cur = None
        elif cur:
            if 'llvm.dbg.' in l:
                continue
            h.update(l.encode())
        elif l.startswith('@'):
            r[l.split(' ')[0]] = hashlib.sha1(l.encode()).hexdigest()
    return r


def one(t, mod, q):
    t0 = time.time()
    r = {'name': t.name, 'key': gkey(t.tu, t.defs), 'uns': None, 'bad': [], 'fns': [], 'n': 0}
    T = None
    try:
        T = api.Task(mod, Solver(), t.fn)
        t.body(T)
    except Exception as e:
        r['uns'] = '%s: %s' % (type(e).__name__, e)
    if T is not None:
        r['bad'] = [o.ident() for o in T.ex.obls if o.status != 'valid']
        r['n'] = len(T.ex.obls)
        r['fns'] = sorted(set(T.ex.inlined) | {T.label})
        if T.vacuous:
            r['uns'] = 'vacuous'
    r['time'] = time.time() - t0
    q.put(r)
    q.close()
    q.join_thread()
    os._exit(0)


def run_tasks(ts, mods, stop, limit):
    """ts in order; stop at the first failure."""
    q = mp.Queue()
    live, out = {}, []
    ts = list(ts)
    i = 0
    end = time.time() + limit
    bad = None
    while i < len(ts) or live:
        while i < len(ts) and len(live) < JOBS and bad is None:
            t = ts[i]
            i += 1
            p = mp.Process(target=one, args=(t, mods[(t.tu, t.defs)], q))
            p.start()
            live[(t.name, gkey(t.tu, t.defs))] = p
        try:
            r = q.get(timeout=1)
            out.append(r)
            p = live.pop((r['name'], r['key']), None)
            if p:
                p.join()
            if stop and (r['bad'] or r['uns']) and bad is None:
                if r['bad']:
                    bad = r
        except Exception:
            pass
        if bad is not None or time.time() > end:
            for p in live.values():
                p.kill()
                p.join()
            if bad is None and (live or i < len(ts)):
                out.append({'name': 'TIMEOUT', 'uns': 'timeout', 'bad': [], 'n': 0, 'fns': [], 'time': limit, 'key': ''})
            break
        for k, p in list(live.items()):
            if not p.is_alive() and p.exitcode not in (0, None):
                live.pop(k)
                out.append({'name': k[0], 'key': k[1], 'uns': 'died', 'bad': [], 'fns': [], 'n': 0, 'time': 0})
    return bad, out


def deps(k):
    cmd = [x for x in build.ir_cmd(k[0], k[1], '/dev/null') if x not in ('-S', '-emit-llvm')]
    p = subprocess.run(cmd + ['-MM', '-MF', '-'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return {os.path.realpath(x) for x in p.stdout.replace('\\\n', ' ').split()[1:]}


def base():
    g = groups()
    mods, B, D = {}, {}, {}
    for k in g:
        ll = '%s/%s.ll' % (W, gkey(*k))
        rc, o = compile_(k, ll)
        if rc:
            sys.exit(o)
        mods[k] = Module(ll)
        B[k] = bodies(ll)
        D[k] = deps(k)
    bad, out = run_tasks(api.TASKS, mods, False, 7200)
    fn = {}
    for r in out:
        if r['bad'] or r['uns']:
            print('BASE', r['name'], r['uns'], r['bad'][:3])
        fn[(r['name'], r['key'])] = r
    names = {k: dict(mods[k].dem) for k in g}
    pickle.dump((B, D, fn, names), open(W + '/base.pkl', 'wb'))
    print('tasks', len(out), 'obligations', sum(r['n'] for r in out))


OPS = [
    (r'(?<![<>=!-])<(?![<=>])(?= )', '<='), (r'<=', '<'), (r'(?<![->=])>(?![>=])(?= )', '>='), (r'>=', '>'),
    (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
    (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '),
    (r'\+\+', '--'), (r'(?<![-\w])--(?=[\w;) ])', '++'), (r'\+=', '-='), (r'-=', '+='), (r'\*=', '+='),
    (r'\b0\b(?![.x])', '1'), (r'\b1\b(?![.\w])', '0'), (r'\b1\b(?![.\w])', '2'), (r'-1\b', '0'), (r'\b2\b', '3'), (r'\b0\.5\b', '0.25'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\bif \((?!err)', 'if (!('), (r'\bi\b', '(i+1)'), (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'),
    (r'\bmin\b', 'max'), (r'\bmax\b', 'min'),
]


def strip(src):
    """Positions that are code: comments and strings blanked."""
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(\\.|[^"\\])*"', lambda m: re.sub(r'[^\n]', '\x00', m.group(0)), src, flags=re.S)


def mutants(path, lo, hi):
    src = open(path).read()
    code = strip(src)
    pos = 0
    out = []
    for ln, (l, c) in enumerate(zip(src.split('\n'), code.split('\n')), 1):
        if lo <= ln <= hi and not re.match(r'^\s*(#|template|class|using|friend|typedef|public|private|enum|namespace|assert|virtual ~)', c) and 'assert' not in c and 'NDBG' not in c and 'log' not in c:
            for rx, new in OPS:
                for m in re.finditer(rx, c):
                    if new == 'if (!(':
                        # close the condition
                        d, j = 0, m.end() - 1
                        while j < len(c):
                            d += (c[j] == '(') - (c[j] == ')')
                            if d == 0:
                                break
                            j += 1
                        if d:
                            continue
                        n = l[:m.start()] + 'if (!(' + l[m.end():j] + '))' + l[j + 1:]
                    else:
                        n = l[:m.start()] + new + l[m.end():]
                    out.append((ln, l, n))
            # a statement left out
            if re.match(r'^\s+[\w>.:\[\]*&()-]+(\(.*\)| [-+*|]?= .*|\+\+|--);$', c) and not re.match(r'^\s*(return|delete)\b', c):
                out.append((ln, l, ';'))
            if re.match(r'^\s*(delete|free)\b', c):
                out.append((ln, l, ';'))
    return src, out


def run(f, lo, hi, n):
    B, D, fn, names = pickle.load(open(W + '/base.pkl', 'rb'))
    g = groups()
    path = os.path.join(build.REPO, f)
    src, ms = mutants(path, lo, hi)
    step = max(1, len(ms) // n) if n else 1
    ms = ms[::step]
    print(f, len(ms), 'mutants', flush=True)
    ks = [k for k in g if os.path.realpath(path) in D[k]]
    stat = {}
    try:
        for i, (ln, old, new) in enumerate(ms):
            L = src.split('\n')
            L[ln - 1] = new
            open(path, 'w').write('\n'.join(L))
            t0 = time.time()
            mods, changed, err = {}, {}, False
            import concurrent.futures as cf
            with cf.ThreadPoolExecutor(JOBS) as pool:
                rs = list(pool.map(lambda k: compile_(k, '%s/m-%s.ll' % (W, gkey(*k))), ks))
            if any(rc for rc, o in rs):
                stat['nocompile'] = stat.get('nocompile', 0) + 1
                continue
            todo = []
            allch = set()
            for k in ks:
                ll = '%s/m-%s.ll' % (W, gkey(*k))
                b = bodies(ll)
                ch = {x for x in set(b) | set(B[k]) if b.get(x) != B[k].get(x)}
                if not ch:
                    continue
                allch |= ch
                mods[k] = Module(ll)
                dem = {names[k].get(x) or mods[k].dem.get(x) or x for x in ch}
                glob = any(x.startswith('@') for x in ch)
                for t in g[k]:
                    r = fn.get((t.name, gkey(*k)))
                    if r and (glob or set(r['fns']) & (dem | ch)):
                        todo.append((r['time'], t))
            if not allch:
                st, why = 'same', ''
            elif not todo:
                st, why = 'UNTOUCHED', ' '.join(sorted(allch))[:200]
            else:
                bad, out = run_tasks([t for _, t in sorted(todo, key=lambda x: x[0])], mods, True, float(os.environ.get('LIM', '240')))
                uns = [r for r in out if r['uns']]
                if bad:
                    st, why = 'killed', bad['bad'][0]
                elif uns:
                    st, why = 'BOUNDED', uns[0]['name'] + ' ' + uns[0]['uns'][:150]
                else:
                    st, why = 'SURVIVED', '%d tasks' % len(todo)
            stat[st] = stat.get(st, 0) + 1
            if st != 'same' and (st != 'killed' or os.environ.get('VERB')):
                print('%s %s:%d [%s] -> [%s] %s (%.0f s)' % (st, f, ln, old.strip(), new.strip(), why, time.time() - t0), flush=True)
    finally:
        open(path, 'w').write(src)
    print('=', f, stat, flush=True)


if __name__ == '__main__':
    if build.REPO == '/repo':
        sys.exit('set VERIF_REPO to a copy')
    if sys.argv[1] == 'base':
        base()
    else:
        f = sys.argv[2]
        lo, hi = (int(x) for x in sys.argv[3].split('-')) if len(sys.argv) > 3 else (1, 10**9)
        run(f, lo, hi, int(sys.argv[4]) if len(sys.argv) > 4 else 0)

"""Building from /repo's current sources: LLVM IR for the verifier, native
programs for the replay harnesses."""
import concurrent.futures
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++'
BASE_DEFS = ['-DMAX_DIMENSIONS=4', '-DTHREADSAFE', '-DUSE_PTHREAD']
INC = ['-I' + REPO, '-I' + REPO + '/include', '-I' + VERIF + '/shim']
IRFLAGS = ['-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fstandalone-debug',
           '-fno-discard-value-names', '-w', '-S', '-emit-llvm']
SCHED = ['-Dpthread_%s=vs_%s' % (x, x) for x in
         ['spin_' + y for y in ('init', 'destroy', 'lock', 'trylock', 'unlock')] +
         ['mutex_' + y for y in ('init', 'destroy', 'lock', 'trylock', 'unlock')] +
         ['cond_' + y for y in ('init', 'destroy', 'wait', 'signal', 'broadcast')] +
         ['getspecific', 'setspecific', 'key_create', 'key_delete']]
# NUMA domain of a (simulated) thread chosen by the harness
VNUMA = ['-Dsched_getcpu=vs_getcpu', '-Dnuma_node_of_cpu=vs_node_of_cpu']
# communication thread of a simulated process
VMPI = ['-Dpthread_create=vs_create', '-Dpthread_join=vs_join', '-Dpthread_setaffinity_np=vs_setaffinity']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def mpi_flags(link=False):
    p = subprocess.run(['mpicxx', '--showme:link' if link else '--showme:compile'], stdout=subprocess.PIPE, text=True)
    return p.stdout.split()


def ir_cmd(tu, defs, out):
    fl = [d for d in defs if d not in ('mpi', 'tuinc')]
    if 'mpi' in defs:
        fl += mpi_flags() + ['-DOMPI_SKIP_MPICXX']
    return [CLANG] + IRFLAGS + BASE_DEFS + INC + fl + ['-I' + VERIF + '/tu', VERIF + '/tu/' + tu + '.cpp', '-o', out]


def native_cmds(src, flags, out):
    """Compiler calls (independent of each other) and the linker call."""
    fl = []
    srcs = []
    ld = []
    std, opt, san, dbg = '-std=c++11', '-O1', list(SAN), '-g'
    for f in flags:
        if f == 'sched':
            fl += SCHED
        elif f == 'vnuma':
            fl += SCHED + VNUMA
            srcs.append(REPO + '/numa/numa.cpp')
        elif f == 'vmpi':
            fl += VMPI + mpi_flags() + ['-DOMPI_SKIP_MPICXX']
        elif f == 'mpi':
            fl += mpi_flags() + ['-DOMPI_SKIP_MPICXX']
        elif f == 'mpilink':
            ld += mpi_flags(True)
        elif f == 'nosan':
            san = []
        elif f == 'asan':
            san = ['-fsanitize=address']
        elif f in ('-g0', '-g1'):
            dbg = f
        elif f.startswith('-O'):
            opt = f
        elif f.startswith('-std='):
            std = f
        elif f.startswith('-l'):
            ld.append(f)
        elif f.startswith('repo:'):
            srcs.append(REPO + '/' + f[5:])
        elif f.startswith('verif:'):
            srcs.append(VERIF + '/' + f[6:])
        else:
            fl.append(f)
    base = [CLANG, std, opt, dbg] + san + ['-w'] + BASE_DEFS + INC + ['-I' + VERIF + '/falsify'] + fl
    cc, objs = [], []
    for i, s in enumerate([VERIF + '/falsify/' + src] + srcs):
        o = '%s.%d.o' % (out, i)
        objs.append(o)
        cc.append(base + ['-c', s, '-o', o])
    return cc, [CLANG] + san + objs + ['-o', out, '-lpthread'] + ld


def native(src, flags, out):
    """Builds a harness; returns status, output and the commands."""
    cc, ld = native_cmds(src, flags, out)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(run, cc))
    text = '\n'.join(' '.join(c) for c in cc + [ld])
    for rc, o in rs:
        if rc:
            return rc, o, text
    rc, o = run(ld)
    for c in cc:
        if os.path.exists(c[-1]):
            os.remove(c[-1])
    return rc, o, text


def run(cmd, timeout=400):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

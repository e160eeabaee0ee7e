"""numa::Numa and numa::NumaComm: thread and domain numbers (C17), shared memory of the domains (C19);
threads::Once (C25)."""
from vcgen.api import *
from vcgen.exec import mki
from spec.common import *

TU = 'numa'
N = r'^numa::Numa::'
C = r'^numa::NumaComm::'
MP = r'^std::map<int, unsigned int.*>::'
VB = r'^std::vector<bool.*>::'
NODE = 128
SUCCESS, MPI_ERROR, THREAD_ERROR, NUMA_ERROR = 0, 1, 2, 3
W = 32


def errors(T):
    """Numbers of the error codes."""
    di = T.mod.di()
    return di


class Threads:
    """The state of numa::Numa in one round of registrations: S threads are registered; thread t runs on node(t)."""

    def __init__(self, T, v):
        self.T, self.v = T, v
        ex = T.ex
        self.vb = Region('special', 'masterThreads', None)
        self.nodes = Region('special', 'domains', None)
        self.mapoff, self.vboff = v.loc('m_domains')[0], v.loc('m_masterThreads')[0]
        self.fresh(T.st)
        T.ex.mem_hooks.insert(0, self.mem)
        c = T.contract

        def mine(p, off):
            if not (isinstance(p, PtrV) and p.r is v.p.r and EQ2(p.off, off) is True):
                raise Unsupported('another container')

        def key(ex, st, p):
            return ex.sv(st, ex.load(st, p, INT(32)))

        def m_size(ex, st, a, ins, dem):
            mine(a[0], self.mapoff)
            return [(st, IntV(64, st.ghost['D'], 0, 1 << 32))]
        c(MP + r'size\(\) const$', m_size)

        def m_end(ex, st, a, ins, dem):
            mine(a[0], self.mapoff)
            return [(st, PtrV(self.nodes, -NODE))]
        c(MP + r'(end|cend)\(\)( const)?$', m_end)

        def m_find(ex, st, a, ins, dem):
            mine(a[0], self.mapoff)
            k = key(ex, st, a[1])
            d = z3.Select(st.ghost['dom'], mki(k))
            out = []
            for cnd, off in ((d, k * NODE), (z3.Not(d), -NODE)):
                if ex.s.sat_quick(st.pc, [cnd]):
                    s = st.fork()
                    s.assume(cnd)
                    out.append((s, PtrV(self.nodes, off)))
            return out
        c(MP + r'find\(.*&\)( const)?$', m_find)

        def m_count(ex, st, a, ins, dem):
            mine(a[0], self.mapoff)
            return [(st, ex.bool2int(z3.Select(st.ghost['dom'], mki(key(ex, st, a[1]))), 64))]
        c(MP + r'count\(.*&\) const$', m_count)

        def insert(ex, st, k, val=0):
            g = st.ghost
            d = z3.Select(g['dom'], mki(k))
            g['val'] = z3.If(d, g['val'], z3.Store(g['val'], mki(k), mki(val)))
            g['D'] = z3.If(d, g['D'], g['D'] + 1)
            g['dom'] = z3.Store(g['dom'], mki(k), True)
            return d

        def m_index(ex, st, a, ins, dem):
            mine(a[0], self.mapoff)
            k = key(ex, st, a[1])
            insert(ex, st, k)
            return [(st, PtrV(self.nodes, k * NODE + 36))]
        c(MP + r'operator\[\]\(int (const&|&&)\)$', m_index)

        def m_at(ex, st, a, ins, dem):
            mine(a[0], self.mapoff)
            k = key(ex, st, a[1])
            ex.oblige(st, 'at() refers to an element', z3.Select(st.ghost['dom'], mki(k)), 'bounds')
            return [(st, PtrV(self.nodes, k * NODE + 36))]
        c(MP + r'at\(int const&\)( const)?$', m_at)

        def m_other(ex, st, a, ins, dem):
            raise Unsupported('no contract for ' + dem)
        T.ex.models.append((re.compile(MP), m_other))

        # vector of bool
        def b_size(ex, st, a, ins, dem):
            mine(a[0], self.vboff)
            return [(st, IntV(64, st.ghost['M'], 0, 1 << 33))]
        c(VB + r'size\(\) const$', b_size)

        def b_resize(ex, st, a, ins, dem):
            mine(a[0], self.vboff)
            n, val = ex.u(st, a[1]), ex.tobool(a[2])
            g = st.ghost
            new = z3.Const(fname('masters'), z3.ArraySort(I, B))
            j = z3.Int('j')
            st.assume(z3.ForAll([j], z3.Select(new, j) == z3.If(mkb(LTt(j, g['M'])), z3.Select(g['mst'], j), mkb(val)), patterns=[z3.Select(new, j)]))
            g['mst'], g['M'] = new, lit(n)
            return [(st, None)]
        c(VB + r'resize\(unsigned long, bool\)$', b_resize)

        def b_push(ex, st, a, ins, dem):
            mine(a[0], self.vboff)
            g = st.ghost
            g['mst'] = z3.Store(g['mst'], g['M'], mkb(ex.tobool(a[1])))
            g['M'] = g['M'] + 1
            return [(st, None)]
        c(VB + r'push_back\(bool\)$', b_push)

        def inside(ex, st, i):
            ex.oblige(st, 'index of a thread in masterThreads', AND(GE(i, 0), LTt(i, st.ghost['M'])), 'bounds')

        def b_index(ex, st, a, ins, dem):
            mine(a[0], self.vboff)
            i = ex.u(st, a[1])
            inside(ex, st, i)
            if ins and dem.endswith('const'):
                return [(st, BoolV(z3.Select(st.ghost['mst'], mki(i))))]
            return [(st, AggV([PtrV(self.vb, i), IntV(64, 1)]))]
        c(VB + r'(operator\[\]|at)\(unsigned long\)( const)?$', b_index)

        def ref(ex, st, p):
            q = ex.load(st, p, PTR)
            if not (isinstance(q, PtrV) and q.r is self.vb):
                raise Unsupported('another bit')
            return q.off

        def b_assign(ex, st, a, ins, dem):
            i = ref(ex, st, a[0])
            x = ex.tobool(a[1]) if isinstance(a[1], (IntV, BoolV)) else z3.Select(st.ghost['mst'], mki(ref(ex, st, a[1])))
            st.ghost['mst'] = z3.Store(st.ghost['mst'], mki(i), mkb(x))
            return [(st, a[0])]
        c(r'^std::_Bit_reference::operator=\(', b_assign)

        def b_bool(ex, st, a, ins, dem):
            return [(st, BoolV(z3.Select(st.ghost['mst'], mki(ref(ex, st, a[0])))))]
        c(r'^std::_Bit_reference::operator bool\(\) const$', b_bool)
        T.ex.models.append((re.compile(VB), m_other))

    def mem(self, ex, st, r, off, n, ty, v):
        if r is not self.nodes:
            return None
        q, rest = pdiv_mono(poly(off), (), NODE)
        k, f = unpoly(q), rest.get((), 0)
        if any(m for m in rest):
            raise Unsupported('map node')
        g = st.ghost
        ex.oblige(st, 'iterator refers to an element', AND(GE(k, 0), z3.Select(g['dom'], mki(k))), 'bounds')
        if f == 32 and v is None:
            return IntV(8 * n, k, 0, (1 << 31) - 1)
        if f == 36 and n == 4:
            if v is None:
                t = z3.Select(g['val'], mki(k))
                st.assume(AND(t >= 0, t < 1 << 32))
                return IntV(32, t, 0, (1 << 32) - 1)
            g['val'] = z3.Store(g['val'], mki(k), mki(ex.u(st, v)))
            return True
        raise Unsupported('map node field')

    # ------------------------------------------------------------- invariant
    KEYS = ('dom', 'val', 'mst', 'node', 'first', 'inv')

    def fresh(self, st):
        g = st.ghost
        for k in self.KEYS:
            g[k] = z3.Const(fname(k), z3.ArraySort(I, B if k in ('dom', 'mst') else I))
        g['D'], g['M'] = fint('D'), fint('M')
        st.assume(AND(g['D'] >= 0, g['M'] >= 0, g['M'] <= 1 << 33))

    def parts(self, g, S):
        """The invariant for all threads t, nodes k, domain numbers i."""
        sel = z3.Select
        per_t = lambda t: z3.Implies(z3.And(t >= 0, t < S), z3.And(
            t < g['M'], sel(g['node'], t) >= 0, sel(g['dom'], sel(g['node'], t)), sel(g['mst'], t) == (sel(g['first'], sel(g['node'], t)) == t)))
        later = lambda t: z3.Implies(z3.And(t >= S, t < g['M']), z3.Not(sel(g['mst'], t)))
        per_k = lambda k: z3.Implies(sel(g['dom'], k), z3.And(
            k >= 0, sel(g['val'], k) >= 0, sel(g['val'], k) < g['D'], sel(g['inv'], sel(g['val'], k)) == k,
            sel(g['first'], k) >= 0, sel(g['first'], k) < S, sel(g['node'], sel(g['first'], k)) == k))
        per_i = lambda i: z3.Implies(z3.And(i >= 0, i < g['D']), z3.And(sel(g['dom'], sel(g['inv'], i)), sel(g['val'], sel(g['inv'], i)) == i))
        return [('every registered thread has a domain, the first one of a domain is its master', per_t, g['node']), ('no other thread is a master', later, g['mst']),
                ('every domain has a number below the number of domains, different from all others, and a first thread', per_k, g['dom']),
                ('domain numbers have no gaps', per_i, g['inv'])]

    def assume_inv(self, st, S):
        x = z3.Int('x')
        for nm, p, arr in self.parts(st.ghost, S):
            st.assume(z3.ForAll([x], p(x), patterns=[z3.Select(arr, x)]))
        g = st.ghost
        st.assume(z3.ForAll([x], p_first(g, x, S), patterns=[z3.Select(g['first'], x)]))
        st.assume(AND(g['D'] <= S))

    def check_inv(self, ex, st, S):
        for nm, p, arr in self.parts(st.ghost, S):
            x = fint('x')
            ex.oblige(st, nm, p(x), 'protocol', assume=False)
        ex.oblige(st, 'there are not more domains than threads', st.ghost['D'] <= S, 'protocol', assume=False)


def p_first(g, k, S):
    return z3.Implies(z3.Select(g['dom'], k), z3.And(z3.Select(g['first'], k) < S, z3.Select(g['node'], z3.Select(g['first'], k)) == k))


def numa_obj(T):
    v = T.obj('numa::Numa')
    return v


def register(T, initialized):
    ex = T.ex
    v = numa_obj(T)
    th = Threads(T, v)
    v.set('m_initialized', initialized)
    total = v['m_totalThreads']
    T.assume(total >= 1)
    detect = fbool('detect')
    master = T.cell('masterThread', 1, value=IntV(8, 0))
    S = T.int('registered', 32).t
    node = T.int('numaNode', 32, signed=True, lo=-1).t
    cpu = T.int('cpu', 32, signed=True).t
    key = v['m_ptkey']
    want = z3.If(detect, node, z3.IntVal(0))
    g = T.st.ghost
    g['$phase'] = 0
    g['$set'] = None
    sync = v.loc('m_syncThreads')[0]
    T.contract(r'^sched_getcpu$', lambda ex, st, a, ins, dem: [(st, IntV(32, cpu, -(1 << 31), (1 << 31) - 1))])

    def c_node(ex, st, a, ins, dem):
        ex.oblige(st, 'the node of the cpu of the thread', EQ2(ex.sv(st, a[0]), cpu), 'contract')
        return [(st, IntV(32, node, -1, (1 << 31) - 1))]
    T.contract(r'^numa_node_of_cpu$', c_node)

    def mine(p):
        if not (p.r is v.p.r and EQ2(p.off, sync) is True):
            raise Unsupported('another barrier')

    def phase(ex, st, n, what):
        ex.oblige(st, what, st.ghost['$phase'] == n, 'protocol')

    def c_start(ex, st, a, ins, dem):
        mine(a[0])
        phase(ex, st, 0, 'the barrier is entered once')
        f = st.fork()
        f.ghost['$phase'] = 'failed'
        st.ghost['$phase'] = 1
        st.assume(AND(S >= 0, S < total))
        w = v.at(st)
        # the state other threads left; the last thread has not come yet
        th.fresh(st)
        w.set('m_initialized', False)
        th.assume_inv(st, S)
        for k in th.KEYS + ('D', 'M'):
            st.ghost['0' + k] = st.ghost[k]
        return [(st, BoolV(True)), (f, BoolV(False))]
    T.contract(r'^threads::Sync::startBarrier\(\)$', c_start)

    def c_waiting(ex, st, a, ins, dem):
        mine(a[0])
        phase(ex, st, 1, 'the number of waiting threads is read in the barrier')
        return [(st, IntV(32, S, 0, (1 << 32) - 1))]
    T.contract(r'^threads::Sync::waiting\(\) const$', c_waiting)

    def c_wait(ex, st, a, ins, dem):
        mine(a[0])
        phase(ex, st, 1, 'waits in the barrier')
        ex.oblige(st, 'waits for all threads', AND(EQ2(ex.u(st, a[1]), total), NOT(ex.tobool(a[2])) if len(a) > 2 else True), 'contract')
        g, w = st.ghost, v.at(st)
        sel = z3.Select
        # ghost: thread S runs on the node `want`
        new = z3.Not(sel(g['0dom'], want))
        g['node'] = z3.Store(g['node'], S, want)
        g['first'] = z3.If(new, z3.Store(g['first'], want, S), g['first'])
        g['inv'] = z3.If(new, z3.Store(g['inv'], g['0D'], want), g['inv'])
        th.check_inv(ex, st, S + 1)
        x = fint('x')
        ex.oblige(st, 'the numbers and masters of other threads do not change', z3.And(
            z3.Implies(sel(g['0dom'], x), z3.And(sel(g['dom'], x), sel(g['val'], x) == sel(g['0val'], x))),
            z3.Implies(z3.And(x >= 0, x < S), sel(g['mst'], x) == sel(g['0mst'], x))), 'protocol', assume=False)
        ex.oblige(st, 'the registration is complete when the last thread came', mkb(w['m_initialized']) == mkb(EQ(S + 1, total)), 'protocol', assume=False)
        ex.oblige(st, 'the thread knows if it is a master', mkb(EQ2(ex.u(st, ex.load(st, master, INT(8))), 1)) == sel(g['mst'], S), 'protocol', assume=False)
        g['$dom'] = sel(g['val'], want)
        g['$mst'] = sel(g['mst'], S)
        f = st.fork()
        f.ghost['$phase'] = 'failed'
        g['$phase'] = 2
        # all threads came
        old = dict(g)
        th.fresh(st)
        th.assume_inv(st, total)
        st.assume(sel(g['node'], S) == want)
        st.assume(sel(g['val'], want) == g['$dom'])
        st.assume(sel(g['mst'], S) == g['$mst'])
        w.set('m_initialized', True)
        return [(st, BoolV(True)), (f, BoolV(False))]
    T.contract(r'^threads::Sync::waitBarrier\(', c_wait)

    def c_end(ex, st, a, ins, dem):
        mine(a[0])
        phase(ex, st, 2, 'the barrier is left after all threads came')
        f = st.fork()
        f.ghost['$phase'] = 'failed'
        st.ghost['$phase'] = 3
        return [(st, BoolV(True)), (f, BoolV(False))]
    T.contract(r'^threads::Sync::endBarrier\(\)$', c_end)
    L = v.p.r
    for f, n in (('m_initialized', 1),):
        pass

    def c_set(ex, st, a, ins, dem):
        ex.oblige(st, 'the key of this object', EQ2(ex.u(st, a[0]), key), 'contract')
        f = st.fork()
        e = fint('error')
        f.assume(AND(e > 0, e < 200))
        f.ghost['$phase'] = 'failed'
        st.ghost['$set'] = ex.u(st, IntV(64, a[1].off)) if a[1].r is None else z3.IntVal(-1)
        return [(st, IntV(32, 0)), (f, IntV(32, e, 1, 199))]
    T.contract(r'^pthread_setspecific$', c_set)
    ids = z3.Int('ids')
    T.assume(ids >= 0, ids < 1 << 64)
    myid = T.int('threadId', 32)
    T.assume(AND(ids >= myid.t * (1 << W), ids < (myid.t + 1) * (1 << W)))

    def c_get(ex, st, a, ins, dem):
        ex.oblige(st, 'the key of this object', EQ2(ex.u(st, a[0]), key), 'contract')
        return [(st, PtrV(None, ids))]
    T.contract(r'^pthread_getspecific$', c_get)
    ex.merge_on = False
    if initialized:
        th.assume_inv(T.st, total)
        T.assume(myid.t < total)
    for st, ret in T.run([v.p, master, BoolV(detect)]):
        err = ex.sv(st, ret)
        g = st.ghost
        m = mkb(EQ2(ex.u(st, ex.load(st, master, INT(8))), 1))
        if initialized:
            T.ensure(st, 'success', EQ2(err, SUCCESS))
            T.ensure(st, 'the thread is a master if it was in the registration', m == z3.Select(g['mst'], myid.t))
            T.ensure(st, 'nothing is registered', g['$phase'] == 0 and g['$set'] is None)
            T.frame(st, [(master.r, 0, 1)])
            continue
        ok = AND(cpu >= 0, node >= 0)
        if g['$phase'] == 0:
            T.ensure(st, 'an unknown cpu or domain is reported', AND(NOT(ok), EQ2(err, NUMA_ERROR)))
            continue
        T.ensure(st, 'only threads of a known cpu and domain are registered', ok)
        if g['$phase'] == 'failed':
            T.ensure(st, 'a failed synchronisation is reported', EQ2(err, THREAD_ERROR))
            continue
        T.ensure(st, 'the barrier is left', g['$phase'] == 3)
        if g['$set'] is None:
            T.ensure(st, 'a key that could not be created is reported', AND(v.at(st)['m_keyError'], EQ2(err, THREAD_ERROR)))
            continue
        T.ensure(st, 'success', EQ2(err, SUCCESS))
        T.ensure(st, 'the thread keeps its number and the number of its domain', EQ2(g['$set'], S * (1 << W) + z3.Select(g['val'], want)))
        T.ensure(st, 'the thread is a master if it was the first of its domain', m == (z3.Select(g['first'], want) == S))
        T.ensure(st, 'its domain number is in the range', AND(z3.Select(g['val'], want) >= 0, z3.Select(g['val'], want) < g['D'], g['D'] <= total))
        T.frame(st, [(master.r, 0, 1), (v.p.r, v.loc('m_initialized')[0], 1)])


@task('Numa::registerThread, first open', ['C17'], TU, N + r'registerThread\(', defs=('mpi',))
def t_register(T):
    register(T, False)


@task('Numa::registerThread, later opens', ['C17'], TU, N + r'registerThread\(', defs=('mpi',))
def t_register2(T):
    register(T, True)


# -------------------------------------------------------- numbers of a thread
def idents(T, v):
    """The value registerThread stored for this thread."""
    t, d = T.int('thread', 32), T.int('domain', 32)
    key = v['m_ptkey']

    def c_get(ex, st, a, ins, dem):
        ex.oblige(st, 'the key of this object', EQ2(ex.u(st, a[0]), key), 'contract')
        return [(st, PtrV(None, t.t * (1 << W) + d.t))]
    T.contract(r'^pthread_getspecific$', c_get)
    return t, d


def reg_ident(f, which):
    @task('Numa::' + f, ['C17', 'C19'], TU, N + f + r'\(\) const$', defs=('mpi',))
    def t_ident(T):
        v = numa_obj(T)
        t, d = idents(T, v)
        for st, ret in T.run([v.p]):
            T.ensure(st, 'the number given at the registration', EQ2(T.ex.u(st, ret), (t if which == 't' else d).t))
            T.frame(st, [])


reg_ident('threadId', 't')
reg_ident('domainId', 'd')


def reg_total(f):
    @task('Numa::' + f, ['C17', 'C19'], TU, N + f + r'\(\) const$', defs=('mpi',))
    def t_total(T):
        v = numa_obj(T)
        th = Threads(T, v)
        T.assume(th.T.st.ghost['D'] <= v['m_totalThreads'])
        want = T.st.ghost['D'] if f == 'totalDomains' else v['m_totalThreads']
        for st, ret in T.run([v.p]):
            T.ensure(st, 'the number of ' + ('domains' if f == 'totalDomains' else 'threads'), EQ2(T.ex.u(st, ret), want))
            T.frame(st, [])


reg_total('totalThreads')
reg_total('totalDomains')


@task('Numa::setThreads', ['C17'], TU, N + r'setThreads\(', defs=('mpi',))
def t_setthreads(T):
    v = numa_obj(T)
    n = T.int('threads', 32)
    for st, ret in T.run([v.p, n]):
        T.ensure(st, 'the number of threads', AND(EQ2(v.at(st)['m_totalThreads'], n.t), EQ2(T.ex.sv(st, ret), SUCCESS)))
        T.frame(st, [(v.p.r, v.loc('m_totalThreads')[0], 4)])


def accessors(T, cls=r'^numa::Numa(Comm)?::'):
    """Contracts of the accessors (proved above) for a thread t of domain d of D."""
    D, d = T.int('D', 32, lo=1), T.int('d', 32)
    n, t = T.int('n', 32, lo=1), T.int('t', 32)
    T.assume(d.t < D.t, D.t <= n.t, t.t < n.t)
    for f, x in (('totalDomains', D), ('domainId', d), ('totalThreads', n), ('threadId', t)):
        const_contract(T, cls + f + r'\(\) const$', x)
    return D, d, n, t


def reg_comm(f):
    @task('NumaComm::' + f, ['C17', 'C19'], TU, C + f + r'\(\) const$', defs=('mpi',))
    def t_comm(T):
        v = T.obj('numa::NumaComm')
        nm = T.obj('numa::Numa', 'numa')
        v.ex.put(T.st, v.p.r, v.loc('m_numa')[0], 8, nm.p)
        x = T.int('number', 32)

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'the numbers of its process', a[0].r is nm.p.r and EQ2(a[0].off, 0), 'contract')
            return [(st, x)]
        T.contract(N + f + r'\(\) const$', c)
        for st, ret in T.run([v.p]):
            T.ensure(st, 'is the number', EQ2(T.ex.u(st, ret), x.t))
            T.frame(st, [])


for _f in ('totalThreads', 'totalDomains', 'threadId', 'domainId'):
    reg_comm(_f)


def sync_bcast(T, mine, size, me, root, n, R, what, pick=None):
    """Contract of Sync::broadcast (C18): all participants get the value of the root, or it fails."""
    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the barrier of ' + what, mine(a[0]), 'contract')
        ex.oblige(st, 'number of participants', EQ2(ex.u(st, a[2]), size), 'contract')
        ex.oblige(st, 'number of this participant', EQ2(ex.u(st, a[3]), me), 'contract')
        r = ex.u(st, a[4]) if len(a) > 4 else 0
        ex.oblige(st, 'root', EQ2(r, root), 'contract')
        st.ghost['$bcasts'] = st.ghost.get('$bcasts', 0) + 1
        out = []
        f = st.fork()
        f.ghost['$failed'] = True
        for isroot in (True, False):
            s = st.fork()
            s.assume(EQ2(me, root) if isroot else NOT(EQ2(me, root)))
            if not ex.s.sat_quick(s.pc):
                continue
            if not isroot:
                ex.put(s, a[1].r, a[1].off, n, R)
            else:
                s.ghost['$sent'] = ex.load(s, a[1], PTR if isinstance(R, PtrV) else INT(8 * n))
            out.append((s, BoolV(True)))
        return out + [(f, BoolV(False))]
    T.contract(r'^bool threads::Sync::broadcast<.*>\(', c)


@task('Numa::createComm', ['C17', 'C19'], TU, N + r'createComm\(\) const$', defs=('mpi',))
def t_createcomm(T):
    ex = T.ex
    v = numa_obj(T)
    D, d, n, t = accessors(T)
    other = T.obj('numa::NumaComm', 'comm')
    sync_bcast(T, lambda p: p.r is v.p.r and EQ2(p.off, v.loc('m_syncDomains')[0]), D.t, d.t, 0, 8, other.p, 'the domains')
    T.contract(r'^threads::Sync::Sync\(\)$', lambda ex, st, a, ins, dem: [(st, None)])
    for st, ret in T.run([v.p]):
        T.ensure(st, 'one broadcast', st.ghost.get('$bcasts') == 1)
        if st.ghost.get('$failed'):
            T.ensure(st, 'a failed broadcast is reported', ret.r is None)
            continue
        if ret.r is other.p.r:
            T.ensure(st, 'the communicator of the first domain', AND(NOT(EQ(d.t, 0)), EQ2(ret.off, 0)))
        else:
            T.ensure(st, 'the first domain creates the communicator', AND(EQ(d.t, 0), ret.r is not None and ret.r.heap, EQ2(ret.off, 0)))
            w = View(ex, st, ret, other.di)
            p = w.val('m_numa')
            T.ensure(st, 'of this process', AND(p.r is v.p.r, EQ2(p.off, 0)))
            s = st.ghost.get('$sent')
            T.ensure(st, 'and sends it to the others', s is not None and s.r is ret.r and EQ2(s.off, ret.off))
        T.frame(st, [])


def reg_bcastw(cls, ty, n):
    @task('%s::broadcast<%s>' % (cls, ty), ['C17', 'C19', 'C14'], TU, r'^asagi::Grid::Error numa::%s::broadcast<%s>\(' % (cls, ty), defs=('mpi',))
    def t_bc(T):
        ex = T.ex
        v = T.obj('numa::' + cls)
        D, d, nn, t = accessors(T)
        isn = cls == 'Numa'
        size, me = (nn, t) if isn else (D, d)
        root = T.int('root', 32)
        T.assume(root.t < size.t)
        T.assume(EQ2(v['m_totalThreads'], nn.t) if isn else True)
        R = T.int('value of the root', 8 * n, signed=n == 4)
        own = T.int('own value', 8 * n, signed=n == 4)
        data = T.cell('data', n, signed=n == 4, value=own)
        f = 'm_syncThreads' if isn else 'm_sync'
        sync_bcast(T, lambda p: p.r is v.p.r and EQ2(p.off, v.loc(f)[0]), size.t, me.t, root.t, n, R, 'the ' + ('threads' if isn else 'domains'))
        for st, ret in T.run([v.p, data, root]):
            T.ensure(st, 'one broadcast', st.ghost.get('$bcasts') == 1)
            if st.ghost.get('$failed'):
                T.ensure(st, 'a failed broadcast is reported', EQ2(ex.sv(st, ret), THREAD_ERROR))
                continue
            T.ensure(st, 'success', EQ2(ex.sv(st, ret), SUCCESS))
            x = ex.sv(st, ex.load(st, data, INT(8 * n))) if n == 4 else ex.u(st, ex.load(st, data, INT(8 * n)))
            T.ensure(st, 'the value of the root', EQ2(x, ITE(EQ(me.t, root.t), own.t, R.t)))
            T.frame(st, [(data.r, 0, n)])


reg_bcastw('Numa', 'int', 4)
reg_bcastw('NumaComm', 'unsigned long', 8)


@task('Numa::barrier', ['C17', 'C14'], TU, N + r'barrier\(\) const$', defs=('mpi',))
def t_nbarrier(T):
    ex = T.ex
    v = numa_obj(T)
    ok = fbool('ok')
    n = v['m_totalThreads']
    T.st.ghost['$calls'] = 0

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the barrier of the threads', AND(a[0].r is v.p.r, EQ2(a[0].off, v.loc('m_syncThreads')[0])), 'contract')
        ex.oblige(st, 'all threads take part', EQ2(ex.u(st, a[1]), n), 'contract')
        st.ghost['$calls'] = st.ghost['$calls'] + 1
        return [(st, BoolV(ok))]
    T.contract(r'^threads::Sync::barrier\(', c)
    for st, ret in T.run([v.p]):
        T.ensure(st, 'one barrier', EQ2(st.ghost['$calls'], 1))
        T.ensure(st, 'its result', EQ2(ex.sv(st, ret), ITE(ok, SUCCESS, THREAD_ERROR)))
        T.frame(st, [])


# -------------------------------------------------------------- shared memory
def reg_alloc(al, ty, n):
    @task('NumaComm::allocate<%s, %s>' % (al, ty), ['C19'], TU, r'^asagi::Grid::Error numa::NumaComm::allocate<allocator::%s, %s>\(' % (al, ty), defs=('mpi',))
    def t_alloc(T):
        ex = T.ex
        v = T.obj('numa::NumaComm')
        D, d, nn, t = accessors(T)
        size = T.int('size', 64, hi=1 << 44)
        T.assume(size.t * D.t <= MAXOBJ // n)
        lemma = z3.ForAll
        T.assume(size.t * d.t >= 0, size.t * d.t + size.t <= size.t * D.t)
        shared = Region('raw', 'shared memory', None)
        data = T.cell('data', 8, kind='p')
        fail = fbool('allocation fails')
        T.st.ghost['$allocs'] = 0

        def c_alloc(ex, st, a, ins, dem):
            ex.oblige(st, 'the allocator of the grid', ('allocator::%s' % al) in dem, 'contract')
            ex.oblige(st, 'the first domain allocates', EQ(d.t, 0), 'contract')
            ex.oblige(st, 'room for all domains', EQ2(ex.u(st, a[0]), size.t * D.t), 'contract')
            st.ghost['$allocs'] = st.ghost['$allocs'] + 1
            s2 = st.fork()
            s2.assume(fail)
            s2.ghost['$nomem'] = True
            st.assume(NOT(fail))
            ex.put(st, a[1].r, a[1].off, 8, PtrV(shared, 0))
            return [(st, IntV(32, SUCCESS)), (s2, IntV(32, MPI_ERROR))]
        T.contract(r'^asagi::Grid::Error allocator::\w+::allocate<%s>\(' % ty, c_alloc)
        sync_bcast(T, lambda p: p.r is v.p.r and EQ2(p.off, v.loc('m_sync')[0]), D.t, d.t, 0, 8, PtrV(shared, 0), 'the domains')
        ex.merge_on = False
        for st, ret in T.run([v.p, size, data]):
            err = ex.sv(st, ret)
            if st.ghost.get('$nomem'):
                T.ensure(st, 'a failed allocation is reported', EQ2(err, MPI_ERROR))
                continue
            T.ensure(st, 'one allocation for all domains', EQ2(st.ghost['$allocs'], ITE(EQ(d.t, 0), 1, 0)))
            if st.ghost.get('$failed'):
                T.ensure(st, 'a failed broadcast is reported', EQ2(err, THREAD_ERROR))
                continue
            T.ensure(st, 'success', EQ2(err, SUCCESS))
            p = ex.load(st, data, PTR)
            T.ensure(st, 'the slice of the domain', AND(isinstance(p, PtrV) and p.r is shared, EQ2(p.off, size.t * d.t * n) if isinstance(p, PtrV) else False))
            s = st.ghost.get('$sent')
            if s is not None:
                T.ensure(st, 'all domains use the allocation', AND(s.r is shared, EQ2(s.off, 0)))
            T.frame(st, [(data.r, 0, 8)])

    @task('NumaComm::free<%s, %s>' % (al, ty), ['C19'], TU, r'^void numa::NumaComm::free<allocator::%s, ' % al, defs=('mpi',))
    def t_free(T):
        v = T.obj('numa::NumaComm')
        p = PtrV(Region('raw', 'memory', None), 0)
        T.st.ghost['$frees'] = 0

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'the memory is given to its allocator', ('allocator::%s' % al) in dem and a[0].r is p.r, 'contract')
            st.ghost['$frees'] = st.ghost['$frees'] + 1
            return [(st, None)]
        T.contract(r'^void allocator::\w+::free<', c)
        for st, ret in T.run([v.p, p]):
            T.ensure(st, 'released once', EQ2(st.ghost['$frees'], 1))
            T.frame(st, [])


reg_alloc('Default', 'unsigned char', 1)
reg_alloc('MPIAlloc', 'unsigned char', 1)
reg_alloc('MPIAlloc', 'long', 8)


@task('allocator::Default::allocate', ['C19'], TU, r'^asagi::Grid::Error allocator::Default::allocate<unsigned char>\(', defs=('mpi',))
def t_default(T):
    ex = T.ex
    size = T.int('size', 64, hi=1 << 44)
    data = T.cell('data', 8, kind='p')
    for st, ret in T.run([size, data]):
        p = ex.load(st, data, PTR)
        T.ensure(st, 'memory of this size', p.r is not None and p.r.heap and AND(EQ2(p.off, 0), EQ2(p.r.size, size.t)))
        T.ensure(st, 'success', EQ2(ex.sv(st, ret), SUCCESS))
        T.frame(st, [(data.r, 0, 8)])


@task('allocator::Default::free', ['C19'], TU, r'^void allocator::Default::free<unsigned char>\(', defs=('mpi',))
def t_deffree(T):
    r = Region('raw', 'memory', None, heap=True)
    for st, ret in T.run([PtrV(r, 0)]):
        T.ensure(st, 'released', r in st.dead)
        T.frame(st, [])


def lock_needed(T, st):
    """The lock of the MPI library is held."""
    return any('mpiLock' in (r.name or '') for r, o in models.held(st))


def reg_mpialloc(ty, n):
    @task('allocator::MPIAlloc::allocate<%s>' % ty, ['C19'], TU, r'^asagi::Grid::Error allocator::MPIAlloc::allocate<%s>\(' % ty, defs=('mpi', '-DTHREADSAFE_MPI'))
    def t_mpi(T):
        ex = T.ex
        size = T.int('size', 64, hi=1 << 44)
        mem = Region('raw', 'MPI memory', None)
        data = T.cell('data', 8, kind='p')
        T.st.ghost['$fail'] = None

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'MPI is used under its lock', lock_needed(T, st), 'lock')
            ex.oblige(st, 'size in bytes', EQ2(ex.sv(st, a[0]), size.t * n), 'contract')
            f = st.fork()
            e = fint('mpierror')
            f.assume(AND(e > 0, e < 1 << 30))
            f.ghost['$fail'] = True
            st.ghost['$fail'] = False
            ex.put(st, a[2].r, a[2].off, 8, PtrV(mem, 0))
            return [(st, IntV(32, 0)), (f, IntV(32, e, 1, 1 << 30))]
        T.contract(r'^MPI_Alloc_mem$', c)
        ex.merge_on = False
        for st, ret in T.run([size, data]):
            T.ensure(st, 'the lock is released', not models.held(st))
            if st.ghost['$fail']:
                T.ensure(st, 'a failed allocation is reported', EQ2(ex.sv(st, ret), MPI_ERROR))
                continue
            p = ex.load(st, data, PTR)
            T.ensure(st, 'the memory', AND(st.ghost['$fail'] is False, p.r is mem, EQ2(p.off, 0), EQ2(ex.sv(st, ret), SUCCESS)))
            T.frame(st, [(data.r, 0, 8)])

    @task('allocator::MPIAlloc::free<%s>' % ty, ['C19'], TU, r'^void allocator::MPIAlloc::free<%s>\(' % ty, defs=('mpi', '-DTHREADSAFE_MPI'))
    def t_mpifree(T):
        ex = T.ex
        mem = Region('raw', 'MPI memory', None)
        null = fbool('null')
        mem.x['maybe_null'] = null
        T.st.ghost['$frees'] = 0

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'MPI is used under its lock', lock_needed(T, st), 'lock')
            ex.oblige(st, 'the memory', AND(a[0].r is mem, EQ2(a[0].off, 0)), 'contract')
            st.ghost['$frees'] = st.ghost['$frees'] + 1
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Free_mem$', c)
        for st, ret in T.run([PtrV(mem, 0)]):
            T.ensure(st, 'released once', EQ2(st.ghost['$frees'], ITE(null, 0, 1)))
            T.ensure(st, 'the lock is released', not models.held(st))
            T.frame(st, [])


reg_mpialloc('unsigned char', 1)
reg_mpialloc('long', 8)


# ------------------------------------------------------------------ run once
@task('Once::saveExec', ['C25'], TU, r'^void threads::Once::saveExec<verif_obj>\(', defs=('mpi',))
def t_once(T):
    """Monitor: the flag is set only by the thread that holds the mutex, after the function returned; it is never
    cleared. So the function ran exactly once when a thread finds the flag set."""
    ex = T.ex
    v = T.obj('threads::Once')
    o = PtrV(Region('cell', 'object', None, layout={}), 0)
    mx = models.lock_id(v.addr('m_mutex'))
    FLAG = [k for k, (o, sc) in v.f.items() if k.startswith('m_state') and sc[0] == 'i'][0]
    foff = v.loc(FLAG)[0]
    g = T.st.ghost
    # ghost: number of completed executions of the function by any thread
    g['$runs'] = T.int('completed', 32, hi=1).t
    T.assume(mkb(v[FLAG]) == (g['$runs'] == 1))
    g['$mine'] = z3.IntVal(0)

    def others(st):
        """Other threads may have executed the function meanwhile."""
        old = st.ghost['$runs']
        n = fint('completed')
        st.assume(AND(n >= old, n <= 1))
        st.ghost['$runs'] = n
        v.at(st).set(FLAG, EQ(n, 1))

    def on_lock(st, k):
        ex.oblige(st, 'the mutex of this object', models.same_lock(k, mx), 'lock')
        others(st)

    def mine(p):
        if not (p.r is v.p.r and EQ2(p.off, foff) is True):
            raise Unsupported('another atomic variable')
    atomic = [False]
    locked = lambda st: OR(*[models.same_lock(h, mx) for h in models.held(st)])
    ex.guards.append((v.p.r, foff, foff + 1, lambda st: OR(atomic[0], locked(st)), 'the flag is accessed atomically or under the mutex'))

    def c_load(ex, st, a, ins, dem):
        mine(a[0])
        order = ex.sv(st, a[1]) if len(a) > 1 else 5
        ex.oblige(st, 'the flag is read with acquire order', OR(EQ2(order, 2), EQ2(order, 5), locked(st)), 'protocol')
        if not models.held(st):
            others(st)
        return [(st, BoolV(v.at(st)[FLAG]))]
    T.contract(r'^std::(atomic<bool>|__atomic_base<bool>)::(operator bool|load)\(.*\) const( volatile)?$', c_load)

    def c_store(ex, st, a, ins, dem):
        mine(a[0])
        order = ex.sv(st, a[2]) if len(a) > 2 else 5
        ex.oblige(st, 'the flag is set with release order', OR(EQ2(order, 3), EQ2(order, 5)), 'protocol')
        ex.oblige(st, 'the flag is set under the mutex', locked(st), 'protocol')
        ex.oblige(st, 'the flag is set after the function completed', mkb(ex.tobool(a[1])) == mkb(EQ(st.ghost['$runs'], 1)), 'protocol')
        v.at(st).set(FLAG, ex.tobool(a[1]))
        return [(st, BoolV(ex.tobool(a[1])))]
    T.contract(r'^std::(atomic<bool>|__atomic_base<bool>)::(operator=|store)\(bool', c_store)

    def on_unlock(st, k):
        ex.oblige(st, 'the flag tells that the function was executed when the mutex is released', mkb(v.at(st)[FLAG]) == mkb(EQ(st.ghost['$runs'], 1)), 'protocol')
    ex.on_lock, ex.on_unlock = on_lock, on_unlock

    fn = Region('fn', 'the function')
    fn.x['fn'] = 'the function'

    def c_fn(ex, st, a, ins, dem):
        ex.oblige(st, 'the function is executed under the mutex', OR(*[models.same_lock(h, mx) for h in models.held(st)]), 'lock')
        ex.oblige(st, 'on the object', AND(a[0].r is o.r, EQ2(a[0].off, 0)), 'contract')
        ex.oblige(st, 'it was not executed before', EQ(st.ghost['$runs'], 0), 'protocol')
        ex.oblige(st, 'the flag is not set before it completed', NOT(v.at(st)[FLAG]), 'protocol')
        st.ghost['$runs'] = st.ghost['$runs'] + 1
        return [(st, None)]
    T.contract(r'^the function$', c_fn)
    for st, ret in T.run([v.p, o, IntV(64, 1 << 20, None, None, None, PtrV(fn, 0)), IntV(64, 0)]):
        T.ensure(st, 'the function was executed exactly once', EQ(st.ghost['$runs'], 1))
        T.ensure(st, 'the mutex is released', not models.held(st))
        T.frame(st, [(v.p.r, foff, 1)])


falsifier('once', ['C25'], 'once.cpp', ['sched'], budget=10,
          rule='1-5 threads requesting the initialisation once or twice, enumerated (preemption bound 2) and random schedules')

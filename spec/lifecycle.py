"""Constructors and destructors: the state every other contract starts from, and the release of every resource exactly
once (C05-C11, C14, C17-C21, C23-C26)."""
from vcgen.api import *
from vcgen.exec import mki
from spec.common import *
from spec.store import G as LEVELS

MPI = ('mpi', '-DUSE_MPI3')
MPIT = ('mpi', '-DUSE_MPI3', '-DTHREADSAFE_MPI')
PLAIN = ('mpi',)


def ignore(T, *rxs):
    for rx in rxs:
        T.contract(rx, lambda ex, st, a, ins, dem: [(st, None)])


def null(q, f):
    p = q.val(f)
    return isinstance(p, PtrV) and p.r is None


def glob(q, f, r):
    p = q.val(f)
    return isinstance(p, PtrV) and p.r is r and EQ2(p.off, 0)


def heap(name):
    return PtrV(Region('raw', name, None, heap=True), 0)


STRUCT = (r'^pthread_(spin|mutex|cond)_(init|destroy)$', r'^std::unordered_map<.*>::~?unordered_map\(\)$', r'^std::(vector|map|deque)<.*>::~?(vector|map|deque)\(\)$')


def ctor(name, props, tu, rx, cls, check, defs=PLAIN, contracts=()):
    @task(name, props, tu, rx, defs=defs)
    def t(T):
        v = T.obj(cls)
        ignore(T, *STRUCT)
        for r, c in contracts:
            T.contract(r, c)
        for st, ret in T.run([v.p]):
            for n, f in check(T, v.at(st)):
                T.ensure(st, n, f)


# ------------------------------------------------------------------ cache
ctor('CacheList::CacheList', ['C07'], 'cache', r'^cache::CacheList::CacheList\(\)$', 'cache::CacheList', lambda T, q: [('no memory is owned', null(q, 'm_indexToBlock'))])
ctor('LRU::LRU', ['C08'], 'cache', r'^cache::LRU::LRU\(\)$', 'cache::LRU', lambda T, q: [('no memory is owned', null(q, 'm_referenced'))])
ctor('CacheManager::CacheManager', ['C07', 'C09'], 'cache', r'^cache::CacheManager::CacheManager\(\)$', 'cache::CacheManager',
     lambda T, q: [('no memory is owned', AND(null(q, 'm_blockMutexes'), null(q, 'm_cacheList.m_indexToBlock')))])


# ------------------------------------------------------------------ threads
def sync_fields(q, pre=''):
    return [('no thread is in the barrier', EQ2(q[pre + 'm_syncedThreads'], 0)), ('no barrier is finishing', NOT(q[pre + 'm_finishing'])),
            ('no thread waits for the end of a barrier', EQ2(q[pre + 'm_lastThreads'], 0))]


ctor('Sync::Sync', ['C18'], 'sync', r'^threads::Sync::Sync\(\)$', 'threads::Sync', lambda T, q: sync_fields(q), defs=())
def once_fields(T, q):
    k = [f for f in q.f if f.startswith('m_state') and q.f[f][1][0] == 'i']
    return [('the function was not executed yet', NOT(q[k[0]]) if len(q.f[k[0]][1]) > 3 else EQ2(q[k[0]], 0))]


ctor('Once::Once', ['C25'], 'numa', r'^threads::Once::Once\(\)$', 'threads::Once', once_fields)


@task('Sync::~Sync', ['C18'], 'sync', r'^threads::Sync::~Sync\(\)$', defs=())
def t_sync_dtor(T):
    v = T.obj('threads::Sync')
    T.st.ghost['$d'] = ()

    def c(ex, st, a, ins, dem):
        key = (dem, a[0].r is v.p.r and a[0].off)
        ex.oblige(st, 'nothing is destroyed twice', key not in st.ghost['$d'], 'contract')
        st.ghost['$d'] = st.ghost['$d'] + (key,)
        return [(st, IntV(32, 0))]
    T.contract(r'^pthread_(mutex|cond)_destroy$', c)
    for st, ret in T.run([v.p]):
        T.ensure(st, 'only members are destroyed', all(k[1] is not False for k in st.ghost['$d']))


# ------------------------------------------------------------------ numa
@task('Numa::Numa', ['C17', 'C14'], 'numa', r'^numa::Numa::Numa\(\)$', defs=PLAIN)
def t_numa(T):
    v = T.obj('numa::Numa')
    ignore(T, *STRUCT)
    def c_key(ex, st, a, ins, dem):
        r = umodel(ex, st, 32, 'keyResult', 0, 200)
        st.ghost['$key'] = r.t
        return [(st, r)]
    T.contract(r'^pthread_key_create$', c_key)
    for st, ret in T.run([v.p]):
        q = v.at(st)
        T.ensure(st, 'the key of the threads is created', '$key' in st.ghost)
        if '$key' in st.ghost:
            T.ensure(st, 'an error is reported later exactly if there is no key', mkb(q['m_keyError']) == mkb(NOT(EQ2(st.ghost['$key'], 0))))
        T.ensure(st, 'one thread unless said otherwise', EQ2(q['m_totalThreads'], 1))
        T.ensure(st, 'no thread is registered', NOT(q['m_initialized']))
        for x in sorted(v.f):
            if x.endswith('.m_finishing'):
                for n, f in sync_fields(q, x[:-len('m_finishing')]):
                    T.ensure(st, n, f)


@task('NumaComm::NumaComm', ['C17', 'C19'], 'numa', r'^numa::NumaComm::NumaComm\(numa::Numa const&\)$', defs=PLAIN)
def t_numacomm(T):
    v = T.obj('numa::NumaComm')
    n = T.obj('numa::Numa', 'numa')
    ignore(T, *STRUCT)
    for st, ret in T.run([v.p, n.p]):
        q = v.at(st)
        p = q.val('m_numa')
        T.ensure(st, 'the domains of the grid', isinstance(p, PtrV) and p.r is n.p.r and EQ2(p.off, 0))
        for nm, f in sync_fields(q, 'm_sync.'):
            T.ensure(st, nm, f)


# ------------------------------------------------------------------ MPI
@task('MPIComm::MPIComm', ['C20', 'C21', 'C22'], 'commthread', r'^mpi::MPIComm::MPIComm\(\)$', defs=PLAIN)
def t_comm(T):
    v = T.obj('mpi::MPIComm')
    self_ = T.ex.global_region('ompi_mpi_comm_self')
    for st, ret in T.run([v.p]):
        q = v.at(st)
        T.ensure(st, 'the process alone', AND(glob(q, 'm_comm', self_), EQ2(q['m_rank'], 0), EQ2(q['m_size'], 1)))
        T.ensure(st, 'no tag is reserved', EQ2(q['m_nextFreeTag'], 0))


class Comm:
    def __init__(self, T, own):
        self.T, ex = T, T.ex
        self.v = v = T.obj('mpi::MPIComm')
        self.self_ = PtrV(ex.global_region('ompi_mpi_comm_self'), 0)
        self.old = PtrV(Region('raw', 'old communicator', None), 0) if own else self.self_
        self.new = PtrV(Region('raw', 'new communicator', None), 0)
        self.nul = PtrV(ex.global_region('ompi_mpi_comm_null'), 0)
        ex.put(T.st, v.p.r, v.loc('m_comm')[0], 8, self.old)
        T.st.ghost['$free'] = 0
        ex.merge_on = False

        def free(ex, st, a, ins, dem):
            p = ex.load(st, a[0], PTR)
            ex.oblige(st, 'only the own communicator is released', own and isinstance(p, PtrV) and p.r is self.old.r, 'contract')
            ex.oblige(st, 'with the lock for MPI calls', any('mpiLock' in (r.name or '') for r, o in models.held(st)), 'contract')
            st.ghost['$free'] = st.ghost['$free'] + 1
            ex.store(st, a[0], self.nul, PTR)
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Comm_free$', free)

    def is_(self, p, q):
        return isinstance(p, PtrV) and p.r is q.r and EQ2(p.off, q.off)


def reg_comm(own):
    tag = ' (with a communicator)' if own else ''

    @task('MPIComm::init' + tag, ['C04', 'C14', 'C22'], 'commthread', r'^mpi::MPIComm::init\(', defs=('mpi', '-DTHREADSAFE_MPI'))
    def t_init(T):
        s = Comm(T, own)
        ex, v = T.ex, s.v
        arg = PtrV(Region('raw', 'communicator of the user', None), 0)
        rank, size = T.int('rank', 32, lo=0, hi=(1 << 31) - 1), T.int('size', 32, lo=1, hi=(1 << 31) - 1)
        T.assume(rank.t < size.t)
        tags = v['m_nextFreeTag']

        def call(f):
            def c(ex, st, a, ins, dem):
                ex.oblige(st, 'with the lock for MPI calls', any('mpiLock' in (r.name or '') for r, o in models.held(st)), 'contract')
                ex.oblige(st, 'nothing is called after an error', '$err' not in st.ghost, 'contract')
                s2 = st.fork()
                s2.ghost['$err'] = True
                e = fint('err')
                s2.assume(AND(e >= 1, e < 100))
                f(ex, st, a)
                return [(st, IntV(32, 0)), (s2, IntV(32, e, 1, 99))]
            return c

        def dup(ex, st, a):
            ex.oblige(st, 'the communicator of the user is copied', s.is_(a[0], arg), 'contract')
            ex.store(st, a[1], s.new, PTR)
            st.ghost['$dup'] = st.ghost.get('$dup', 0) + 1

        def query(x):
            def f(ex, st, a):
                ex.oblige(st, 'the copy of the communicator or the original is asked', OR(s.is_(a[0], s.new), s.is_(a[0], arg)), 'contract')
                ex.store(st, a[1], x, INT(32))
            return f
        T.contract(r'^MPI_Comm_dup$', call(dup))
        T.contract(r'^MPI_Comm_rank$', call(query(rank)))
        T.contract(r'^MPI_Comm_size$', call(query(size)))
        for st, ret in T.run([v.p, arg]):
            T.ensure(st, 'all locks are released', not models.held(st))
            T.ensure(st, 'the former communicator is released exactly once', EQ2(st.ghost['$free'], 1 if own else 0))
            if '$err' in st.ghost:
                T.ensure(st, 'errors are reported', EQ2(ex.u(st, ret), 1))
                continue
            q = v.at(st)
            T.ensure(st, 'success', EQ2(ex.u(st, ret), 0))
            T.ensure(st, 'an own copy of the communicator is used', AND(EQ2(st.ghost.get('$dup', 0), 1), s.is_(q.val('m_comm'), s.new)))
            T.ensure(st, 'rank and size of the communicator', AND(EQ2(q['m_rank'], rank.t), EQ2(q['m_size'], size.t)))
            T.ensure(st, 'reserved tags stay reserved', OR(EQ2(q['m_nextFreeTag'], tags), EQ2(q['m_nextFreeTag'], 0)))

    @task('MPIComm::~MPIComm' + tag, ['C23'], 'commthread', r'^mpi::MPIComm::~MPIComm\(', defs=('mpi', '-DTHREADSAFE_MPI'))
    def t_dtor(T):
        s = Comm(T, own)
        for st, ret in T.run([s.v.p]):
            T.ensure(st, 'the communicator is released exactly once', EQ2(st.ghost['$free'], 1 if own else 0))
            T.ensure(st, 'all locks are released', not models.held(st))


reg_comm(True)
reg_comm(False)


@task('MPIComm::barrier', ['C10', 'C11'], 'commthread', r'^mpi::MPIComm::barrier\(', defs=PLAIN)
def t_barrier(T):
    v = T.obj('mpi::MPIComm')
    c = PtrV(Region('raw', 'communicator', None), 0)
    T.ex.put(T.st, v.p.r, v.loc('m_comm')[0], 8, c)
    T.st.ghost['$b'] = 0

    def b(ex, st, a, ins, dem):
        ex.oblige(st, 'all processes of this communicator', isinstance(a[0], PtrV) and a[0].r is c.r, 'contract')
        st.ghost['$b'] = st.ghost['$b'] + 1
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Barrier$', b)
    for st, ret in T.run([v.p]):
        T.ensure(st, 'the processes are synchronised', st.ghost['$b'] >= 1)


# ------------------------------------------------------------------ levels
SHORT = {'Full': 'Full', 'FullDist': 'FullDist', 'Cache': 'Cache', 'CacheDist': 'CacheDist', 'Pass': 'PassThrough'}


def rx_of(cls, what):
    return r'^(virtual )?' + re.escape(LEVELS[cls]) + '::' + what


def level_mem(v, cls):
    """Fields of the level with memory it owns: (name, freed with NumaComm::free / Allocator::free / delete)."""
    out = []
    if cls in ('Full', 'FullDist'):
        out.append(('m_data', 'numa'))
    if cls == 'FullDist':
        out.append(('m_cache', 'alloc'))
    if cls in ('Cache', 'CacheDist'):
        out.append(('m_cache', 'numa'))
    if cls == 'Pass':
        out.append(('m_buf', 'new'))
    return out


def reg_level(cls):
    name = SHORT[cls]
    props = {'Full': ['C05', 'C23'], 'FullDist': ['C06', 'C23'], 'Cache': ['C05', 'C23'], 'CacheDist': ['C11', 'C23'], 'Pass': ['C23', 'C26']}[cls]

    @task('%s::%s' % (name, name), props + ['C14'], 'store', r'^' + re.escape(LEVELS[cls]) + r'::%s\(mpi::MPIComm&' % name, defs=MPI)
    def t_ctor(T):
        ex = T.ex
        v = T.obj(LEVELS[cls])
        comm, numa, ty = T.obj('mpi::MPIComm', 'comm'), T.obj('numa::Numa', 'numa'), Region('raw', 'type', None)
        nc = PtrV(Region('raw', 'numaComm', None), 0)
        dom = T.int('domain', 32)
        T.st.ghost['$create'] = 0

        def create(ex, st, a, ins, dem):
            ex.oblige(st, 'the domains of the grid', a[0].r is numa.p.r, 'contract')
            st.ghost['$create'] = st.ghost['$create'] + 1
            return [(st, nc)]
        T.contract(r'^numa::Numa::createComm\(\) const$', create)
        const_contract(T, r'^numa::Numa(Comm)?::domainId\(\) const$', dom)
        ignore(T, r'^cache::CacheManager::CacheManager\(\)$', r'^perf::Counter::Counter\(\)$', *STRUCT)
        for st, ret in T.run([v.p, comm.p, numa.p, PtrV(ty, 0)]):
            q = v.at(st)
            same = lambda f, p: (lambda x: isinstance(x, PtrV) and x.r is p.r and EQ2(x.off, p.off))(q.val(f))
            T.ensure(st, 'the communicator of the grid', same('m_mpiComm', comm.p))
            T.ensure(st, 'the type of the grid', same('m_type', PtrV(ty, 0)))
            T.ensure(st, 'one communicator for the domains is created', EQ2(st.ghost['$create'], 1))
            T.ensure(st, 'the communicator of the domains', same('m_numaComm', nc))
            T.ensure(st, 'the domain of the thread', EQ2(q['m_numaDomainId'], dom.t))
            T.ensure(st, 'no file is open', null(q, 'm_inputFile'))
            for f, how in level_mem(v, cls):
                T.ensure(st, 'no memory is owned', null(q, f))

    def dtor(opened):
        @task('%s::~%s (%s)' % (name, name, 'opened' if opened else 'not opened'), ['C14', 'C19', 'C23'], 'store', rx_of(cls, r'~%s\(\)$' % name), defs=MPI)
        def t_dtor(T):
            ex = T.ex
            v = T.obj(LEVELS[cls])
            ex.merge_on = False
            g = T.st.ghost
            numa = T.obj('numa::NumaComm', 'numaComm')
            T.virtual(numa.p.r, 'numa::NumaComm')
            file = T.obj('io::NetCdfReader', 'file')
            T.virtual(file.p.r, 'io::NetCdfReader')
            v.set('m_numaComm', numa.p)
            dom = v['m_numaDomainId']
            NUL = PtrV(None, 0)
            v.set('m_inputFile', file.p if opened else NUL)
            mem = {}
            for f, how in level_mem(v, cls):
                mem[f] = heap(f)
                v.set(f, mem[f] if opened else NUL)
                g['$free ' + f] = 0
            g['$file'] = g['$comm'] = g['$managers'] = 0

            def free(how):
                def c(ex, st, a, ins, dem):
                    p = a[-1]
                    if p.r is None:
                        return [(st, None)]
                    k = [f for f, h in level_mem(v, cls) if mem[f].r is p.r and h == how]
                    ex.oblige(st, 'memory is released the way it was allocated', AND(len(k) == 1, EQ2(p.off, 0)), 'contract')
                    if how == 'numa':
                        ex.oblige(st, 'the communicator of the domains still exists', EQ2(st.ghost['$comm'], 0), 'contract')
                    for f in k:
                        st.ghost['$free ' + f] = st.ghost['$free ' + f] + 1
                    return [(st, None)]
                return c
            T.contract(r'numa::NumaComm::free<', free('numa'))
            T.contract(r'VerifAlloc::free<', free('alloc'))

            def once(k, r, what):
                def c(ex, st, a, ins, dem):
                    ex.oblige(st, '%s of this level is released' % what, isinstance(a[0], PtrV) and a[0].r is r, 'contract')
                    st.ghost[k] = st.ghost[k] + 1
                    return [(st, None)]
                return c
            T.contract(r'^(virtual )?io::NetCdfReader::~NetCdfReader', once('$file', file.p.r, 'the file'))
            T.contract(r'^(virtual )?numa::NumaComm::~NumaComm', once('$comm', numa.p.r, 'the communicator of the domains'))
            T.contract(r'^(virtual )?cache::CacheManager::~CacheManager', once('$managers', v.p.r, 'the cache manager'))
            for st, ret in T.run([v.p]):
                g = st.ghost
                T.ensure(st, 'the file is closed exactly once', EQ2(g['$file'], 1 if opened else 0))
                T.ensure(st, 'the communicator of the domains is released once, by domain 0', EQ2(g['$comm'], ITE(EQ(dom, 0), 1, 0)))
                if cls in ('Cache', 'CacheDist'):
                    T.ensure(st, 'the cache manager is destroyed exactly once', EQ2(g['$managers'], 1))
                for f, how in level_mem(v, cls):
                    if how == 'new':
                        T.ensure(st, 'the memory of the level is released exactly once', (mem[f].r in st.dead) is opened)
                    elif how == 'alloc':
                        T.ensure(st, 'the cache of the domain is released exactly once', EQ2(g['$free ' + f], 1 if opened else 0))
                    else:
                        T.ensure(st, 'shared memory is released once, by domain 0', EQ2(g['$free ' + f], ITE(EQ(dom, 0), 1, 0) if opened else 0))
    dtor(True)
    dtor(False)


for c_ in ('Full', 'FullDist', 'Cache', 'CacheDist', 'Pass'):
    reg_level(c_)


# ------------------------------------------------------------------ transfer classes
def transfer_ctor(cls, props, fields):
    ctor('%s::%s' % (cls, cls), props, 'transfer', r'^transfer::%s::%s\(\)$' % (cls, cls), 'transfer::' + cls, fields, defs=MPI,
         contracts=[(r'^mpi::Receiver::Receiver\(\)$', lambda ex, st, a, ins, dem: [(st, None)])])


def fresh_fields(nulls=(), globs=(), neg=(), dom=True):
    def f(T, q):
        out = [('%s: nothing is owned' % x, null(q, x)) for x in nulls]
        out += [('%s: nothing is owned' % x, glob(q, x, T.ex.global_region(g))) for x, g in globs]
        out += [('%s: no receiver is registered' % x, q[x] < 0) for x in neg]
        return out
    return f


WIN = 'ompi_mpi_win_null'
transfer_ctor('NumaCache', ['C06'], fresh_fields(['m_cacheManager']))
transfer_ctor('MPIWinFull', ['C06'], fresh_fields([], [('m_window', WIN)]))
transfer_ctor('MPIThreadFull', ['C06'], fresh_fields(['m_sendRecvMutex'], neg=['m_tag']))
transfer_ctor('MPIWinCache', ['C11'], fresh_fields(['m_mpiMutex', 'm_dictWinMutex', 'm_cacheWinMutex', 'm_dictionary'], [('m_dictWin', WIN), ('m_cacheWin', WIN)]))
transfer_ctor('MPIThreadCache', ['C11'], fresh_fields(['m_cacheManager', 'm_mutexes', 'm_infoMutex', 'm_blockMutex', 'm_dictionary'], neg=['m_blockInfoTag']))


def transfer_dtor(cls, props, opened, owned=(), windows=(), tags=(), dictionary=False):
    @task('%s::~%s (%s)' % (cls, cls, 'initialised' if opened else 'not initialised'), props, 'transfer', r'^(virtual )?transfer::%s::~%s\(\)$' % (cls, cls), defs=MPIT if windows else MPI)
    def t(T):
        ex = T.ex
        ex.merge_on = False
        v = T.obj('transfer::' + cls)
        f = 'm_domainId' if 'm_domainId' in v.f else 'm_numaDomainId'
        doms = [x for x in v.f if re.search(r'(^|\.)(m_domainId|m_numaDomainId)$', x)]
        # MPICache and the derived class have their own copy of the number of the domain
        dom = T.int('domain', 32)
        for x in doms:
            v.set(x, dom.t)
        for k in base_offsets(ex, cls, f):
            ex.put(T.st, v.p.r, k, 4, dom)
        NUL = PtrV(None, 0)
        g = T.st.ghost
        mem = {}
        for x, arr in owned:
            # an array of locks has a header with the number of its elements
            mem[x] = heap(x)
            if arr:
                mem[x] = PtrV(Region('cell', x, 8 + 4 * 3, layout={0: [(8, ('i', 8, False), '')]}, heap=True), 8)
                ex.put(T.st, mem[x].r, 0, 8, IntV(64, 3))
            v.set(x, mem[x] if opened else NUL)
        wins = {}
        wnull = PtrV(ex.global_region(WIN), 0)
        for x in windows:
            wins[x] = PtrV(Region('raw', x, None), 0)
            v.set(x, wins[x] if opened else wnull)
            g['$win ' + x] = 0
        for x in tags:
            tv = T.int(x, 32, lo=0, hi=(1 << 31) - 1)
            v.set(x, tv.t if opened else -1)
        T.assume(*[NOT(EQ(v[x], v[y])) for x in tags for y in tags if x < y] if opened else [True])
        ignore(T, r'^threads::Mutex::~Mutex\(\)$', r'^(virtual )?threads::PthreadMutex::~PthreadMutex\(\)$', *STRUCT)
        if any(x == 'm_mpiMutex' for x, a in owned) and opened:
            T.virtual(mem['m_mpiMutex'].r, 'mpi::Mutex')

        def mutexfree(ex, st, a, ins, dem):
            ex.oblige(st, 'no double free', a[0].r not in st.dead, 'uaf')
            st.dead = st.dead | {a[0].r}
            return [(st, None)]
        T.contract(r'^virtual mpi::Mutex::~Mutex', mutexfree)

        def winfree(ex, st, a, ins, dem):
            p = ex.load(st, a[0], PTR)
            k = [x for x in wins if isinstance(p, PtrV) and p.r is wins[x].r]
            ex.oblige(st, 'a window of this object is released', len(k) == 1, 'contract')
            ex.oblige(st, 'with the lock for MPI calls', any('mpiLock' in (r.name or '') for r, o in models.held(st)), 'contract')
            for x in k:
                st.ghost['$win ' + x] = st.ghost['$win ' + x] + 1
            ex.store(st, a[0], wnull, PTR)
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Win_free$', winfree)

        def unreg(ex, st, a, ins, dem):
            t_ = ex.sv(st, a[1])
            for x in tags:
                st.ghost['$unreg ' + x] = ITE(EQ(t_, v[x]), 1, 0) + st.ghost.get('$unreg ' + x, 0)
            ex.oblige(st, 'a receiver of this object is removed', OR(*[EQ(t_, v[x]) for x in tags]), 'contract')
            ex.oblige(st, 'receivers are removed before what they use', not any(mem[x].r in st.dead for x in mem), 'contract')
            return [(st, None)]
        T.contract(r'^mpi::CommThread::unregisterReceiver\(', unreg)
        ex.put(T.st, v.p.r, v.loc('m_dictionary')[0], 8, NUL) if 'm_dictionary' in v.f else None
        if dictionary:
            dic = PtrV(Region('raw', 'dictionary', None), 0)
            v.set('m_dictionary', dic if opened else NUL)
            g['$dict'] = 0

            def free(ex, st, a, ins, dem):
                if a[0].r is None:
                    return [(st, None)]
                ex.oblige(st, 'the directory is released', a[0].r is dic.r and EQ2(a[0].off, 0), 'contract')
                ex.oblige(st, 'the directory is released after its window', AND(*[EQ2(st.ghost['$win ' + x], 1) for x in windows]) if opened else True, 'contract')
                st.ghost['$dict'] = st.ghost['$dict'] + 1
                return [(st, None)]
            T.contract(r'^(void )?allocator::\w+::free<', free)
        first = EQ(dom.t, 0)
        for st, ret in T.run([v.p]):
            g = st.ghost
            T.ensure(st, 'all locks are released', not models.held(st))
            for x, a in owned:
                if opened:
                    T.ensure(st, '%s is released by domain 0' % x, OR(NOT(first), mem[x].r in st.dead))
                    T.ensure(st, '%s is not released by another domain' % x, OR(first, mem[x].r not in st.dead))
            for x in windows:
                T.ensure(st, '%s is released once, by domain 0' % x, EQ2(g['$win ' + x], ITE(first, 1, 0) if opened else 0))
            for x in tags:
                T.ensure(st, '%s is given back once, by domain 0' % x, EQ2(g.get('$unreg ' + x, 0), ITE(first, 1, 0) if opened else 0))
            if dictionary:
                T.ensure(st, 'the directory is released once, by domain 0', EQ2(g['$dict'], ITE(first, 1, 0) if opened else 0))


def base_offsets(ex, cls, f):
    """Offsets of the field f in the base classes (a derived class may have a field of the same name)."""
    di = ex.m.di()
    out = []

    def walk(ref, off):
        k, fs = di.node(di.strip(ref))
        for e in di.elements(fs['elements']) if fs.get('elements', 'null') != 'null' else []:
            kk, ff = di.node(int(e))
            if kk != 'DIDerivedType':
                continue
            if ff['tag'] == 'DW_TAG_inheritance':
                walk(ff['baseType'], off + int(ff.get('offset', '0')) // 8)
            elif ff['tag'] == 'DW_TAG_member' and ff.get('name', '').strip('"') == f:
                out.append(off + int(ff.get('offset', '0')) // 8)
    walk(di.record('transfer::' + cls), 0)
    return out


for o_ in (True, False):
    transfer_dtor('NumaCache', ['C19', 'C23'], o_, [('m_cacheManager', False)])
    transfer_dtor('MPIWinFull', ['C23'], o_, [('m_winMutex', False)], ['m_window'])
    transfer_dtor('MPIThreadFull', ['C20', 'C23'], o_, [('m_sendRecvMutex', False)], tags=['m_tag'])
    transfer_dtor('MPIWinCache', ['C23'], o_, [('m_mpiMutex', False), ('m_dictWinMutex', False), ('m_cacheWinMutex', False)], ['m_dictWin', 'm_cacheWin'], dictionary=True)
    transfer_dtor('MPIThreadCache', ['C20', 'C23'], o_, [('m_cacheManager', False), ('m_mutexes', True), ('m_infoMutex', False), ('m_blockMutex', False)],
                  tags=['m_blockInfoTag', 'm_transfererTag', 'm_adderTag', 'm_deleterTag'], dictionary=True)


# ------------------------------------------------------------------ cache
def cache_dtor(cls, field, props, opened):
    @task('%s::~%s (%s)' % (cls, cls, 'initialised' if opened else 'not initialised'), props, 'cache', r'^(virtual )?cache::%s::~%s\(\)$' % (cls, cls), defs=PLAIN)
    def t(T):
        ex = T.ex
        v = T.obj('cache::' + cls)
        ignore(T, r'^(virtual )?threads::PthreadMutex::~PthreadMutex\(\)$', *STRUCT)
        mem = {}
        for f in [x for x in v.f if re.search(r'(^|\.)(m_indexToBlock|m_referenced|m_blockMutexes)$', x)]:
            p = heap(f)
            if f.endswith('m_blockMutexes'):
                p = PtrV(Region('cell', f, 8 + 4 * 3, layout={}, heap=True), 8)
                ex.put(T.st, p.r, 0, 8, IntV(64, 3))
            mem[f] = p
            v.set(f, p if opened else PtrV(None, 0))
        for st, ret in T.run([v.p]):
            T.ensure(st, 'the memory is released', not opened or all(p.r in st.dead for p in mem.values()))


for o_ in (True, False):
    cache_dtor('CacheManager', 'm_blockMutexes', ['C23'], o_)
    cache_dtor('CacheList', 'm_indexToBlock', ['C23'], o_)
    cache_dtor('LRU', 'm_referenced', ['C23'], o_)


# ------------------------------------------------------------------ small forwarding functions
@task('NumaComm::copy', ['C17'], 'numa', r'^numa::NumaComm::copy\(\) const$', defs=PLAIN)
def t_copy(T):
    v = T.obj('numa::NumaComm')
    n = T.obj('numa::Numa', 'numa')
    v.set('m_numa', n.p)
    new = PtrV(Region('raw', 'new', None), 0)

    def create(ex, st, a, ins, dem):
        ex.oblige(st, 'the domains of the grid', a[0].r is n.p.r, 'contract')
        return [(st, new)]
    T.contract(r'^numa::Numa::createComm\(\) const$', create)
    for st, ret in T.run([v.p]):
        T.ensure(st, 'a communicator of its own', isinstance(ret, PtrV) and ret.r is new.r)


@task('Grid::setThreads', ['C17'], 'grid', r'^grid::Grid::setThreads\(unsigned int\)$', defs=PLAIN)
def t_setthreads(T):
    v = T.obj('grid::Grid')
    n = T.int('threads', 32)
    T.st.ghost['$n'] = 0

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the threads of this grid', AND(a[0].r is v.p.r, EQ2(a[0].off, v.loc('m_numa')[0]), EQ2(ex.u(st, a[1]), n.t), EQ2(st.ghost['$n'], 0)), 'contract')
        st.ghost['$n'] = 1
        st.ghost['$ret'] = umodel(ex, st, 32, 'result', 0, 12)
        return [(st, st.ghost['$ret'])]
    T.contract(r'^numa::Numa::setThreads\(unsigned int\)$', c)
    for st, ret in T.run([v.p, n]):
        T.ensure(st, 'the number of threads is set', EQ2(st.ghost['$n'], 1))
        T.ensure(st, 'the result is passed on', EQ2(T.ex.u(st, ret), T.ex.u(st, st.ghost.get('$ret', IntV(32, 99)))))


@task('Grid::setComm', ['C14', 'C24'], 'grid', r'^grid::Grid::setComm\(', defs=PLAIN)
def t_setcomm(T):
    v = T.obj('grid::Grid')
    n = PtrV(Region('raw', 'communicator', None), 0)
    T.st.ghost['$n'] = 0

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the communicator of this grid', AND(a[0].r is v.p.r, EQ2(a[0].off, v.loc('m_comm')[0]), isinstance(a[1], PtrV) and a[1].r is n.r, EQ2(st.ghost['$n'], 0)), 'contract')
        st.ghost['$n'] = 1
        st.ghost['$ret'] = umodel(ex, st, 32, 'result', 0, 12)
        return [(st, st.ghost['$ret'])]
    T.contract(r'^mpi::MPIComm::init\(', c)
    for st, ret in T.run([v.p, n]):
        T.ensure(st, 'the communicator is set', EQ2(st.ghost['$n'], 1))
        T.ensure(st, 'the result is passed on', EQ2(T.ex.u(st, ret), T.ex.u(st, st.ghost.get('$ret', IntV(32, 99)))))

"""Transfer of blocks between NUMA domains and processes (C06, C11, C14).

The element type is abstract (any class derived from types::Type, any size). Memory of a process: the slots of
domain 0, domain 1, ... follow each other (C19: the memory of the domains is one piece); slot o of domain d is
number o + d * slots per domain."""
from vcgen.api import *
from vcgen.exec import mki
from spec.common import *
from spec.geo import *

TU = 'transfer'
MPI = ('mpi', '-DUSE_MPI3')
MPIT = ('mpi', '-DUSE_MPI3', '-DTHREADSAFE_MPI')
BOTH = [('', MPI), (' (MPI calls are serialised)', MPIT)]
POS = r'@.*'


def lock_of(st, r):
    return any(x is r for x, o in models.held(st))


def mpi_locked(st):
    return any('mpiLock' in (r.name or '') for r, o in models.held(st))


class Tr:
    """Object of class cls in domain d of D domains of process p of P; W bytes per block, bc slots per domain."""
    whole = True

    def __init__(self, T, cls, serial=False):
        self.T, self.serial = T, serial
        ex = self.ex = T.ex
        self.v = T.obj(cls)
        nm = Numa(T)
        self.D, self.d, self.Dv, self.dv = nm.D.t, nm.d.t, nm.D, nm.d
        self.numa = PtrV(Region('raw', 'numaComm', None), 0)
        self.comm = T.obj('mpi::MPIComm', 'mpiComm')
        self.p, self.P = self.comm['m_rank'], T.int('processes', 32, lo=1, hi=(1 << 31) - 1).t
        T.assume(self.p >= 0, self.p < self.P)
        ty = Region('cell', 'type', None, layout={})
        T.virtual(ty, 'types::Type')
        self.type = PtrV(ty, 0)
        tsv, self.bsv, self.bcv = T.int('typeSize', 32, lo=1, hi=(1 << 31) - 1), T.int('blockSize', 64, lo=1, hi=(1 << 31) - 1), T.int('blockCount', 64, lo=1, hi=1 << 46)
        self.ts, self.bs, self.bc = tsv.t, self.bsv.t, self.bcv.t
        const_contract(T, r'^virtual types::Type::size$', tsv)
        self.mt = PtrV(Region('raw', 'MPI type', None), 0)
        const_contract(T, r'^virtual types::Type::getMPIType$', self.mt)
        self.W = self.ts * self.bs
        T.assume(self.W >= 1, self.W < 1 << 47)
        if self.whole:
            T.assume(self.W * self.bc * self.D < 1 << 47, self.W * self.bc < 1 << 47, self.bc * self.D < 1 << 47,
                 self.bs * self.bc * self.D < 1 << 47)
        self.mem = Region('raw', 'memory of the process', None)
        self.cache = PtrV(Region('raw', 'cache slot', None), 0)
        g = T.st.ghost
        g['$bc'] = g['$copies'] = 0
        ex.merge_on = False

    def is_(self, p, q):
        return isinstance(p, PtrV) and p.r is q.r and EQ2(p.off, q.off)

    def offset(self, name='slot', rank=None):
        """Number of an existing slot of a process."""
        o = self.T.int(name, 64, hi=1 << 47)
        self.T.assume(o.t < self.bc * self.D)
        lemma_mono(self.T, self.T.st, [(self.W, o.t + 1, self.W, self.bc * self.D), (self.W, o.t, self.W, self.bc * self.D),
                                       (self.bs, o.t, self.bs, self.bc * self.D)])
        return o

    def fails(self, st, w=32):
        s2 = st.fork()
        e = fint('err')
        s2.assume(AND(e >= 1, e <= 20))
        s2.ghost['$err'] = e
        return s2, IntV(w, e, 1, 20)

    def broadcasts(self, shared):
        """NumaComm::broadcast (C18): every domain gets the value of domain 0. shared: type -> value in domain 0."""
        T = self.T

        def c(ex, st, a, ins, dem):
            k = re.search(r'broadcast<(.*?)>\(', dem).group(1)
            ex.oblige(st, 'the value of domain 0 is broadcast', AND(isinstance(a[0], PtrV) and a[0].r is self.numa.r, EQ2(ex.u(st, a[2]), 0)), 'contract')
            ex.oblige(st, 'nothing is broadcast after an error', '$err' not in st.ghost, 'contract')
            out = [self.fails(st)]
            st.ghost['$bc'] = st.ghost['$bc'] + 1
            st.ghost['$bcs'] = st.ghost.get('$bcs', ()) + (k,)
            ty = INT(32) if k == 'int' else PTR
            for s, zero in ((st.fork(), True), (st, False)):
                if not ex.s.sat_quick(s.pc, [EQ(self.d, 0) if zero else self.d > 0]):
                    continue
                s.assume(EQ(self.d, 0) if zero else self.d > 0)
                if zero:
                    s.ghost['$from ' + k] = s.ghost.get('$from ' + k, ()) + (ex.load(s, a[1], ty),)
                else:
                    n = len(s.ghost.get('$to ' + k, ()))
                    val = shared(k, n)
                    s.ghost['$to ' + k] = s.ghost.get('$to ' + k, ()) + (val,)
                    ex.store(s, a[1], val, ty)
                out.append((s, IntV(32, 0)))
            return out
        T.contract(r'numa::NumaComm::broadcast<', c)

    def memcpy(self, src_ok, n=None):
        """One copy of one block into the cache slot."""
        def h(ex, st, d, s, sz):
            ex.oblige(st, 'a copy ends at the start of the cache slot', self.is_(d, self.cache), 'contract')
            ex.oblige(st, 'exactly one block is copied', EQ2(sz if n is None else sz, self.W), 'contract')
            for nm, f in src_ok(st, s):
                ex.oblige(st, nm, f, 'contract')
            st.ghost['$copies'] = st.ghost['$copies'] + 1
            return True
        self.ex.memcpy_hooks.append(h)

    def released(self, st):
        self.T.ensure(st, 'all locks are released', not models.held(st))

    def errors(self, st, ret):
        if '$err' in st.ghost:
            self.T.ensure(st, 'errors are reported', EQ2(self.ex.u(st, ret), st.ghost['$err']))
            return True
        self.T.ensure(st, 'success', EQ2(self.ex.u(st, ret), 0))
        return False

    def domains(self, st):
        self.T.ensure(st, 'domain 0 is distinguished from the others', OR(EQ(self.d, 0), self.d > 0))


# ------------------------------------------------------------------ same process
def start(s):
    """the memory of this domain"""
    return PtrV(s.mem, s.W * s.bc * s.d)


class Full(Tr):
    def invariant(self):
        v = self.v
        v.set('m_data', PtrV(self.mem, 0))
        v.set('m_blockCount', self.bc)
        v.set('m_blockSize', self.W)
        v.set('m_rank', self.p)

    def args(self):
        T = self.T
        b = T.int('block', 64, hi=1 << 46)
        self.b = b.t
        rr, dd, oo = T.int('remoteRank', 32, signed=True, lo=0), T.int('remoteDomain', 32), T.int('offset', 64, hi=1 << 46)
        self.rr, self.dd, self.oo = rr.t, dd.t, oo.t
        T.assume(self.dd < self.D, self.oo < self.bc)
        self.o = self.bc * self.dd + self.oo
        lemma_digit(T, T.st, [(self.dd, self.oo, self.D, self.bc)])
        fact(T, T.st, 'the slot is one of the process', AND(self.o < self.bc * self.D, self.o >= 0))
        lemma_mono(T, T.st, [(self.W, self.o + 1, self.W, self.bc * self.D), (self.W, self.o, self.W, self.bc * self.D)])
        return [b, rr, dd, oo, self.cache]

    def source(self, st, p):
        return [('the memory of the process', isinstance(p, PtrV) and p.r is self.mem),
                ('the slot of this block', EQ2(p.off, self.W * self.o)),
                ('inside of the memory', AND(p.off >= 0, p.off + self.W <= self.W * self.bc * self.D)),
                ('only blocks of this process', EQ(self.rr, self.p))]


@task('NumaFull::init', ['C06'], TU, r'^transfer::NumaFull::init\(', defs=MPI)
def t_nfi(T):
    s = Full(T, 'transfer::NumaFull')
    for st, ret in T.run([s.v.p, start(s), s.bcv, s.bsv, s.type, s.comm.p, s.numa, PtrV(Region('raw', 'cacheManager', None), 0)]):
        q = s.v.at(st)
        T.ensure(st, 'success', EQ2(T.ex.u(st, ret), 0))
        T.ensure(st, 'start of the memory of the process', s.is_(q['m_data'], PtrV(s.mem, 0)))
        T.ensure(st, 'slots per domain, size of a block, rank', AND(EQ2(q['m_blockCount'], s.bc), EQ2(q['m_blockSize'], s.W), EQ2(q['m_rank'], s.p)))
        T.frame(st, [(s.v.p.r, None, None)])


@task('NumaFull::transfer', ['C06'], TU, r'^transfer::NumaFull::transfer\(', defs=MPI)
def t_nft(T):
    s = Full(T, 'transfer::NumaFull')
    s.invariant()
    a = s.args()
    s.memcpy(s.source)
    for st, ret in T.run([s.v.p] + a):
        r = T.ex.tobool(ret)
        T.ensure(st, 'blocks of this process are copied, others are not', EQ(mkb(r), s.rr == s.p))
        T.ensure(st, 'one copy', EQ2(st.ghost['$copies'], ITE(EQ(s.rr, s.p), 1, 0)))
        T.frame(st, [])


class Mgr(Tr):
    """The managers of the caches of all domains; slot of a found block: co."""
    whole = False

    def __init__(self, T, cls, serial=False, field='m_cacheManager'):
        Tr.__init__(self, T, cls, serial)
        ex = self.ex
        self.elems, self.objs = Region('raw', 'managers', None), Region('raw', 'manager', None)
        self.data = Region('raw', 'memory of the caches', None)
        self.j = z3.Int('anyDomain')
        T.assume(self.j >= 0, self.j < self.D)
        self.b = T.int('block', 64, hi=1 << 46)
        g = T.st.ghost
        g['$h'] = z3.IntVal(-1)         # domain whose slot is held
        g['$tried'] = z3.K(I, False)
        g['$writes'] = 0

        def hook(ex, st, r, off, n, ty, val):
            if r is not self.elems:
                return None
            i = unpoly(pdiv_mono(poly(off), (), 8)[0]) if not isc(off) else off // 8
            ex.oblige(st, 'the domain has a cache', AND(GE(i, 0), LTt(i, self.D)), 'bounds')
            if val is None:
                return PtrV(self.objs, i)
            ex.oblige(st, 'a domain lists its own cache', AND(EQ2(i, self.d), isinstance(val, PtrV) and val.r is self.mine.r and EQ2(val.off, 0)), 'contract')
            st.ghost['$writes'] = st.ghost['$writes'] + 1
            return True
        ex.mem_hooks.append(hook)
        self.mine = PtrV(Region('raw', 'own cache manager', None), 0)

        def slot(i):
            return fn1('slotIn', i)

        def tryget(ex, st, a, ins, dem):
            ex.oblige(st, 'a cache of the process is asked', isinstance(a[0], PtrV) and a[0].r is self.objs, 'contract')
            i = mki(a[0].off)
            ex.oblige(st, 'the block is asked for', EQ2(ex.u(st, a[1]), self.b.t), 'contract')
            ex.oblige(st, 'no slot of another cache is held', EQ(st.ghost['$h'], -1), 'contract')
            st.ghost['$tried'] = z3.Store(st.ghost['$tried'], i, z3.BoolVal(True))
            no = st.fork()
            st.ghost['$h'] = i
            ex.store(st, a[2], IntV(64, slot(i), 0, 1 << 31), INT(64))
            st.assume(AND(slot(i) >= 0, slot(i) < 1 << 31))
            ex.store(st, a[3], PtrV(self.data, slot(i)), PTR)
            return [(st, BoolV(True)), (no, BoolV(False))]
        T.contract(r'^cache::CacheManager::tryGet\(', tryget)

        def unlock(ex, st, a, ins, dem):
            ex.oblige(st, 'the slot that is held is released', AND(isinstance(a[0], PtrV) and a[0].r is self.objs, st.ghost['$h'] >= 0,
                                                                   EQ2(a[0].off, st.ghost['$h']) if isinstance(a[0], PtrV) else False,
                                                                   EQ2(ex.u(st, a[1]), slot(st.ghost['$h']))), 'contract')
            st.ghost['$h'] = z3.IntVal(-1)
            return [(st, None)]
        T.contract(r'^cache::CacheManager::unlock\(', unlock)
        self.slot = slot

        def lhook(ex, f, hdr, entry, h, getters):
            out = [('no slot is held', lambda st: EQ(st.ghost['$h'], -1)),
                   ('nothing was copied', lambda st: AND(EQ2(st.ghost['$copies'], 0))),
                   ('the block was copied', lambda st: AND(EQ2(st.ghost['$copies'], 1)))]
            for key, gt in getters.items():
                x = gt(entry)
                if not (isc(x) or isinstance(x, z3.ArithRef)) or isinstance(x, bool):
                    continue
                out.append(('domains before %s were asked' % (key,), lambda st, gt=gt: OR(self.j >= gt(st), z3.Select(st.ghost['$tried'], self.j), self.skip(self.j))))
                out.append(('%s is in range' % (key,), lambda st, gt=gt: AND(gt(st) >= 0, gt(st) <= self.D)))
            return out
        ex.loop_hooks.append(lhook)
        # the own cache is not asked: the calling thread misses the block there
        self.skip = lambda j: EQ(j, self.d)

    def source(self, st, p):
        h = st.ghost['$h']
        return [('the slot is held while it is copied', h >= 0),
                ('the slot that was found', AND(isinstance(p, PtrV) and p.r is self.data, EQ2(p.off, self.slot(h))))]

    def invariant(self):
        v = self.v
        v.set('m_domainId', self.d)
        v.set('m_totalDomains', self.D)
        v.set('m_blockSize', self.W)
        v.set('m_cacheManager', PtrV(self.elems, 0))

    def all_tried(self, st):
        return OR(z3.Select(st.ghost['$tried'], self.j), self.skip(self.j))

    def asked(self, st, r):
        T = self.T
        T.ensure(st, 'no slot is held', EQ(st.ghost['$h'], -1))
        T.ensure(st, 'not found only if no other domain has it', OR(r, self.all_tried(st)))


def fn1(name, a):
    return z3.Function(name, I, I)(mki(a))


def managers(s):
    """operator new for the list of managers"""
    T = s.T

    def new(ex, st, a, ins, dem):
        ex.oblige(st, 'room for the caches of all domains', EQ2(ex.u(st, a[0]), 8 * s.D), 'contract')
        ex.oblige(st, 'only domain 0 creates the list', EQ(s.d, 0), 'contract')
        st.ghost['$list'] = True
        return [(st, PtrV(s.elems, 0))]
    T.contract(r'^operator new\[\]\(unsigned long\)$', new)


def numa_init(T, s, st):
    """Post of NumaCache::init"""
    q = s.v.at(st)
    T.ensure(st, 'this domain and the number of domains', AND(EQ2(q['m_domainId'], s.d), EQ2(q['m_totalDomains'], s.D)))
    T.ensure(st, 'the list of domain 0 is shared', AND(s.is_(q['m_cacheManager'], PtrV(s.elems, 0)), EQ2(st.ghost['$bc'], 1)))
    T.ensure(st, 'domain 0 creates the list', OR(s.d > 0, bool(st.ghost.get('$list'))))
    T.ensure(st, 'the own cache is listed', EQ2(st.ghost['$writes'], 1))


@task('NumaCache::init', ['C11'], TU, r'^transfer::NumaCache::init\(', defs=MPI)
def t_nci(T):
    s = Mgr(T, 'transfer::NumaCache')
    managers(s)
    s.broadcasts(lambda k, n: PtrV(s.elems, 0))
    for st, ret in T.run([s.v.p, s.bsv, s.type, s.numa, s.mine]):
        if s.errors(st, ret):
            continue
        numa_init(T, s, st)
        T.ensure(st, 'size of a block', EQ2(s.v.at(st)['m_blockSize'], s.W))
        T.frame(st, [(s.v.p.r, None, None)])


@task('NumaCache::transfer', ['C11'], TU, r'^transfer::NumaCache::transfer\(', defs=MPI)
def t_nct(T):
    s = Mgr(T, 'transfer::NumaCache')
    s.invariant()
    s.memcpy(s.source)
    for st, ret in T.run([s.v.p, s.b, s.cache]):
        r = mkb(T.ex.tobool(ret))
        T.ensure(st, 'true exactly if the block was copied', EQ2(st.ghost['$copies'], ITE(r, 1, 0)))
        s.asked(st, r)
        T.frame(st, [])


def base(s, v, cls):
    """The part of the object that belongs to a base class."""
    o = min(o for k, (o, sc) in v.f.items() if k == '_vptr$' + cls.split('::')[-1])
    return View(s.ex, v.st, PtrV(v.p.r, v.p.off + o), '!%d' % s.T.mod.di().record(cls))


class FC(Mgr, Full):
    whole = True


@task('NumaFullCache::init', ['C06'], TU, r'^transfer::NumaFullCache::init\(', defs=MPI)
def t_nfci(T):
    s = FC(T, 'transfer::NumaFullCache')
    managers(s)
    s.broadcasts(lambda k, n: PtrV(s.elems, 0))
    for st, ret in T.run([s.v.p, start(s), s.bcv, s.bsv, s.type, s.comm.p, s.numa, s.mine]):
        if s.errors(st, ret):
            continue
        q = s.v.at(st)
        f, c = base(s, q, 'transfer::NumaFull'), base(s, q, 'transfer::NumaCache')
        T.ensure(st, 'start of the memory of the process', s.is_(f['m_data'], PtrV(s.mem, 0)))
        T.ensure(st, 'slots per domain, size of a block, rank', AND(EQ2(f['m_blockCount'], s.bc), EQ2(f['m_blockSize'], s.W), EQ2(f['m_rank'], s.p)))
        T.ensure(st, 'size of a block', EQ2(c['m_blockSize'], s.W))
        numa_init(T, s, st)
        T.frame(st, [(s.v.p.r, None, None)])


@task('NumaFullCache::transfer', ['C06'], TU, r'^transfer::NumaFullCache::transfer\(', defs=MPI)
def t_nfct(T):
    s = FC(T, 'transfer::NumaFullCache')
    ex, v = T.ex, s.v
    b, rr, dd, oo, cache = Full.args(s)
    s.b = b
    for cls, fs in (('transfer::NumaFull', dict(m_data=PtrV(s.mem, 0), m_blockCount=s.bc, m_blockSize=s.W, m_rank=s.p)),
                    ('transfer::NumaCache', dict(m_domainId=s.d, m_totalDomains=s.D, m_blockSize=s.W, m_cacheManager=PtrV(s.elems, 0)))):
        w = base(s, v, cls)
        for k, x in fs.items():
            w.set(k, x)
    s.memcpy(lambda st, p: Full.source(s, st, p) if isinstance(p, PtrV) and p.r is s.mem else Mgr.source(s, st, p))
    for st, ret in T.run([v.p, b, rr, dd, oo, cache]):
        r = mkb(ex.tobool(ret))
        T.ensure(st, 'true exactly if the block was copied', EQ2(st.ghost['$copies'], ITE(r, 1, 0)))
        T.ensure(st, 'blocks of this process are always found', OR(r, s.rr != s.p))
        T.ensure(st, 'no slot is held', EQ(st.ghost['$h'], -1))
        T.ensure(st, 'not found only if no other domain has it', OR(r, s.all_tried(st)))
        T.frame(st, [])


# ------------------------------------------------------------------ MPI windows, full storage
class Win:
    """Passive target epochs on windows: $ep = {window: (rank, exclusive)}; MPI is used under its lock."""

    def __init__(self, s, hooks=None):
        self.s, T = s, s.T
        T.st.ghost['$ep'] = ()
        self.gets = hooks or {}

        def lock(ex, st, a, ins, dem):
            self.mpi(st)
            w = a[3]
            ex.oblige(st, 'MPI_Win_lock: the window is not locked by this thread', all(not self.same(w, e[0]) for e in st.ghost['$ep']), 'lock')
            k = ex.sv(st, a[0])
            ex.oblige(st, 'MPI_Win_lock: kind of lock', isc(k) and k in (1, 2), 'contract')
            fl = ex.sv(st, a[2])
            ex.oblige(st, 'MPI_Win_lock: MPI checks for conflicts with an exclusive lock', isc(fl) and (k != 1 or fl & 1 == 0), 'contract')
            self.begin(st, w, ex.sv(st, a[1]), k == 1)
            st.ghost['$ep'] = st.ghost['$ep'] + ((w, ex.sv(st, a[1]), k == 1),)
            return [(st, IntV(32, 0))]

        def unlock(ex, st, a, ins, dem):
            self.mpi(st)
            w, r = a[1], ex.sv(st, a[0])
            e = self.epoch(st, w)
            ex.oblige(st, 'MPI_Win_unlock: the window was locked for this process', e is not None and EQ2(e[1], r), 'lock')
            self.end(st, w)
            st.ghost['$ep'] = tuple(x for x in st.ghost['$ep'] if not self.same(w, x[0]))
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Win_lock$', lock)
        T.contract(r'^MPI_Win_unlock$', unlock)

    def same(self, a, b):
        return isinstance(a, PtrV) and isinstance(b, PtrV) and a.r is b.r

    def epoch(self, st, w):
        for e in st.ghost['$ep']:
            if self.same(w, e[0]):
                return e
        return None

    def mpi(self, st):
        if self.s.serial:
            self.s.ex.oblige(st, 'MPI is used under its lock', mpi_locked(st), 'lock')

    def begin(self, st, w, rank, exclusive):
        pass

    def end(self, st, w):
        pass

    def closed(self, st):
        self.s.T.ensure(st, 'all epochs are closed', not st.ghost['$ep'])

    def args(self, st, a):
        """origin, target and window of MPI_Get and MPI_Put"""
        ex = self.s.ex
        self.mpi(st)
        e = self.epoch(st, a[7])
        ex.oblige(st, 'the window is locked for this process', e is not None and EQ2(e[1], ex.sv(st, a[3])), 'lock')
        return a[0], ex.sv(st, a[1]), a[2], ex.sv(st, a[3]), ex.sv(st, a[4]), ex.sv(st, a[5]), a[6], a[7]


class WinFull(Tr):
    def __init__(self, T, serial):
        Tr.__init__(self, T, 'transfer::MPIWinFull', serial)
        self.win, self.mutex = PtrV(Region('raw', 'window', None), 0), PtrV(Region('raw', 'winMutex', None), 0)


def create(s, want, key='$win'):
    """MPI_Win_create: may fail. want(st, k) -> conditions on the k-th window and its handle"""
    T = s.T
    T.st.ghost[key] = 0

    def c(ex, st, a, ins, dem):
        if s.serial:
            ex.oblige(st, 'MPI is used under its lock', mpi_locked(st), 'lock')
        k = st.ghost[key]
        ex.oblige(st, 'only domain 0 creates windows', EQ(s.d, 0), 'contract')
        h, cs = want(st, k, a)
        ex.oblige(st, 'all processes of the grid take part', isinstance(a[4], PtrV) and isinstance(s.comm.val('m_comm'), PtrV) and a[4].r is s.comm.val('m_comm').r, 'contract')
        for nm, f in cs:
            ex.oblige(st, nm, f, 'contract')
        bad = st.fork()
        bad.ghost['$err'] = MPI_ERROR
        st.ghost[key] = k + 1
        ex.store(st, a[5], h, PTR)
        e = fint('mpierror')
        bad.assume(AND(e > 0, e < 1 << 30))
        return [(st, IntV(32, 0)), (bad, IntV(32, e, 1, 1 << 30))]
    T.contract(r'^MPI_Win_create$', c)


MPI_ERROR = 1


def one_mutex(s, st, mx):
    f = from0(st, 'threads::PthreadMutex*')
    if not isinstance(mx, PtrV) or mx.r is None:
        return False
    return OR(AND(s.d > 0, s.is_(mx, s.mutex)), AND(EQ(s.d, 0), bool(mx.r.heap), len(f) == 1 and s.is_(f[0], mx)))


def from0(st, kind):
    return st.ghost.get('$from ' + kind, ())


def reg_full(sfx, defs):
    serial = defs is MPIT

    @task('MPIWinFull::init' + sfx, ['C06', 'C14'], TU, r'^transfer::MPIWinFull::init\(', defs=defs)
    def t_init(T):
        s = WinFull(T, serial)
        v = s.v
        null = v.val('m_window')
        s.broadcasts(lambda k, n: s.mutex if 'Mutex' in k else s.win)

        def want(st, k, a):
            return s.win, [('one window', k == 0),
                           ('the domains have stored their blocks', EQ2(st.ghost['$bc'], 1)),
                           ('the blocks of the process', s.is_(a[0], PtrV(s.mem, 0))),
                           ('all blocks of all domains', EQ2(T.ex.sv(st, a[1]), s.W * s.bc * s.D)),
                           ('the unit of the window is an element', EQ2(T.ex.sv(st, a[2]), s.ts))]
        create(s, want)
        lemma_mono(T, T.st, [(s.W * s.bc, s.d, s.W * s.bc, s.D)])
        for st, ret in T.run([v.p, start(s), s.bcv, s.bsv, s.type, s.comm.p, s.numa]):
            s.released(st)
            if s.errors(st, ret):
                continue
            q = v.at(st)
            T.ensure(st, 'values of all domains are the same', EQ2(st.ghost['$bc'], 2))
            T.ensure(st, 'domain 0 creates the window', EQ2(st.ghost['$win'], ITE(EQ(s.d, 0), 1, 0)))
            T.ensure(st, 'the window', s.is_(q['m_window'], s.win))
            mx = q['m_winMutex']
            T.ensure(st, 'one mutex for all domains', one_mutex(s, st, mx))
            T.ensure(st, 'the domain, size and type of a block', AND(EQ2(q['m_numaDomainId'], s.d), EQ2(q['m_blockSize'], s.bs), s.is_(q['m_mpiType'], s.mt)))
            T.frame(st, [(v.p.r, None, None)])

    @task('MPIWinFull::transfer' + sfx, ['C06'], TU, r'^transfer::MPIWinFull::transfer\(', defs=defs)
    def t_tr(T):
        s = WinFull(T, serial)
        ex, v = T.ex, s.v
        v.set('m_window', s.win)
        v.set('m_winMutex', s.mutex)
        v.set('m_blockSize', s.bs)
        v.set('m_mpiType', s.mt)
        rr = T.int('remoteRank', 32, signed=True, lo=0)
        T.assume(rr.t < s.P)
        o = s.offset()
        w = Win(s)

        def get(ex, st, a, ins, dem):
            org, n, ty, rank, disp, m, ty2, win = w.args(st, a)
            if not serial:
                ex.oblige(st, 'no other thread of the process uses the window', lock_of(st, s.mutex.r), 'lock')
            ex.oblige(st, 'the window of the level', s.is_(win, s.win), 'contract')
            ex.oblige(st, 'the process that holds the block', EQ2(rank, rr.t), 'contract')
            ex.oblige(st, 'the slot of the block', EQ2(disp, o.t * s.bs), 'contract')
            ex.oblige(st, 'exactly one block', AND(EQ2(n, s.bs), EQ2(m, s.bs), s.is_(ty, s.mt), s.is_(ty2, s.mt)), 'contract')
            ex.oblige(st, 'the cache slot of the caller', s.is_(org, s.cache), 'contract')
            st.ghost['$copies'] = st.ghost['$copies'] + 1
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Get$', get)
        for st, ret in T.run([v.p, rr, o, s.cache]):
            T.ensure(st, 'one copy', EQ2(st.ghost['$copies'], 1))
            w.closed(st)
            s.released(st)
            T.frame(st, [(s.mutex.r, None, None)])


for _s, _d in BOTH:
    reg_full(_s, _d)


# ------------------------------------------------------------------ communication thread, full storage
def send_contract(s, what):
    """CommThread::send (C20). what(st, tag, rank, data) -> conditions"""
    T = s.T

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the communication thread', isinstance(a[0], PtrV) and 'commThread' in (a[0].r.name or ''), 'contract')
        for nm, f in what(st, ex.sv(st, a[1]), ex.sv(st, a[2]), ex.u(st, a[3])):
            ex.oblige(st, nm, f, 'contract')
        return [(st, None)]
    T.contract(r'^mpi::CommThread::send\(', c)


def register_contract(s, want):
    """CommThread::registerReceiver (C20): may fail; the tag is the same on all processes."""
    T = s.T
    T.st.ghost['$reg'] = 0

    def c(ex, st, a, ins, dem):
        k = st.ghost['$reg']
        ex.oblige(st, 'the communication thread', isinstance(a[0], PtrV) and 'commThread' in (a[0].r.name or ''), 'contract')
        ex.oblige(st, 'only domain 0 registers', EQ(s.d, 0), 'contract')
        ex.oblige(st, 'the communicator of the grid', isinstance(a[1], PtrV) and a[1].r is s.comm.val('m_comm').r, 'contract')
        for nm, f in want(st, k, a):
            ex.oblige(st, nm, f, 'contract')
        bad, e = s.fails(st)
        st.ghost['$reg'] = k + 1
        ex.store(st, a[3], IntV(32, s.tags[k], 0, 32765), INT(32))
        return [(st, IntV(32, 0)), (bad, e)]
    T.contract(r'^mpi::CommThread::registerReceiver\(', c)


class ThreadFull(Tr):
    def __init__(self, T):
        Tr.__init__(self, T, 'transfer::MPIThreadFull')
        self.mutex = PtrV(Region('raw', 'sendRecvMutex', None), 0)
        self.tag = T.int('tag', 32, lo=0, hi=32765).t
        self.tags = [self.tag]

    def invariant(self):
        v = self.v
        v.set('m_data', PtrV(self.mem, 0))
        v.set('m_blockSize', self.bs)
        v.set('m_typeSize', self.ts)
        v.set('m_comm', self.comm.val('m_comm'))
        v.set('m_mpiType', self.mt)
        v.set('m_tag', self.tag)
        v.set('m_sendRecvMutex', self.mutex)


def mpi_args(s, st, a, buf, n, ty, peer, tag, what):
    ex = s.ex
    ex.oblige(st, what + ': exactly one block', AND(EQ2(ex.sv(st, a[1]), n), isinstance(a[2], PtrV) and a[2].r is ty.r), 'contract')
    ex.oblige(st, what + ': with the other process', EQ2(ex.sv(st, a[3]), peer), 'contract')
    ex.oblige(st, what + ': with the tag of the level', EQ2(ex.sv(st, a[4]), tag), 'contract')
    ex.oblige(st, what + ': in the communicator of the grid', isinstance(a[5], PtrV) and a[5].r is s.comm.val('m_comm').r, 'contract')
    ex.oblige(st, what + ': memory', s.is_(a[0], buf), 'contract')


@task('MPIThreadFull::init', ['C06', 'C14'], TU, r'^transfer::MPIThreadFull::init\(', defs=MPI)
def t_tfi(T):
    s = ThreadFull(T)
    v = s.v
    s.broadcasts(lambda k, n: s.mutex if 'Mutex' in k else IntV(32, s.tag, 0, 32765))

    def want(st, k, a):
        return [('one receiver', k == 0),
                ('the domains have stored their blocks', EQ2(st.ghost['$bc'], 1)),
                ('the receiver of domain 0', isinstance(a[2], PtrV) and a[2].r is v.p.r)]
    register_contract(s, want)
    for st, ret in T.run([v.p, start(s), s.bcv, s.bsv, s.type, s.comm.p, s.numa]):
        s.released(st)
        if s.errors(st, ret):
            continue
        q = v.at(st)
        T.ensure(st, 'values of all domains are the same', EQ2(st.ghost['$bc'], 2))
        T.ensure(st, 'domain 0 registers', EQ2(st.ghost['$reg'], ITE(EQ(s.d, 0), 1, 0)))
        T.ensure(st, 'the tag', EQ2(q['m_tag'], s.tag))
        T.ensure(st, 'the blocks of the process, in domain 0', OR(s.d > 0, s.is_(q['m_data'], PtrV(s.mem, 0))))
        mx = q['m_sendRecvMutex']
        T.ensure(st, 'one mutex for all domains', one_mutex(s, st, mx))
        T.ensure(st, 'the domain, size and type of a block', AND(EQ2(q['m_numaDomainId'], s.d), EQ2(q['m_blockSize'], s.bs), EQ2(q['m_typeSize'], s.ts), s.is_(q['m_mpiType'], s.mt)))
        T.ensure(st, 'the communicator', q['m_comm'].r is s.comm.at(st).val('m_comm').r)
        T.frame(st, [(v.p.r, None, None)])


@task('MPIThreadFull::transfer', ['C06'], TU, r'^transfer::MPIThreadFull::transfer\(', defs=MPI)
def t_tft(T):
    s = ThreadFull(T)
    s.invariant()
    T.st.ghost['$sent'] = 0
    rr = T.int('remoteRank', 32, signed=True, lo=0)
    T.assume(rr.t < s.P)
    o = s.offset()

    def what(st, tag, rank, data):
        n = st.ghost['$sent']
        st.ghost['$sent'] = n + 1
        return [('the holder is asked once', AND(n == 0, EQ2(st.ghost['$copies'], 0))), ('the tag of the level', EQ2(tag, s.tag)), ('the process that holds the block', EQ2(rank, rr.t)),
                ('the slot of the block', EQ2(data, o.t)), ('no other thread waits for an answer', lock_of(st, s.mutex.r))]
    send_contract(s, what)

    def recv(ex, st, a, ins, dem):
        ex.oblige(st, 'the answer to the request', AND(st.ghost['$sent'] == 1, lock_of(st, s.mutex.r)), 'contract')
        mpi_args(s, st, a, s.cache, s.bs, s.mt, rr.t, s.tag, 'MPI_Recv')
        st.ghost['$copies'] = st.ghost['$copies'] + 1
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Recv$', recv)
    for st, ret in T.run([s.v.p, rr, o, s.cache]):
        T.ensure(st, 'one copy', EQ2(st.ghost['$copies'], 1))
        s.released(st)
        T.frame(st, [(s.mutex.r, None, None)])


@task('MPIThreadFull::recv', ['C06'], TU, r'^transfer::MPIThreadFull::recv\(', defs=MPI)
def t_tfr(T):
    s = ThreadFull(T)
    s.invariant()
    sender = T.int('sender', 32, signed=True, lo=0)
    o = s.offset()

    def send(ex, st, a, ins, dem):
        mpi_args(s, st, a, PtrV(s.mem, s.W * o.t), s.bs, s.mt, sender.t, s.tag, 'MPI_Send')
        st.ghost['$copies'] = st.ghost['$copies'] + 1
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_(S|Ss)end$', send)
    for st, ret in T.run([s.v.p, sender, o]):
        T.ensure(st, 'one block is sent', EQ2(st.ghost['$copies'], 1))
        T.ensure(st, 'the block lies inside of the memory', AND(s.W * o.t >= 0, s.W * (o.t + 1) <= s.W * (s.bc * s.D)))
        T.frame(st, [])


# ------------------------------------------------------------------ nothing to transfer
@task('NumaNo::transfer (full)', ['C06'], TU, r'^transfer::NumaNo::transfer\(unsigned long, int', defs=MPI)
def t_nnf(T):
    v = T.obj('transfer::NumaNo')
    for st, ret in T.run([v.p, T.int('block'), T.int('rank', 32), T.int('remoteDomain', 32), T.int('offset'), PtrV(Region('raw', 'cache', None), 0)]):
        T.ensure(st, 'nothing is copied', NOT(T.ex.tobool(ret)))
        T.frame(st, [])


@task('NumaNo::transfer (cache)', ['C11'], TU, r'^transfer::NumaNo::transfer\(unsigned long, unsigned char\*\)', defs=MPI)
def t_nnc(T):
    v = T.obj('transfer::NumaNo')
    for st, ret in T.run([v.p, T.int('block'), PtrV(Region('raw', 'cache', None), 0)]):
        T.ensure(st, 'nothing is copied', NOT(T.ex.tobool(ret)))
        T.frame(st, [])


@task('MPINo::transfer (cache)', ['C11'], TU, r'^transfer::MPINo::transfer\(long', defs=MPI)
def t_mnc(T):
    v = T.obj('transfer::MPINo')
    retry = T.cell('retry', 1)
    T.st.mem[retry.r] = Cells({0: (1, IntV(8, 0))})
    for st, ret in T.run([v.p, T.int('entry', signed=True), T.int('block'), PtrV(Region('raw', 'cache', None), 0), retry]):
        T.ensure(st, 'nothing is copied', NOT(T.ex.tobool(ret)))
        T.ensure(st, 'and not to be repeated', EQ2(T.ex.u(st, T.ex.load(st, retry, INT(8))), 0))
        T.frame(st, [(retry.r, 0, 1)])


# ------------------------------------------------------------------ cached blocks, MPI windows
class Dict(Tr):
    """Directory entry number e of process r; the cache slot o of this process; RCS slots per process."""
    whole = False
    E = 4       # copies of an entry (C10)


class WinCache(Dict):
    LOCKW = 4        # position of the lock word (window units) behind the copies
    STEP = 5

    def __init__(self, T, serial, opened=True):
        cls = 'transfer::MPIWinCache'
        Tr.__init__(self, T, cls, serial)
        ex, v = T.ex, self.v
        ref = '!%d' % T.mod.di().record('transfer::MPICache<allocator::MPIAlloc, true>')
        self.parent = View(ex, v.st, v.p, ref)
        self.rcs = z3.Int('slotsOfProcess')
        T.assume(self.rcs >= 1, self.rcs < 1 << 31, self.P * self.rcs < 1 << 62, self.W * self.rcs < 1 << 47, self.bs * self.rcs < 1 << 47)
        lemma_mono(T, T.st, [(self.rcs, self.p, self.rcs, self.P)])
        fact(T, T.st, 'numbers of slots', AND(self.p * self.rcs >= 0, self.p * self.rcs < 1 << 62))
        self.parent.set('m_dictEntrySize', 4)
        self.dmutex, self.cmutex, self.mutex = [PtrV(Region('raw', x, None), 0) for x in ('dictWinMutex', 'cacheWinMutex', 'mpiMutex')]
        self.dwin, self.cwin = [PtrV(Region('raw', x, None), 0) for x in ('dictWin', 'cacheWin')]
        self.dict = Region('raw', 'directory', None)
        if not opened:
            return
        self.parent.set('m_mpiComm', self.comm.p)
        self.parent.set('m_rankCacheSize', self.rcs)
        self.parent.set('m_dictionary', PtrV(self.dict, 0))
        for k, x in dict(m_cache=PtrV(self.mem, 0), m_mpiMutex=self.mutex, m_dictWin=self.dwin, m_cacheWin=self.cwin, m_dictWinMutex=self.dmutex,
                         m_cacheWinMutex=self.cmutex, m_blockSize=self.bs, m_typeSize=self.ts, m_mpiType=self.mt, m_numaDomainId=self.d).items():
            v.set(k, x)

    def entry(self):
        """The directory entry and the protocol of its lock."""
        T, ex, s = self.T, self.ex, self
        self.r, self.e, self.o = T.int('dictRank', 32, signed=True, lo=0), T.int('dictOffset', 64, hi=1 << 46), T.int('offset', 64)
        T.assume(self.r.t < self.P, self.o.t < self.rcs)
        self.mine = self.p * self.rcs + self.o.t
        fact(T, T.st, 'the number of the slot', AND(self.mine >= 0, self.mine < 1 << 62))
        g = T.st.ghost
        # $own: this thread holds the lock of the entry; $cur: the buffer has the contents of the entry
        g['$own'], g['$cur'], g['$pend'], g['$dirty'] = False, False, False, False
        g['$buf'] = None
        g['$adds'] = g['$dels'] = 0
        g['$res'] = None
        self.local = EQ(self.r.t, self.p)
        w = self.w = DictWin(self)

        def place(st, rank, off):
            return AND(EQ2(ex.sv(st, rank), self.r.t), EQ2(ex.u(st, off), self.e.t * self.STEP + self.LOCKW))

        def acquire(ex, st, a, ins, dem):
            w.mpi(st)
            ep = w.epoch(st, self.dwin)
            ex.oblige(st, 'acquire: the lock word of the entry, in the window of the directory', AND(self.is_(a[0], self.mutex), place(st, a[1], a[2])), 'contract')
            ex.oblige(st, 'acquire: the window is locked exclusively for the process of the entry', ep is not None and ep[2] and EQ2(ep[1], self.r.t), 'lock')
            ex.oblige(st, 'acquire: the lock is not held yet', not st.ghost['$own'] and not st.ghost.get('$waits'), 'contract')
            st.ghost['$pend'] = False
            t = fint('oldLock')
            own = st.fork()
            own.assume(AND(t < 0, t >= -(1 << 63)))
            own.ghost['$own'] = True
            st.assume(AND(t >= 0, t < 1 << 62))
            st.ghost['$waits'] = t
            return [(own, IntV(64, t, -(1 << 63), -1)), (st, IntV(64, t, 0, 1 << 62))]
        T.contract(r'^mpi::Mutex::acquire\(', acquire)

        def wait(ex, st, a, ins, dem):
            w.mpi(st)
            x = ex.sv(st, a[1])
            if st.ghost['$own']:
                ex.oblige(st, 'wait: only for a lock that is taken', x < 0, 'contract')
                return [(st, None)]
            ex.oblige(st, 'wait: for the predecessor', AND(self.is_(a[0], self.mutex), bool(st.ghost.get('$waits') is not None), EQ2(x, st.ghost.get('$waits', -1))), 'contract')
            ex.oblige(st, 'wait: the predecessor can use the window', AND(not st.ghost['$ep'], not lock_of(st, self.dmutex.r)), 'lock')
            st.ghost['$own'] = True
            st.ghost['$waits'] = None
            st.ghost['$cur'] = False
            return [(st, None)]
        T.contract(r'^mpi::Mutex::wait\(', wait)

        def release(ex, st, a, ins, dem):
            w.mpi(st)
            ep = w.epoch(st, self.dwin)
            ex.oblige(st, 'release: the lock word of the entry, in the window of the directory', AND(self.is_(a[0], self.mutex), place(st, a[1], a[2])), 'contract')
            ex.oblige(st, 'release: the window is locked exclusively for the process of the entry', ep is not None and ep[2] and EQ2(ep[1], self.r.t), 'lock')
            ex.oblige(st, 'release: the lock is held', bool(st.ghost['$own']), 'contract')
            ex.oblige(st, 'release: the new contents of the entry are stored', not st.ghost['$dirty'], 'contract')
            st.ghost['$own'] = st.ghost['$cur'] = False
            return [(st, None)]
        T.contract(r'^mpi::Mutex::release\(', release)

        def get(ex, st, a, ins, dem):
            org, n, ty, rank, disp, m, ty2, win = w.args(st, a)
            w.check(st, 'MPI_Get', n, ty, rank, disp, m, ty2, win)
            ex.oblige(st, 'MPI_Get: into local memory', isinstance(org, PtrV) and org.r.local and isc(org.off), 'contract')
            ex.oblige(st, 'MPI_Get: changed contents are not overwritten', not st.ghost['$dirty'], 'contract')
            st.ghost['$buf'] = (org.r, org.off)
            st.ghost['$cur'] = st.ghost['$pend'] = True
            st.ghost['$cepoch'] = w.epoch(st, win)
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Get$', get)

        def put(ex, st, a, ins, dem):
            org, n, ty, rank, disp, m, ty2, win = w.args(st, a)
            w.check(st, 'MPI_Put', n, ty, rank, disp, m, ty2, win)
            ex.oblige(st, 'MPI_Put: the changed contents, while the lock is held', AND(isinstance(org, PtrV) and (org.r, org.off) == st.ghost['$buf'], st.ghost['$dirty'], st.ghost['$own']), 'contract')
            st.ghost['$dirty'] = False
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Put$', put)

        def flush(ex, st, a, ins, dem):
            w.mpi(st)
            ex.oblige(st, 'flush: the window is locked', w.epoch(st, a[1]) is not None, 'lock')
            st.ghost['$pend'] = False
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Win_flush(_local)?$', flush)

        def current(st, p):
            ep = w.epoch(st, self.dwin)
            ex.oblige(st, 'an entry is changed by the holder of its lock', bool(st.ghost['$own']), 'contract')
            if isinstance(p, PtrV) and p.r is self.dict:
                ex.oblige(st, 'the entry is one of this process', AND(self.local, EQ2(p.off, self.e.t * 8 * self.STEP)), 'contract')
                ex.oblige(st, 'own entries are changed while the window is locked', ep is not None and ep[2] and EQ2(ep[1], self.r.t), 'lock')
                return
            ex.oblige(st, 'the entry of another process is read before', AND(NOT(self.local), isinstance(p, PtrV) and (p.r, p.off) == st.ghost['$buf']), 'contract')
            ex.oblige(st, 'the current contents are used', AND(bool(st.ghost['$cur']), not st.ghost['$pend']), 'contract')
            st.ghost['$dirty'] = True

        def fetchupd(ex, st, a, ins, dem):
            current(st, a[1])
            ex.oblige(st, 'the slot of this process is announced', EQ2(ex.u(st, a[2]), self.mine), 'contract')
            ex.oblige(st, 'once', st.ghost['$adds'] == 0, 'contract')
            st.ghost['$adds'] = 1
            t = fint('entry')
            st.assume(AND(t >= -1, t < 1 << 62))
            st.ghost['$res'] = t
            return [(st, IntV(64, t, -1, 1 << 62))]
        M = r'^transfer::MPICache<allocator::MPIAlloc, true>::'
        T.contract(M + r'fetchAndUpdateBlockInfo\(', fetchupd)

        def delete(ex, st, a, ins, dem):
            current(st, a[1])
            ex.oblige(st, 'the slot of this process is withdrawn', EQ2(ex.sv(st, a[2]), self.mine), 'contract')
            st.ghost['$dels'] = st.ghost['$dels'] + 1
            return [(st, None)]
        T.contract(M + r'deleteBlockInfo\(', delete)

    def end(self, st, own):
        T = self.T
        T.ensure(st, 'the entry is %s' % ('still locked' if own else 'unlocked'), bool(st.ghost['$own']) == own and not st.ghost.get('$waits'))
        T.ensure(st, 'the new contents of the entry are stored', not st.ghost['$dirty'])
        self.w.closed(st)
        if self.serial and own:
            T.ensure(st, 'the lock of the MPI library is still held, and nothing else', len(models.held(st)) == 1 and mpi_locked(st))
        else:
            T.ensure(st, 'all locks are released', not models.held(st))
        T.frame(st, [(self.dmutex.r, None, None)])


class DictWin(Win):
    def begin(self, st, w, rank, exclusive):
        s = self.s
        s.ex.oblige(st, 'only the windows of the level are used', self.same(w, s.dwin), 'contract')
        self.alone(st)

    def alone(self, st):
        s = self.s
        if not s.serial:
            s.ex.oblige(st, 'no other thread of the process uses the window', lock_of(st, s.dmutex.r), 'lock')

    def end(self, st, w):
        self.alone(st)
        g = self.s.T.st.ghost
        st.ghost['$pend'] = False
        if not st.ghost['$own']:
            st.ghost['$cur'] = False

    def check(self, st, what, n, ty, rank, disp, m, ty2, win):
        s, ex = self.s, self.s.ex
        self.alone(st)
        ep = self.epoch(st, win)
        long_ = lambda t: isinstance(t, PtrV) and 'mpi_long' in (t.r.name or '') and 'long_' not in (t.r.name or '')
        ex.oblige(st, what + ': the entry, without its lock', AND(EQ2(n, s.E), EQ2(m, s.E), long_(ty), long_(ty2), EQ2(disp, s.e.t * s.STEP), EQ2(rank, s.r.t), self.same(win, s.dwin)), 'contract')
        ex.oblige(st, what + ': the window is locked exclusively', ep is not None and ep[2], 'lock')


def reg_wincache(sfx, defs):
    serial = defs is MPIT
    C = r'^transfer::MPIWinCache::'

    @task('MPIWinCache::startTransfer' + sfx, ['C11'], TU, C + r'startTransfer\(', defs=defs)
    def t_start(T):
        s = WinCache(T, serial)
        s.entry()
        for st, ret in T.run([s.v.p, T.int('block', 64, hi=1 << 46), s.r, s.e, s.o]):
            T.ensure(st, 'the slot is announced once', AND(st.ghost['$adds'] == 1, st.ghost['$dels'] == 0))
            T.ensure(st, 'a copy listed before is returned', st.ghost['$res'] is not None and EQ2(T.ex.sv(st, ret), st.ghost['$res']))
            s.end(st, True)

    @task('MPIWinCache::endTransfer' + sfx, ['C11'], TU, C + r'endTransfer\(', defs=defs)
    def t_end(T):
        s = WinCache(T, serial)
        s.entry()
        T.st.ghost['$own'] = True
        if serial:
            held_lock(T)
        for st, ret in T.run([s.v.p, T.int('block', 64, hi=1 << 46), s.r, s.e, s.o]):
            T.ensure(st, 'the entry is not changed', AND(st.ghost['$adds'] == 0, st.ghost['$dels'] == 0))
            s.end(st, False)

    @task('MPIWinCache::addBlock' + sfx, ['C11'], TU, C + r'addBlock\(', defs=defs)
    def t_add(T):
        s = WinCache(T, serial)
        s.entry()
        for st, ret in T.run([s.v.p, T.int('block', 64, hi=1 << 46), s.r, s.e, s.o]):
            T.ensure(st, 'the slot is announced once', AND(st.ghost['$adds'] == 1, st.ghost['$dels'] == 0))
            s.end(st, False)

    @task('MPIWinCache::deleteBlock' + sfx, ['C11'], TU, C + r'deleteBlock\(', defs=defs)
    def t_del(T):
        s = WinCache(T, serial)
        s.entry()
        b = T.int('block', 64, signed=True, lo=-1, hi=1 << 46)
        for st, ret in T.run([s.v.p, b, s.r, s.e, s.o]):
            T.ensure(st, 'the slot is withdrawn once if it held a block', AND(st.ghost['$adds'] == 0, EQ2(st.ghost['$dels'], ITE(b.t >= 0, 1, 0))))
            s.end(st, False)

    @task('MPIWinCache::transfer' + sfx, ['C11'], TU, C + r'transfer\(', defs=defs)
    def t_tr(T):
        s = WinCache(T, serial)
        ex, v = T.ex, s.v
        if serial:
            held_lock(T)
        h0 = len(models.held(T.st))
        b = T.int('block', 64, hi=1 << 46)
        e = T.int('entry', 64, signed=True, lo=-1)
        T.assume(e.t < s.P * s.rcs)
        rk, off = ex.divmod(T.st, e.t, s.rcs)
        T.assume(OR(e.t < 0, AND(rk >= 0, off >= 0, off < s.rcs)))
        lemma_mono(T, T.st, [(s.rcs, s.P, s.rcs, rk)])
        fact(T, T.st, 'the process', OR(e.t < 0, rk < s.P))
        lemma_mono(T, T.st, [(s.W, off + 1, s.W, s.rcs), (s.W, off, s.W, s.rcs), (s.bs, off, s.bs, s.rcs)])
        retry = T.cell('retry', 1)
        w = Win(s)

        def get(ex, st, a, ins, dem):
            org, n, ty, rank, disp, m, ty2, win = w.args(st, a)
            if not serial:
                ex.oblige(st, 'no other thread of the process uses the window', lock_of(st, s.cmutex.r), 'lock')
            ex.oblige(st, 'the window of the cache', s.is_(win, s.cwin), 'contract')
            ex.oblige(st, 'the process that lists the copy', EQ2(rank, rk), 'contract')
            ex.oblige(st, 'the slot of the copy', EQ2(disp, off * s.bs), 'contract')
            ex.oblige(st, 'exactly one block', AND(EQ2(n, s.bs), EQ2(m, s.bs), s.is_(ty, s.mt), s.is_(ty2, s.mt)), 'contract')
            ex.oblige(st, 'the cache slot of the caller', s.is_(org, s.cache), 'contract')
            st.ghost['$copies'] = st.ghost['$copies'] + 1
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Get$', get)
        s.memcpy(lambda st, p: [('the own cache', AND(isinstance(p, PtrV) and p.r is s.mem, EQ(rk, s.p))), ('the slot of the copy', EQ2(p.off, off * s.W)),
                                ('inside of the cache', AND(p.off >= 0, p.off + s.W <= s.W * s.rcs))])
        for st, ret in T.run([v.p, e, b, s.cache, retry]):
            r = mkb(ex.tobool(ret))
            T.ensure(st, 'a listed copy is taken', AND(EQ(r, e.t >= 0), EQ2(st.ghost['$copies'], ITE(r, 1, 0))))
            T.ensure(st, 'not to be repeated', EQ2(ex.u(st, ex.load(st, retry, INT(8))), 0))
            w.closed(st)
            T.ensure(st, 'all locks are released', len(models.held(st)) == h0)
            T.frame(st, [(retry.r, 0, 1), (s.cmutex.r, None, None)])


def held_lock(T):
    """The lock of the MPI library is held."""
    r = T.ex.global_region('_ZN3mpi7MPIComm7mpiLockE')
    T.st.ghost['$held'] = ((r, 0),)


for _s, _d in BOTH:
    reg_wincache(_s, _d)


def parent_init(s, rx, per):
    """MPICache::init (C10)"""
    T = s.T

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the directory of this object', isinstance(a[0], PtrV) and a[0].r is s.v.p.r, 'contract')
        ex.oblige(st, 'slots of a domain and blocks per domain', AND(EQ2(ex.u(st, a[1]), s.cs), EQ2(ex.u(st, a[2]), s.bc)), 'contract')
        ex.oblige(st, 'the communicators of the grid', AND(s.is_(a[3], s.comm.p), isinstance(a[4], PtrV) and a[4].r is s.numa.r), 'contract')
        ex.oblige(st, 'the directory is set up once', st.ghost.get('$dinit', 0) == 0, 'contract')
        bad, e = s.fails(st)
        st.ghost['$dinit'] = 1
        q = s.parent.at(st)
        q.set('m_rankCacheSize', s.rcs)
        q.set('m_dictionary', PtrV(s.dict, 0))
        q.set('m_mpiComm', s.comm.p)
        q.set('m_numaDomainId', s.d)
        return [(bad, e), (st, IntV(32, 0))]
    T.contract(rx, c)


@task('MPIWinCache::init', ['C11', 'C14', 'C21'], TU, r'^transfer::MPIWinCache::init\(', defs=MPI)
def t_wci(T):
    win_init(T, False)


@task('MPIWinCache::init (MPI calls are serialised)', ['C11', 'C14'], TU, r'^transfer::MPIWinCache::init\(', defs=MPIT)
def t_wcis(T):
    win_init(T, True)


def win_init(T, serial):
    s = WinCache(T, serial, opened=False)
    ex, v = T.ex, s.v
    csv = T.int('cacheSize', 32)
    s.cs = csv.t
    T.assume(s.cs >= 1, s.rcs == s.cs * s.D, s.W * s.cs * s.D < 1 << 47, s.bc <= 1 << 40, s.bc * s.D <= 1 << 40)
    lemma_mono(T, T.st, [(s.W, s.rcs, s.W, s.cs * s.D), (s.bc, s.d + 1, s.bc, s.D), (s.bc, s.d, s.bc, s.D)])
    fact(T, T.st, 'blocks of this domain', AND(s.bc * (s.d + 1) <= s.bc * s.D, s.bc * s.d >= 0))
    parent_init(s, r'^transfer::MPICache<allocator::MPIAlloc, true>::init\(', True)
    shared = {'unsigned char*': [PtrV(s.mem, 0)], 'threads::PthreadMutex*': [s.dmutex, s.cmutex], 'mpi::Mutex*': [s.mutex], 'ompi_win_t*': [s.dwin, s.cwin]}

    def share(k, n):
        if k not in shared or n >= len(shared[k]):
            raise Unsupported('broadcast of another value')
        return shared[k][n]
    s.broadcasts(share)
    g = T.st.ghost
    g['$word'] = False
    g['$minit'] = 0
    j = z3.Int('anyEntry')
    T.assume(j >= s.bc * s.d, j < s.bc * (s.d + 1))

    def want(st, k, a):
        common = [('the directory is complete', AND(st.ghost.get('$dinit', 0) == 1, '$from threads::PthreadMutex*' in st.ghost))]
        if k == 0:
            return s.dwin, common + [('the directory of the process', s.is_(a[0], PtrV(s.dict, 0))), ('all entries of all domains', EQ2(ex.sv(st, a[1]), 40 * s.bc * s.D)),
                                     ('the unit of the window is an entry', EQ2(ex.sv(st, a[2]), 8))]
        return s.cwin, common + [('two windows', k == 1), ('the cache of the process', s.is_(a[0], PtrV(s.mem, 0))), ('all slots of all domains', EQ2(ex.sv(st, a[1]), s.W * s.rcs)),
                                 ('the unit of the window is an element', EQ2(ex.sv(st, a[2]), s.ts))]
    create(s, want)

    def minit(ex, st, a, ins, dem):
        ex.oblige(st, 'the lock uses the window of the directory', AND(st.ghost['$win'] >= 1, s.is_(a[2], s.dwin)), 'contract')
        ex.oblige(st, 'the communicators of the grid', AND(s.is_(a[1], s.comm.p), isinstance(a[3], PtrV) and a[3].r is s.numa.r), 'contract')
        ex.oblige(st, 'the lock is set up once', AND(st.ghost['$minit'] == 0, isinstance(a[0], PtrV)), 'contract')
        st.ghost['$minit'] = 1
        st.ghost['$mobj'] = a[0]
        return [(st, None)]
    T.contract(r'^mpi::Mutex::init\(', minit)

    def hook(ex, st, r, off, n, ty, val):
        if r is not s.dict:
            return None
        if val is None:
            raise Unsupported('directory is read')
        q, r_ = pdiv_mono(poly(off - 32), (), 40)
        x = unpoly(q)
        ok = AND(not any(r_.values()), x >= s.bc * s.d, x < s.bc * (s.d + 1))
        ex.oblige(st, 'only lock words of entries of this domain are written', ok, 'contract')
        ex.oblige(st, 'after the directory was set up', st.ghost.get('$dinit', 0) == 1, 'contract')
        ex.oblige(st, 'a lock starts unlocked', EQ2(ex.sv(st, val), -1), 'contract')
        st.ghost['$word'] = OR(st.ghost['$word'], EQ2(off, 8 * (5 * j + 4)))
        return True
    ex.mem_hooks.append(hook)

    def lhook(ex, f, hdr, entry, h, getters):
        out = []
        for key, gt in getters.items():
            x = gt(entry)
            if not (isc(x) or isinstance(x, z3.ArithRef)) or isinstance(x, bool):
                continue
            for w, pos in (('', lambda v: v), (' (in the domain)', lambda v: s.bc * s.d + v), (' (from the end)', lambda v: s.bc * (s.d + 1) - v)):
                p_ = lambda st, gt=gt, pos=pos: pos(gt(st))
                out.append(('locks of entries before %s%s are unlocked' % (key, w), lambda st, p_=p_: OR(j >= p_(st), st.ghost['$word'])))
                out.append(('locks of entries from %s%s on are unlocked' % (key, w), lambda st, p_=p_: OR(j < p_(st), st.ghost['$word'])))
                out.append(('locks of entries after %s%s are unlocked' % (key, w), lambda st, p_=p_: OR(j <= p_(st), st.ghost['$word'])))
                out.append(('%s%s is in range' % (key, w), lambda st, p_=p_: AND(p_(st) >= s.bc * s.d, p_(st) <= s.bc * (s.d + 1))))
        return out
    ex.loop_hooks.append(lhook)
    # cache of this domain
    for st, ret in T.run([v.p, PtrV(s.mem, s.W * s.cs * s.d), csv, PtrV(Region('raw', 'cacheManager', None), 0), s.bcv, s.bsv, s.type, s.comm.p, s.numa]):
        s.released(st)
        if s.errors(st, ret):
            continue
        q = v.at(st)
        T.ensure(st, 'values of all domains are the same', tuple(sorted(st.ghost['$bcs'])) == tuple(sorted(k for k in shared for _ in shared[k])))
        T.ensure(st, 'the lock of every entry of the domain is unlocked', st.ghost['$word'])
        zero = EQ(s.d, 0)
        T.ensure(st, 'domain 0 creates the windows and the lock', AND(EQ2(st.ghost['$win'], ITE(zero, 2, 0)), EQ2(st.ghost['$minit'], ITE(zero, 1, 0))))
        T.ensure(st, 'the cache of the process', s.is_(q['m_cache'], PtrV(s.mem, 0)))
        T.ensure(st, 'the windows', AND(s.is_(q['m_dictWin'], s.dwin), s.is_(q['m_cacheWin'], s.cwin)))
        mu, dm, cm = q['m_mpiMutex'], q['m_dictWinMutex'], q['m_cacheWinMutex']
        own = lambda p: isinstance(p, PtrV) and p.r is not None and bool(p.r.heap)
        T.ensure(st, 'locks of domain 0', OR(s.d > 0, AND(own(mu), own(dm), own(cm), len({x.r for x in (mu, dm, cm)}) == 3, '$mobj' in st.ghost and s.is_(mu, st.ghost['$mobj']))))
        T.ensure(st, 'the same locks in the other domains', OR(zero, AND(s.is_(mu, s.mutex), OR(AND(s.is_(dm, s.dmutex), s.is_(cm, s.cmutex)), AND(s.is_(cm, s.dmutex), s.is_(dm, s.cmutex))))))
        if '$from threads::PthreadMutex*' in st.ghost and s.is_(dm, s.dmutex) is not True:
            f = st.ghost['$from threads::PthreadMutex*']
            T.ensure(st, 'every domain gets the lock of its window', OR(s.d > 0, AND(len(f) == 2, s.is_(f[0], dm), s.is_(f[1], cm))))
        elif s.is_(dm, s.dmutex) is True:
            pass
        T.ensure(st, 'the domain, size and type of a block', AND(EQ2(q['m_numaDomainId'], s.d), EQ2(q['m_blockSize'], s.bs), EQ2(q['m_typeSize'], s.ts), s.is_(q['m_mpiType'], s.mt)))
        T.frame(st, [(v.p.r, None, None)])


# ------------------------------------------------------------------ cached blocks, communication thread
class ThreadCache(Mgr):
    """Directory entry e (of process r) and cache slot o of this process; RCS slots per process."""

    def __init__(self, T, opened=True):
        Mgr.__init__(self, T, 'transfer::MPIThreadCache')
        ex, v = T.ex, self.v
        self.parent = View(ex, v.st, v.p, '!%d' % T.mod.di().record('transfer::MPICache<allocator::Default, false>'))
        self.rcs = z3.Int('slotsOfProcess')
        self.n = z3.Int('entries')       # entries of a process
        T.assume(self.rcs >= 1, self.rcs < 1 << 31, self.n >= 1, self.n <= 1 << 46, self.P * self.rcs < 1 << 62, self.n * self.rcs < 1 << 63)
        lemma_mono(T, T.st, [(self.rcs, self.p, self.rcs, self.P)])
        fact(T, T.st, 'numbers of slots', AND(self.p * self.rcs >= 0, self.p * self.rcs < 1 << 62))
        self.parent.set('m_dictEntrySize', 4)
        self.MX = T.mod.di().sizeof(T.mod.di().record('threads::PthreadMutex'))
        self.dict, self.locks = Region('raw', 'directory', None), Region('raw', 'locks of the entries', None)
        self.info, self.block = PtrV(Region('raw', 'infoMutex', None), 0), PtrV(Region('raw', 'blockMutex', None), 0)
        self.tag = T.int('tagOffset', 32, lo=0, hi=(1 << 31) - 8).t
        self.tags = [T.int(k, 32, lo=0, hi=32765).t for k in ('infoTag', 'transfererTag', 'adderTag', 'deleterTag')]
        self.skip = lambda j: False
        g = T.st.ghost
        g['$ops'] = g['$sent'] = 0
        g['$req'], g['$reqr'] = z3.IntVal(0), None
        if not opened:
            return
        p = self.parent
        p.set('m_mpiComm', self.comm.p)
        p.set('m_rankCacheSize', self.rcs)
        p.set('m_dictionary', PtrV(self.dict, 0))
        for k, x in dict(m_numaDomainId=self.d, m_numaDomainSize=self.D, m_cacheManager=PtrV(self.elems, 0), m_mutexes=PtrV(self.locks, 0), m_blockInfoTag=self.tags[0],
                         m_transfererTag=self.tags[1], m_adderTag=self.tags[2], m_deleterTag=self.tags[3], m_tagOffset=self.tag, m_infoMutex=self.info,
                         m_blockMutex=self.block, m_blockSize=self.bs, m_mpiType=self.mt).items():
            v.set(k, x)

    def entry(self):
        T, ex = self.T, self.ex
        self.r, self.e, self.o = T.int('dictRank', 32, signed=True, lo=0), T.int('dictOffset', 64, hi=1 << 46), T.int('offset', 64)
        T.assume(self.r.t < self.P, self.o.t < self.rcs, self.e.t < self.n)
        self.coded = self.e.t * self.rcs + self.o.t
        lemma_digit(T, T.st, [(self.e.t, self.o.t, self.n, self.rcs)])
        fact(T, T.st, 'entry and slot in one number', AND(self.coded >= 0, self.coded < self.n * self.rcs))
        self.who = self.p
        self.operations()

    def number(self):
        """number of slot o of process who"""
        return self.who * self.rcs + self.o.t

    def operations(self):
        """Entry operations (C10), under the lock of the entry."""
        T, ex = self.T, self.ex
        M = r'^transfer::MPICache<allocator::Default, false>::'

        def here(st, p):
            ex.oblige(st, 'the directory entry of the block', AND(isinstance(p, PtrV) and p.r is self.dict, EQ2(p.off, 32 * self.e.t) if isinstance(p, PtrV) else False), 'contract')
            ok = OR(*[AND(r is self.locks, EQ2(o, self.MX * self.e.t)) for r, o in models.held(st) if r is self.locks])
            ex.oblige(st, 'the lock of the entry is held', ok, 'lock')
            ex.oblige(st, 'one operation', st.ghost['$ops'] == 0, 'contract')

        def fetch(ex, st, a, ins, dem):
            here(st, a[1])
            st.ghost['$ops'] = 'fetch'
            t = fint('entry')
            st.assume(AND(t >= -1, t < 1 << 62))
            st.ghost['$res'] = t
            return [(st, IntV(64, t, -1, 1 << 62))]
        T.contract(M + r'fetchBlockInfo\(long const\*\)', fetch)

        def change(what, signed):
            def c(ex, st, a, ins, dem):
                here(st, a[1])
                st.ghost['$ops'] = what
                ex.oblige(st, 'the slot of the process', EQ2(ex.sv(st, a[2]) if signed else ex.u(st, a[2]), self.number()), 'contract')
                return [(st, None)]
            return c
        T.contract(M + r'updateBlockInfo\(long\*, unsigned long\)$', change('add', False))
        T.contract(M + r'deleteBlockInfo\(long\*, long\)$', change('delete', True))

    def sends(self, tag, rank, data, lock=None):
        def what(st, t, r, d):
            n = st.ghost['$sent']
            st.ghost['$sent'] = n + 1
            out = [('one message', n == 0), ('the tag of the receiver', EQ2(t, tag)), ('the process that is asked', EQ2(r, rank)), ('the message', EQ2(d, data))]
            if lock is not None:
                out.append(('no other thread waits for an answer', lock_of(st, lock.r)))
            return out
        send_contract(self, what)

    def isend(self, ok):
        """Answers of the communication thread: MPI_Isend/MPI_Test. ok(st, buffer, count, type, tag) -> conditions"""
        T, ex = self.T, self.ex

        def send(blocking):
            def c(ex, st, a, ins, dem):
                for nm, f in ok(st, a[0], ex.sv(st, a[1]), a[2], ex.sv(st, a[4])):
                    ex.oblige(st, nm, f, 'contract')
                ex.oblige(st, 'the answer goes to the process that asked', EQ2(ex.sv(st, a[3]), self.sender.t), 'contract')
                ex.oblige(st, 'in the communicator of the grid', isinstance(a[5], PtrV) and a[5].r is self.comm.val('m_comm').r, 'contract')
                ex.oblige(st, 'one answer', st.ghost['$sent'] == 0, 'contract')
                st.ghost['$sent'] = 1
                if not blocking:
                    st.ghost['$req'], st.ghost['$reqr'] = z3.IntVal(1), a[6].r
                return [(st, IntV(32, 0))]
            return c
        T.contract(r'^MPI_Iss?end$', send(False))
        T.contract(r'^MPI_Ss?end$', send(True))

        def test(ex, st, a, ins, dem):
            ex.oblige(st, 'MPI_Test: the request', isinstance(a[0], PtrV) and a[0].r is st.ghost['$reqr'], 'contract')
            no = st.fork()
            st.ghost['$req'] = z3.IntVal(0)
            no.assume(EQ(no.ghost['$req'], 1))
            ex.store(st, a[1], IntV(32, 1), INT(32))
            ex.store(no, a[1], IntV(32, 0), INT(32))
            return [(st, IntV(32, 0)), (no, IntV(32, 0))]
        T.contract(r'^MPI_Test$', test)

        def wait(ex, st, a, ins, dem):
            ex.oblige(st, 'MPI_Wait: the request', isinstance(a[0], PtrV) and a[0].r is st.ghost['$reqr'], 'contract')
            st.ghost['$req'] = z3.IntVal(0)
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Wait$', wait)

        def lhook(ex, f, hdr, entry, h, getters):
            return [('pending', lambda st: AND(st.ghost['$req'] >= 0, st.ghost['$req'] <= 1))] + \
                [('done %d' % k, lambda st, p=p: EQ(NOT(EQ2(word(ex, st, p), 0)), EQ(st.ghost['$req'], 0))) for k, p in enumerate(locals_(entry, 4))]
        ex.loop_hooks.append(lhook)

    def released(self, st):
        self.T.ensure(st, 'all locks are released', not models.held(st))
        self.T.frame(st, [(self.locks, None, None), (self.info.r, None, None), (self.block.r, None, None)])


def is_type(t, name):
    return isinstance(t, PtrV) and (t.r.name or '') == '@ompi_mpi_' + name


CT = r'^transfer::MPIThreadCache::'


@task('MPIThreadCache::fetchBlockInfo', ['C11'], TU, CT + r'fetchBlockInfo\(unsigned long\)$', defs=MPI)
def t_tcf(T):
    s = ThreadCache(T)
    s.entry()
    for st, ret in T.run([s.v.p, s.e]):
        T.ensure(st, 'a listed copy is returned', AND(st.ghost['$ops'] == 'fetch', EQ2(T.ex.sv(st, ret), st.ghost.get('$res', -7))))
        s.released(st)


def reg_private(name, op):
    @task('MPIThreadCache::%s (entry of this process)' % name, ['C11'], TU, CT + name + r'\(unsigned long, int, unsigned long\)$', defs=MPI)
    def t(T):
        s = ThreadCache(T)
        s.entry()
        who = T.int('rank', 32, signed=True, lo=0)
        T.assume(who.t < s.P)
        lemma_mono(T, T.st, [(s.rcs, who.t, s.rcs, s.P)])
        fact(T, T.st, 'the number of the slot', AND(who.t * s.rcs >= 0, who.t * s.rcs < 1 << 62))
        s.who = who.t
        for st, ret in T.run([s.v.p, s.e, who, s.o]):
            T.ensure(st, 'the entry is changed once', st.ghost['$ops'] == op)
            s.released(st)

    @task('MPIThreadCache::%s' % name, ['C11'], TU, CT + name + r'\((unsigned )?long, int, unsigned long, unsigned long\)$', defs=MPI)
    def t2(T):
        s = ThreadCache(T)
        s.entry()
        b = T.int('block', 64, signed=True, lo=-1 if op == 'delete' else 0, hi=1 << 46)
        s.sends(s.tags[2 if op == 'add' else 3], s.r.t, s.coded)
        for st, ret in T.run([s.v.p, b, s.r, s.e, s.o]):
            loc = AND(EQ(s.r.t, s.p), b.t >= 0)
            T.ensure(st, 'an own entry is changed here', st.ghost['$ops'] == op if st.ghost['$ops'] else NOT(loc))
            T.ensure(st, 'only own entries are changed here', loc if st.ghost['$ops'] else True)
            T.ensure(st, 'the process of another entry is told', EQ2(st.ghost['$sent'], ITE(AND(NOT(EQ(s.r.t, s.p)), b.t >= 0), 1, 0)))
            s.released(st)

    @task('MPIThreadCache::%s::recv' % {'add': 'Adder', 'delete': 'Deleter'}[op], ['C11'], TU, CT + {'add': 'Adder', 'delete': 'Deleter'}[op] + r'::recv\(', defs=MPI)
    def t3(T):
        s = ThreadCache(T)
        s.entry()
        who = T.int('sender', 32, signed=True, lo=0)
        T.assume(who.t < s.P)
        s.who = who.t
        lemma_mono(T, T.st, [(s.rcs, who.t, s.rcs, s.P)])
        fact(T, T.st, 'the number of the slot', AND(who.t * s.rcs >= 0, who.t * s.rcs < 1 << 62))
        w = T.obj('transfer::MPIThreadCache::' + {'add': 'Adder', 'delete': 'Deleter'}[op], 'receiver')
        w.set('m_parent', s.v.p)
        m = T.int('message', 64, hi=(1 << 63) - 1)
        T.assume(EQ(m.t, s.coded))
        q, r = T.ex.divmod(T.st, m.t, s.rcs)
        lemma_div(T, T.st, [(q, r, s.e.t, s.o.t, s.rcs)])
        for st, ret in T.run([w.p, who, m]):
            T.ensure(st, 'the entry and the slot of the message', st.ghost['$ops'] == op)
            s.released(st)


reg_private('addBlock', 'add')
reg_private('deleteBlock', 'delete')


@task('MPIThreadCache::endTransfer', ['C11'], TU, CT + r'endTransfer\(', defs=MPI)
def t_tce(T):
    s = ThreadCache(T)
    s.entry()
    b = T.int('block', 64, hi=1 << 46)
    s.sends(s.tags[2], s.r.t, s.coded)
    for st, ret in T.run([s.v.p, b, s.r, s.e, s.o]):
        T.ensure(st, 'the slot is announced once', OR(AND(st.ghost['$ops'] == 'add', st.ghost['$sent'] == 0, EQ(s.r.t, s.p)),
                                                      AND(st.ghost['$ops'] == 0, st.ghost['$sent'] == 1, NOT(EQ(s.r.t, s.p)))))
        s.released(st)


@task('MPIThreadCache::startTransfer', ['C11'], TU, CT + r'startTransfer\(', defs=MPI)
def t_tcs(T):
    s = ThreadCache(T)
    ex = T.ex
    s.entry()
    b = T.int('block', 64, hi=1 << 46)
    s.sends(s.tags[0], s.r.t, s.e.t, lock=s.info)
    ans = T.int('answer', 64, signed=True, lo=-1, hi=1 << 62)

    def recv(ex, st, a, ins, dem):
        ex.oblige(st, 'the answer to the request', AND(st.ghost['$sent'] == 1, lock_of(st, s.info.r)), 'contract')
        ex.oblige(st, 'MPI_Recv: one number', AND(EQ2(ex.sv(st, a[1]), 1), is_type(a[2], 'long')), 'contract')
        ex.oblige(st, 'MPI_Recv: from the process that was asked', AND(EQ2(ex.sv(st, a[3]), s.r.t), EQ2(ex.sv(st, a[4]), s.tag), a[5].r is s.comm.val('m_comm').r), 'contract')
        ex.store(st, a[0], ans, INT(64))
        st.ghost['$res'] = ans.t
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Recv$', recv)
    for st, ret in T.run([s.v.p, b, s.r, s.e, s.o]):
        T.ensure(st, 'the answer of the process of the entry', AND('$res' in st.ghost, EQ2(ex.sv(st, ret), st.ghost.get('$res', -7)),
                                                                OR(AND(EQ(s.r.t, s.p), st.ghost['$ops'] == 'fetch'), AND(NOT(EQ(s.r.t, s.p)), st.ghost['$sent'] == 1))))
        s.released(st)


@task('MPIThreadCache::transfer', ['C11'], TU, CT + r'transfer\(', defs=MPI)
def t_tct(T):
    s = ThreadCache(T)
    ex, v = T.ex, s.v
    b = T.int('block', 64, hi=1 << 46)
    e = T.int('entry', 64, signed=True, lo=-1)
    T.assume(e.t < s.P * s.rcs)
    rk, off = ex.divmod(T.st, e.t, s.rcs)
    T.assume(OR(e.t < 0, AND(rk >= 0, off >= 0, off < s.rcs)))
    lemma_mono(T, T.st, [(s.rcs, s.P, s.rcs, rk)])
    fact(T, T.st, 'the process', OR(e.t < 0, rk < s.P))
    retry = T.cell('retry', 1)
    T.st.mem[retry.r] = Cells({0: (1, ex.bool2int(z3.Bool('retryBefore'), 8))})
    s.sends(s.tags[1], rk, b.t, lock=s.block)
    g = T.st.ghost
    g['$ans'] = z3.IntVal(0)      # 0 not known, 1 the block, 2 not found
    g['$got'] = 0

    def probe(ex, st, a, ins, dem):
        t = ex.sv(st, a[1])
        ex.oblige(st, 'an answer of the process that was asked', AND(st.ghost['$sent'] == 1, EQ2(ex.sv(st, a[0]), rk), a[2].r is s.comm.val('m_comm').r), 'contract')
        ex.oblige(st, 'an answer', OR(EQ2(t, s.tag + 1), EQ2(t, s.tag + 2)), 'contract')
        k = z3.If(mkb(EQ2(t, s.tag + 1)), z3.IntVal(1), z3.IntVal(2))
        no = st.fork()
        st.assume(OR(EQ(st.ghost['$ans'], 0), EQ(st.ghost['$ans'], k)))
        st.ghost['$ans'] = k
        ex.store(st, a[3], IntV(32, 1), INT(32))
        no.assume(NOT(EQ(no.ghost['$ans'], k)))
        ex.store(no, a[3], IntV(32, 0), INT(32))
        if isinstance(a[4], PtrV) and a[4].r is not None and a[4].r.local:
            ex.store(st, PtrV(a[4].r, a[4].off), IntV(32, rk, -(1 << 31), (1 << 31) - 1), INT(32))
            ex.store(st, PtrV(a[4].r, a[4].off + 4), IntV(32, t, -(1 << 31), (1 << 31) - 1), INT(32))
        return [(st, IntV(32, 0)), (no, IntV(32, 0))]
    T.contract(r'^MPI_I?[Pp]robe$', probe)

    def recv(ex, st, a, ins, dem):
        t = ex.sv(st, a[4])
        ex.oblige(st, 'MPI_Recv: an answer of the process that was asked', AND(EQ2(ex.sv(st, a[3]), rk), a[5].r is s.comm.val('m_comm').r, st.ghost['$got'] == 0, lock_of(st, s.block.r)), 'contract')
        ex.oblige(st, 'MPI_Recv: the answer that arrived', OR(AND(EQ(st.ghost['$ans'], 1), EQ2(t, s.tag + 1)), AND(EQ(st.ghost['$ans'], 2), EQ2(t, s.tag + 2))), 'contract')
        blk = s.is_(a[0], s.cache)
        ex.oblige(st, 'MPI_Recv: the block goes to the cache slot of the caller', OR(AND(EQ(st.ghost['$ans'], 1), blk, EQ2(ex.sv(st, a[1]), s.bs), s.is_(a[2], s.mt)),
                                                                                   AND(EQ(st.ghost['$ans'], 2), isinstance(a[0], PtrV) and bool(a[0].r.local), EQ2(ex.sv(st, a[1]), 1), is_type(a[2], 'char'))), 'contract')
        st.ghost['$got'] = 1
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Recv$', recv)

    def lhook(ex, f, hdr, entry, h, getters):
        return [('the answer', lambda st: AND(st.ghost['$ans'] >= 0, st.ghost['$ans'] <= 2)), ('no answer yet', lambda st: EQ(st.ghost['$ans'], 0))] + status(ex, s, entry)
    ex.loop_hooks.append(lhook)
    for st, ret in T.run([v.p, e, b, s.cache, retry]):
        r = mkb(ex.tobool(ret))
        again = mkb(ex.tobool(ex.load(st, retry, INT(8))))
        T.ensure(st, 'true exactly if the block arrived', EQ(r, EQ(st.ghost['$ans'], 1)))
        T.ensure(st, 'another copy may be tried if this one is gone', OR(r, EQ(again, EQ(st.ghost['$ans'], 2))))
        T.ensure(st, 'nothing is asked if there is no copy', AND(EQ2(st.ghost['$sent'], ITE(e.t >= 0, 1, 0)), EQ2(st.ghost['$got'], ITE(e.t >= 0, 1, 0))))
        T.ensure(st, 'all locks are released', not models.held(st))
        T.frame(st, [(retry.r, 0, 1), (s.block.r, None, None)])


def locals_(entry, size, more=False):
    """local variables of (at least) this size"""
    out = []
    for nm, p in entry.regs.items():
        if isinstance(p, PtrV) and p.r is not None and p.r.local and isc(p.off) and isc(p.r.size):
            if int(p.r.size) == size or more and int(p.r.size) > size:
                out.append(p)
    return out


def word(ex, st, p, k=0):
    """32-bit word of a local variable (an arbitrary one if it is no such word)"""
    try:
        return ex.sv(st, ex.load(st, PtrV(p.r, p.off + k), INT(32)))
    except Unsupported:
        return z3.FreshInt('word')


def status(ex, s, entry):
    """If an answer arrived, a local MPI_Status holds its tag."""
    return [('the tag of the answer %d' % k, lambda st, p=p: OR(EQ(st.ghost['$ans'], 0), EQ2(word(ex, st, p, 4), s.tag + st.ghost['$ans'])))
            for k, p in enumerate(locals_(entry, 8, True))] + \
        [('arrived %d' % k, lambda st, p=p: EQ(NOT(EQ2(word(ex, st, p), 0)), NOT(EQ(st.ghost['$ans'], 0)))) for k, p in enumerate(locals_(entry, 4))]


@task('MPIThreadCache::BlockInfoResponder::recv', ['C11'], TU, CT + r'BlockInfoResponder::recv\(', defs=MPI)
def t_tcb(T):
    s = ThreadCache(T)
    ex = T.ex
    s.entry()
    s.sender = T.int('sender', 32, signed=True, lo=0)
    w = T.obj('transfer::MPIThreadCache::BlockInfoResponder', 'receiver')
    w.set('m_parent', s.v.p)

    def ok(st, p, n, ty, tag):
        q = isinstance(p, PtrV)
        return [('the listed copy is sent', AND(q, st.ghost['$ops'] == 'fetch', EQ2(ex.sv(st, ex.load(st, p, INT(64))), st.ghost.get('$res', -7)) if q else False)),
                ('one number', AND(EQ2(n, 1), is_type(ty, 'long'))), ('the tag of these answers', EQ2(tag, s.tag))]
    s.isend(ok)
    for st, ret in T.run([w.p, s.sender, s.e]):
        T.ensure(st, 'one answer', EQ2(st.ghost['$sent'], 1))
        T.ensure(st, 'the message is sent while its memory lives', EQ(st.ghost['$req'], 0))
        s.released(st)


@task('MPIThreadCache::BlockTransferer::recv', ['C11'], TU, CT + r'BlockTransferer::recv\(', defs=MPI)
def t_tcbt(T):
    s = ThreadCache(T)
    ex = T.ex
    s.sender = T.int('sender', 32, signed=True, lo=0)
    w = T.obj('transfer::MPIThreadCache::BlockTransferer', 'receiver')
    w.set('m_parent', s.v.p)

    def ok(st, p, n, ty, tag):
        h = st.ghost['$h']
        found = AND(h >= 0, isinstance(p, PtrV) and p.r is s.data, EQ2(p.off, s.slot(h)) if isinstance(p, PtrV) else False, EQ2(n, s.bs), s.is_(ty, s.mt), EQ2(tag, s.tag + 1))
        no = AND(EQ(h, -1), s.all_tried(st), EQ2(n, 1), is_type(ty, 'char'), EQ2(tag, s.tag + 2), isinstance(p, PtrV) and bool(p.r.local))
        return [('a held slot with the block is sent, or that no cache has it', OR(found, no))]
    s.isend(ok)

    # the slot is held until the message was sent
    def check_unlock(ex, st, a, ins, dem):
        ex.oblige(st, 'the slot is held until the message is sent', AND(EQ(st.ghost['$req'], 0), st.ghost['$sent'] == 1), 'contract')
        ex.oblige(st, 'the slot that is held is released', AND(isinstance(a[0], PtrV) and a[0].r is s.objs, st.ghost['$h'] >= 0,
                                                               EQ2(a[0].off, st.ghost['$h']) if isinstance(a[0], PtrV) else False,
                                                               EQ2(ex.u(st, a[1]), s.slot(st.ghost['$h']))), 'contract')
        st.ghost['$h'] = z3.IntVal(-1)
        return [(st, None)]
    T.contract(r'^cache::CacheManager::unlock\(', check_unlock)
    for st, ret in T.run([w.p, s.sender, s.b]):
        T.ensure(st, 'one answer', EQ2(st.ghost['$sent'], 1))
        T.ensure(st, 'the message is sent while its memory lives', EQ(st.ghost['$req'], 0))
        T.ensure(st, 'no slot is held', EQ(st.ghost['$h'], -1))
        s.released(st)


@task('MPIThreadCache::init', ['C11', 'C14'], TU, CT + r'init\(', defs=MPI)
def t_tci(T):
    s = ThreadCache(T, opened=False)
    ex, v = T.ex, s.v
    csv = T.int('cacheSize', 32)
    s.cs = csv.t
    T.assume(s.cs >= 1, s.bc * s.D < 1 << 40)
    parent_init(s, r'^transfer::MPICache<allocator::Default, false>::init\(', False)
    shared = {'cache::CacheManager**': [PtrV(s.elems, 0)], 'threads::PthreadMutex*': [PtrV(s.locks, 0), s.info, s.block],
              'int': [IntV(32, t, 0, (1 << 31) - 1) for t in s.tags + [s.tag]]}

    def share(k, n):
        if k not in shared or n >= len(shared[k]):
            raise Unsupported('broadcast of another value')
        return shared[k][n]
    s.broadcasts(share)
    g = T.st.ghost
    g['$tagsReserved'] = 0

    def new(ex, st, a, ins, dem):
        ex.oblige(st, 'only domain 0 creates shared objects', EQ(s.d, 0), 'contract')
        n = ex.u(st, a[0])
        if '$list' not in st.ghost and EQ2(n, 8 * s.D) is not False and ex.s.entails_quick(st.pc, mkb(EQ2(n, 8 * s.D))):
            st.ghost['$list'] = True
            return [(st, PtrV(s.elems, 0))]
        # (array of objects with destructor: number of elements in front)
        ex.oblige(st, 'a lock for every entry of all domains', EQ2(n, s.MX * (s.bc * s.D) + 8), 'contract')
        r = Region('raw', 'new locks', None, heap=True)
        st.ghost['$locks'] = r
        return [(st, PtrV(r, 0))]
    T.contract(r'^operator new\[\]\(unsigned long\)$', new)
    T.contract(r'^threads::PthreadMutex::PthreadMutex\(\)', lambda ex, st, a, ins, dem: [(st, None)])

    def reserve(ex, st, a, ins, dem):
        ex.oblige(st, 'the communicator of the grid', s.is_(a[0], s.comm.p), 'contract')
        ex.oblige(st, 'a tag for every kind of answer', ex.u(st, a[1]) >= 3, 'contract')
        st.ghost['$tagsReserved'] = st.ghost['$tagsReserved'] + 1
        return [(st, IntV(32, s.tag, 0, (1 << 31) - 8))]
    T.contract(r'^mpi::MPIComm::reserveTags\(', reserve)
    fields = ['m_blockInfoResponder', 'm_blockTransferer', 'm_adder', 'm_deleter']
    tagf = ['m_blockInfoTag', 'm_transfererTag', 'm_adderTag', 'm_deleterTag']
    T.st.ghost['$regs'] = ()

    def want(st, k, a):
        q = v.at(st)
        hit = [i for i, f in enumerate(fields) if isinstance(a[2], PtrV) and a[2].r is v.p.r and EQ2(a[2].off, v.loc(f)[0]) is True]
        i = hit[0] if hit else None
        st.ghost['$regs'] = st.ghost['$regs'] + (i,)
        return [('a receiver of this object, once', i is not None and st.ghost['$regs'].count(i) == 1),
                ('its tag', i is not None and isinstance(a[3], PtrV) and a[3].r is v.p.r and EQ2(a[3].off, v.loc(tagf[i])[0]) is True),
                ('the receiver is ready', i is not None and s.is_(q[fields[i] + '.m_parent'], v.p)),
                ('the caches of all domains are listed, the directory is complete', AND(EQ2(st.ghost['$writes'], 1), st.ghost.get('$dinit', 0) == 1, 'threads::PthreadMutex*' in st.ghost.get('$bcs', ())))]

    def regc(ex, st, a, ins, dem):
        k = st.ghost['$reg']
        ex.oblige(st, 'the communication thread', isinstance(a[0], PtrV) and 'commThread' in (a[0].r.name or ''), 'contract')
        ex.oblige(st, 'only domain 0 registers', EQ(s.d, 0), 'contract')
        ex.oblige(st, 'the communicator of the grid', isinstance(a[1], PtrV) and a[1].r is s.comm.val('m_comm').r, 'contract')
        for nm, f in want(st, k, a):
            ex.oblige(st, nm, f, 'contract')
        bad, e = s.fails(st)
        st.ghost['$reg'] = k + 1
        i = st.ghost['$regs'][-1]
        if i is not None:
            ex.store(st, a[3], IntV(32, s.tags[i], 0, 32765), INT(32))
        return [(st, IntV(32, 0)), (bad, e)]
    g['$reg'] = 0
    T.contract(r'^mpi::CommThread::registerReceiver\(', regc)
    for st, ret in T.run([v.p, PtrV(s.mem, 0), csv, s.mine, s.bcv, s.bsv, s.type, s.comm.p, s.numa]):
        T.ensure(st, 'all locks are released', not models.held(st))
        if s.errors(st, ret):
            continue
        q = v.at(st)
        zero = EQ(s.d, 0)
        T.ensure(st, 'values of all domains are the same', tuple(sorted(st.ghost['$bcs'])) == tuple(sorted(k for k in shared for _ in shared[k])))
        T.ensure(st, 'domain 0 registers all receivers', OR(s.d > 0, sorted(x for x in st.ghost['$regs'] if x is not None) == [0, 1, 2, 3]))
        for i, f in enumerate(tagf):
            T.ensure(st, 'tag %d in every domain' % i, OR(EQ2(q[f], s.tags[i])))
        T.ensure(st, 'tags of the answers', AND(EQ2(q['m_tagOffset'], s.tag), EQ2(st.ghost['$tagsReserved'], ITE(zero, 1, 0))))
        T.ensure(st, 'the caches of all domains', AND(s.is_(q['m_cacheManager'], PtrV(s.elems, 0)), EQ2(st.ghost['$writes'], 1), EQ2(q['m_numaDomainSize'], s.D)))
        T.ensure(st, 'the domain, size and type of a block', AND(EQ2(q['m_numaDomainId'], s.d), EQ2(q['m_blockSize'], s.bs), s.is_(q['m_mpiType'], s.mt)))
        mx, im, bm = q['m_mutexes'], q['m_infoMutex'], q['m_blockMutex']
        new_ = isinstance(mx, PtrV) and mx.r is st.ghost.get('$locks')
        T.ensure(st, 'locks of domain 0', OR(s.d > 0, AND(new_, im.r is not bm.r, im.r is not mx.r, bm.r is not mx.r)))
        T.ensure(st, 'the locks of domain 0 in the other domains', OR(zero, AND(s.is_(mx, PtrV(s.locks, 0)), s.is_(im, s.info), s.is_(bm, s.block))))
        T.frame(st, [(v.p.r, None, None)])

"""Storage of the blocks of a level: Full, Cache, FullDist, CacheDist and PassThrough (C05, C06, C11, C14, C15, C26).
Element type, allocator and transfer classes are parameters, represented by their contracts."""
from vcgen.api import *
from vcgen.exec import mki
from spec.common import *
from spec.geo import *

TU = 'store'
G = {'Full': 'grid::level::Full<VerifType, VerifAlloc>', 'Cache': 'grid::level::Cache<VerifType, VerifAlloc>',
     'Pass': 'grid::level::PassThrough<VerifType>',
     'FullDist': 'grid::level::FullDist<VerifMPI, VerifNuma, VerifType, VerifAlloc>',
     'CacheDist': 'grid::level::CacheDist<VerifMPI, VerifNuma, VerifType, VerifAlloc>'}
COUNTERS = ['ACCESS', 'NUMA', 'MPI', 'FILE']


def fn(name, *a):
    f = z3.Function(name, *([I] * (len(a) + 1)))
    return f(*[mki(x) for x in a])


def rank_of(b): return fn('rankOfBlock', b)
def dom_of(b): return fn('domainOfBlock', b)
def off_of(b): return fn('slotOfBlock', b)
def l2g(j): return fn('blockOfSlot', j)
def start_of(b, k): return fn('positionOfBlock%d' % k, b)


class Store:
    """A level of class cls with n dimensions after (or, opened=False, before) open."""

    def __init__(self, T, n, cls, blocked=True, opened=True):
        self.T, self.n = T, n
        ex = T.ex
        L = self.L = Level(T, n, G[cls], blocks=False)
        v = self.v = L.v
        self.ts = v['m_typeSize']
        T.assume(self.ts >= 1)
        self.type = Region('raw', 'type', None)
        v.set('m_type', PtrV(self.type, 0))
        self.file = T.obj('io::NetCdfReader', 'file') if opened else None
        if opened:
            v.set('m_inputFile', self.file.p)
        self.numa = Region('raw', 'numaComm', None)
        v.set('m_numaComm', PtrV(self.numa, 0))
        g = T.st.ghost
        for c in COUNTERS:
            g['$' + c] = 0
        g['$conv'] = 0
        g['$calls'] = 0

        def inc(ex, st, a, ins, dem):
            k = ex.sv(st, a[1])
            if not isc(k) or not 0 <= k < 4:
                ex.oblige(st, 'a counter of an event is incremented', False, 'contract')
                return [(st, None)]
            ex.oblige(st, 'the counters of the level', isinstance(a[0], PtrV) and a[0].r is v.p.r, 'contract')
            st.ghost['$' + COUNTERS[k]] = st.ghost['$' + COUNTERS[k]] + 1
            return [(st, None)]
        T.contract(r'^perf::Counter::inc\(', inc)
        if opened:
            T.virtual(self.file.p.r, 'io::NetCdfReader')
        T.contract(r'^(virtual )?io::NetCdfReader::~NetCdfReader', self.c_delete)
        T.contract(r'^VerifType::size\(\) const', lambda ex, st, a, ins, dem: [(st, IntV(32, self.ts, 1, (1 << 32) - 1))])
        if blocked:
            self.blocks()

    def c_delete(self, ex, st, a, ins, dem):
        ex.oblige(st, 'the reader of this level is released once', AND(isinstance(a[0], PtrV) and a[0].r is self.file.p.r if self.file else False,
                                                               not st.ghost.get('$closed')), 'contract')
        st.ghost['$closed'] = True
        return [(st, None)]

    def blocks(self):
        T, v, n, L = self.T, self.v, self.n, self.L
        ex = T.ex
        self.bs = L.bs = [v['m_blockSize[%d]' % i] for i in range(n)]
        for i in range(n):
            T.assume(self.bs[i] >= 1, self.bs[i] <= L.size[i])
        self.tbs, self.total = v['m_totalBlockSize'], v['m_totalBlocks']
        self.loc = z3.Int('localBlocks')
        self.W = self.ts * self.tbs
        T.assume(self.tbs >= 1, self.tbs <= POINTS, self.total >= 1, self.total <= POINTS, self.loc >= 1, self.loc <= POINTS,
                 self.W * self.loc * L.D < 1 << 47, self.W * self.loc < 1 << 47, self.W >= 1, self.W < 1 << 47, self.loc * L.D < 1 << 46)
        c = T.contract
        B = r'^grid::level::Blocked<VerifType>::'

        def const(t, w=64):
            return lambda ex, st, a, ins, dem: [(st, IntV(w, t, 0, (1 << (w - 1)) - 1))]
        c(B + r'localBlockCount\(\) const$', const(self.loc))

        def known(st, b):
            """Facts about a block (C04)."""
            b = mki(b)
            ok = z3.And(b >= 0, b < self.total)
            r, d, o = rank_of(b), dom_of(b), off_of(b)
            st.assume(z3.Implies(ok, mkb(AND(r >= 0, r < L.P, d >= 0, d < L.D, o >= 0, o < self.loc))))
            st.assume(z3.Implies(z3.And(ok, mkb(EQ(r, L.p)), mkb(EQ(d, L.d))), l2g(o) == b))
            st.assume(AND(r >= -(1 << 31), r < 1 << 31, d >= 0, d < 1 << 32, o >= 0, o < 1 << 46))
        self.known = known

        def of_block(f, w, signed=False):
            def m(ex, st, a, ins, dem):
                b = ex.u(st, a[1])
                known(st, b)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                return [(st, IntV(w, f(b), lo, hi))]
            return m
        c(B + r'blockRank\(unsigned long\) const$', of_block(rank_of, 32, True))
        c(B + r'blockDomain\(unsigned long\) const$', of_block(dom_of, 32))
        c(B + r'blockOffset\(unsigned long\) const$', of_block(off_of, 64))

        def node(b):
            return off_of(b) + dom_of(b) * self.loc
        self.node = node

        def m_node(ex, st, a, ins, dem):
            b = ex.u(st, a[1])
            known(st, b)
            t = fint('node')
            st.assume(AND(t >= 0, t < 1 << 64))
            st.assume(z3.Implies(mkb(AND(b >= 0, b < self.total)), mkb(EQ(t, node(b)))))
            return [(st, IntV(64, t, 0, (1 << 64) - 1))]
        c(B + r'blockNodeOffset\(unsigned long\) const$', m_node)

        def m_l2g(ex, st, a, ins, dem):
            j = ex.u(st, a[1])
            ex.oblige(st, 'local2global: the slot exists', j < self.loc, 'contract')
            self.slot(st, j)
            return [(st, IntV(64, l2g(j), 0, (1 << 46)))]
        c(B + r'local2global\(unsigned long\) const$', m_l2g)

        def m_pos(ex, st, a, ins, dem):
            b = ex.u(st, a[1])
            ex.oblige(st, 'calcBlockPosition: the block exists', b < self.total, 'contract')
            for k in range(n):
                t = start_of(b, k)
                st.assume(AND(t >= 0, t * self.bs[k] < L.size[k], t <= POINTS))
                ex.store(st, PtrV(a[2].r, a[2].off + 8 * k), IntV(64, t, 0, POINTS), INT(64))
            return [(st, None)]
        c(B + r'calcBlockPosition\(unsigned long, unsigned long\*\) const$', m_pos)

    def slot(self, st, j):
        t = l2g(j)
        st.assume(AND(t >= 0, t < 1 << 46))

    def point(self):
        """The looked up value: coordinates pos, grid point ix, block blk, position off inside of the block."""
        T, n, v = self.T, self.n, self.v
        ex = T.ex
        self.pos = PtrV(Region('raw', 'pos', None), 0)
        self.buf = PtrV(Region('raw', 'buf', None), 0)
        self.ix = []
        for i in range(n):
            t = z3.Int('ix%d' % i)
            T.assume(t >= 0, t < self.L.size[i])
            self.ix.append(t)

        def p2i(ex, st, a, ins, dem):
            ex.oblige(st, 'the coordinates of the caller are used', isinstance(a[1], PtrV) and a[1].r is self.pos.r and EQ2(a[1].off, 0) is True, 'contract')
            for k in range(n):
                ex.store(st, PtrV(a[2].r, a[2].off + 8 * k), IntV(64, self.ix[k], 0, POINTS), INT(64))
            return [(st, None)]
        T.contract(r'^void grid::level::Level<VerifType>::pos2index\(|^grid::level::Level<VerifType>::pos2index\(', p2i)

    def block_of_point(self):
        T, n = self.T, self.n
        self.blk, self.off = z3.Int('block'), z3.Int('offsetInBlock')
        T.assume(self.blk >= 0, self.blk < self.total, self.off >= 0, self.off < self.tbs)
        self.known(T.st, self.blk)
        lemma_mono(T, T.st, [(self.ts, self.off, self.ts, self.tbs)])
        fact(T, T.st, 'position of the value inside of the block', AND(self.ts * self.off <= self.W, self.ts * self.off >= 0))
        # the whole value lies inside of the block
        lemma_mono(T, T.st, [(self.ts, self.off + 1, self.ts, self.tbs)])
        B = r'^grid::level::Blocked<VerifType>::'

        def same(ex, st, p):
            ix = rdarr(T, st, p, n)
            return AND(*[EQ2(a, b) for a, b in zip(ix, self.ix)])

        def m_blk(ex, st, a, ins, dem):
            ex.oblige(st, 'the block of the looked up point is asked for', same(ex, st, a[1]), 'contract')
            return [(st, IntV(64, self.blk, 0, POINTS))]
        T.contract(B + r'blockByCoords\(unsigned long const\*\) const$', m_blk)

        def m_off(ex, st, a, ins, dem):
            ex.oblige(st, 'the position of the looked up point is asked for', same(ex, st, a[1]), 'contract')
            return [(st, IntV(64, self.off, 0, POINTS))]
        T.contract(B + r'calcOffsetInBlock\(unsigned long const\*\)$', m_off)

    def counters(self, st, **want):
        T = self.T
        want['ACCESS'] = 1
        for c in COUNTERS:
            T.ensure(st, 'counter %s' % {'ACCESS': 'accesses', 'NUMA': 'numa_transfers', 'MPI': 'mpi_transfers', 'FILE': 'file_loads'}[c],
                     EQ2(st.ghost['$' + c], want.get(c, 0)))

    def convert(self, ok):
        """Contract of Type::convert: ok(st, data) holds."""
        def m(ex, st, a, ins, dem):
            ex.oblige(st, 'the type of the grid converts', isinstance(a[0], PtrV) and a[0].r is self.type, 'contract')
            ex.oblige(st, 'the value is written to the buffer of the caller', isinstance(a[2], PtrV) and a[2].r is self.buf.r and EQ2(a[2].off, 0) is True, 'contract')
            for nm, f in ok(st, a[1]):
                ex.oblige(st, nm, f, 'contract')
            st.ghost['$conv'] = st.ghost['$conv'] + 1
            return [(st, None)]
        self.T.contract(r'^VerifType::convert\(', m)


# ---------------------------------------------------------------- Full

def reg_full(n):
    sfx = ' (%d dimensions)' % n

    @task('Full::getAt' + sfx, ['C05', 'C15'], TU, r'^void grid::level::Full<VerifType, VerifAlloc>::getAt<void>\(', defs=('mpi',))
    def t_get(T):
        s = Store(T, n, 'Full')
        s.point()
        s.block_of_point()
        T.assume(EQ(rank_of(s.blk), s.L.p), EQ(dom_of(s.blk), s.L.d))
        data = PtrV(Region('raw', 'data', None), 0)
        s.v.set('m_data', data)
        o = off_of(s.blk)
        lemma_digit(T, T.st, [(o, s.off, s.loc, s.tbs)])
        lemma_mono(T, T.st, [(s.ts, o * s.tbs + s.off, s.ts, s.loc * s.tbs), (s.ts, o * s.tbs + s.off + 1, s.ts, s.loc * s.tbs),
                             (s.loc, s.tbs, s.loc, s.W), (1, s.tbs, s.ts, s.tbs)])
        fact(T, T.st, 'the value lies inside of the memory of the level', AND(o * s.tbs + s.off < s.loc * s.tbs, s.ts * (o * s.tbs + s.off + 1) <= s.W * s.loc, s.ts * (o * s.tbs + s.off) >= 0))
        s.convert(lambda st, p: [('the value of the point in the slot of its block is read',
                                  AND(isinstance(p, PtrV) and p.r is data.r, EQ2(p.off, s.W * o + s.ts * s.off) if isinstance(p, PtrV) else False))])
        for st, ret in T.run([s.v.p, s.buf, s.pos]):
            T.ensure(st, 'exactly one value is returned', EQ2(st.ghost['$conv'], 1))
            T.ensure(st, 'the slot belongs to the block of the point', l2g(o) == s.blk)
            s.counters(st)
            T.frame(st, [])

    @task('Cache::getAt' + sfx, ['C05', 'C15'], TU, r'^void grid::level::Cache<VerifType, VerifAlloc>::getAt<void>\(', defs=('mpi',))
    def t_cache(T):
        s = Cached(T, n, 'Cache')
        for st, ret in T.run([s.v.p, s.buf, s.pos]):
            s.done(st)
            T.ensure(st, 'a block that is not in the cache is loaded from the file, others are not', EQ2(st.ghost['$loads'], ITE(EQ(s.old, s.blk), 0, 1)))
            s.counters(st, FILE=ITE(EQ(s.old, s.blk), 0, 1))
            T.frame(st, [])

    @task('FullDist::getAt' + sfx, ['C06', 'C15'], TU, r'^void grid::level::FullDist<VerifMPI, VerifNuma, VerifType, VerifAlloc>::getAt<void>\(', defs=('mpi',))
    def t_dist(T):
        s = Cached(T, n, 'FullDist', convert=False)
        ex = T.ex
        data = PtrV(Region('raw', 'data', None), 0)
        s.v.set('m_data', data)
        o = off_of(s.blk)
        lemma_digit(T, T.st, [(o, s.off, s.loc, s.tbs)])
        lemma_mono(T, T.st, [(s.ts, o * s.tbs + s.off, s.ts, s.loc * s.tbs), (s.loc, s.tbs, s.loc, s.W)])
        own = AND(EQ(rank_of(s.blk), s.L.p), EQ(dom_of(s.blk), s.L.d))
        fact(T, T.st, 'the value lies inside of the memory of the level', AND(o * s.tbs + s.off < s.loc * s.tbs, s.ts * (o * s.tbs + s.off) < 1 << 47))

        def ok(st, p):
            if isinstance(p, PtrV) and p.r is data.r:
                return [('only own blocks are read from the local memory', own),
                        ('the value of the point in the slot of its block is read', EQ2(p.off, s.W * o + s.ts * s.off))]
            return s.readable(st, p)
        s.convert(ok)

        def nt(ex, st, a, ins, dem):
            s.fills(st, a[5])
            ex.oblige(st, 'the block of the point is copied from the domain and the slot that hold it',
                      AND(EQ2(ex.u(st, a[1]), s.blk), EQ2(ex.sv(st, a[2]), rank_of(s.blk)), EQ2(ex.u(st, a[3]), dom_of(s.blk)), EQ2(ex.u(st, a[4]), o)), 'contract')
            ex.oblige(st, 'the block is copied once', NOT(st.ghost['$filled']), 'contract')
            s2 = st.fork()
            st.ghost['$cont'] = s.blk
            st.ghost['$filled'] = z3.BoolVal(True)
            st.ghost['$numa'] = 1
            return [(st, BoolV(True)), (s2, BoolV(False))]
        T.contract(r'^VerifNuma::transfer\(unsigned long, int', nt)

        def mt(ex, st, a, ins, dem):
            s.fills(st, a[3])
            ex.oblige(st, 'the block is copied from the process and the place that hold it',
                      AND(EQ2(ex.sv(st, a[1]), rank_of(s.blk)), EQ2(ex.u(st, a[2]), s.node(s.blk))), 'contract')
            ex.oblige(st, 'the block is copied once', NOT(st.ghost['$filled']), 'contract')
            st.ghost['$cont'] = s.blk
            st.ghost['$filled'] = z3.BoolVal(True)
            st.ghost['$mpi'] = 1
            return [(st, None)]
        T.contract(r'^VerifMPI::transfer\(int', mt)
        for st, ret in T.run([s.v.p, s.buf, s.pos]):
            if '$slot' not in st.ghost:
                T.ensure(st, 'the cache is not used for own blocks only', own)
                T.ensure(st, 'exactly one value is returned', EQ2(st.ghost['$conv'], 1))
            else:
                s.done(st)
            g = st.ghost
            s.counters(st, NUMA=g.get('$numa', 0), MPI=g.get('$mpi', 0))
            T.frame(st, [])

    @task('CacheDist::getAt' + sfx, ['C11', 'C15', 'C21'], TU, r'^void grid::level::CacheDist<VerifMPI, VerifNuma, VerifType, VerifAlloc>::getAt<void>\(', defs=('mpi',))
    def t_cdist(T):
        s = Cached(T, n, 'CacheDist')
        ex = T.ex
        cs = s.v['m_cacheSize']
        T.assume(EQ(cs, s.cs), s.cs * s.L.D < 1 << 31)
        lemma_mono(T, T.st, [(s.cs, s.L.d, s.cs, s.L.D)])
        g = T.st.ghost
        # $ph: 0 nothing, 1 the old block is withdrawn, 2 a transfer has begun, 3 it may be repeated, 4 the new block is announced
        for k in ('$ph', '$numa', '$mpi', '$starts'):
            g[k] = z3.IntVal(0)
        g['$entry'] = z3.IntVal(-1)
        g['$tried'] = z3.IntVal(-1)
        s.on_load = lambda st: ex.oblige(st, 'the file is read only after the caches that may have the block were asked',
                                         AND(OR(EQ(st.ghost['$ph'], 2), EQ(st.ghost['$ph'], 3)), OR(st.ghost['$entry'] < 0, EQ(st.ghost['$entry'], st.ghost['$tried']))), 'contract')

        def place(ex, st, a, b):
            """arguments: block, rank, offset, position in the cache of the process"""
            return AND(EQ2(ex.sv(st, a[1]), b), OR(b < 0, AND(EQ2(ex.sv(st, a[2]), rank_of(b)), EQ2(ex.u(st, a[3]), s.node(b)))),
                       EQ2(ex.u(st, a[4]), s.co + s.cs * s.L.d))

        def held(st):
            ex.oblige(st, 'the cache slot is held', EQ2(st.ghost['$slotheld'], 1), 'contract')

        def delete(ex, st, a, ins, dem):
            held(st)
            ex.oblige(st, 'the block that was in the slot is withdrawn from its directory', place(ex, st, a, s.old), 'contract')
            ex.oblige(st, 'the old block is withdrawn once, before anything else', AND(EQ(st.ghost['$ph'], 0), NOT(EQ(s.old, s.blk))), 'contract')
            st.ghost['$ph'] = z3.IntVal(1)
            return [(st, None)]
        T.contract(r'^VerifMPI::deleteBlock\(', delete)

        def nt(ex, st, a, ins, dem):
            s.fills(st, a[2])
            ex.oblige(st, 'the old block is withdrawn before the slot is overwritten', EQ(st.ghost['$ph'], 1), 'contract')
            ex.oblige(st, 'the block of the point is copied', EQ2(ex.u(st, a[1]), s.blk), 'contract')
            s2 = st.fork()
            st.ghost['$cont'] = s.blk
            st.ghost['$numa'] = z3.IntVal(1)
            return [(st, BoolV(True)), (s2, BoolV(False))]
        T.contract(r'^VerifNuma::transfer\(unsigned long, unsigned char', nt)

        def add(ex, st, a, ins, dem):
            held(st)
            ex.oblige(st, 'the block is announced at the process that lists it, with its place', place(ex, st, a, s.blk), 'contract')
            ex.oblige(st, 'a block is announced when the slot holds it', EQ(st.ghost['$cont'], s.blk), 'contract')
            ex.oblige(st, 'the block is announced once', EQ(st.ghost['$ph'], 1), 'contract')
            st.ghost['$ph'] = z3.IntVal(4)
            return [(st, None)]
        T.contract(r'^VerifMPI::addBlock\(', add)

        def start(ex, st, a, ins, dem):
            held(st)
            ex.oblige(st, 'the process that lists the block is asked', place(ex, st, a, s.blk), 'contract')
            ex.oblige(st, 'the process is asked after the old block was withdrawn, and again only if a transfer failed', OR(EQ(st.ghost['$ph'], 1), EQ(st.ghost['$ph'], 3)), 'contract')
            st.ghost['$ph'] = z3.IntVal(2)
            t = fint('entry')
            st.assume(AND(t >= -1, t < 1 << 62))
            st.ghost['$entry'] = t
            return [(st, IntV(64, t, -1, 1 << 62))]
        T.contract(r'^VerifMPI::startTransfer\(', start)

        def mt(ex, st, a, ins, dem):
            s.fills(st, a[3])
            ex.oblige(st, 'a cache that could not give the block is not asked for it again at once', OR(st.ghost['$entry'] < 0, NOT(EQ(st.ghost['$entry'], st.ghost['$tried']))), 'contract')
            ex.oblige(st, 'the transfer that began is performed', AND(EQ(st.ghost['$ph'], 2), EQ2(ex.sv(st, a[1]), st.ghost['$entry'])), 'contract')
            ex.oblige(st, 'the block of the point is copied', EQ2(ex.u(st, a[2]), s.blk), 'contract')
            ok = st.fork()
            ok.assume(st.ghost['$entry'] >= 0)
            ok.ghost['$cont'] = s.blk
            ok.ghost['$mpi'] = ok.ghost['$mpi'] + 1
            st.ghost['$tried'] = st.ghost['$entry']
            ok.ghost['$tried'] = st.ghost['$entry']
            old = mkb(ex.tobool(ex.load(st, a[4], INT(8))))
            ex.store(ok, a[4], ex.bool2int(z3.And(old, z3.Bool(fname('kept'))), 8), INT(8))
            no = st.fork()
            # a transfer that failed may have written anything
            r = z3.Bool(fname('again'))
            no.assume(z3.Implies(r, no.ghost['$entry'] >= 0))
            no.ghost['$cont'] = z3.If(no.ghost['$entry'] >= 0, z3.IntVal(-1), no.ghost['$cont'])
            ex.store(no, a[4], ex.bool2int(z3.Or(r, z3.And(old, z3.Bool(fname('kept')))), 8), INT(8))
            no.ghost['$ph'] = z3.If(r, z3.IntVal(3), z3.IntVal(2))
            return [(ok, BoolV(True)), (no, BoolV(False))]
        T.contract(r'^VerifMPI::transfer\(long', mt)

        def end(ex, st, a, ins, dem):
            held(st)
            ex.oblige(st, 'the block is announced at the process that lists it, with its place', place(ex, st, a, s.blk), 'contract')
            ex.oblige(st, 'a block is announced when the slot holds it', EQ(st.ghost['$cont'], s.blk), 'contract')
            ex.oblige(st, 'a transfer that began is ended once', OR(EQ(st.ghost['$ph'], 2), EQ(st.ghost['$ph'], 3)), 'contract')
            st.ghost['$ph'] = z3.IntVal(4)
            return [(st, None)]
        T.contract(r'^VerifMPI::endTransfer\(', end)

        def hook(ex, f, hdr, entry, h, getters):
            def I_(nm, fn):
                return (nm, fn)
            out = [I_('no block was received yet', lambda st: EQ(st.ghost['$mpi'], 0)),
                   I_('nothing was copied from a domain', lambda st: EQ(st.ghost['$numa'], 0)),
                   I_('nothing was counted', lambda st: AND(EQ2(st.ghost['$MPI'], 0), EQ2(st.ghost['$FILE'], 0), EQ2(st.ghost['$NUMA'], 0))),
                   I_('the slot does not hold the block yet', lambda st: NOT(EQ(st.ghost['$cont'], s.blk))),
                   I_('a transfer may begin', lambda st: OR(EQ(st.ghost['$ph'], 1), EQ(st.ghost['$ph'], 3))),
                   I_('the block was received', lambda st: EQ(st.ghost['$mpi'], 1)),
                   I_('the source that was named was asked', lambda st: OR(st.ghost['$entry'] < 0, EQ(st.ghost['$entry'], st.ghost['$tried']))),
                   I_('the slot holds the block', lambda st: EQ(st.ghost['$cont'], s.blk)),
                   I_('a transfer was made', lambda st: OR(EQ(st.ghost['$ph'], 2), EQ(st.ghost['$ph'], 3))),
                   I_('what was received was counted', lambda st: AND(EQ2(st.ghost['$MPI'], st.ghost['$mpi']), EQ2(st.ghost['$FILE'], 0), EQ2(st.ghost['$NUMA'], 0)))]
            for k, gt in getters.items():
                x = gt(entry)
                if (isc(x) or isinstance(x, z3.ArithRef)) and not isinstance(x, bool):
                    out.append(('%s is the source that was asked last' % (k,), lambda st, gt=gt: EQ(gt(st), st.ghost['$tried'])))
                    out.append(('%s is the source that was asked last, if any' % (k,), lambda st, gt=gt: OR(st.ghost['$tried'] < 0, EQ(gt(st), st.ghost['$tried']))))
            return out
        ex.loop_hooks.append(hook)
        for st, ret in T.run([s.v.p, s.buf, s.pos]):
            s.done(st)
            q = st.ghost
            T.ensure(st, 'a new block is announced, and only a new one', EQ(q['$ph'], ITE(EQ(s.old, s.blk), 0, 4)))
            T.ensure(st, 'a new block comes from one place', EQ2(q['$numa'] + q['$mpi'] + q['$loads'], ITE(EQ(s.old, s.blk), 0, 1)))
            s.counters(st, NUMA=q['$numa'], MPI=q['$mpi'], FILE=q['$loads'])
            T.frame(st, [])

    @task('PassThrough::getAt' + sfx, ['C26', 'C15'], TU, r'^void grid::level::PassThrough<VerifType>::getAt<void>\(', defs=('mpi',))
    def t_pass(T):
        s = Store(T, n, 'Pass', blocked=False)
        ex = T.ex
        s.point()
        tt, tid = T.int('threads', 32, lo=1), T.int('thread', 32)
        T.assume(tid.t < tt.t, s.ts * tt.t < 1 << 31)
        lemma_mono(T, T.st, [(s.ts, tid.t, s.ts, tt.t), (s.ts, tid.t + 1, s.ts, tt.t)])
        data = PtrV(Region('raw', 'm_buf', None), 0)
        s.v.set('m_buf', data)
        const_contract(T, r'^numa::Numa(Comm)?::totalThreads\(\) const$', tt)
        const_contract(T, r'^numa::Numa(Comm)?::threadId\(\) const$', tid)
        T.st.ghost['$loads'] = 0

        def mine(p):
            return AND(isinstance(p, PtrV) and p.r is data.r, EQ2(p.off, s.ts * tid.t) if isinstance(p, PtrV) else False)

        def load(ex, st, a, ins, dem):
            ex.oblige(st, 'the type of the grid and its file are used', isinstance(a[0], PtrV) and a[0].r is s.type and isinstance(a[1], PtrV) and a[1].r is s.file.p.r, 'contract')
            ex.oblige(st, 'the point is read', AND(*[EQ2(x, y) for x, y in zip(rdarr(T, st, a[2], n), s.ix)]), 'contract')
            ex.oblige(st, 'one value is read', AND(*[EQ2(x, 1) for x in rdarr(T, st, a[3], n)]), 'contract')
            ex.oblige(st, 'the value is read into the part of the buffer that belongs to the thread', mine(a[4]), 'contract')
            st.ghost['$loads'] = st.ghost['$loads'] + 1
            return [(st, None)]
        T.contract(r'^VerifType::load\(', load)
        s.convert(lambda st, p: [('the value that was read is converted', mine(p)), ('the value was read before', EQ2(st.ghost['$loads'], 1))])
        for st, ret in T.run([s.v.p, s.buf, s.pos]):
            T.ensure(st, 'exactly one value is returned', EQ2(st.ghost['$conv'], 1))
            T.ensure(st, 'exactly one read', EQ2(st.ghost['$loads'], 1))
            T.ensure(st, 'the part of the buffer lies inside of the buffer', s.ts * (tid.t + 1) <= s.ts * tt.t)
            s.counters(st, FILE=1)
            T.frame(st, [])


class Cached(Store):
    """A level with a cache; the looked up block is blk; get() returns slot co, which holds the block old."""

    def __init__(self, T, n, cls, convert=True):
        Store.__init__(self, T, n, cls)
        self.point()
        self.block_of_point()
        ex, s, v = T.ex, self, self.v
        self.cs, self.co, self.old = z3.Int('cacheSize'), z3.Int('slot'), z3.Int('oldBlock')
        T.assume(self.cs >= 1, self.cs < 1 << 31, self.co >= 0, self.co < self.cs, self.old >= -1, self.old < self.total, self.W * self.cs < 1 << 47)
        lemma_mono(T, T.st, [(self.W, self.co, self.W, self.cs), (self.W, self.co + 1, self.W, self.cs)])
        self.known(T.st, self.old)
        lemma_mono(T, T.st, [(self.ts, self.off, self.ts, self.tbs)])
        self.cache = Region('raw', 'cache', None)
        self.on_load = None
        self.qs, self.rs = [], []
        for i in range(n):
            q, r = ex.divmod(T.st, self.ix[i], self.bs[i])
            self.qs.append(q)
            self.rs.append(r)
        g = T.st.ghost
        g['$slotheld'] = z3.IntVal(0)
        g['$cont'] = z3.IntVal(-2)
        g['$filled'] = z3.BoolVal(False)
        g['$loads'] = z3.IntVal(0)
        mo = v.loc('m_cacheManager.m_cache')[0]
        M = r'^cache::CacheManager::'

        def manager(p):
            return isinstance(p, PtrV) and p.r is v.p.r

        def get(ex, st, a, ins, dem):
            ex.oblige(st, 'the cache of the level is used', manager(a[0]), 'contract')
            ex.oblige(st, 'the block of the point is looked up', EQ2(ex.u(st, a[1]), self.blk), 'contract')
            ex.oblige(st, 'no slot is held', EQ(st.ghost['$slotheld'], 0), 'contract')
            st.ghost['$slotheld'] = z3.IntVal(1)
            st.ghost['$slot'] = True
            st.ghost['$cont'] = self.old
            ex.store(st, a[2], IntV(64, self.co, 0, 1 << 31), INT(64))
            ex.store(st, a[3], PtrV(self.cache, self.W * self.co), PTR)
            return [(st, IntV(64, self.old, -1, POINTS))]
        T.contract(M + r'get\(', get)

        def unlock(ex, st, a, ins, dem):
            ex.oblige(st, 'the slot that is held is released', AND(manager(a[0]), EQ(st.ghost['$slotheld'], 1), EQ2(ex.u(st, a[1]), self.co)), 'contract')
            ex.oblige(st, 'the slot holds the block the cache lists for it', EQ(st.ghost['$cont'], self.blk), 'contract')
            st.ghost['$slotheld'] = z3.IntVal(0)
            return [(st, None)]
        T.contract(M + r'unlock\(', unlock)

        def load(ex, st, a, ins, dem):
            ex.oblige(st, 'the type of the grid and its file are used', isinstance(a[0], PtrV) and a[0].r is s.type and isinstance(a[1], PtrV) and a[1].r is s.file.p.r, 'contract')
            self.fills(st, a[4])
            ex.oblige(st, 'the block of the point is read from its first point',
                      AND(*[EQ2(x, q * b) for x, q, b in zip(rdarr(T, st, a[2], n), self.qs, self.bs)]), 'contract')
            ex.oblige(st, 'a whole block is read', AND(*[EQ2(x, b) for x, b in zip(rdarr(T, st, a[3], n), self.bs)]), 'contract')
            if self.on_load:
                self.on_load(st)
            st.ghost['$cont'] = self.blk
            st.ghost['$loads'] = st.ghost['$loads'] + 1
            return [(st, None)]
        T.contract(r'^VerifType::load\(', load)
        if convert:
            self.convert(self.readable)

    def fills(self, st, p):
        ex = self.T.ex
        ex.oblige(st, 'the slot that is held is filled', AND(EQ(st.ghost['$slotheld'], 1), isinstance(p, PtrV) and p.r is self.cache,
                                                     EQ2(p.off, self.W * self.co) if isinstance(p, PtrV) else False), 'contract')
        ex.oblige(st, 'a slot is filled only if it does not hold the block', NOT(EQ(st.ghost['$cont'], self.blk)), 'contract')

    def readable(self, st, p):
        return [('the slot is held while the value is read', EQ(st.ghost['$slotheld'], 1)),
                ('the slot holds the block of the point', EQ(st.ghost['$cont'], self.blk)),
                ('the value of the point is read', AND(isinstance(p, PtrV) and p.r is self.cache,
                                                       EQ2(p.off, self.W * self.co + self.ts * self.off) if isinstance(p, PtrV) else False))]

    def done(self, st):
        T = self.T
        T.ensure(st, 'exactly one value is returned', EQ2(st.ghost['$conv'], 1))
        T.ensure(st, 'the slot is released', EQ(st.ghost['$slotheld'], 0))


for _n in range(1, 5):
    reg_full(_n)


# ---------------------------------------------------------------- open

class Opening(Store):
    def __init__(self, T, n, cls):
        Store.__init__(self, T, n, cls, blocked=cls != 'Pass')
        ex, v = T.ex, self.v
        self.args = [PtrV(Region('raw', x, None), 0) for x in ('filename', 'varname', 'blockSize')]
        self.td, self.vp = T.int('timeDimension', 32, signed=True), T.int('valuePos', 32, lo=0, hi=1)
        self.csz = T.int('cacheSize', 32)
        self.spread = T.int('cacheHandSpread', 32, signed=True)
        self.cs = self.csz.t
        g = T.st.ghost
        g['$step'] = 0
        if cls != 'Pass':
            T.assume(self.W * self.cs < 1 << 47, self.W * self.cs * self.L.D < 1 << 47, self.W * self.cs >= 0)

    def fails(self, st):
        s2 = st.fork()
        e = fint('err')
        s2.assume(AND(e >= 1, e <= 20))
        s2.ghost['$err'] = e
        return s2, IntV(32, e, 1, 20)

    def call(self):
        return [self.v.p, self.args[0], self.args[1], self.args[2], self.td, self.csz, self.spread, IntV(32, self.vp.t, 0, 1)]

    def parent(self, rx, full=True):
        """The function of the base class does its part, with the same arguments."""
        T = self.T

        def m(ex, st, a, ins, dem):
            g = [isinstance(x, PtrV) and x.r is y.r and EQ2(x.off, 0) is True for x, y in zip(a[1:4 if full is not None else 3], self.args)]
            rest = [] if full is None else [EQ2(ex.sv(st, a[4]), self.td.t)]
            rest += [EQ2(ex.u(st, a[-1]), self.vp.t)]
            if full:
                rest += [EQ2(ex.u(st, a[5]), self.cs), EQ2(ex.sv(st, a[6]), self.spread.t)]
            ex.oblige(st, 'the arguments are passed on', AND(*(g + rest)), 'contract')
            ex.oblige(st, 'the level is opened once, first', st.ghost['$step'] == 0, 'contract')
            s2, e = self.fails(st)
            st.ghost['$step'] = 1
            return [(s2, e), (st, IntV(32, 0))]
        T.contract(rx, m)

    def step(self, rx, k, what, check, effect=None):
        """A step that may fail: the k-th."""
        def m(ex, st, a, ins, dem):
            ex.oblige(st, what + ': in order, and not after an error', AND(st.ghost['$step'] == k, '$err' not in st.ghost), 'contract')
            for nm, f in check(ex, st, a):
                ex.oblige(st, nm, f, 'contract')
            s2, e = self.fails(st)
            st.ghost['$step'] = k + 1
            if effect:
                effect(ex, st, a)
            return [(s2, e), (st, IntV(32, 0))]
        self.T.contract(rx, m)

    def mem(self, name):
        """Memory of the given number of bytes is allocated and its address stored."""
        r = Region('raw', name, None)
        return r, PtrV(r, 0)

    def manager(self, region, k):
        """Contract of CacheManager::init."""
        def m(ex, st, a, ins, dem):
            ex.oblige(st, 'the cache is set up after its memory was allocated', st.ghost['$step'] == k, 'contract')
            ex.oblige(st, 'the cache of the level', isinstance(a[0], PtrV) and a[0].r is self.v.p.r and isinstance(a[1], PtrV) and a[1].r is region and EQ2(a[1].off, 0) is True, 'contract')
            ex.oblige(st, 'number and size of the slots', AND(EQ2(ex.u(st, a[2]), self.cs), EQ2(ex.u(st, a[3]), self.W)), 'contract')
            ex.oblige(st, 'distance of the hands', EQ2(ex.sv(st, a[4]), self.spread.t), 'contract')
            st.ghost['$step'] = k + 1
            return [(st, None)]
        self.T.contract(r'^cache::CacheManager::init\(', m)

    def results(self, st, ret, steps):
        T = self.T
        if '$err' in st.ghost:
            T.ensure(st, 'errors are reported', EQ2(T.ex.u(st, ret), st.ghost['$err']))
            return False
        T.ensure(st, 'success', EQ2(T.ex.u(st, ret), 0))
        T.ensure(st, 'every part was set up', st.ghost['$step'] == steps)
        return True

    def is_(self, p, r):
        return isinstance(p, PtrV) and p.r is r and EQ2(p.off, 0) is True


BO = r'^grid::level::Blocked<VerifType>::open\('


def reg_open(n):
    sfx = ' (%d dimensions)' % n

    @task('Full::open' + sfx, ['C05', 'C06', 'C14'], TU, r'^grid::level::Full<VerifType, VerifAlloc>::open\(', defs=('mpi',))
    def t_full(T):
        s = Opening(T, n, 'Full')
        ex, v = T.ex, s.v
        W, N = s.W, s.loc
        s.parent(BO, full=False)
        data, dp = s.mem('data')
        s.step(r'numa::NumaComm::allocate<VerifAlloc, unsigned char>\(', 1, 'allocation',
               lambda ex, st, a: [('memory for every slot of the domain', AND(s.is_(a[0], s.numa), EQ2(ex.u(st, a[1]), W * N)))],
               lambda ex, st, a: ex.store(st, a[2], dp, PTR))
        # an arbitrary slot
        j = z3.Int('slot')
        T.assume(j >= 0, j < N)
        T.assume(l2g(j) >= 0, l2g(j) < 1 << 46)
        for k in range(n):
            t = start_of(l2g(j), k)
            T.assume(t >= 0)
        g = T.st.ghost
        g['$loaded'] = z3.BoolVal(False)
        for k in range(n):
            g['$at%d' % k] = z3.IntVal(-1)
        vars_ = []

        def mono(st, x):
            """the blocks of a domain are numbered in increasing order (C04)"""
            x = mki(x)
            st.assume(z3.Implies(mkb(AND(x >= 0, x < j)), l2g(x) < l2g(j)))
            st.assume(z3.Implies(mkb(AND(x > j, x < N)), l2g(x) > l2g(j)))
        s.slot = lambda st, x: (st.assume(AND(l2g(x) >= 0, l2g(x) < 1 << 46)), mono(st, x))

        def load(ex, st, a, ins, dem):
            p = a[4]
            ex.oblige(st, 'the type of the grid and its file are used', isinstance(a[0], PtrV) and a[0].r is s.type and isinstance(a[1], PtrV) and a[1].r is s.file.p.r, 'contract')
            ex.oblige(st, 'the file is open and the memory allocated', AND(not st.ghost.get('$closed'), st.ghost['$step'] == 2, isinstance(p, PtrV) and p.r is data), 'contract')
            ex.oblige(st, 'a whole block is read', AND(*[EQ2(x, b) for x, b in zip(rdarr(T, st, a[3], n), s.bs)]), 'contract')
            off = mki(p.off)
            # the slot: one of the variables of the loop
            xs = [mki(x(st)) for x in vars_] + [z3.IntVal(0)]
            for x in xs:
                lemma_mono(T, st, [(W, x + 1, W, N), (W, x + 1, W, j), (W, j + 1, W, x), (W, x, W, N)])
            ex.oblige(st, 'a whole block fits at this place', AND(off >= 0, off + W <= W * N), 'contract')
            here = EQ(off, W * j)
            ex.oblige(st, 'another slot is not touched', OR(here, off + W <= W * j, off >= W * (j + 1)), 'contract')
            at = rdarr(T, st, a[2], n)
            gg = st.ghost
            for k in range(n):
                gg['$at%d' % k] = z3.If(mkb(here), mki(at[k]), gg['$at%d' % k])
            gg['$loaded'] = z3.Or(gg['$loaded'], mkb(here))
            return [(st, None)]
        T.contract(r'^VerifType::load\(', load)
        right = lambda st: AND(st.ghost['$loaded'], *[EQ(st.ghost['$at%d' % k], start_of(l2g(j), k) * s.bs[k]) for k in range(n)])

        def hook(ex, f, hdr, entry, h, getters):
            out = []
            for key, gt in getters.items():
                x = gt(entry)
                if not (isc(x) or isinstance(x, z3.ArithRef)) or isinstance(x, bool):
                    continue
                vars_.append(gt)
                nm = str(key)
                out.append(('slots before %s are loaded' % nm, lambda st, gt=gt: OR(j >= gt(st), right(st))))
                out.append(('%s is in range' % nm, lambda st, gt=gt: AND(gt(st) >= 0, gt(st) <= N)))
                out.append(('blocks before %s exist' % nm, lambda st, gt=gt: OR(j >= gt(st), l2g(j) < s.total)))
            out.append(('the file is open', lambda st: AND(st.ghost['$step'] == 2, not st.ghost.get('$closed'))))
            return out
        ex.loop_hooks.append(hook)
        for st, ret in T.run(s.call()):
            if not s.results(st, ret, 2):
                continue
            q = v.at(st)
            T.ensure(st, 'every slot of an existing block holds this block, read from its first point', OR(l2g(j) >= s.total, right(st)))
            T.ensure(st, 'the memory of the level', s.is_(q['m_data'], data))
            T.ensure(st, 'the file is closed', bool(st.ghost.get('$closed')) and q['m_inputFile'].r is None)
            T.frame(st, [(v.p.r, v.loc('m_data')[0], 8), (v.p.r, v.loc('m_inputFile')[0], 8)])


for _n in range(1, 5):
    reg_open(_n)


@task('Cache::open', ['C05', 'C14'], TU, r'^grid::level::Cache<VerifType, VerifAlloc>::open\(', defs=('mpi',))
def t_copen(T):
    s = Opening(T, 1, 'Cache')
    s.parent(BO, full=False)
    mem, mp = s.mem('cache memory')
    s.step(r'numa::NumaComm::allocate<VerifAlloc, unsigned char>\(', 1, 'allocation',
           lambda ex, st, a: [('memory for every slot of the cache', AND(s.is_(a[0], s.numa), EQ2(ex.u(st, a[1]), s.W * s.cs)))],
           lambda ex, st, a: ex.store(st, a[2], mp, PTR))
    s.manager(mem, 2)
    for st, ret in T.run(s.call()):
        if s.results(st, ret, 3):
            T.ensure(st, 'the cache memory of the level', s.is_(s.v.at(st)['m_cache'], mem))
            T.ensure(st, 'the file stays open', not st.ghost.get('$closed') and s.v.at(st)['m_inputFile'].r is s.file.p.r)
            T.frame(st, [(s.v.p.r, s.v.loc('m_cache')[0], 8)])


def objs(s, a):
    """type, communicator and domain communicator of the level"""
    v = s.v
    return AND(s.is_(a[0], s.type), isinstance(a[1], PtrV) and a[1].r is s.L.c.p.r, s.is_(a[2], s.numa))


@task('FullDist::open', ['C06', 'C14'], TU, r'^grid::level::FullDist<VerifMPI, VerifNuma, VerifType, VerifAlloc>::open\(', defs=('mpi',))
def t_fdopen(T):
    s = Opening(T, 1, 'FullDist')
    s.parent(r'^grid::level::Full<VerifType, VerifAlloc>::open\(')
    data = PtrV(Region('raw', 'data', None), 0)
    s.v.set('m_data', data)
    mem, mp = s.mem('cache memory')
    v = s.v
    s.step(r'VerifAlloc::allocate<unsigned char>\(', 1, 'allocation',
           lambda ex, st, a: [('memory for every slot of the cache', EQ2(ex.u(st, a[0]), s.W * s.cs))],
           lambda ex, st, a: ex.store(st, a[1], mp, PTR))
    s.manager(mem, 2)
    s.step(r'^VerifMPI::init\(unsigned char\*, unsigned long, unsigned long', 3, 'transfer between processes',
           lambda ex, st, a: [('the blocks of the level are offered to the other processes', AND(isinstance(a[0], PtrV) and a[0].r is v.p.r, s.is_(a[1], data.r),
                               EQ2(ex.u(st, a[2]), s.loc), EQ2(ex.u(st, a[3]), s.tbs), objs(s, a[4:7])))])
    s.step(r'^VerifNuma::init\(unsigned char const\*', 4, 'transfer between domains',
           lambda ex, st, a: [('the blocks of the level are offered to the other domains', AND(isinstance(a[0], PtrV) and a[0].r is v.p.r, s.is_(a[1], data.r),
                               EQ2(ex.u(st, a[2]), s.loc), EQ2(ex.u(st, a[3]), s.tbs), objs(s, a[4:7]), isinstance(a[7], PtrV) and a[7].r is v.p.r))])
    for st, ret in T.run(s.call()):
        if s.results(st, ret, 5):
            T.ensure(st, 'the cache memory of the level', s.is_(v.at(st)['m_cache'], mem))
            T.frame(st, [(v.p.r, v.loc('m_cache')[0], 8)])


@task('CacheDist::open', ['C11', 'C14'], TU, r'^grid::level::CacheDist<VerifMPI, VerifNuma, VerifType, VerifAlloc>::open\(', defs=('mpi',))
def t_cdopen(T):
    s = Opening(T, 1, 'CacheDist')
    s.parent(r'^grid::level::Cache<VerifType, VerifAlloc>::open\(')
    v = s.v
    mem, mp = s.mem('cache memory')
    v.set('m_cache', mp)
    s.step(r'^VerifMPI::init\(unsigned char\*, unsigned int', 1, 'transfer between processes',
           lambda ex, st, a: [('the cache is offered to the other processes', AND(isinstance(a[0], PtrV) and a[0].r is v.p.r, s.is_(a[1], mem),
                               EQ2(ex.u(st, a[2]), s.cs), isinstance(a[3], PtrV) and a[3].r is v.p.r, EQ2(ex.u(st, a[4]), s.loc), EQ2(ex.u(st, a[5]), s.tbs), objs(s, a[6:9])))])
    s.step(r'^VerifNuma::init\(unsigned long, VerifType', 2, 'transfer between domains',
           lambda ex, st, a: [('the cache is offered to the other domains', AND(isinstance(a[0], PtrV) and a[0].r is v.p.r, EQ2(ex.u(st, a[1]), s.tbs),
                               s.is_(a[2], s.type), s.is_(a[3], s.numa), isinstance(a[4], PtrV) and a[4].r is v.p.r))])
    for st, ret in T.run(s.call()):
        if s.results(st, ret, 3):
            T.ensure(st, 'number of slots of a domain', EQ2(v.at(st)['m_cacheSize'], s.cs))
            T.frame(st, [(v.p.r, v.loc('m_cacheSize')[0], 4)])


@task('PassThrough::open', ['C26', 'C14'], TU, r'^grid::level::PassThrough<VerifType>::open\(', defs=('mpi',))
def t_popen(T):
    s = Opening(T, 1, 'Pass')
    tt = T.int('threads', 32, lo=1)
    T.assume(s.ts * tt.t < 1 << 31)
    const_contract(T, r'^numa::Numa(Comm)?::totalThreads\(\) const$', tt)
    s.parent(r'^grid::level::Level<VerifType>::open\(', full=None)
    sizes = []

    def new(ex, st, a, ins, dem):
        ex.oblige(st, 'room for one value of every thread', EQ2(ex.u(st, a[0]), s.ts * tt.t), 'contract')
        ex.oblige(st, 'allocated after the file was opened', st.ghost['$step'] == 1, 'contract')
        r = Region('raw', 'm_buf', None, heap=True)
        st.ghost['$new'] = r
        st.ghost['$step'] = 2
        return [(st, PtrV(r, 0))]
    T.contract(r'^operator new\[\]\(unsigned long\)', new)
    for st, ret in T.run(s.call()):
        if s.results(st, ret, 2):
            T.ensure(st, 'the buffer of the level', s.is_(s.v.at(st)['m_buf'], st.ghost['$new']))
            T.ensure(st, 'the file stays open', not st.ghost.get('$closed') and s.v.at(st)['m_inputFile'].r is s.file.p.r)
            T.frame(st, [(s.v.p.r, s.v.loc('m_buf')[0], 8)])

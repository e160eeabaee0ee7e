"""Directory of cached copies: entry operations and initialisation."""
from vcgen.api import *
from spec.common import *
from spec.cache import init_loops

TU = 'mpicache'
N = 4        # number of copies an entry lists (documented)


def entry(T, lock):
    """A directory entry of 4 copies (and its lock word): no gaps, -1 at the end."""
    r = Region('cell', 'entry', 8 * (N + 1), layout={8 * i: [(8, ('i', 8, True), 'copy%d' % i)] for i in range(N + 1)})
    p = PtrV(r, 0)
    e = rd(T, T.st, p)
    T.assume(entry_inv(e))
    return p, e


def rd(T, st, p):
    rec, T.ex.record = T.ex.record, False
    e = [T.ex.sv(st, T.ex.load(st, PtrV(p.r, 8 * i), INT(64))) for i in range(N)]
    T.ex.record = rec
    return e


def entry_inv(e):
    fs = []
    for i in range(N):
        fs.append(OR(e[i] >= 0, EQ(e[i], -1)))
        if i:
            fs.append(OR(e[i] < 0, e[i - 1] >= 0))
    return AND(*fs)


def added(e, new):
    """The entry after adding a copy."""
    out = [new]
    for i in range(1, N):
        out.append(e[i - 1])
    return out


def removed(e, x):
    """... after removing the first listed copy x."""
    out = []
    hit = False
    for i in range(N):
        hit = OR(hit, EQ(e[i], x))
        nxt = e[i + 1] if i + 1 < N else -1
        out.append(ITE(hit, nxt, e[i]))
    return out


def cobj(T, lock):
    v = T.obj('transfer::MPICache<VerifAlloc, %s>' % ('true' if lock else 'false'))
    v.set('m_dictEntrySize', N)
    return v


def reg(lock):
    C = r'^transfer::MPICache<VerifAlloc, %s>::' % ('true' if lock else 'false')
    tag = 'with lock word' if lock else 'without lock word'

    @task('MPICache::MPICache (%s)' % tag, ['C10'], TU, C + r'MPICache\(\)$', defs=('mpi',))
    def t_ctor(T):
        v = T.obj('transfer::MPICache<VerifAlloc, %s>' % ('true' if lock else 'false'))
        for st, ret in T.run([v.p]):
            T.ensure(st, 'an entry lists at most four copies', EQ2(v.at(st)['m_dictEntrySize'], N))

    @task('MPICache::updateBlockInfo (%s)' % tag, ['C10'], TU, C + r'updateBlockInfo\(long\*, unsigned long\)$', defs=('mpi',))
    def t_update(T):
        v = cobj(T, lock)
        p, e = entry(T, lock)
        x = T.int('newEntry', hi=(1 << 63) - 1)
        for st, ret in T.run([v.p, p, x]):
            f = rd(T, st, p)
            T.ensure(st, 'the new copy comes first and the four newest copies stay in order', AND(*[EQ(a, b) for a, b in zip(f, added(e, x.t))]))
            T.ensure(st, 'no gaps', entry_inv(f))
            T.frame(st, [(p.r, 0, 8 * N)])

    @task('MPICache::fetchBlockInfo (%s)' % tag, ['C10'], TU, C + r'fetchBlockInfo\(long const\*\)$', defs=('mpi',))
    def t_fetch(T):
        v = cobj(T, lock)
        p, e = entry(T, lock)
        for st, ret in T.run([v.p, p]):
            r = T.ex.sv(st, ret)
            T.ensure(st, 'nothing is found exactly when nothing is listed', AND(OR(NOT(EQ(r, -1)), EQ(e[0], -1)), OR(EQ(r, -1), e[0] >= 0)))
            T.ensure(st, 'the result is one of the listed copies', OR(EQ(r, -1), *[EQ(r, x) for x in e]))
            T.frame(st, [])

    @task('MPICache::fetchAndUpdateBlockInfo (%s)' % tag, ['C10'], TU, C + r'fetchAndUpdateBlockInfo\(', defs=('mpi',))
    def t_fu(T):
        v = cobj(T, lock)
        p, e = entry(T, lock)
        x = T.int('newEntry', hi=(1 << 63) - 1)
        for st, ret in T.run([v.p, p, x]):
            r = T.ex.sv(st, ret)
            f = rd(T, st, p)
            T.ensure(st, 'nothing is found exactly when nothing was listed', AND(OR(NOT(EQ(r, -1)), EQ(e[0], -1)), OR(EQ(r, -1), e[0] >= 0)))
            T.ensure(st, 'the result is one of the copies listed before', OR(EQ(r, -1), *[EQ(r, y) for y in e]))
            T.ensure(st, 'the new copy comes first and the four newest copies stay in order', AND(*[EQ(a, b) for a, b in zip(f, added(e, x.t))]))
            T.frame(st, [(p.r, 0, 8 * N)])

    @task('MPICache::deleteBlockInfo (%s)' % tag, ['C10'], TU, C + r'deleteBlockInfo\(', defs=('mpi',))
    def t_del(T):
        v = cobj(T, lock)
        p, e = entry(T, lock)
        x = T.int('entry', signed=True, lo=0)
        for st, ret in T.run([v.p, p, x]):
            f = rd(T, st, p)
            T.ensure(st, 'exactly the copy is removed if it is listed, otherwise nothing changes', AND(*[EQ(a, b) for a, b in zip(f, removed(e, x.t))]))
            T.ensure(st, 'no gaps', entry_inv(f))
            T.frame(st, [(p.r, 0, 8 * N)])

    @task('MPICache::dictionary (%s)' % tag, ['C10'], TU, C + r'dictionary\(unsigned long\)$', defs=('mpi',))
    def t_dict(T):
        v = cobj(T, lock)
        i, nb = T.int('block'), T.int('blocks')
        w = N + (1 if lock else 0)
        T.assume(nb.t <= 1 << 40, i.t < nb.t)
        d = T.array('dictionary', [8], [nb.t * w])
        v.set('m_dictionary', PtrV(d, 0))
        for st, ret in T.run([v.p, i]):
            T.ensure(st, 'entries follow each other without overlap', AND(ret.r is d, EQ2(ret.off, i.t * 8 * w)))
            T.frame(st, [])

    @task('MPICache::init (%s)' % tag, ['C10', 'C11', 'C14'], TU, C + r'init\(', defs=('mpi',))
    def t_init(T):
        v = cobj(T, lock)
        w = N + (1 if lock else 0)
        nm = Numa(T)
        cs, nb = T.int('cacheSize', 32), T.int('blockCount')
        # the directory fits into memory; block numbers of a process fit into 32 bit
        T.assume(nb.t <= 1 << 40, nb.t * nm.D.t <= 1 << 40, cs.t * nm.D.t < 1 << 32)
        per = nb.t * w
        d = T.array('dictionary', [8], [per * nm.D.t], layout={0: [(8, ('i', 8, True), '')]})
        d.size = per * nm.D.t * 8
        comm = PtrV(Region('cell', 'comm', 28, layout={}), 0)
        numa = PtrV(Region('cell', 'numa', 240, layout={}), 0)

        def c_alloc(ex, st, a, ins, dem):
            ex.oblige(st, 'room for the entries of all domains', EQ2(ex.u(st, a[0]), per * nm.D.t), 'contract')
            ex.oblige(st, 'only domain 0 allocates', EQ(nm.d.t, 0), 'contract')
            bad = st.fork()
            e = fint('err')
            bad.assume(AND(e >= 1, e <= 20))
            bad.ghost['$err'] = e
            ex.store(st, a[1], PtrV(d, 0), PTR)
            st.ghost['$alloc'] = True
            return [(bad, IntV(32, e, 1, 20)), (st, IntV(32, 0))]
        T.contract(r'VerifAlloc::allocate', c_alloc)

        def c_bcast(ex, st, a, ins, dem):
            # contract of NumaComm::broadcast (C18): every domain gets the value of domain 0
            ex.oblige(st, 'nothing is broadcast after an error', '$err' not in st.ghost, 'contract')
            e = fint('err')
            s2 = st.fork()
            s2.assume(AND(e >= 1, e <= 20))
            s2.ghost['$err'] = e
            s1 = st
            out = [(s2, IntV(32, e, 1, 20))]
            if ex.s.sat_quick(s1.pc, [EQ(nm.d.t, 0)]):
                sa = s1.fork()
                sa.assume(EQ(nm.d.t, 0))
                p = ex.load(sa, a[1], PTR)
                ex.oblige(sa, 'domain 0 passes the allocated memory', p.r is d and isc(p.off) and p.off == 0, 'contract')
                out.append((sa, IntV(32, 0)))
            if ex.s.sat_quick(s1.pc, [nm.d.t > 0]):
                sb = s1.fork()
                sb.assume(nm.d.t > 0)
                ex.store(sb, a[1], PtrV(d, 0), PTR)
                out.append((sb, IntV(32, 0)))
            for s, _ in out:
                ex.oblige(s, 'the pointer of domain 0 is broadcast', EQ2(ex.u(s, a[2]), 0) if len(a) > 2 else False, 'contract')
            return out
        T.contract(r'numa::NumaComm::broadcast<long\*>', c_bcast)
        T.ex.loop_hooks.append(slice_fill(d, -1, [per * nm.d.t, 0]))
        T.ex.merge_on = False
        for st, ret in T.run([v.p, cs, nb, comm, numa]):
            if '$err' in st.ghost:
                T.ensure(st, 'errors are reported', EQ(T.ex.u(st, ret), st.ghost['$err']))
                continue
            q = v.at(st)
            T.ensure(st, 'success', EQ2(T.ex.u(st, ret), 0))
            T.ensure(st, 'number of cached blocks of a process', EQ2(q['m_rankCacheSize'], cs.t * nm.D.t))
            p = q.val('m_dictionary')
            T.ensure(st, 'all domains use the same directory', p.r is d and isc(p.off) and p.off == 0)
            a0, a1 = arr_reader(T.ex, T.pre_state, d, 0, 8, signed=True), arr_reader(T.ex, st, d, 0, 8, signed=True)
            lo, hi = per * nm.d.t, per * nm.d.t + per
            T.ensure(st, 'all entries of the domain are empty', forall(hi, lambda j: EQ(a1(j), -1), lo=lo))
            T.ensure(st, 'entries of other domains are not touched', forall(None, lambda j: OR(AND(j >= lo, j < hi), EQ(a1(j), a0(j)))))


def slice_fill(r, val, los=()):
    """Loop invariant: what the loop has handled so far has the value, the rest of the array is unchanged."""
    def hook(ex, f, hdr, entry, h, getters):
        out = []
        for k, g in getters.items():
            for nm, sh in fill_shapes(k, g, entry, los):
                def inv(s, sh=sh):
                    c = sh(s)
                    if c is None:
                        return None
                    q = arr_reader(ex, s, r, 0, 8, signed=True)
                    return forall(None, lambda j: OR(NOT(c(j)), EQ(q(j), val)))

                def fr(s, sh=sh):
                    c = sh(s)
                    if c is None:
                        return None
                    q, q0 = arr_reader(ex, s, r, 0, 8, signed=True), arr_reader(ex, entry, r, 0, 8, signed=True)
                    return forall(None, lambda j: OR(c(j), EQ(q(j), q0(j))))
                out.append(('filled %s' % nm, inv))
                out.append(('rest unchanged %s' % nm, fr))
        return out
    return hook


reg(True)
reg(False)

falsifier('mpicache', ['C10'], 'mpicache.cpp', ['vnuma', 'mpi', 'repo:mpi/mpicomm.cpp', 'mpilink'], budget=15,
          rule='entry operations: every history of length 5 over 3 copies plus random ones of length 30, against a list oracle; '
               'initialisation: 1-3 domains under random schedules; non-trivial: more than one operation')

"""Local block cache: replacement clock, block directory, slot management."""
from vcgen.api import *
from spec.common import *

TU = 'cache'


# --------------------------------------------------------------- LRU clock
def adv(x, x0, n):
    """How far x is ahead of x0 on a clock with n positions: 0..n-1"""
    return z3.If(mkb(GE(x, x0)), x - x0, x - x0 + n)


def adv1(x, x0, n):
    """The same, 1..n"""
    return z3.If(mkb(LTt(x0, x)), x - x0, x - x0 + n)


class Lru:
    """Ghost view of the clock in one state."""

    def __init__(self, v):
        self.n, self.np, self.nc = v['m_size'], v['m_nextPage'], v['m_nextClear']
        self.ref = v.arr('m_referenced', 0, 1)


def lru_inv(l):
    return AND(GE(l.n, 1), LTt(l.np, l.n), LTt(l.nc, l.n))


def lru_reset(l0, j, m):
    """The second-chance bit of slot j after m clears."""
    return AND(l0.ref(j), NOT(adv(j, l0.nc, l0.n) < m))


def getfree_post(l0, l1, r):
    """[(name, formula)]"""
    n = l0.n
    m = adv1(r, l0.np, n)
    return [
        ('the victim is a slot of the cache', AND(GE(r, 0), LTt(r, n))),
        ('the hand stops at the victim', EQ2(l1.np, r)),
        ('both hands advance by the same amount', EQ2(l1.nc, z3.If(mkb(l0.nc + m >= n), l0.nc + m - n, l0.nc + m))),
        ('the victim had no second chance left', NOT(lru_reset(l0, r, m))),
        ('every slot the hand skipped had a second chance',
         forall(n, lambda j: z3.Implies(adv1(j, l0.np, n) < m, mkb(lru_reset(l0, j, adv1(j, l0.np, n)))))),
        ('the victim is marked as used', l1.ref(r)),
        ('other slots lose their second chance exactly when the clearing hand passes them',
         forall(n, lambda j: z3.Or(mkb(EQ2(j, r)), mkb(l1.ref(j)) == mkb(lru_reset(l0, j, m))))),
        ('the number of slots does not change', EQ2(l1.n, n)),
    ]


def lru_obj(T, v):
    """The clock's bit array."""
    n = v['m_size']
    r = T.array('referenced', [1], [n], layout={0: [(1, ('i', 1, False, 'bool'), '')]})
    r.size = n
    v.set('m_referenced', PtrV(r, 0))
    return r


def getfree_loop(v0):
    """Candidate invariants of the search loop, over every pair of integers
    that move in step with the two hands."""
    def hook(ex, f, hdr, entry, h, getters):
        l0 = Lru(v0)
        n = l0.n
        out = []
        refr = v0.val('m_referenced').r
        ks = list(getters)

        def refat(s):
            return arr_reader(ex, s, refr, 0, 1)
        for a in ks:
            for b in ks:
                if a == b:
                    continue
                gx, gy = getters[a], getters[b]
                x0, y0 = gx(entry), gy(entry)
                if x0 is None or y0 is None:
                    continue
                if not ex.s.entails_quick(entry.pc, AND(GE(x0, 0), LTt(x0, n), GE(y0, 0), LTt(y0, n), EQ2(adv(x0, l0.np, n), adv(y0, l0.nc, n))), timeout=500):
                    continue
                d = adv1(l0.nc, l0.np, n)
                nm = '%s+%d,%s+%d' % (a[0].name, a[1], b[0].name, b[1])
                out.append((nm + ': in range', lambda s, gx=gx, gy=gy: AND(GE(gx(s), 0), LTt(gx(s), n), GE(gy(s), 0), LTt(gy(s), n))))
                for form, A in (('0', adv), ('1', adv1)):
                    out.append((nm + ': step' + form, lambda s, gx=gx, gy=gy, A=A: EQ(A(gx(s), l0.np, n), A(gy(s), l0.nc, n))))
                    for op in ('<', '<='):
                        out.append((nm + ': dist' + form + op, lambda s, gx=gx, A=A, op=op:
                                    A(gx(s), l0.np, n) < d if op == '<' else A(gx(s), l0.np, n) <= d))
                        out.append((nm + ': skipped' + form + op, lambda s, gx=gx, A=A, op=op:
                                    forall(n, lambda j: z3.Implies(
                                        adv1(j, l0.np, n) < A(gx(s), l0.np, n) if op == '<' else adv1(j, l0.np, n) <= A(gx(s), l0.np, n),
                                        mkb(lru_reset(l0, j, adv1(j, l0.np, n)))))))
                    out.append((nm + ': cleared' + form, lambda s, gx=gx, A=A:
                                forall(n, lambda j: mkb(refat(s)(j)) == mkb(lru_reset(l0, j, A(gx(s), l0.np, n))))))
        return out
    return hook


def getfree_variant(v0, T):
    def hook(ex, f, hdr, entry, h0, back):
        l0 = Lru(v0)
        n = l0.n
        d = adv1(l0.nc, l0.np, n)
        # the distance of the hand decreases towards the cleared slot
        for s in back:
            goals = []
            for (r, c) in s.mem.items():
                if h0.mem.get(r) is c:
                    continue
                for o, (nb, val) in c.cells.items():
                    hv = h0.mem.get(r)
                    if hv is None or o not in hv.cells or not isinstance(val, IntV) or nb != 8:
                        continue
                    a, b = ex.u(h0, hv.cells[o][1]), ex.u(s, val)
                    for A in (adv, adv1):
                        goals.append(AND(A(b, l0.np, n) > A(a, l0.np, n), A(b, l0.np, n) <= d))
            g = OR(*goals) if goals else False
            ex.oblige(s, 'the search terminates (variant decreases)', g, 'variant', assume=False)
    return hook


@task('LRU::getFree', ['C08'], TU, r'^cache::LRU::getFree\(\)$')
def t_getfree(T):
    v = T.obj('cache::LRU')
    lru_obj(T, v)
    l0 = Lru(v)
    T.assume(lru_inv(l0))
    v0 = v.at(T.st.fork())
    T.ex.loop_hooks.append(getfree_loop(v0))
    T.ex.variant_hooks.append(getfree_variant(v0, T))
    for st, ret in T.run([v.p]):
        l1 = Lru(v.at(st))
        for nm, g in getfree_post(l0, l1, T.ex.u(st, ret)):
            T.ensure(st, nm, g)
        T.ensure(st, 'clock stays valid', lru_inv(l1))
        T.frame(st, [(v.p.r, 16, 16), (v.val('m_referenced').r, None, None)])


def use_getfree(T):
    """Calls of the victim search are replaced by its contract."""
    def c(ex, st, a, ins, dem):
        v = View(ex, st, a[0], '!%d' % ex.m.di().record('cache::LRU'))
        l0 = Lru(v.at(st.fork()))
        ex.oblige(st, 'precondition of LRU::getFree', lru_inv(l0), 'precondition')
        rr = v.val('m_referenced').r
        v.set('m_nextPage', fint('np'))
        v.set('m_nextClear', fint('nc'))
        st.assume(AND(v['m_nextPage'] >= 0, v['m_nextClear'] >= 0))
        w = st.wcontents(rr)
        w.arrs[(0, 1, 'i')] = ex.initial_arr(rr, ex.fresh_ver(), (0, 1, 'i'))
        r = fint('victim')
        l1 = Lru(v)
        for nm, g in getfree_post(l0, l1, r):
            st.assume(g)
        st.assume(lru_inv(l1))
        return [(st, IntV(64, r, 0, (1 << 64) - 1))]
    T.contract(r'^cache::LRU::getFree\(\)$', c)


@task('LRU::access', ['C08'], TU, r'^cache::LRU::access\(')
def t_access(T):
    v = T.obj('cache::LRU')
    lru_obj(T, v)
    l0 = Lru(v)
    T.assume(lru_inv(l0))
    l0 = Lru(v.at(T.st.fork()))
    i = T.int('index')
    T.assume(i.t < l0.n)
    for st, ret in T.run([v.p, i]):
        l1 = Lru(v.at(st))
        T.ensure(st, 'the accessed slot is marked as used', l1.ref(i.t))
        T.ensure(st, 'no other slot is affected', forall(l0.n, lambda j: OR(EQ(j, i.t), mkb(l1.ref(j)) == mkb(l0.ref(j)))))
        T.ensure(st, 'the clock stays valid', lru_inv(l1))
        T.frame(st, [(v.val('m_referenced').r, None, None)])


def init_loops(v0, T):
    """Fill invariants: what the loop has handled so far has the value written, for each array the loop writes."""
    def hook(ex, f, hdr, entry, h, getters):
        out = []
        for r, c in h.mem.items():
            for key, a in c.arrs.items():
                a0 = entry.contents(r).arrs.get(key) or (ex.initial_arr(r, entry.contents(r).ver, key) if r in entry.mem else None)
                if a0 is a or len(r.strides) != 1:
                    continue
                rd = lambda s, r=r, key=key: arr_reader(ex, s, r, key[0], key[1], key[2])
                for k, g in getters.items():
                    for nm, sh in fill_shapes(k, g, entry, (0,), r.strides[0]):
                        for val in (0, -1, False, (1 << 8 * key[1]) - 1):
                            def inv(s, rd=rd, sh=sh, val=val):
                                c = sh(s)
                                if c is None:
                                    return None
                                q = rd(s)

                                def same(j):
                                    e = q(j)
                                    if isinstance(e, bool) or (not isc(e) and z3.is_bool(e)):
                                        return NOT(e) if val is False else False
                                    return EQ(e, val) if val is not False else False
                                return forall(None, lambda j: OR(NOT(c(j)), same(j)))
                            out.append(('%s filled with %s: %s' % (r.name, val, nm), inv))
        return out
    return hook


@task('LRU::init', ['C08'], TU, r'^cache::LRU::init\(')
def t_lru_init(T):
    v = T.obj('cache::LRU')
    n = T.int('size')
    hd = T.int('handDiff', signed=True)
    T.assume(n.t >= 1, n.t <= 1 << 47)
    T.ex.loop_hooks.append(init_loops(v, T))
    for st, ret in T.run([v.p, n, hd]):
        l1 = Lru(v.at(st))
        T.ensure(st, 'number of slots', EQ2(l1.n, n.t))
        T.ensure(st, 'the hands point to slots of the cache (for every hand spread)', lru_inv(l1))
        T.ensure(st, 'the first victim is slot 0', EQ(l1.np, n.t - 1))
        T.ensure(st, 'the requested spread is used when it is a slot number',
                 OR(hd.t < 0, hd.t >= n.t, EQ(l1.nc, hd.t)))
        # slots the clearing hand has not reached before the search does must start cleared
        T.ensure(st, 'slots in front of the clearing hand start without a second chance',
                 forall(l1.nc, lambda j: NOT(l1.ref(j))))
        rr = v.at(st).val('m_referenced').r
        T.ensure(st, 'one flag per slot', EQ2(rr.size, n.t))
        T.frame(st, [(v.p.r, 8, 32)])


# ----------------------------------------------------------- block directory
class Dir:
    def __init__(self, v):
        self.lru = Lru(v.sub('m_lru'))
        self.n = self.lru.n
        self.blk = v.arr('m_indexToBlock', 0, 8)
        self.map = v.map('m_blockToIndex')
        self.dom, self.val = self.map.dom, self.map.val


def dir_inv(d):
    b = z3.Int(fname('b'))
    return [
        ('clock valid', lru_inv(d.lru)),
        ('every occupied slot is found under its block id',
         forall(d.n, lambda i: z3.Or(d.blk(i) < 0, z3.And(mkb(d.dom(d.blk(i))), d.val(d.blk(i)) == i)))),
        ('every directory entry refers to the slot holding that block',
         z3.ForAll([b], z3.Implies(mkb(d.dom(b)), mkb(AND(b >= 0, b < (1 << 63), d.val(b) >= 0, LTt(d.val(b), d.n), EQ(d.blk(d.val(b)), b)))))),
    ]


def dir_obj(T, v, prefix=''):
    """Shape of a cache directory: clock bits and slot table of m_size elements."""
    lv = v.sub('m_lru')
    lru_obj(T, lv)
    n = lv['m_size']
    r = T.array('indexToBlock', [8], [n], layout={0: [(8, ('i', 8, True), '')]})
    r.size = n * 8
    v.set('m_indexToBlock', PtrV(r, 0))
    models.map_of(T.ex, T.st, v.addr('m_blockToIndex'))


@task('CacheList::getIndex', ['C07', 'C08'], TU, r'^cache::CacheList::getIndex\(')
def t_getindex(T):
    v = T.obj('cache::CacheList')
    dir_obj(T, v)
    d0 = Dir(v)
    for nm, g in dir_inv(d0):
        T.assume(g)
    b = T.int('block', hi=(1 << 63) - 1)
    T.assume(b.t < 1 << 63)
    out = T.cell('index')
    acc = fbool('access')
    d0 = Dir(v.at(T.st.fork()))
    ix0 = T.ex.u(T.st, T.ex.load(T.st, out, INT(64)))
    for st, ret in T.run([v.p, b, out, T.ex.bool2int(acc, 8) if False else BoolV(acc)]):
        d1 = Dir(v.at(st))
        rb = T.ex.tobool(ret)
        ix = T.ex.u(st, T.ex.load(st, out, INT(64)))
        T.ensure(st, 'a block is reported exactly when the directory contains it', z3.And(z3.Implies(mkb(rb), mkb(d0.dom(b.t))), z3.Implies(mkb(d0.dom(b.t)), mkb(rb))))
        T.ensure(st, 'the reported slot holds the block', OR(NOT(rb), AND(ix >= 0, LTt(ix, d0.n), EQ(d1.blk(ix), b.t))))
        T.ensure(st, 'a lookup with access marks exactly the found slot', forall(d0.n, lambda j: mkb(d1.lru.ref(j)) == mkb(OR(d0.lru.ref(j), AND(rb, acc, EQ(j, ix))))))
        for nm, g in dir_inv(d1):
            T.ensure(st, 'preserved: ' + nm, g)
        T.frame(st, [(v.sub('m_lru').val('m_referenced').r, None, None), (out.r, 0, 8)])


def getfreeindex_post(d0, d1, b, ix, old):
    n = d0.n
    x = z3.Int(fname('b'))
    return [
        ('the slot is a slot of the cache', AND(ix >= 0, LTt(ix, n))),
        ('the evicted block is reported', EQ(old, d0.blk(ix))),
        ('the slot now belongs to the new block', EQ(d1.blk(ix), b)),
        ('no other slot changes', forall(n, lambda j: OR(EQ(j, ix), EQ(d1.blk(j), d0.blk(j))))),
        ('the new block is found', AND(d1.dom(b), EQ(d1.val(b), ix))),
        ('exactly the evicted block is forgotten',
         z3.ForAll([x], z3.Implies(x != b, z3.And(mkb(d1.dom(x)) == mkb(AND(d0.dom(x), NOT(EQ(x, old)))),
                                                  z3.Implies(mkb(d1.dom(x)), mkb(EQ(d1.val(x), d0.val(x)))))))),
        ('number of slots unchanged', EQ2(d1.n, n)),
    ]


@task('CacheList::getFreeIndex', ['C07', 'C08'], TU, r'^cache::CacheList::getFreeIndex\(')
def t_getfreeindex(T):
    v = T.obj('cache::CacheList')
    dir_obj(T, v)
    d0 = Dir(v)
    for nm, g in dir_inv(d0):
        T.assume(g)
    b = T.int('block', hi=(1 << 63) - 1)
    T.assume(NOT(d0.dom(b.t)))
    out = T.cell('index')
    use_getfree(T)
    d0 = Dir(v.at(T.st.fork()))
    for st, ret in T.run([v.p, b, out]):
        d1 = Dir(v.at(st))
        ix = T.ex.u(st, T.ex.load(st, out, INT(64)))
        old = T.ex.sv(st, ret)
        for nm, g in getfreeindex_post(d0, d1, b.t, ix, old):
            T.ensure(st, nm, g)
        for nm, g in dir_inv(d1):
            T.ensure(st, 'preserved: ' + nm, g)
        for nm, g in getfree_post(d0.lru, d1.lru, ix):
            T.ensure(st, 'victim chosen by the clock: ' + nm, g)
        T.frame(st, [(v.p.r, v.loc('m_lru.m_size')[0] + 8, 16), (v.sub('m_lru').val('m_referenced').r, None, None),
                     (v.val('m_indexToBlock').r, None, None), (v.p.r, v.loc('m_blockToIndex')[0], 8), (out.r, 0, 8)])


@task('CacheList::init', ['C07'], TU, r'^cache::CacheList::init\(')
def t_dirinit(T):
    v = T.obj('cache::CacheList')
    n = T.int('size')
    hd = T.int('handDiff', signed=True)
    T.assume(n.t >= 1, n.t <= 1 << 44)
    T.st.ghost[models.mapkey(v.addr('m_blockToIndex'))] = models.MapC(lambda x: False, lambda x: 0, 64)
    T.ex.loop_hooks.append(init_loops(v, T))
    for st, ret in T.run([v.p, n, hd]):
        d1 = Dir(v.at(st))
        T.ensure(st, 'all slots empty', forall(n.t, lambda j: EQ(d1.blk(j), -1)))
        for nm, g in dir_inv(d1):
            T.ensure(st, 'established: ' + nm, g)
        T.ensure(st, 'number of slots', EQ2(d1.n, n.t))
        p = v.at(st).val('m_indexToBlock')
        T.ensure(st, 'one number per slot', p.r is not None and p.r.heap and p.r.size is not None and GE(p.r.size, 8 * n.t + p.off))


# ------------------------------------------------------------- slot manager
def dir_contracts(T, v):
    """Calls of the directory are replaced by the contracts proved above."""
    use_getfree(T)

    def havoc(ex, st, dv, keep_map=False):
        lv = dv.sub('m_lru')
        rr = lv.val('m_referenced').r
        br = dv.val('m_indexToBlock').r
        st.wcontents(rr).arrs[(0, 1, 'i')] = ex.initial_arr(rr, ex.fresh_ver(), (0, 1, 'i'))
        if not keep_map:
            lv.set('m_nextPage', fint('np'))
            lv.set('m_nextClear', fint('nc'))
            st.assume(AND(lv['m_nextPage'] >= 0, lv['m_nextClear'] >= 0))
            st.wcontents(br).arrs[(0, 8, 'i')] = ex.initial_arr(br, ex.fresh_ver(), (0, 8, 'i'))
            st.ghost[models.mapkey(dv.addr('m_blockToIndex'))] = models.MapC.fresh(fname('map'))

    def c_getindex(ex, st, a, ins, dem):
        dv = View(ex, st, a[0], '!%d' % ex.m.di().record('cache::CacheList'))
        d0 = Dir(dv.at(st.fork()))
        for nm, g in dir_inv(d0):
            ex.oblige(st, 'precondition of CacheList::getIndex: ' + nm, g, 'precondition')
        b = ex.u(st, a[1])
        acc = ex.tobool(a[3])
        out = []
        for c in (d0.dom(b), NOT(d0.dom(b))):
            if not ex.s.sat_quick(st.pc, [c]):
                continue
            s = st.fork()
            s.assume(c)
            dv1 = dv.at(s)
            if len(out) == 0 and ex.s.entails_quick(s.pc, d0.dom(b)):
                havoc(ex, s, dv1, True)
                ix = d0.val(b)
                ex.store(s, a[2], IntV(64, ix, 0, (1 << 64) - 1), INT(64))
                d1 = Dir(dv1)
                s.assume(forall(d0.n, lambda j: mkb(d1.lru.ref(j)) == mkb(OR(d0.lru.ref(j), AND(acc, EQ(j, ix))))))
                for nm, g in dir_inv(d1):
                    s.assume(g)
                out.append((s, BoolV(True)))
            else:
                out.append((s, BoolV(False)))
        return out
    T.contract(r'^cache::CacheList::getIndex\(', c_getindex)

    def c_getfreeindex(ex, st, a, ins, dem):
        dv = View(ex, st, a[0], '!%d' % ex.m.di().record('cache::CacheList'))
        d0 = Dir(dv.at(st.fork()))
        for nm, g in dir_inv(d0):
            ex.oblige(st, 'precondition of CacheList::getFreeIndex: ' + nm, g, 'precondition')
        b = ex.u(st, a[1])
        ex.oblige(st, 'precondition of CacheList::getFreeIndex: block not in the directory', NOT(d0.dom(b)), 'precondition')
        havoc(ex, st, dv)
        d1 = Dir(dv)
        ix, old = fint('index'), fint('old')
        for nm, g in getfreeindex_post(d0, d1, b, ix, old) + dir_inv(d1) + getfree_post(d0.lru, d1.lru, ix):
            st.assume(g)
        ex.store(st, a[2], IntV(64, ix, 0, (1 << 64) - 1), INT(64))
        st.assume(AND(old >= -(1 << 63), old < (1 << 63)))
        return [(st, IntV(64, old, -(1 << 63), (1 << 63) - 1))]
    T.contract(r'^cache::CacheList::getFreeIndex\(', c_getfreeindex)


class Mgr:
    """Lock discipline of the slot manager (monitor invariants).

    Protected by the manager lock: the directory (invariant dir_inv).
    Protected by slot lock i: the content of slot i. Ghost content(i) is the
    block whose data slot i holds. Invariant while both locks are free:
    the directory's block of slot i, if any, is content(i)."""

    def __init__(self, T):
        self.T = T
        ex = self.ex = T.ex
        v = self.v = T.obj('cache::CacheManager')
        self.dv = v.sub('m_cacheList')
        dir_obj(T, self.dv)
        self.n = n = v['m_cacheList.m_lru.m_size']
        self.mx = T.array('slotlock', [4], [n])
        self.mx.size = n * 4
        v.set('m_blockMutexes', PtrV(self.mx, 0))
        self.bs = v['m_blockSize']
        self.data = T.array('cache', [self.bs, 1], [n, self.bs], layout={0: [(1, ('i', 1, False), '')]})
        self.data.size = None
        T.assume(n >= 1, self.bs >= 1, n * self.bs <= MAXOBJ)
        v.set('m_cache', PtrV(self.data, 0))
        self.mgr = models.lock_id(v.addr('m_cacheMutex'))
        self.content = z3.Function(fname('content'), I, I)
        ex.on_lock = self.on_lock
        ex.on_unlock = self.on_unlock
        o, s = v.loc('m_cacheList')[0], self.ex.m.di().sizeof(v.loc('m_cacheList')[1][1])
        hl = lambda st: OR(*[models.same_lock(h, self.mgr) for h in models.held(st)])
        txt = 'the directory is accessed only under the manager lock'
        for nm in ('m_lru.m_nextPage', 'm_lru.m_nextClear'):
            oo = self.dv.p.off + self.dv.loc(nm)[0]
            ex.guards.append((v.p.r, oo, oo + 8, hl, txt))
        ex.guards.append((self.dv.sub('m_lru').val('m_referenced').r, None, None, hl, txt))
        ex.guards.append((self.dv.val('m_indexToBlock').r, None, None, hl, txt))

    def on_lock(self, st, k):
        if k[0] is self.mgr[0]:
            for hk in models.held(st)[:-1]:
                self.ex.oblige(st, 'the manager lock is not requested while holding a slot', False, 'lock')
            dv = self.dv.at(st)
            for nm, g in dir_inv(Dir(dv)):
                st.assume(g)
            st.ghost['$atlock'] = st.fork()
        elif k[0] is self.mx:
            i = unpoly(pdiv_mono(poly(k[1]), (), 4)[0])
            self.ex.oblige(st, 'slot lock exists', AND(GE(i, 0), LTt(i, self.n)), 'bounds')
            if any(h[0] is self.mgr[0] for h in models.held(st)):
                d0 = Dir(self.dv.at(st.ghost['$atlock']))
                st.assume(OR(d0.blk(i) < 0, EQ(self.content(lit(i)), d0.blk(i))))

    def on_unlock(self, st, k):
        if k[0] is self.mgr[0]:
            d0, d1 = Dir(self.dv.at(st.ghost['$atlock'])), Dir(self.dv.at(st))
            for nm, g in dir_inv(d1):
                self.ex.oblige(st, 'monitor invariant on unlock: ' + nm, g, 'lock')
            mine = lambda j: OR(*[EQ2(h[1], j * 4) for h in models.held(st) if h[0] is self.mx])
            self.ex.oblige(st, 'a slot that is reassigned is locked before the directory is released',
                           forall(self.n, lambda j: z3.Or(mkb(EQ(d1.blk(j), d0.blk(j))), mkb(mine(j)))), 'lock')
            st.ghost['$rel'] = st.fork()

    def final(self, st, b, off, slot):
        """Locks held on return."""
        T = self.T
        hs = models.held(st)
        T.ensure(st, 'the manager lock is free on return', not any(h[0] is self.mgr[0] for h in hs))
        if slot:
            T.ensure(st, 'exactly the slot of the block stays locked',
                     AND(len(hs) == 1, *[EQ2(h[1], off * 4) for h in hs if h[0] is self.mx]))
        else:
            T.ensure(st, 'nothing stays locked', len(hs) == 0)


@task('CacheManager::get', ['C07', 'C08', 'C09'], TU, r'^cache::CacheManager::get\(')
def t_mget(T):
    g = Mgr(T)
    b = T.int('blockId', hi=(1 << 63) - 1)
    off, data = T.cell('cacheOffset'), T.cell('data', kind='p', value=NULL)
    dir_contracts(T, g.dv)
    for st, ret in T.run([g.v.p, b, off, data]):
        r = T.ex.sv(st, ret)
        o = T.ex.u(st, T.ex.load(st, off, INT(64)))
        g.final(st, b.t, o, True)
        d = Dir(g.dv.at(st.ghost['$rel'])) if '$rel' in st.ghost else None
        T.ensure(st, 'the slot exists', AND(GE(o, 0), LTt(o, g.n)))
        T.ensure(st, 'when the directory is released it maps the slot to the block', EQ(d.blk(o), b.t) if d else False)
        T.ensure(st, 'a block reported as present has its data in the slot', OR(NOT(EQ(r, b.t)), EQ(g.content(o), b.t)))
        if d:
            # the clock: a block that is found only gets its mark, another one gets the slot of the victim
            d0 = Dir(g.dv.at(st.ghost['$atlock']))
            hit = d0.dom(b.t)
            T.ensure(st, 'a slot that is used gets its mark, and no other one', z3.Implies(mkb(hit), mkb(AND(
                EQ2(d.lru.np, d0.lru.np), EQ2(d.lru.nc, d0.lru.nc), forall(g.n, lambda j: mkb(d.lru.ref(j)) == mkb(OR(d0.lru.ref(j), EQ(j, o))))))))
            for nm, q in getfree_post(d0.lru, d.lru, o):
                T.ensure(st, 'a new block gets the slot of the victim: ' + nm, z3.Implies(mkb(NOT(hit)), mkb(q)))
        p = T.ex.load(st, data, PTR)
        T.ensure(st, 'the returned memory is the slot', AND(p.r is g.data, EQ2(p.off, o * g.bs)) if p.r else False)


@task('CacheManager::tryGet', ['C07', 'C08', 'C09'], TU, r'^cache::CacheManager::tryGet\(')
def t_mtryget(T):
    g = Mgr(T)
    b = T.int('blockId', hi=(1 << 63) - 1)
    off, data = T.cell('cacheOffset'), T.cell('data', kind='p', value=PtrV(g.data, 0))
    dir_contracts(T, g.dv)
    for st, ret in T.run([g.v.p, b, off, data]):
        r = T.ex.tobool(ret)
        o = T.ex.u(st, T.ex.load(st, off, INT(64)))
        for c, s in ((r, st.fork()), (NOT(r), st.fork())):
            if c is False or not T.ex.s.sat_quick(s.pc, [c]):
                continue
            s.assume(c)
            if c is r:
                g.final(s, b.t, o, True)
                T.ensure(s, 'the slot exists', AND(GE(o, 0), LTt(o, g.n)))
                T.ensure(s, 'a found block has its data in the slot', EQ(g.content(o), b.t))
                p = T.ex.load(s, data, PTR)
                T.ensure(s, 'the returned memory is the slot', AND(p.r is g.data, EQ2(p.off, o * g.bs)))
            else:
                g.final(s, b.t, o, False)
            if '$atlock' in s.ghost:
                d0, d1 = Dir(g.dv.at(s.ghost['$atlock'])), Dir(g.dv.at(s))
                T.ensure(s, 'the directory is not changed', forall(g.n, lambda j: AND(EQ(d0.blk(j), d1.blk(j)), mkb(d0.lru.ref(j)) == mkb(d1.lru.ref(j)))))


@task('CacheManager::unlock', ['C09'], TU, r'^cache::CacheManager::unlock\(')
def t_munlock(T):
    g = Mgr(T)
    o = T.int('cacheOffset')
    T.assume(o.t < g.n)
    T.st.ghost['$held'] = ((g.mx, o.t * 4),)
    for st, ret in T.run([g.v.p, o]):
        g.final(st, None, o.t, False)
        T.frame(st, [])


@task('CacheManager::init', ['C07', 'C09'], TU, r'^cache::CacheManager::init\(')
def t_minit(T):
    v = T.obj('cache::CacheManager')
    n, bs, hd = T.int('blocks'), T.int('blockSize'), T.int('handDiff', signed=True)
    T.assume(n.t >= 1, n.t <= 1 << 44, bs.t >= 1)
    data = T.array('cache', [bs.t, 1], [n.t, bs.t], layout={0: [(1, ('i', 1, False), '')]})
    T.st.ghost[models.mapkey(v.addr('m_cacheList.m_blockToIndex'))] = models.MapC(lambda x: False, lambda x: 0, 64)

    def c_init(ex, st, a, ins, dem):
        # contract of CacheList::init, proved above
        dv = View(ex, st, a[0], '!%d' % ex.m.di().record('cache::CacheList'))
        st.ghost['$init'] = (ex.u(st, a[1]), ex.sv(st, a[2]))
        lv = dv.sub('m_lru')
        lv.set('m_size', ex.u(st, a[1]))
        return [(st, None)]
    T.contract(r'^cache::CacheList::init\(', c_init)
    for st, ret in T.run([v.p, PtrV(data, 0), n, bs, hd]):
        w = v.at(st)
        a = st.ghost.get('$init')
        T.ensure(st, 'the directory has one slot per block', AND(EQ2(a[0], n.t), EQ2(a[1], hd.t)) if a else False)
        T.ensure(st, 'block size', EQ2(w['m_blockSize'], bs.t))
        p = w.val('m_cache')
        T.ensure(st, 'the cache memory is the one passed', p.r is data and isc(p.off) and p.off == 0)
        m = w.val('m_blockMutexes')
        T.ensure(st, 'one lock per slot', GE(m.r.size, 4 * n.t + m.off) if m.r is not None and m.r.size is not None else False)


falsifier('cache', ['C07', 'C08', 'C09'], 'cache.cpp', ['sched'], budget=20,
          rule='directory and clock: every sequence of lookups of length 5 over small caches plus random long ones, against an independent second-chance oracle; '
               'slot manager: 2-3 threads under enumerated (preemption bound 2) and random schedules; non-trivial: more than one operation')

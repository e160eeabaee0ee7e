"""The communication thread (C20).

The receivers are a finite map: tag -> (receiver, group). Only registerReceiver adds to it (under m_lock, which is held by
at most one registering thread) and only the communication thread removes from it; both, and every lookup, under
m_receiverLock, which is where the steps of other threads take effect: when the lock is taken, receivers registered by
other threads may have been added. Invariant: every registered tag is at least 0 and below m_nextTag.

Ranks: translate(group, group, rank) is the MPI contract of MPI_Group_translate_ranks (uninterpreted). Messages: every
message gets (tag, source, data); only finialize and unregisterReceiver send the control tags, and only to the own
process (shown here), so MPI_Recv returns control messages of this process only. m_lock belongs to the thread that
unregisters until the communication thread gets the message, which then owns it.

Assumed: MPI calls without an error path succeed; std::unordered_map is a finite map; at most 1024 cpus (CPU_SETSIZE)."""
from vcgen.api import *
from vcgen.exec import mki
from spec.common import *
from spec.types import errcodes

TU = 'commthread'
C = r'^mpi::CommThread::'
EXIT, UNREG = 32767, 32766
NODE = 64
UM = r'^std::unordered_map<int, mpi::CommThread::ReceiverDetail, .*>::'


class RMap:
    """tag -> number of the receiver, group"""

    def __init__(self, dom, rec, grp):
        self.dom, self.rec, self.grp = dom, rec, grp

    def merge(self, c, o):
        return RMap(*[(lambda k, f=f, g=g: ITE(c, f(k), g(k))) for f, g in zip((self.dom, self.rec, self.grp), (o.dom, o.rec, o.grp))])

    def havoc(self):
        return RMap.fresh()

    @staticmethod
    def fresh(name='receivers'):
        n = fname(name)
        d, r, g = z3.Function(n + '.registered', I, B), z3.Function(n + '.receiver', I, I), z3.Function(n + '.group', I, I)
        return RMap(lambda k: d(mki(k)), lambda k: r(mki(k)), lambda k: g(mki(k)))


class Thread:
    def __init__(self, T, started=True, exact=False):
        """exact: nobody else registers or unregisters meanwhile (m_lock is held)."""
        self.T, ex = T, T.ex
        self.ex = ex
        ex.merge_on = False
        reg = ex.global_region('_ZN3mpi10CommThread10commThreadE')
        self.v = v = View(ex, T.st, PtrV(reg, 0), '!%d' % T.mod.di().record('mpi::CommThread'))
        self.null = PtrV(ex.global_region('ompi_mpi_comm_null'), 0)
        self.mycomm, self.mygroup = PtrV(Region('raw', 'communicator of the thread', None), 0), PtrV(Region('raw', 'groups', None), 0)
        self.recvs, self.groups = Region('raw', 'receivers', None), self.mygroup.r
        # group number 0: the communication thread
        self.rank = T.int('ownRank', 32, lo=0, hi=(1 << 31) - 1).t
        self.next = T.int('nextTag', 32, lo=0, hi=UNREG).t
        v.set('m_comm', self.mycomm if started else self.null)
        v.set('m_nextTag', self.next)
        v.set('m_rank', self.rank)
        if started:
            v.set('m_group', PtrV(self.groups, 0))
        self.m0 = RMap.fresh()
        T.st.ghost['$map'] = self.m0
        self.moff = v.loc('m_receiver')[0]
        self.nodes = Region('raw', 'node of the map', None)
        self.lk, self.rlk = [models.lock_id(v.addr(x)) for x in ('m_lock', 'm_receiverLock')]
        self.k = T.int('anyTag', 32, signed=True).t
        T.assume(self.inv(T.st.ghost['$map'], self.k))
        self.map_contracts()
        self.tr = z3.Function('translate', I, I, I, I)
        self.tests()

    def inv(self, m, k):
        return OR(NOT(m.dom(k)), AND(k >= 0, k < self.next))

    def has(self, st, lk):
        return OR(*[models.same_lock(h, lk) for h in models.held(st)])

    def comm(self, p, c=None):
        return isinstance(p, PtrV) and p.r is (c or self.mycomm).r

    # ---- the map
    def map_contracts(self):
        T, ex = self.T, self.ex

        def here(st, p):
            if not (isinstance(p, PtrV) and p.r is self.v.p.r and EQ2(p.off, self.moff) is True):
                raise Unsupported('another map')
            ex.oblige(st, 'the receivers are used only under their lock', OR(self.has(st, self.rlk), bool(st.ghost.get('$alone'))), 'lock')
            return st.ghost['$map']

        def key(st, p):
            return ex.sv(st, ex.load(st, p, INT(32)))

        def find(ex, st, a, ins, dem):
            m = here(st, a[0])
            k = key(st, a[1])
            out = []
            for c, off in ((m.dom(k), k * NODE), (NOT(m.dom(k)), -NODE)):
                if ex.s.sat_quick(st.pc, [c]):
                    s = st.fork()
                    s.assume(AND(c, k >= 0) if off is not -NODE and not isc(off) else c)
                    out.append((s, PtrV(self.nodes, off)))
            return out
        T.contract(UM + r'find\(int const&\)', find)

        def end(ex, st, a, ins, dem):
            here(st, a[0])
            return [(st, PtrV(self.nodes, -NODE))]
        T.contract(UM + r'c?end\(\)', end)

        def count(ex, st, a, ins, dem):
            m = here(st, a[0])
            return [(st, ex.bool2int(m.dom(key(st, a[1])), 64))]
        T.contract(UM + r'count\(int const&\)', count)

        def index(ex, st, a, ins, dem):
            m = here(st, a[0])
            k = key(st, a[1])
            rec, grp = fint('rec'), fint('grp')
            st.ghost['$map'] = RMap(lambda x: OR(EQ2(x, k), m.dom(x)), lambda x: ITE(AND(EQ2(x, k), NOT(m.dom(k))), rec, m.rec(x)),
                                    lambda x: ITE(AND(EQ2(x, k), NOT(m.dom(k))), grp, m.grp(x)))
            return [(st, PtrV(self.nodes, k * NODE + 16))]
        T.contract(UM + r'operator\[\]\(int (const&|&&)\)', index)

        def at(ex, st, a, ins, dem):
            m = here(st, a[0])
            k = key(st, a[1])
            ex.oblige(st, 'the receiver is registered', m.dom(k), 'bounds')
            return [(st, PtrV(self.nodes, k * NODE + 16))]
        T.contract(UM + r'at\(int const&\)', at)

        def erase(ex, st, a, ins, dem):
            m = here(st, a[0])
            k = key(st, a[1])
            st.ghost['$map'] = RMap(lambda x: AND(NOT(EQ2(x, k)), m.dom(x)), m.rec, m.grp)
            return [(st, ex.bool2int(m.dom(k), 64))]
        T.contract(UM + r'erase\(int const&\)', erase)

        def erase_it(ex, st, a, ins, dem):
            m = here(st, a[0])
            k = self.node(st, a[1], 0)
            st.ghost['$map'] = RMap(lambda x: AND(NOT(EQ2(x, k)), m.dom(x)), m.rec, m.grp)
            return [(st, UNDEF)]
        T.contract(UM + r'erase\(std::__detail::_Node_', erase_it)

        def empty(ex, st, a, ins, dem):
            m = here(st, a[0])
            e = z3.Bool(fname('empty'))
            st.assume(OR(NOT(e), NOT(m.dom(self.k))))
            return [(st, ex.bool2int(e, 8) if False else BoolV(e))]
        T.contract(UM + r'empty\(\)', empty)

        def clear(ex, st, a, ins, dem):
            here(st, a[0])
            st.ghost['$map'] = RMap(lambda x: False, lambda x: 0, lambda x: 0)
            return [(st, None)]
        T.contract(UM + r'clear\(\)', clear)
        T.contract(UM + r'~?unordered_map\(\)$', clear0)

        # the nodes: next, key, receiver, group
        def mem(ex, st, r, off, n, ty, v):
            if r is not self.nodes:
                return None
            k, f = self.split(st, off)
            m = st.ghost['$map']
            ex.oblige(st, 'the receiver is registered while it is used', AND(m.dom(k), self.has(st, self.rlk)), 'lock')
            if f == 8 and v is None and n == 4:
                return IntV(32, k, -(1 << 31), (1 << 31) - 1)
            if f in (16, 24) and n == 8:
                if v is None:
                    return PtrV(self.recvs, m.rec(k)) if f == 16 else PtrV(self.groups, m.grp(k))
                x = self.number(v, self.recvs if f == 16 else self.groups)
                upd = lambda g: (lambda y: ITE(EQ2(y, k), x, g(y)))
                st.ghost['$map'] = RMap(m.dom, upd(m.rec) if f == 16 else m.rec, upd(m.grp) if f == 24 else m.grp)
                return True
            raise Unsupported('node of the map')
        ex.mem_hooks.append(mem)

        def copy(ex, st, d, s, n):
            if not any(isinstance(p, PtrV) and p.r is self.nodes for p in (d, s)):
                return False
            for o in (0, 8):
                ex.store(st, PtrV(d.r, d.off + o), ex.load(st, PtrV(s.r, s.off + o), PTR), PTR)
            return EQ2(n, 16) is True
        ex.memcpy_hooks.append(copy)

    def split(self, st, off):
        q, rest = pdiv_mono(poly(off), (), NODE)
        if any(mm for mm in rest):
            raise Unsupported('node of the map')
        return unpoly(q), rest.get((), 0)

    def node(self, st, p, f):
        k, g = self.split(st, p.off)
        self.ex.oblige(st, 'iterator refers to an element', AND(st.ghost['$map'].dom(k), g == f), 'bounds')
        return k

    def number(self, v, r):
        if not isinstance(v, PtrV) or v.r is not r:
            return fint('other')
        return v.off

    def locks(self, spare=None):
        """Other threads register receivers until the lock of the map is taken."""
        def on(st, k):
            if models.same_lock(k, self.rlk) is True:
                m, n = st.ghost['$map'], RMap.fresh()
                st.ghost['$map'] = n
                for t in [self.k] + list(spare or ()):
                    # nothing disappears meanwhile
                    st.assume(OR(NOT(m.dom(t)), AND(n.dom(t), EQ(n.rec(t), m.rec(t)), EQ(n.grp(t), m.grp(t)))))
        self.ex.on_lock = on

    def tests(self):
        """Pending non-blocking sends."""
        T, ex = self.T, self.ex
        g = T.st.ghost
        g['$req'], g['$reqr'] = z3.IntVal(0), None

        def test(ex, st, a, ins, dem):
            ex.oblige(st, 'the request', isinstance(a[0], PtrV) and a[0].r is st.ghost['$reqr'], 'contract')
            no = st.fork()
            st.ghost['$req'] = z3.IntVal(0)
            no.assume(EQ(no.ghost['$req'], 1))
            ex.store(st, a[1], IntV(32, 1), INT(32))
            ex.store(no, a[1], IntV(32, 0), INT(32))
            return [(st, IntV(32, 0)), (no, IntV(32, 0))]
        T.contract(r'^MPI_Test$', test)

        def wait(ex, st, a, ins, dem):
            ex.oblige(st, 'the request', isinstance(a[0], PtrV) and a[0].r is st.ghost['$reqr'], 'contract')
            st.ghost['$req'] = z3.IntVal(0)
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Wait$', wait)

        def lhook(ex, f, hdr, entry, h, getters):
            out = [('pending', lambda st: AND(st.ghost['$req'] >= 0, st.ghost['$req'] <= 1))]
            for i, p in enumerate(entry.regs.values()):
                if isinstance(p, PtrV) and p.r is not None and p.r.local and isc(p.off) and isc(p.r.size) and int(p.r.size) == 4:
                    out.append(('done %d' % i, lambda st, p=p: EQ(NOT(EQ2(word(ex, st, p), 0)), EQ(st.ghost['$req'], 0))))
            return out
        ex.loop_hooks.append(lhook)

    def control(self, tag, data=None, pre=None):
        """A control message of this process to its own communication thread, received when the call (or request) ends."""
        T, ex = self.T, self.ex
        T.st.ghost['$sent'] = 0

        def mk(blocking, sync):
            def c(ex, st, a, ins, dem):
                ex.oblige(st, 'control message: to the own communication thread', AND(EQ2(ex.sv(st, a[3]), self.rank), self.comm(a[5])), 'contract')
                ex.oblige(st, 'control message: one message', AND(EQ2(ex.sv(st, a[1]), 1), is_ulong(a[2])), 'contract')
                ex.oblige(st, 'control message: tag', EQ2(ex.sv(st, a[4]), tag), 'contract')
                ex.oblige(st, 'control message: it was received when the call ends', sync, 'contract')
                d = ex.u(st, ex.load(st, a[0], INT(64)))
                if data is not None:
                    ex.oblige(st, 'control message: the receiver', EQ2(d, data), 'contract')
                for nm, f in (pre(st) if pre else []):
                    ex.oblige(st, nm, f, 'contract')
                st.ghost['$sent'] = st.ghost['$sent'] + 1
                if not blocking:
                    st.ghost['$req'], st.ghost['$reqr'] = z3.IntVal(1), a[6].r
                return [(st, IntV(32, 0))]
            return c
        for n, b, s in (('Send', True, False), ('Ssend', True, True), ('Isend', False, False), ('Issend', False, True)):
            T.contract('^MPI_%s$' % n, mk(b, s))


def clear0(ex, st, a, ins, dem):
    return [(st, None)]


def word(ex, st, p, k=0):
    try:
        return ex.sv(st, ex.load(st, PtrV(p.r, p.off + k), INT(32)))
    except Unsupported:
        return z3.FreshInt('word')


def is_type(t, name):
    return isinstance(t, PtrV) and (t.r.name or '').endswith('ompi_mpi_' + name)


def is_ulong(t):
    return is_type(t, 'unsigned_long')


def fails(st, errs):
    s2 = st.fork()
    e = fint('err')
    s2.assume(AND(e >= 1, e < 1 << 31))
    s2.ghost['$err'] = s2.ghost.get('$err', ()) + (errs,)
    return s2, IntV(32, e, 1, (1 << 31) - 1)


def same(s, m, m0, k):
    return AND(EQ(mkb(m.dom(k)), mkb(m0.dom(k))), OR(NOT(m0.dom(k)), AND(EQ2(m.rec(k), m0.rec(k)), EQ2(m.grp(k), m0.grp(k)))))


def reg_register(started):
    @task('CommThread::registerReceiver' + ('' if started else ' (no communication thread)'), ['C20', 'C14'], TU, C + r'registerReceiver\(', defs=('mpi',))
    def t_reg(T):
        s = Thread(T, started)
        ex, v = T.ex, s.v
        e = errcodes(T)
        s.ex.on_lock = None
        # (m_lock is held: nobody else registers; the communication thread may remove receivers meanwhile: a smaller map)
        comm = PtrV(Region('raw', 'communicator', None), 0)
        grp = z3.Int('groupOfTheCommunicator')
        me = z3.Int('theReceiver')
        tag = T.cell('tag', 4)
        M = T.int('largestNextTag', 32, lo=0).t
        g = T.st.ghost
        g['$reduced'] = g['$barrier'] = 0

        def allreduce(ex, st, a, ins, dem):
            ex.oblige(st, 'the tag is chosen under the lock', s.has(st, s.lk), 'lock')
            ex.oblige(st, 'the tag is agreed on by all processes of the communicator', AND(s.comm(a[5], comm), is_type(a[3], 'int'), is_type(a[4], 'op_max'), EQ2(ex.sv(st, a[2]), 1), st.ghost['$reduced'] == 0), 'contract')
            ex.oblige(st, 'the next free tag of this process', EQ2(ex.sv(st, ex.load(st, a[0], INT(32))), s.next), 'contract')
            bad = fails(st, e['MPI_ERROR'])
            st.ghost['$reduced'] = 1
            st.assume(M >= s.next)
            ex.store(st, a[1], IntV(32, M, 0, (1 << 31) - 1), INT(32))
            return [(st, IntV(32, 0)), bad]
        T.contract(r'^MPI_Allreduce$', allreduce)

        def group(ex, st, a, ins, dem):
            ex.oblige(st, 'the group of the communicator', s.comm(a[0], comm), 'contract')
            ex.store(st, a[1], PtrV(s.groups, grp), PTR)
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Comm_group$', group)

        def barrier(ex, st, a, ins, dem):
            ex.oblige(st, 'all processes of the communicator wait', s.comm(a[0], comm), 'contract')
            m = st.ghost['$map']
            ex.oblige(st, 'the receiver is registered before others may send', AND(m.dom(M), EQ2(m.rec(M), me), EQ2(m.grp(M), grp)), 'contract')
            ex.oblige(st, 'the communication thread can look up receivers meanwhile', NOT(s.has(st, s.rlk)), 'lock')
            bad = fails(st, e['MPI_ERROR'])
            st.ghost['$barrier'] = 1
            return [(st, IntV(32, 0)), bad]
        T.contract(r'^MPI_Barrier$', barrier)
        for st, ret in T.run([v.p, comm, PtrV(s.recvs, me), tag]):
            r = ex.u(st, ret)
            q, m = v.at(st), st.ghost['$map']
            T.ensure(st, 'all locks are released', not models.held(st))
            if not started:
                T.ensure(st, 'refused without a communication thread', EQ2(r, e['NOT_INITIALIZED']))
                T.ensure(st, 'nothing changes', AND(same(s, m, s.m0, s.k), EQ2(q['m_nextTag'], s.next)))
                continue
            if '$err' in st.ghost:
                T.ensure(st, 'errors are reported', EQ2(r, e['MPI_ERROR']))
            ok = AND(EQ2(r, 0))
            T.ensure(st, 'no success after an error', OR('$err' not in st.ghost, NOT(ok)))
            T.ensure(st, 'the same tag on all processes', OR(NOT(ok), AND(st.ghost['$reduced'] == 1, EQ2(ex.sv(st, ex.load(st, tag, INT(32))), M))))
            T.ensure(st, 'a tag that is not in use, no control tag', OR(NOT(ok), AND(M >= 0, M < UNREG, NOT(s.m0.dom(M)) if EQ(s.k, M) is True else OR(NOT(EQ(s.k, M)), NOT(s.m0.dom(s.k))))))
            T.ensure(st, 'the receiver is registered', OR(NOT(ok), AND(m.dom(M), EQ2(m.rec(M), me), EQ2(m.grp(M), grp))))
            T.ensure(st, 'other receivers stay', OR(EQ(s.k, M), same(s, m, s.m0, s.k)))
            T.ensure(st, 'tags are used once', AND(OR(NOT(ok), q['m_nextTag'] > M), OR(NOT(m.dom(s.k)), '$err' in st.ghost and False, q['m_nextTag'] > s.k)))
            T.ensure(st, 'the next tag stays valid', AND(q['m_nextTag'] >= s.next, q['m_nextTag'] <= UNREG))
            T.ensure(st, 'a free tag is found as long as there is one', OR('$err' in st.ghost, M >= UNREG, ok))
            T.ensure(st, 'all processes wait for each other', OR(NOT(ok), st.ghost['$barrier'] == 1))


reg_register(True)
reg_register(False)


@task('CommThread::unregisterReceiver', ['C20'], TU, C + r'unregisterReceiver\(', defs=('mpi',))
def t_unreg(T):
    s = Thread(T)
    tag = T.int('tag', 32, lo=0, hi=UNREG - 1)
    s.control(UNREG, tag.t, lambda st: [('the communication thread gets the lock with the message', s.has(st, s.lk))])
    T.ex.only = True
    for st, ret in T.run([s.v.p, tag]):
        T.ensure(st, 'the communication thread was told once', EQ2(st.ghost['$sent'], 1))
        T.ensure(st, 'the message was received', EQ(st.ghost['$req'], 0))
        T.ensure(st, 'only the lock that the communication thread releases is held', AND(len(models.held(st)) == 1, s.has(st, s.lk)))
        st.ghost['$held'] = ()


@task('CommThread::send', ['C20'], TU, C + r'send\(', defs=('mpi',))
def t_send(T):
    s = Thread(T)
    ex = T.ex
    tag, to, data = T.int('tag', 32, lo=0, hi=UNREG - 1), T.int('rank', 32, signed=True, lo=0), T.int('data', 64, hi=(1 << 64) - 1)
    s.locks([tag.t])
    T.st.ghost['$sent'] = 0
    T.st.ghost['$tr'] = None

    def translate(ex, st, a, ins, dem):
        m = st.ghost['$map']
        ex.oblige(st, 'from the communicator of the receiver to that of the thread', AND(EQ2(ex.sv(st, a[1]), 1), isinstance(a[0], PtrV) and a[0].r is s.groups, m.dom(tag.t), EQ2(s.number(a[0], s.groups), m.grp(tag.t)),
                                                                                          isinstance(a[3], PtrV) and a[3].r is s.groups and EQ2(a[3].off, 0)), 'contract')
        x = ex.sv(st, ex.load(st, a[2], INT(32)))
        t = s.tr(mki(s.number(a[0], s.groups)), mki(x), mki(s.number(a[3], s.groups)))
        st.assume(AND(t >= 0, t < 1 << 31))
        ex.oblige(st, 'the rank of the target', EQ2(x, to.t), 'contract')
        ex.store(st, a[4], IntV(32, t, 0, (1 << 31) - 1), INT(32))
        st.ghost['$tr'] = t
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Group_translate_ranks$', translate)

    def send(ex, st, a, ins, dem):
        ex.oblige(st, 'one message with unchanged data', AND(EQ2(ex.sv(st, a[1]), 1), is_ulong(a[2]), EQ2(ex.u(st, ex.load(st, a[0], INT(64))), data.t)), 'contract')
        ex.oblige(st, 'to the process with this rank', AND(st.ghost['$tr'] is not None and EQ2(ex.sv(st, a[3]), st.ghost['$tr'])), 'contract')
        ex.oblige(st, 'with the tag of the receiver', EQ2(ex.sv(st, a[4]), tag.t), 'contract')
        ex.oblige(st, 'in the communicator of the thread', s.comm(a[5]), 'contract')
        ex.oblige(st, 'the communication thread can look up receivers meanwhile', NOT(s.has(st, s.rlk)), 'lock')
        st.ghost['$sent'] = st.ghost['$sent'] + 1
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Ss?end$', send)
    for st, ret in T.run([s.v.p, tag, to, data]):
        m = st.ghost['$map']
        T.ensure(st, 'sent exactly if the tag is registered', EQ2(st.ghost['$sent'], ITE(m.dom(tag.t), 1, 0)))
        T.ensure(st, 'receivers are unchanged', same(s, m, s.m0, s.k) if m is s.m0 else OR(NOT(s.m0.dom(s.k)), same(s, m, s.m0, s.k)))
        T.ensure(st, 'all locks are released', not models.held(st))


@task('CommThread::commThreadHandler', ['C20'], TU, C + r'commThreadHandler\(', defs=('mpi',))
def t_handler(T):
    s = Thread(T)
    ex, v = T.ex, s.v
    g = T.st.ghost
    mtag, msrc, mdata = '$tag', '$src', '$data'
    for k in (mtag, msrc, mdata):
        g[k] = z3.IntVal(-1)
    g['$calls'] = z3.IntVal(0)       # receivers called for the current message
    g['$before'] = s.m0              # receivers when the message arrived
    g['$given'] = z3.IntVal(0)       # m_lock came with the message

    def on(st, k):
        if models.same_lock(k, s.rlk) is True:
            n, m = RMap.fresh(), st.ghost['$map']
            for t in (st.ghost[mtag], st.ghost[mdata], s.k):
                st.assume(OR(NOT(m.dom(t)), AND(n.dom(t), EQ(n.rec(t), m.rec(t)), EQ(n.grp(t), m.grp(t)))))
            st.ghost['$map'] = n
            st.ghost['$before'] = n
    ex.on_lock = on

    def handled(st):
        """The last message was handled (none at the beginning)."""
        t, d, m, b = st.ghost[mtag], st.ghost[mdata], st.ghost['$map'], st.ghost['$before']
        none = AND(EQ2(st.ghost['$calls'], 0))
        unreg = AND(EQ(t, UNREG), none, NOT(m.dom(d)))
        other = AND(t >= 0, t < UNREG, EQ2(st.ghost['$calls'], ITE(m.dom(t), 1, 0)))
        return OR(EQ(t, -1), unreg, other)

    def kept(st):
        t, d, m, b = st.ghost[mtag], st.ghost[mdata], st.ghost['$map'], st.ghost['$before']
        return OR(same(s, m, b, s.k), AND(EQ(t, UNREG), EQ(s.k, d)))

    def recv(ex, st, a, ins, dem):
        ex.oblige(st, 'messages are received in the communicator of the thread', AND(s.comm(a[5]), EQ2(ex.sv(st, a[1]), 1), is_ulong(a[2])), 'contract')
        ex.oblige(st, 'messages of every process with every tag are received', AND(EQ2(ex.sv(st, a[3]), -1), EQ2(ex.sv(st, a[4]), -1)), 'contract')
        ex.oblige(st, 'the message before was handled', handled(st), 'contract')
        ex.oblige(st, 'other receivers are untouched', kept(st), 'contract')
        ex.oblige(st, 'no lock is held while the thread waits for messages', not models.held(st), 'lock')
        t, sr, d = fint('tag'), fint('source'), fint('data')
        st.assume(AND(t >= 0, t <= EXIT, sr >= 0, sr < 1 << 31, d >= 0, d < 1 << 64))
        st.ghost[mtag], st.ghost[msrc], st.ghost[mdata] = t, sr, d
        st.ghost['$calls'] = z3.IntVal(0)
        st.ghost['$before'] = st.ghost['$map']
        ex.store(st, a[0], IntV(64, d, 0, (1 << 64) - 1), INT(64))
        if isinstance(a[6], PtrV) and a[6].r is not None and a[6].r.local:
            ex.store(st, PtrV(a[6].r, a[6].off), IntV(32, sr, 0, (1 << 31) - 1), INT(32))
            ex.store(st, PtrV(a[6].r, a[6].off + 4), IntV(32, t, 0, (1 << 31) - 1), INT(32))
        un = st.fork()
        # control messages come from this process; with an unregister message the thread owns m_lock
        un.assume(AND(EQ(t, UNREG), EQ(sr, s.rank), d < UNREG))
        un.ghost['$held'] = (s.lk,)
        st.assume(AND(NOT(EQ(t, UNREG)), OR(t < UNREG, EQ(sr, s.rank))))
        return [(st, IntV(32, 0)), (un, IntV(32, 0))]
    T.contract(r'^MPI_Recv$', recv)

    def translate(ex, st, a, ins, dem):
        x, k1, k2 = ex.sv(st, ex.load(st, a[2], INT(32))), s.number(a[0], s.groups), s.number(a[3], s.groups)
        t = s.tr(mki(k1), mki(x), mki(k2))
        st.assume(AND(t >= 0, t < 1 << 31))
        ex.oblige(st, 'one rank is translated', EQ2(ex.sv(st, a[1]), 1), 'contract')
        ex.store(st, a[4], IntV(32, t, 0, (1 << 31) - 1), INT(32))
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Group_translate_ranks$', translate)

    # dispatch: the virtual function of the receiver is called

    def called(ex, st, a, ins, dem):
        t, m = st.ghost[mtag], st.ghost['$map']
        ex.oblige(st, 'the receiver registered for the tag is called', AND(t < UNREG, m.dom(t), isinstance(a[0], PtrV) and a[0].r is s.recvs, EQ2(s.number(a[0], s.recvs), m.rec(t))), 'contract')
        ex.oblige(st, 'with the rank of the sender in the communicator of the receiver', EQ2(ex.sv(st, a[1]), s.tr(z3.IntVal(0), mki(st.ghost[msrc]), mki(m.grp(t)))), 'contract')
        ex.oblige(st, 'with unchanged data', EQ2(ex.u(st, a[2]), st.ghost[mdata]), 'contract')
        ex.oblige(st, 'no lock is held while the receiver works', not models.held(st), 'lock')
        st.ghost['$calls'] = st.ghost['$calls'] + 1
        return [(st, None)]
    T.contract(r'^virtual mpi::Receiver::recv$', called)
    T.virtual(s.recvs, 'mpi::Receiver')

    def vmem(ex, st, r, off, n, ty, val):
        return PtrV(s.recvs.x['vtable'], 0) if r is s.recvs and n == 8 and val is None else None
    ex.mem_hooks.insert(0, vmem)

    def lhook(ex, f, hdr, entry, h, getters):
        return [('messages are handled', handled), ('other receivers are untouched', kept)]
    ex.loop_hooks.append(lhook)
    ex.no_unroll = {'.'}
    g['$held'] = ()
    for st, ret in T.run([PtrV(None, 0)]):
        T.ensure(st, 'the thread ends with the exit message of this process', EQ(st.ghost[mtag], EXIT))
        T.ensure(st, 'all locks are released', not models.held(st))


def reg_init(started):
    @task('CommThread::init' + (' (already running)' if started else ''), ['C20', 'C14'], TU, C + r'init\(', defs=('mpi',))
    def t_init(T):
        s = Thread(T, started)
        ex, v = T.ex, s.v
        e = errcodes(T)
        comm = PtrV(Region('raw', 'communicator', None), 0)
        cpu = T.int('schedCPU', 32, signed=True)
        n = T.int('cpus', 32, lo=0, hi=1024).t
        anyrun = z3.Int('runningAnywhere')
        g = T.st.ghost
        g['$state'] = 0
        g['$pinned'] = 0
        g['$cpuset'] = ()

        def allreduce(ex, st, a, ins, dem):
            ex.oblige(st, 'all processes are asked', AND(s.comm(a[5], comm), is_type(a[3], 'int'), EQ2(ex.sv(st, a[2]), 1), st.ghost['$state'] == 0), 'contract')
            ex.oblige(st, 'a thread on any process counts', is_type(a[4], 'op_lor') or is_type(a[4], 'op_max'), 'contract')
            x = ex.sv(st, ex.load(st, a[1], INT(32)))
            ex.oblige(st, 'is there a thread on this process', EQ(NOT(EQ2(x, 0)), started), 'contract')
            bad = fails(st, e['MPI_ERROR'])
            st.assume(AND(anyrun >= 0, anyrun <= 1, anyrun >= (1 if started else 0)))
            ex.store(st, a[1], IntV(32, anyrun, 0, 1), INT(32))
            st.ghost['$state'] = 1
            return [(st, IntV(32, 0)), bad]
        T.contract(r'^MPI_Allreduce$', allreduce)

        def step(name, k, err, act, args):
            def c(ex, st, a, ins, dem):
                ex.oblige(st, name, AND(st.ghost['$state'] == k, '$err' not in st.ghost), 'contract')
                for nm, f in args(st, a):
                    ex.oblige(st, nm, f, 'contract')
                bad = fails(st, err)
                st.ghost['$state'] = k + 1
                act(st, a)
                return [(st, IntV(32, 0)), bad]
            return c
        this = lambda a, f: isinstance(a, PtrV) and a.r is v.p.r and EQ2(a.off, v.loc(f)[0]) is True
        T.contract(r'^MPI_Comm_dup$', step('an own communicator', 1, e['MPI_ERROR'], lambda st, a: ex.store(st, a[1], s.mycomm, PTR),
                                           lambda st, a: [('of the communicator', AND(s.comm(a[0], comm), this(a[1], 'm_comm'))), ('only if there is no thread yet', EQ2(anyrun, 0))]))
        T.contract(r'^MPI_Comm_group$', step('its group', 2, e['MPI_ERROR'], lambda st, a: ex.store(st, a[1], PtrV(s.groups, 0), PTR),
                                             lambda st, a: [('of the own communicator', AND(s.comm(a[0]), this(a[1], 'm_group')))]))
        newrank = T.int('newRank', 32, lo=0).t
        T.contract(r'^MPI_Comm_rank$', step('the rank', 3, e['MPI_ERROR'], lambda st, a: ex.store(st, a[1], IntV(32, newrank, 0, (1 << 31) - 1), INT(32)),
                                            lambda st, a: [('in the own communicator', AND(s.comm(a[0]), this(a[1], 'm_rank')))]))
        thread = z3.Int('thread')
        T.assume(thread >= 0, thread < 1 << 64)
        h = [x for x in T.mod.functions if 'commThreadHandler' in x]
        T.contract(r'^pthread_create$', step('the thread starts when everything is set up', 4, e['THREAD_ERROR'], lambda st, a: ex.store(st, a[0], IntV(64, thread, 0, (1 << 64) - 1), INT(64)),
                                             lambda st, a: [('the communication thread', AND(isinstance(a[2], PtrV) and h and h[0] in (a[2].r.name or str(a[2].r.x)), this(a[0], 'm_thread')))]))
        const_contract(T, r'^std::thread::hardware_concurrency\(\)', IntV(32, n, 0, 1024))

        def hook(ex, st, r, off, nb, ty, val):
            if not (r.local and isc(r.size) and int(r.size) == 128 and nb == 8):
                return None
            if isc(off) and val is None:
                return None
            if val is None:
                ex.oblige(st, 'one cpu', not st.ghost['$cpuset'], 'contract')
                return IntV(64, 0)
            ex.oblige(st, 'one cpu', not st.ghost['$cpuset'], 'contract')
            st.ghost['$cpuset'] = ((off, ex.u(st, val)),)
            return True
        ex.mem_hooks.append(hook)
        valid = AND(cpu.t < n, cpu.t >= -n)
        want = ITE(cpu.t >= 0, cpu.t, n + cpu.t)

        def pin(ex, st, a, ins, dem):
            ex.oblige(st, 'the communication thread is pinned', AND(EQ2(ex.u(st, a[0]), thread), EQ2(ex.u(st, a[1]), 128), st.ghost['$state'] == 5), 'contract')
            ex.oblige(st, 'only to a valid cpu', valid, 'contract')
            cs = st.ghost['$cpuset']
            ok = isinstance(a[2], PtrV) and bool(a[2].r.local) and len(cs) == 1
            # all words were cleared before
            z = [ex.load_cell(st, a[2].r, 8 * i, 8, INT(64)) for i in range(16)] if ok else []
            ex.oblige(st, 'no other cpu', AND(ok, *[EQ2(ex.u(st, x), 0) for x in z]), 'contract')
            if ok:
                o, w = cs[0]
                for i in range(64):
                    pass
                q, r = ex.divmod(st, want, 64)
                ex.oblige(st, 'the cpu', AND(EQ2(o, 8 * q), EQ2(w, pow2(r))), 'contract')
            st.ghost['$pinned'] = st.ghost['$pinned'] + 1
            return [(st, IntV(32, 0))]
        T.contract(r'^pthread_setaffinity_np$', pin)
        for st, ret in T.run([v.p, cpu, comm]):
            r, q = ex.u(st, ret), v.at(st)
            T.ensure(st, 'all locks are released', not models.held(st))
            if '$err' in st.ghost:
                T.ensure(st, 'errors are reported', EQ2(r, st.ghost['$err'][0]))
                continue
            T.ensure(st, 'a second start is refused', OR(EQ2(anyrun, 0), AND(EQ2(r, e['ALREADY_INITIALIZED']), st.ghost['$state'] == 1, EQ2(st.ghost['$pinned'], 0))))
            T.ensure(st, 'otherwise the thread runs', OR(NOT(EQ2(anyrun, 0)), AND(EQ2(r, 0), st.ghost['$state'] == 5, s.comm(q.val('m_comm')), isinstance(q.val('m_group'), PtrV) and q.val('m_group').r is s.groups)))
            T.ensure(st, 'a valid cpu number pins the thread, another one does not', OR(NOT(EQ2(anyrun, 0)), EQ2(st.ghost['$pinned'], ITE(valid, 1, 0))))
            if started:
                T.ensure(st, 'the running thread is not changed', AND(s.comm(q.val('m_comm')), EQ2(q['m_rank'], s.rank), EQ2(q['m_nextTag'], s.next)))


def pow2(r):
    t = z3.IntVal(1 << 63)
    for k in range(62, -1, -1):
        t = z3.If(mki(r) == k, z3.IntVal(1 << k), t)
    return t


reg_init(False)
reg_init(True)


@task('CommThread::finialize', ['C20'], TU, C + r'finialize\(', defs=('mpi',))
def t_fin(T):
    s = Thread(T)
    ex, v = T.ex, s.v
    g = T.st.ghost
    g['$joined'] = g['$freed'] = 0
    thread = v['m_thread']
    s.control(EXIT)

    def join(ex, st, a, ins, dem):
        ex.oblige(st, 'the thread was told to end', AND(EQ2(st.ghost['$sent'], 1), EQ(st.ghost['$req'], 0)), 'contract')
        ex.oblige(st, 'the communication thread', EQ2(ex.u(st, a[0]), thread), 'contract')
        ex.oblige(st, 'the thread can look up receivers until it ends', NOT(s.has(st, s.rlk)), 'lock')
        st.ghost['$joined'] = st.ghost['$joined'] + 1
        # from here on nobody uses the receivers
        st.ghost['$alone'] = True
        return [(st, IntV(32, 0))]
    T.contract(r'^pthread_join$', join)

    def free(ex, st, a, ins, dem):
        ex.oblige(st, 'the communicator is freed after the thread ended', AND(EQ2(st.ghost['$joined'], 1), isinstance(a[0], PtrV) and a[0].r is v.p.r and EQ2(a[0].off, v.loc('m_comm')[0]) is True), 'contract')
        ex.store(st, a[0], s.null, PTR)
        st.ghost['$freed'] = st.ghost['$freed'] + 1
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Comm_free$', free)
    T.contract(r'^MPI_Group_free$', lambda ex, st, a, ins, dem: [(st, IntV(32, 0))])
    for st, ret in T.run([v.p]):
        q = v.at(st)
        T.ensure(st, 'the thread ended', EQ2(st.ghost['$joined'], 1))
        T.ensure(st, 'it can be started again', AND(EQ2(st.ghost['$freed'], 1), s.comm(q.val('m_comm'), s.null)))
        T.ensure(st, 'no receiver is left', AND(NOT(st.ghost['$map'].dom(s.k)), EQ2(q['m_nextTag'], 0)))
        T.ensure(st, 'all locks are released', not models.held(st))


@task('CommThread::CommThread', ['C20'], TU, C + r'CommThread\(\)', defs=('mpi',))
def t_ctor(T):
    v = T.obj('mpi::CommThread')
    ex = T.ex
    T.contract(r'^std::unordered_map<.*>::unordered_map\(\)$', clear0)
    T.contract(r'^pthread_self$', lambda ex, st, a, ins, dem: [(st, umodel(ex, st, 64, 'self'))])
    null = ex.global_region('ompi_mpi_comm_null')
    for st, ret in T.run([v.p]):
        q = v.at(st)
        T.ensure(st, 'no thread runs at the beginning', isinstance(q.val('m_comm'), PtrV) and q.val('m_comm').r is null)
        T.ensure(st, 'no tag was used', EQ2(q['m_nextTag'], 0))


@task('MPIComm::reserveTags', ['C20', 'C21'], TU, r'^mpi::MPIComm::reserveTags\(', defs=('mpi',))
def t_tags(T):
    v = T.obj('mpi::MPIComm')
    n = T.int('tags', 32, lo=0, hi=(1 << 31) - 1)
    f = v['m_nextFreeTag']
    T.assume(f >= 0, f + n.t < 1 << 31)
    for st, ret in T.run([v.p, n]):
        q = v.at(st)
        T.ensure(st, 'tags that were not reserved before', AND(T.ex.sv(st, ret) >= f, T.ex.sv(st, ret) + n.t <= q['m_nextFreeTag']))
        T.ensure(st, 'depends only on what was reserved before', AND(EQ2(T.ex.sv(st, ret), f), EQ2(q['m_nextFreeTag'], f + n.t)))
        T.frame(st, [(v.p.r, v.loc('m_nextFreeTag')[0], v.loc('m_nextFreeTag')[0] + 4)])

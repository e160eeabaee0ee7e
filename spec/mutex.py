"""The distributed lock of a directory entry (C21).

Model of one lock word: the threads that asked for the lock form a queue at(lo) .. at(hi-1) (identities); the first one
holds it. Invariant: identities in the queue are different, 0 <= at(i) < P*T, and the word is at(hi-1), or -1 if the
queue is empty. Every other thread changes the queue only by the steps of this interface (append at acquire, remove the
first at release), which is what the steps of the contracts below do; between two steps of this thread the queue is an
arbitrary one that the steps of other threads allow. Each step is shown to keep the invariant.

A waiting thread sends one synchronous empty message to the tag of its predecessor, which receives exactly one if and
only if it has a successor at the time of its release.

Assumed: the same number of threads per process on all processes, P*T < 2^31; MPI calls succeed and behave as the MPI
standard says; MPI_Ssend returns when the message was received; a thread asks for one lock at a time (proved for CacheDist::getAt in store)."""
from vcgen.api import *
from spec.common import *
from spec.geo import *

TU = 'transfer'
MPI = ('mpi', '-DUSE_MPI3')
C = r'^mpi::Mutex::'


def addr_of(p):
    return isinstance(p, PtrV) and p.r is not None


def is_named(p, name):
    return addr_of(p) and (p.r.name or '').endswith(name)


class Lock:
    def __init__(self, T, opened=True):
        self.T, ex = T, T.ex
        self.ex = ex
        v = self.v = T.obj('mpi::Mutex')
        self.comm = T.obj('mpi::MPIComm', 'mpiComm')
        self.p = self.comm['m_rank']
        self.P, self.TT, self.t = z3.Int('processes'), T.int('threads', 32, lo=1), T.int('thread', 32)
        n = self.n = self.TT.t
        T.assume(self.p >= 0, self.p < self.P, self.P >= 1, n >= 1, self.P * n < 1 << 31, self.t.t >= 0, self.t.t < n)
        lemma_digit(T, T.st, [(self.p, self.t.t, self.P, n)])
        lemma_mono(T, T.st, [(1, n, self.P, n), (self.p, n, self.P, n)])
        self.me = self.p * n + self.t.t
        fact(T, T.st, 'identities', AND(self.me >= 0, self.me < self.P * n, n < 1 << 31))
        self.numa = PtrV(Region('raw', 'numaComm', None), 0)
        for k, x in dict(totalThreads=self.TT, threadId=self.t).items():
            const_contract(T, r'^numa::Numa(Comm)?::%s\(\) const$' % k, x)
        self.win = PtrV(Region('raw', 'window', None), 0)
        self.tag = T.int('tagOffset', 32, lo=0, hi=(1 << 31) - 1).t
        T.assume(self.tag + n < 1 << 31)
        if opened:
            for k, x in dict(m_comm=self.comm.p, m_window=self.win, m_numa=self.numa, m_tagOffset=self.tag).items():
                v.set(k, x)

    # ---- the queue
    def queue(self):
        T = self.T
        self.at = z3.Function('at', z3.IntSort(), z3.IntSort())
        self.pos = z3.Function('pos', z3.IntSort(), z3.IntSort())    # position of an identity in the queue
        self.lo, self.hi = z3.Int('lo'), z3.Int('hi')

    def member(self, i):
        """Invariant for queue position i."""
        return OR(i < self.lo, i >= self.hi, AND(self.at(i) >= 0, self.at(i) < self.P * self.n, EQ(self.pos(self.at(i)), i)))

    def word(self, lo, hi):
        return z3.If(lo == hi, z3.IntVal(-1), self.at(hi - 1))

    def call(self, st, what, rank, off, win):
        ex = self.ex
        ex.oblige(st, what + ': the lock word, in the window of the locks', AND(EQ2(ex.sv(st, rank), self.rank.t), EQ2(ex.sv(st, off), self.off.t), addr_of(win) and win.r is self.win.r), 'contract')

    def flush(self, result):
        """The result of an operation arrives with the flush."""
        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'flush: of the operation', AND(EQ2(ex.sv(st, a[0]), self.rank.t), addr_of(a[1]) and a[1].r is self.win.r, st.ghost['$pend'] is not None), 'contract')
            p = st.ghost['$pend']
            if p is not None:
                ex.store(st, p[0], IntV(64, p[1], -1, (1 << 31) - 1), INT(64))
            st.ghost['$pend'] = None
            return [(st, IntV(32, 0))]
        self.T.contract(r'^MPI_Win_flush(_local)?(_all)?$', c)

    def word_args(self):
        T = self.T
        self.rank, self.off = T.int('rank', 32, signed=True, lo=0), T.int('offset', 64, hi=(1 << 63) - 1)
        T.assume(self.rank.t < self.P)
        T.st.ghost['$pend'] = None
        T.st.ghost['$steps'] = 0


def local_cell(p):
    return addr_of(p) and bool(p.r.local) and isc(p.off)


@task('mpi::Mutex::acquire', ['C21', 'C11'], TU, C + r'acquire\(', defs=MPI)
def t_acquire(T):
    s = Lock(T)
    ex = T.ex
    s.word_args()
    s.queue()
    T.st.ghost['$ticket'] = None
    i = z3.Int('anyPosition')

    def fetch(ex, st, a, ins, dem):
        # int MPI_Fetch_and_op(origin, result, type, target, disp, op, win)
        s.call(st, 'append', a[3], a[4], a[6])
        ex.oblige(st, 'append: one number is replaced', AND(is_named(a[2], 'ompi_mpi_long'), is_named(a[5], 'ompi_mpi_op_replace'), local_cell(a[0]), local_cell(a[1]), a[0].r is not a[1].r), 'contract')
        ex.oblige(st, 'append: once', st.ghost['$steps'] == 0, 'contract')
        st.ghost['$steps'] = 1
        lo, hi = s.lo, s.hi
        # the queue as the steps of the other threads left it; this thread is not in it
        st.assume(AND(lo >= 0, lo <= hi, hi < 1 << 62, s.member(hi - 1), s.member(i), OR(i < lo, i >= hi, NOT(EQ(s.at(i), s.me)))))
        new = ex.sv(st, ex.load(st, a[0], INT(64)))
        ex.oblige(st, 'append: the identity of this thread', EQ2(new, s.me), 'contract')
        # step: at(hi) = this thread
        after = z3.If(i == hi, new, s.at(i))
        ex.oblige(st, 'the queue stays a queue of different threads', AND(new >= 0, new < s.P * s.n, OR(i < lo, i >= hi, NOT(EQ(s.at(i), new))),
                                                                        OR(i < lo, i > hi, AND(after >= 0, after < s.P * s.n))), 'lemma')
        st.ghost['$pend'] = (a[1], s.word(lo, hi))
        ex.store(st, a[1], IntV(64, fint('notYet'), -(1 << 63), (1 << 63) - 1), INT(64))
        st.ghost['$ticket'] = True
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Fetch_and_op$', fetch)
    s.flush(None)
    for st, ret in T.run([s.v.p, s.rank, s.off]):
        T.ensure(st, 'the thread is in the queue once', EQ2(st.ghost['$steps'], 1))
        T.ensure(st, 'the result is complete', st.ghost['$pend'] is None)
        r = ex.sv(st, ret)
        T.ensure(st, 'negative exactly if the thread is the first of the queue', EQ(mkb(r < 0), mkb(EQ(s.lo, s.hi))))
        T.ensure(st, 'otherwise the thread before it', OR(r < 0, EQ2(r, s.at(s.hi - 1))))
        T.frame(st, [])


@task('mpi::Mutex::wait', ['C21', 'C11'], TU, C + r'wait\(', defs=MPI)
def t_wait(T):
    s = Lock(T)
    ex = T.ex
    T.st.ghost['$sent'] = 0
    # the predecessor: thread u of process q
    q, u = T.int('otherProcess', 32, lo=0).t, T.int('otherThread', 32, lo=0).t
    old = T.int('old', 64, signed=True, lo=-(1 << 63))
    T.assume(q < s.P, u < s.n, OR(old.t < 0, EQ(old.t, q * s.n + u)))
    lemma_digit(T, T.st, [(q, u, s.P, s.n)])
    fact(T, T.st, 'identity of the predecessor', OR(old.t < 0, old.t < 1 << 31))
    Q, R = ex.divmod(T.st, old.t, s.n)
    lemma_div(T, T.st, [(Q, R, q, u, s.n)])
    fact(T, T.st, 'the identity determines process and thread', OR(old.t < 0, AND(EQ(Q, q), EQ(R, u))))

    def send(ex, st, a, ins, dem):
        ex.oblige(st, 'the message is sent to the predecessor', AND(EQ2(ex.sv(st, a[3]), q), EQ2(ex.sv(st, a[4]), s.tag + u), addr_of(a[5]) and a[5].r is s.comm.val('m_comm').r), 'contract')
        ex.oblige(st, 'only if the lock is taken', old.t >= 0, 'contract')
        ex.oblige(st, 'the message is empty', EQ2(ex.sv(st, a[1]), 0), 'contract')
        st.ghost['$sent'] = st.ghost['$sent'] + 1
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Ssend$', send)
    for st, ret in T.run([s.v.p, old]):
        T.ensure(st, 'waits for the predecessor exactly once, if there is one', EQ2(st.ghost['$sent'], ITE(old.t >= 0, 1, 0)))
        T.frame(st, [])


@task('mpi::Mutex::release', ['C21', 'C11'], TU, C + r'release\(', defs=MPI)
def t_release(T):
    s = Lock(T)
    ex = T.ex
    s.word_args()
    s.queue()
    T.st.ghost['$recvs'] = 0

    def cas(ex, st, a, ins, dem):
        # int MPI_Compare_and_swap(origin, compare, result, type, target, disp, win)
        s.call(st, 'free', a[4], a[5], a[6])
        ex.oblige(st, 'free: one number', AND(is_named(a[3], 'ompi_mpi_long'), *[local_cell(x) for x in a[:3]]), 'contract')
        ex.oblige(st, 'free: different variables', a[2].r is not a[0].r and a[2].r is not a[1].r, 'contract')
        ex.oblige(st, 'free: once', st.ghost['$steps'] == 0, 'contract')
        st.ghost['$steps'] = 1
        # this thread is the first; others may have been appended
        st.assume(AND(s.lo >= 0, s.lo < s.hi, s.hi < 1 << 62, EQ(s.at(s.lo), s.me), s.member(s.lo), s.member(s.hi - 1)))
        new, cmp_ = ex.sv(st, ex.load(st, a[0], INT(64))), ex.sv(st, ex.load(st, a[1], INT(64)))
        w = s.word(s.lo, s.hi)
        after = z3.If(mkb(EQ(w, cmp_)), z3.IntVal(new) if isinstance(new, int) else new, w)
        alone = EQ(s.hi, s.lo + 1)
        ex.oblige(st, 'the lock becomes free exactly if nobody waits', AND(EQ(mkb(after < 0), mkb(alone)), OR(alone, EQ2(after, w))), 'contract')
        ex.oblige(st, 'the word of the free lock', OR(NOT(alone), EQ2(after, -1)), 'contract')
        st.ghost['$pend'] = (a[2], w)
        ex.store(st, a[2], IntV(64, fint('notYet'), -(1 << 63), (1 << 63) - 1), INT(64))
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Compare_and_swap$', cas)
    s.flush(None)

    def recv(ex, st, a, ins, dem):
        ex.oblige(st, 'the message of the successor: own tag, any process', AND(EQ2(ex.sv(st, a[3]), -1), EQ2(ex.sv(st, a[4]), s.tag + s.t.t), addr_of(a[5]) and a[5].r is s.comm.val('m_comm').r), 'contract')
        ex.oblige(st, 'the lock is handed over only after the operation', AND(st.ghost['$steps'] == 1), 'contract')
        st.ghost['$recvs'] = st.ghost['$recvs'] + 1
        return [(st, IntV(32, 0))]
    T.contract(r'^MPI_Recv$', recv)
    for st, ret in T.run([s.v.p, s.rank, s.off]):
        T.ensure(st, 'the word is changed once', EQ2(st.ghost['$steps'], 1))
        T.ensure(st, 'the lock is handed to the successor exactly if there is one', EQ2(st.ghost['$recvs'], ITE(EQ(s.hi, s.lo + 1), 0, 1)))
        T.frame(st, [])


@task('mpi::Mutex::lockId (identities of threads differ)', ['C21'], TU, C + r'lockId\(', defs=MPI)
def t_lockid(T):
    s = Lock(T)
    th = T.int('anyThread', 32)
    T.assume(th.t >= 0, th.t < s.n)
    q, u = T.int('otherProcess', 32, lo=0).t, T.int('otherThread', 32, lo=0).t
    T.assume(q < s.P, u < s.n)
    lemma_digit(T, T.st, [(s.p, th.t, s.P, s.n), (q, u, s.P, s.n)])
    lemma_div(T, T.st, [(s.p, th.t, q, u, s.n)])
    for st, ret in T.run([s.v.p, th]):
        r = T.ex.sv(st, ret)
        T.ensure(st, 'not negative, within the threads of all processes', AND(r >= 0, r < s.P * s.n))
        T.ensure(st, 'no other thread has this identity', OR(NOT(EQ2(r, q * s.n + u)), AND(EQ(s.p, q), EQ(th.t, u))))
        T.frame(st, [])


@task('mpi::Mutex::init', ['C21', 'C11'], TU, C + r'init\(', defs=MPI)
def t_minit(T):
    s = Lock(T, opened=False)
    T.st.ghost['$res'] = 0

    def reserve(ex, st, a, ins, dem):
        ex.oblige(st, 'a tag for every thread, in the communicator of the grid', AND(addr_of(a[0]) and a[0].r is s.comm.p.r, ex.u(st, a[1]) >= s.n), 'contract')
        st.ghost['$res'] = st.ghost['$res'] + 1
        return [(st, IntV(32, s.tag, 0, (1 << 31) - 1))]
    T.contract(r'^mpi::MPIComm::reserveTags\(', reserve)
    for st, ret in T.run([s.v.p, s.comm.p, s.win, s.numa]):
        q = s.v.at(st)
        T.ensure(st, 'the tags are reserved once', EQ2(st.ghost['$res'], 1))
        T.ensure(st, 'the reserved tags are used', EQ2(q['m_tagOffset'], s.tag))
        for k, x in dict(m_comm=s.comm.p, m_window=s.win, m_numa=s.numa).items():
            T.ensure(st, 'window and communicator ' + k, addr_of(q.val(k)) and q.val(k).r is x.r)
        T.frame(st, [(s.v.p.r, None, None)])


@task('mpi::Mutex::initMutexMem', ['C21', 'C11'], TU, C + r'initMutexMem\(', defs=MPI)
def t_mem(T):
    v = T.obj('mpi::Mutex')
    w = T.cell('word', 8)
    for st, ret in T.run([v.p, w]):
        T.ensure(st, 'a lock is free at the beginning', EQ2(T.ex.sv(st, T.ex.load(st, w, INT(64))), -1))
        T.frame(st, [(w.r, 0, 8)])

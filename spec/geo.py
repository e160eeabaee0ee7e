"""Geometry of a blocked grid level: representation invariant and lemmas."""
from vcgen.api import *
from spec.common import *

POINTS = 1 << 44        # a grid has at most this many points (stated assumption)


def prod(xs):
    t = 1
    for x in xs:
        t = x if isc(t) and t == 1 else t * x
    return t


def lemma(T, st, name, vars, hyp, concl, inst):
    """A universally quantified fact: proved in an empty context, then instantiated."""
    key = '$lemma.' + name
    done = T.__dict__.setdefault('_lemmas', set())
    if key not in done:
        done.add(key)
        xs = [z3.Int(fname('l_' + v)) for v in vars]
        s0 = State()
        old = T.ex.fnstack, T.ex.record
        T.ex.fnstack, T.ex.record = ['lemma'], True
        T.ex.oblige(s0, 'lemma: ' + name, z3.Implies(mkb(hyp(*xs)), mkb(concl(*xs))), 'lemma', assume=False)
        T.ex.fnstack, T.ex.record = old
    for a in inst:
        st.assume(z3.Implies(mkb(hyp(*a)), mkb(concl(*a))))


def lemma_div(T, st, inst):
    """x = q*y + r determines q and r."""
    lemma(T, st, 'quotient and remainder are unique', ['q', 'r', 'Q', 'R', 'y'],
          lambda q, r, Q, R, y: AND(y > 0, r >= 0, r < y, R >= 0, R < y, EQ(q * y + r, Q * y + R)),
          lambda q, r, Q, R, y: AND(EQ(q, Q), EQ(r, R)), inst)


def lemma_digit(T, st, inst):
    """(q < n, r < y) => q*y + r < n*y"""
    lemma(T, st, 'mixed radix bound', ['q', 'r', 'n', 'y'],
          lambda q, r, n, y: AND(q >= 0, q < n, r >= 0, r < y), lambda q, r, n, y: AND(q * y + r < n * y, q * y + r >= 0), inst)


def lemma_mono(T, st, inst):
    lemma(T, st, 'products grow', ['a', 'b', 'A', 'B'],
          lambda a, b, A, Bb: AND(a >= 0, b >= 0, a <= A, b <= Bb), lambda a, b, A, Bb: AND(a * b <= A * Bb, a * b >= 0), inst)


def fact(T, st, name, f):
    """An intermediate assertion."""
    old = T.ex.fnstack
    T.ex.fnstack = ['lemma']
    T.ex.oblige(st, name, f, 'lemma', assume=True)
    T.ex.fnstack = old


class Level:
    """A level object with n dimensions that fulfils the invariant set up by open."""

    def __init__(self, T, n, cls='grid::level::Blocked<VerifType>', blocks=True, comm=True):
        self.T, self.n = T, n
        v = self.v = T.obj(cls)
        v.set('m_dims', n)
        self.size = [v['m_size[%d]' % i] for i in range(n)]
        for s in self.size:
            T.assume(s >= 1, s <= POINTS)
        if n > 1:
            for k in range(2, n + 1):
                T.assume(prod(self.size[:k]) <= POINTS)
        if comm:
            self.comm()
        if blocks:
            self.blocked()

    def comm(self):
        """P processes, this one is rank p; D domains, this one is d."""
        T, v = self.T, self.v
        nm = self.nm = Numa(T)
        c = T.obj('mpi::MPIComm', 'comm')
        v.set('m_mpiComm', c.p)
        self.c = c
        self.P, self.p, self.D, self.d = c['m_size'], c['m_rank'], nm.D.t, v['m_numaDomainId']
        T.assume(self.P >= 1, self.p >= 0, self.p < self.P, EQ(self.d, nm.d.t), self.P * self.D < 1 << 31)

    def blocked(self):
        T, v, n = self.T, self.v, self.n
        self.bs = [v['m_blockSize[%d]' % i] for i in range(n)]
        self.nb = [v['m_blocks[%d]' % i] for i in range(n)]
        T.assume(blocked_inv(n, self.size, self.bs, self.nb, v['m_totalBlockSize'], v['m_totalBlocks']))
        self.total, self.tbs = v['m_totalBlocks'], v['m_totalBlockSize']
        for k in range(2, n + 1):
            lemma_mono(T, T.st, [(prod(self.bs[:k - 1]), self.bs[k - 1], prod(self.size[:k - 1]), self.size[k - 1]),
                                 (prod(self.nb[:k - 1]), self.nb[k - 1], prod(self.size[:k - 1]), self.size[k - 1])])
            fact(T, T.st, 'block counts and sizes are bounded by the grid', AND(prod(self.bs[:k]) <= POINTS, prod(self.nb[:k]) <= POINTS,
                                                                       prod(self.bs[:k]) >= 1, prod(self.nb[:k]) >= 1))

    def local(self, st, C):
        """L blocks per domain: L*D*P >= total > (L-1)*D*P"""
        pass

    def index(self, name='index'):
        """A grid point."""
        T, n = self.T, self.n
        r = Region('cell', name, 32, layout={8 * i: [(8, ('i', 8, False), '')] for i in range(4)})
        ix = []
        for i in range(n):
            t = z3.Int('%s%d' % (name, i))
            T.assume(t >= 0, t < self.size[i])
            T.ex.put(T.st, r, 8 * i, 8, IntV(64, t, 0, (1 << 64) - 1))
            ix.append(t)
        return PtrV(r, 0), ix

    def split(self, ix):
        """Block and position inside of the block, per dimension."""
        T = self.T
        qs, rs = [], []
        for i in range(self.n):
            q, r = T.ex.divmod(T.st, ix[i], self.bs[i])
            fact(T, T.st, 'the block exists in dimension %d' % i, AND(q >= 0, q < self.nb[i], r >= 0, r < self.bs[i], EQ(ix[i], q * self.bs[i] + r)))
            qs.append(q)
            rs.append(r)
        return qs, rs


def blocked_inv(n, size, bs, nb, tbs, total):
    """Established by Blocked::open (C03)."""
    fs = []
    for i in range(n):
        fs += [bs[i] >= 1, bs[i] <= size[i], nb[i] >= 1, nb[i] <= size[i], nb[i] * bs[i] >= size[i], (nb[i] - 1) * bs[i] < size[i]]
    fs += [EQ(tbs, prod(bs)), EQ(total, prod(nb))]
    return AND(*fs)


def rdarr(T, st, p, n, off=0):
    rec, T.ex.record = T.ex.record, False
    e = [T.ex.u(st, T.ex.load(st, PtrV(p.r, p.off + off + 8 * i), INT(64))) for i in range(n)]
    T.ex.record = rec
    return e

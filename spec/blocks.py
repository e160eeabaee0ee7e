"""Block geometry and ownership (Blocked)."""
from vcgen.api import *
from spec.common import *
from spec.geo import *

TU = 'level'
C = r'^grid::level::Blocked<VerifType>::'


def reg_dims(n):
    sfx = ' (%d dimensions)' % n

    @task('Blocked::blockByCoords / calcBlockPosition' + sfx, ['C04'], TU, r'^lemmaPosition\(', defs=('mpi',))
    def t_pos(T):
        L = Level(T, n)
        p, ix = L.index()
        pos = PtrV(Region('cell', 'pos', 32, layout={8 * i: [(8, ('i', 8, False), '')] for i in range(4)}), 0)
        qs, rs = L.split(ix)
        radix(T, T.st, qs, L.nb)
        for st, ret in T.run([L.v.p, p, pos]):
            f = rdarr(T, st, pos, n)
            T.ensure(st, 'the position of the block of a grid point is the one that contains the point', AND(*[EQ(f[i], qs[i]) for i in range(n)]))
            T.frame(st, [(pos.r, 0, 8 * n)])

    @task('Blocked::calcBlockPosition / blockByCoords' + sfx, ['C04'], TU, r'^lemmaById\(', defs=('mpi',))
    def t_byid(T):
        L = Level(T, n)
        pos = outarr('pos')
        i = T.int('id')
        T.assume(i.t < L.total)
        # digits of the block number
        x, qs = i.t, [None] * n
        for k in range(n - 1, 0, -1):
            x, qs[k] = T.ex.divmod(T.st, x, L.nb[k])
            fact(T, T.st, 'leading digits %d' % k, AND(x >= 0, x < prod(L.nb[:k])))
        qs[0] = x
        if n > 0:
            T.ex.divmod(T.st, x, L.nb[0])
        for k in range(n):
            lemma_mono(T, T.st, [(qs[k], L.bs[k], L.nb[k] - 1, L.bs[k])])
            fact(T, T.st, 'the block begins inside of the grid', AND(qs[k] >= 0, qs[k] < L.nb[k], qs[k] * L.bs[k] < L.size[k], qs[k] * L.bs[k] >= 0))
        for st, ret in T.run([L.v.p, i, pos]):
            f = rdarr(T, st, pos, n)
            T.ensure(st, 'the block at the calculated position has the given number', EQ2(T.ex.u(st, ret), i.t))
            T.ensure(st, 'the block begins inside of the grid', AND(*[f[k] < L.size[k] for k in range(n)]))
            T.ensure(st, 'the position is the one of the block', AND(*[EQ(f[k], qs[k] * L.bs[k]) for k in range(n)]))

    @task('Blocked::blockByCoords' + sfx, ['C04'], TU, C + r'blockByCoords\(', defs=('mpi',))
    def t_by(T):
        L = Level(T, n)
        p, ix = L.index()
        qs, rs = L.split(ix)
        t = radix(T, T.st, qs, L.nb)
        for st, ret in T.run([L.v.p, p]):
            T.ensure(st, 'row-major number of the block', EQ2(T.ex.u(st, ret), t))
            T.ensure(st, 'the block exists', T.ex.u(st, ret) < L.total)
            T.frame(st, [])

    @task('Blocked::calcOffsetInBlock' + sfx, ['C04'], TU, C + r'calcOffsetInBlock\(', defs=('mpi',))
    def t_off(T):
        L = Level(T, n)
        p, ix = L.index()
        qs, rs = L.split(ix)
        t = radix(T, T.st, rs, L.bs)
        for st, ret in T.run([L.v.p, p]):
            T.ensure(st, 'row-major position inside of the block', EQ2(T.ex.u(st, ret), t))
            T.ensure(st, 'inside of the block', T.ex.u(st, ret) < L.tbs)
            T.frame(st, [])

    @task('Blocked::calcOffsetInBlock is one-to-one' + sfx, ['C04'], TU, r'^lemmaOffset\(', defs=('mpi',))
    def t_off2(T):
        L = Level(T, n)
        p, ix = L.index()
        p2, ix2 = L.index('other')
        qs, rs = L.split(ix)
        qs2, rs2 = L.split(ix2)
        radix(T, T.st, rs, L.bs)
        radix(T, T.st, rs2, L.bs)
        off2 = T.cell('off2', 8)
        for st, ret in T.run([L.v.p, p, p2, off2]):
            st.assume(AND(*[EQ(a, b) for a, b in zip(qs, qs2)]))
            st.assume(EQ2(T.ex.u(st, ret), T.ex.u(st, T.ex.load(st, off2, INT(64)))))
            unique(T, st, rs, rs2, L.bs)
            T.ensure(st, 'two grid points of a block have different places', AND(*[EQ(a, b) for a, b in zip(ix, ix2)]))


def outarr(name):
    return PtrV(Region('cell', name, 32, layout={8 * i: [(8, ('i', 8, False), '')] for i in range(4)}), 0)


def radix(T, st, q, b):
    """The mixed radix number of the digits q; all partial sums are in range."""
    t = q[0]
    for i in range(1, len(q)):
        lemma_digit(T, st, [(t, q[i], prod(b[:i]), b[i])])
        t = t * b[i] + q[i]
        fact(T, st, 'number of the first %d digits is in range' % (i + 1), AND(t >= 0, t < prod(b[:i + 1])))
        fact(T, st, 'no overflow', AND(t < POINTS, t - q[i] >= 0))
    return t


def unique(T, st, q, Q, b):
    """Equal numbers have equal digits."""
    ts, Ts = [q[0]], [Q[0]]
    for i in range(1, len(q)):
        ts.append(ts[-1] * b[i] + q[i])
        Ts.append(Ts[-1] * b[i] + Q[i])
    for i in range(len(q) - 1, 0, -1):
        lemma_div(T, st, [(ts[i - 1], q[i], Ts[i - 1], Q[i], b[i])])
        fact(T, st, 'digit %d is the same' % i, AND(EQ(q[i], Q[i]), EQ(ts[i - 1], Ts[i - 1])))


for _n in range(1, 5):
    reg_dims(_n)


class Own(Level):
    """Blocks distributed over P processes with D domains each: L blocks per domain."""

    def __init__(self, T):
        Level.__init__(self, T, 1, blocks=False)
        v = self.v
        self.total = v['m_totalBlocks']
        T.assume(self.total >= 1, self.total <= POINTS)
        self.C = self.P * self.D
        self.L, self.R = T.ex.divmod(T.st, self.total + self.C - 1, self.C)
        fact(T, T.st, 'blocks per domain', AND(self.L >= 1, self.L * self.C >= self.total, (self.L - 1) * self.C < self.total))
        lemma_mono(T, T.st, [(1, self.P, self.D, self.P), (1, self.D, self.P, self.D)])
        fact(T, T.st, 'room for all blocks', AND(self.L <= POINTS, self.L * self.C < 2 * POINTS, self.L * self.D <= self.L * self.C, self.L * self.D >= 1))


def reg_own(rr):
    defs = ('mpi',) + (('-DROUND_ROBIN',) if rr else ())
    sfx = ' (round robin)' if rr else ' (contiguous)'

    @task('Blocked::localBlockCount' + sfx, ['C04'], TU, C + r'localBlockCount\(\) const', defs=defs)
    def t_lbc(T):
        o = Own(T)
        for st, ret in T.run([o.v.p]):
            T.ensure(st, 'enough room for all blocks, rounded up', EQ2(T.ex.u(st, ret), o.L))
            T.frame(st, [])

    @task('Blocked::nodeBlockCount' + sfx, ['C04'], TU, C + r'nodeBlockCount\(\) const', defs=defs)
    def t_nbc(T):
        o = Own(T)
        for st, ret in T.run([o.v.p]):
            T.ensure(st, 'blocks of all domains of a process', EQ2(T.ex.u(st, ret), o.L * o.D))
            T.frame(st, [])

    @task('owner of a block' + sfx, ['C04'], TU, r'^lemmaBlock\(', defs=defs)
    def t_block(T):
        o = Own(T)
        i = T.int('id')
        T.assume(i.t < o.total)
        if not rr:
            q, r = T.ex.divmod(T.st, i.t, o.L)
            h, d = T.ex.divmod(T.st, q, o.D)
            g, x = T.ex.divmod(T.st, i.t, o.L * o.D)
            lemma_digit(T, T.st, [(d, r, o.D, o.L)])
            lemma_div(T, T.st, [(g, x, h, d * o.L + r, o.L * o.D)])
            fact(T, T.st, 'process of the block', EQ(g, h))
        rank, dom, node, off = T.cell('rank', 4, signed=True), T.cell('domain', 4), T.cell('node', 8), T.cell('off', 8)
        for st, ret in T.run([o.v.p, i, rank, dom, node, off]):
            r = T.ex.sv(st, T.ex.load(st, rank, INT(32)))
            d = T.ex.u(st, T.ex.load(st, dom, INT(32)))
            nd = T.ex.u(st, T.ex.load(st, node, INT(64)))
            of = T.ex.u(st, T.ex.load(st, off, INT(64)))
            T.ensure(st, 'the owning process exists', AND(r >= 0, r < o.P))
            T.ensure(st, 'the owning domain exists', AND(d >= 0, d < o.D))
            T.ensure(st, 'the slot exists', AND(of >= 0, of < o.L))
            T.ensure(st, 'position in the memory of the process', EQ2(nd, of + d * o.L))
            # if this process and domain is the owner, its own numbering leads back to the block
            st.assume(AND(EQ(r, o.p), EQ(d, o.d)))
            T.ensure(st, 'the owner numbers the slot back to the same block', EQ2(T.ex.u(st, ret), i.t))

    @task('blocks of a domain' + sfx, ['C04'], TU, r'^lemmaOwner\(', defs=defs)
    def t_owner(T):
        o = Own(T)
        l = T.int('local')
        T.assume(l.t < o.L)
        gid = (l.t * o.D + o.d) * o.P + o.p if rr else l.t + (o.d + o.p * o.D) * o.L
        if rr:
            lemma_digit(T, T.st, [(l.t, o.d, o.L, o.D), (l.t * o.D + o.d, o.p, o.L * o.D, o.P)])
        else:
            lemma_digit(T, T.st, [(o.p, o.d, o.P, o.D), (o.d + o.p * o.D, l.t, o.P * o.D, o.L)])
        fact(T, T.st, 'number of the block', AND(gid >= 0, gid < 2 * POINTS))
        rank, dom, node = T.cell('rank', 4, signed=True), T.cell('domain', 4), T.cell('node', 8)
        # blocks past the end of the grid are not loaded; the lemma holds for existing blocks
        T.assume(gid < o.total)
        for st, ret in T.run([o.v.p, l, rank, dom, node]):
            r = T.ex.sv(st, T.ex.load(st, rank, INT(32)))
            d = T.ex.u(st, T.ex.load(st, dom, INT(32)))
            nd = T.ex.u(st, T.ex.load(st, node, INT(64)))
            T.ensure(st, 'the block belongs to this process', EQ(r, o.p))
            T.ensure(st, 'the block belongs to this domain', EQ(d, o.d))
            T.ensure(st, 'the block belongs to this slot', EQ2(T.ex.u(st, ret), l.t))
            T.ensure(st, 'position in the memory of the process', EQ2(nd, l.t + o.d * o.L))

    @task('Blocked::local2global past the end' + sfx, ['C04'], TU, C + r'local2global', defs=defs)
    def t_l2g(T):
        o = Own(T)
        l = T.int('local')
        T.assume(l.t < o.L)
        gid = (l.t * o.D + o.d) * o.P + o.p if rr else l.t + (o.d + o.p * o.D) * o.L
        if rr:
            lemma_digit(T, T.st, [(l.t, o.d, o.L, o.D), (l.t * o.D + o.d, o.p, o.L * o.D, o.P)])
        else:
            lemma_digit(T, T.st, [(o.p, o.d, o.P, o.D), (o.d + o.p * o.D, l.t, o.P * o.D, o.L)])
        fact(T, T.st, 'number of the block', AND(gid >= 0, gid < 2 * POINTS))
        # another slot
        l2 = z3.Int('later')
        T.assume(l2 > l.t, l2 < o.L)
        gid2 = (l2 * o.D + o.d) * o.P + o.p if rr else l2 + (o.d + o.p * o.D) * o.L
        if rr:
            lemma_mono(T, T.st, [(l.t + 1, o.D, l2, o.D), (l.t * o.D + o.d + 1, o.P, l2 * o.D + o.d, o.P)])
        for st, ret in T.run([o.v.p, l]):
            T.ensure(st, 'number of the block', EQ2(T.ex.u(st, ret), gid))
            T.ensure(st, 'the blocks of a domain are numbered in increasing order', T.ex.u(st, ret) < gid2)
            T.frame(st, [])


reg_own(False)
reg_own(True)

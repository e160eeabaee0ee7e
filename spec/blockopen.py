"""Blocked::open: block sizes and number of blocks."""
from vcgen.api import *
from spec.common import *
from spec.geo import *

TU = 'level'
C = r'^grid::level::Blocked<VerifType>::'


def level_open(T, v, n):
    """Contract of Level::open (C02): on success the level has n dimensions of at least one point."""
    def c(ex, st, a, ins, dem):
        s2 = st.fork()
        e = fint('err')
        s2.assume(AND(e >= 1, e <= 20))
        s2.ghost['$err'] = e
        w = v.at(st)
        w.set('m_dims', n)
        size = [w['m_size[%d]' % i] for i in range(n)]
        return [(s2, IntV(32, e, 1, 20)), (st, IntV(32, 0))]
    T.contract(r'^grid::level::Level<VerifType>::open\(', c)


def reg(n):
    sfx = ' (%d dimensions)' % n

    @task('Blocked::open' + sfx, ['C03'], TU, C + r'open\(', defs=('mpi',))
    def t_open(T):
        v = T.obj('grid::level::Blocked<VerifType>')
        size = [v['m_size[%d]' % i] for i in range(n)]
        for s in size:
            T.assume(s >= 1, s <= POINTS)
        for k in range(2, n + 1):
            T.assume(prod(size[:k]) <= POINTS)
        level_open(T, v, n)
        req = []
        r = Region('cell', 'blockSize', 16, layout={4 * i: [(4, ('i', 4, True), '')] for i in range(4)})
        for i in range(n):
            t = z3.Int('request%d' % i)
            T.assume(t >= -(1 << 31), t < 1 << 31)
            T.ex.put(T.st, r, 4 * i, 4, IntV(32, t, -(1 << 31), (1 << 31) - 1))
            req.append(t)
        td = T.int('timeDimension', 32, signed=True)
        comm = T.obj('mpi::MPIComm', 'comm')
        v.set('m_mpiComm', comm.p)
        want = []
        for i in range(n):
            c = n - 1 - i
            w = ITE(req[c] < 0, size[i], ITE(EQ(req[c], 0), ITE(EQ(td.t, c), 1, 64), req[c]))
            want.append(ITE(w > size[i], size[i], w))
        # ghost: the expected sizes and counts and their products
        bs = [z3.Int('bs%d' % i) for i in range(n)]
        nb = []
        for i in range(n):
            T.assume(EQ(bs[i], want[i]))
            q, _ = T.ex.divmod(T.st, size[i] + bs[i] - 1, bs[i])
            nb.append(q)
            fact(T, T.st, 'number of blocks %d' % i, AND(bs[i] >= 1, bs[i] <= size[i], q >= 1, q <= size[i], q * bs[i] >= size[i], (q - 1) * bs[i] < size[i]))
        for k in range(2, n + 1):
            lemma_mono(T, T.st, [(prod(bs[:k - 1]), bs[k - 1], prod(size[:k - 1]), size[k - 1]),
                                 (prod(nb[:k - 1]), nb[k - 1], prod(size[:k - 1]), size[k - 1])])
            fact(T, T.st, 'products %d' % k, AND(prod(bs[:k]) <= POINTS, prod(nb[:k]) <= POINTS, prod(bs[:k]) >= 1, prod(nb[:k]) >= 1))
        args = [v.p, PtrV(None, 0), PtrV(None, 0), PtrV(r, 0), td, IntV(32, T.int('vp', 32, lo=0, hi=1).t, 0, 1)]
        for st, ret in T.run(args):
            if '$err' in st.ghost:
                T.ensure(st, 'errors are reported', EQ2(T.ex.u(st, ret), st.ghost['$err']))
                continue
            q = v.at(st)
            T.ensure(st, 'success', EQ2(T.ex.u(st, ret), 0))
            for i in range(n):
                T.ensure(st, 'block size of dimension %d' % (n - 1 - i), EQ2(q['m_blockSize[%d]' % i], bs[i]))
                T.ensure(st, 'number of blocks in dimension %d' % (n - 1 - i), EQ2(q['m_blocks[%d]' % i], nb[i]))
            T.ensure(st, 'total block size', EQ2(q['m_totalBlockSize'], prod(bs)))
            T.ensure(st, 'total number of blocks', EQ2(q['m_totalBlocks'], prod(nb)))
            T.ensure(st, 'invariant of the block geometry', blocked_inv(n, size, bs, nb, q['m_totalBlockSize'], q['m_totalBlocks']))
            T.frame(st, [(v.p.r, v.loc('m_dims')[0], 4), (v.p.r, v.loc('m_blocks')[0], 8 * n), (v.p.r, v.loc('m_blockSize')[0], 8 * n),
                         (v.p.r, v.loc('m_totalBlocks')[0], 8), (v.p.r, v.loc('m_totalBlockSize')[0], 8)])


for _n in range(1, 5):
    reg(_n)

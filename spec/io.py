"""NetCdfReader: reading blocks (C12), opening files (C14)."""
from vcgen.api import *
from vcgen.sym import pdiv_mono, poly, unpoly
from vcgen.exec import mki
from spec.common import *
from spec.geo import *

TU = 'io'
R = r'^(void )?io::NetCdfReader::'
ELEMS = 1 << 44


def lin(p, ext):
    """Row-major position of p in a box."""
    t = p[0]
    for i in range(1, len(p)):
        t = t * ext[i] + p[i]
    return t


def nums(T, name, n, signed=False, lo=None, hi=None):
    """An array of n integers as a function parameter."""
    r = Region('cell', name, 8 * n, layout={8 * i: [(8, ('i', 8, signed), '')] for i in range(n)})
    ts = []
    for i in range(n):
        v = T.int('%s%d' % (name, i), 64, signed=signed, lo=lo, hi=hi)
        T.ex.put(T.st, r, 8 * i, 8, v)
        ts.append(v.t)
    return PtrV(r, 0), ts


def local(st, name):
    for k in (name, name + '.addr'):
        if k in st.regs and isinstance(st.regs[k], PtrV):
            return st.regs[k]
    raise Unsupported('no variable ' + name)


def rd(ex, st, p, off=0, signed=True):
    rec, ex.record = ex.record, False
    v = ex.load(st, PtrV(p.r, p.off + off), INT(64))
    ex.record = rec
    return ex.sv(st, v) if signed else ex.u(st, v)


# --------------------------------------------------------- getVar<void>
class Box:
    """A block of a file (extents sz) inside of a full block (extents bs): weights of the dimensions, positions."""

    def __init__(self, T, n, sz, bs):
        self.T, self.n, self.sz, self.bs = T, n, sz, bs
        self.W = self.weights('fileWeight', sz)      # W[i]: elements of one step in dimension i-1 ... (W[n] = 1)
        self.w = self.weights('blockWeight', bs)
        T.assume(self.w[0] <= ELEMS)
        for i in range(n, 0, -1):
            lemma(T, T.st, 'weights', ['W', 'w', 's', 't'], lambda W, w, s, t: AND(W >= 1, W <= w, s >= 1, s <= t),
                  lambda W, w, s, t: AND(s * W >= W, t * w >= w, s * W <= t * w, s * W >= s, t * w >= t), [(self.W[i], self.w[i], sz[i - 1], bs[i - 1])])
        fact(T, T.st, 'weights are bounded by the number of elements', AND(*[AND(self.W[i] >= 1, self.W[i] <= self.w[i], self.w[i] <= ELEMS) for i in range(n + 1)]))

    def weights(self, nm, ext):
        T, n = self.T, self.n
        w = [z3.Int('%s%d' % (nm, i)) for i in range(n)] + [1]
        for i in range(n):
            T.assume(EQ(w[i], ext[i] * w[i + 1]))
        return w

    def place(self, st, q):
        """Positions of q by trailing dimensions: in the file block and in the block."""
        T, n = self.T, self.n
        A, a = [None] * n + [0], [None] * n + [0]
        for i in range(n - 1, -1, -1):
            A[i], a[i] = z3.Int(fname('inFile')), z3.Int(fname('inBlock'))
            st.assume(EQ(A[i], q[i] * self.W[i + 1] + A[i + 1]))
            st.assume(EQ(a[i], q[i] * self.w[i + 1] + a[i + 1]))
            lemma(T, st, 'positions are in the block', ['A', 'a', 'W', 'w', 'x', 's', 't'],
                  lambda A, a, W, w, x, s, t: AND(A >= 0, A <= a, A < W, a < w, W <= w, x >= 0, x < s, s <= t),
                  lambda A, a, W, w, x, s, t: AND(x * W + A >= 0, x * W + A <= x * w + a, x * W + A < s * W, x * w + a < t * w),
                  [(A[i + 1], a[i + 1], self.W[i + 1], self.w[i + 1], q[i], self.sz[i], self.bs[i])])
        return A, a

    def order(self, st, q, Q, p, P):
        """The order of positions in the file block and in the block is the same; a prefix of the file block that is in place."""
        T = self.T

        def rel(A, a, B, b, W, w):
            return AND(A >= 0, B >= 0, A < W, B < W, a < w, b < w, W >= 1, W <= w, A <= a, B <= b, OR(NOT(A < B), a < b), OR(NOT(EQ(A, B)), EQ(a, b)),
                       OR(NOT(EQ(W, w)), AND(EQ(A, a), EQ(B, b))), OR(NOT(AND(EQ(A, a), B <= A)), EQ(B, b)))
        (A, a), (B, b) = Q, P
        for i in range(self.n - 1, -1, -1):
            lemma(T, st, 'order of positions', ['A', 'a', 'B', 'b', 'W', 'w', 'x', 'y', 's', 't'],
                  lambda A, a, B, b, W, w, x, y, s, t: AND(rel(A, a, B, b, W, w), x >= 0, x < s, y >= 0, y < s, s <= t),
                  lambda A, a, B, b, W, w, x, y, s, t: rel(x * W + A, x * w + a, y * W + B, y * w + b, s * W, t * w),
                  [(A[i + 1], a[i + 1], B[i + 1], b[i + 1], self.W[i + 1], self.w[i + 1], q[i], p[i], self.sz[i], self.bs[i])])

    def corner(self):
        """The last position, computed from the first dimension on; number of elements of the file block."""
        T, n, sz, bs = self.T, self.n, self.sz, self.bs
        q = [x - 1 for x in sz]
        Q = self.place(T.st, q)
        H, P, N = sz[0] - 1, sz[0], bs[0]
        T.ex.name_term(P, P)
        for i in range(1, n):
            H1, P1, N1 = z3.Int('corner%d' % i), z3.Int('count%d' % i), z3.Int('prefix%d' % i)
            T.assume(EQ(H1, H * bs[i] + sz[i] - 1), EQ(P1, P * sz[i]), EQ(N1, N * bs[i]))
            T.ex.name_term(H1, H * bs[i] + sz[i] - 1)
            T.ex.name_term(P1, P * sz[i])
            lemma(T, T.st, 'Horner', ['H', 'b', 's', 'w', 'W'], lambda H, b, s, w, W: EQ(W, b * w), lambda H, b, s, w, W: EQ((H * b + s - 1) * w, H * W + s * w - w),
                  [(H, bs[i], sz[i], lit(self.w[i + 1]), lit(self.w[i]))])
            lemma(T, T.st, 'count', ['P', 's', 'w', 'W'], lambda P, s, w, W: EQ(W, s * w), lambda P, s, w, W: EQ((P * s) * w, P * W),
                  [(P, sz[i], lit(self.W[i + 1]), lit(self.W[i]))])
            lemma(T, T.st, 'count of the block', ['P', 's', 'w', 'W'], lambda P, s, w, W: EQ(W, s * w), lambda P, s, w, W: EQ((P * s) * w, P * W),
                  [(N, bs[i], lit(self.w[i + 1]), lit(self.w[i]))])
            lemma(T, T.st, 'prefix bounds', ['H', 'P', 'N', 's', 'b'], lambda H, P, N, s, b: AND(H >= 0, H < N, P <= N, P >= 1, s >= 1, s <= b),
                  lambda H, P, N, s, b: AND(H * b + s - 1 >= 0, H * b + s - 1 < N * b, P * s <= N * b, P * s >= 1), [(H, P, N, sz[i], bs[i])])
            lemma(T, T.st, 'factors', ['N', 'w'], lambda N, w: AND(N >= 1, w >= 1), lambda N, w: AND(N * w >= N), [(N1, lit(self.w[i + 1]))])
            H, P, N = H1, P1, N1
            fact(T, T.st, 'prefix counts are bounded', AND(N <= ELEMS, N >= 1, P >= 1, P <= N, H >= 0, H < N))
        fact(T, T.st, 'the last position', AND(EQ(H, Q[1][0]), EQ(P - 1, Q[0][0])))


def reg_void(n):
    @task('NetCdfReader::getVar<void> (%d dimensions)' % n, ['C12'], TU, R + r'getVar<void>\(', defs=('mpi',))
    def t_void(T):
        ex = T.ex
        v = T.obj('io::NetCdfReader', 'reader')
        v.set('m_dimensions', n)
        off, offs = nums(T, 'offset', n, hi=ELEMS)
        size, sz = nums(T, 'size', n, lo=1, hi=ELEMS)
        block, bs = nums(T, 'blockSize', n, lo=1, hi=ELEMS)
        vs = T.int('varSize', 64, lo=1, hi=1 << 31)
        v.set('m_varSize', vs)
        for i in range(n):
            T.assume(sz[i] <= bs[i])
        box = Box(T, n, sz, bs)
        total = box.w[0]
        T.assume(total * vs.t <= MAXOBJ)
        imap = PtrV(Region('cell', 'imap', 8 * n, layout={8 * i: [(8, ('i', 8, True), '')] for i in range(n)}), 0)
        for i in range(n):
            ex.put(T.st, imap.r, 8 * i, 8, IntV(64, box.w[i + 1], 1, ELEMS))
        # the buffer: elements of vs bytes with contents E
        buf = Region('raw', 'buffer', None)
        T.st.ghost['E'] = z3.Const('E0', z3.ArraySort(I, I))
        # an arbitrary position of the file block and its value
        p = [z3.Int('p%d' % i) for i in range(n)]
        for i in range(n):
            T.assume(p[i] >= 0, p[i] < sz[i])
        V = z3.Int('value')
        P = box.place(T.st, p)
        kp, bp = P[0][0], P[1][0]
        fact(T, T.st, 'the position is in the block', AND(kp >= 0, kp <= bp, bp < total))
        box.corner()

        def elem(st, q, what):
            if q.r is not buf:
                raise Unsupported('copy of something else')
            i, rest = divide(q.off, vs.t)
            if rest:
                raise Unsupported('element')
            ex.oblige(st, '%s is an element of the block' % what, AND(i >= 0, i < total), 'bounds')
            return i

        def copy(ex_, st, d, s, nb):
            if not (isinstance(d, PtrV) and d.r is buf) and not (isinstance(s, PtrV) and s.r is buf):
                return False
            ex.oblige(st, 'one element is copied', EQ2(nb, vs.t), 'contract')
            di, si = elem(st, d, 'the target'), elem(st, s, 'the source')
            ex.oblige(st, 'the copied elements do not overlap', AND(di != si), 'contract')
            E = st.ghost['E']
            st.ghost['E'] = z3.Store(E, mki(di), z3.Select(E, mki(si)))
            return True
        ex.memcpy_hooks.append(copy)

        def c_vara(ex, st, a, ins, dem):
            ex.oblige(st, 'the open variable is read', AND(EQ2(ex.sv(st, a[0]), v['m_file']), EQ2(ex.sv(st, a[1]), v['m_variable'])), 'contract')
            for i in range(n):
                ex.oblige(st, 'the block is read (dimension %d)' % i, AND(EQ2(rd(ex, st, a[2], 8 * i, False), offs[i]), EQ2(rd(ex, st, a[3], 8 * i, False), sz[i])), 'contract')
            ex.oblige(st, 'into the buffer', AND(a[4].r is buf, EQ2(a[4].off, 0)), 'contract')
            E = z3.Const(fname('E'), z3.ArraySort(I, I))
            st.ghost['E'] = E
            st.assume(z3.Select(E, kp) == V)      # row-major; for the arbitrary position p
            return [(st, IntV(32, 0))]
        T.contract(r'^nc_get_vara(_\w+)?$', c_vara)

        def hook(ex_, f, hdr, st, h, xs):
            if not ex.only_hooks(f, hdr, st):
                return []
            iF, iB, pos = local(st, 'indexFile'), local(st, 'indexBuf'), local(st, 'pos')
            ex.merge_on = False
            out = []

            def get(s):
                q = [rd(ex, s, pos, 8 * i) for i in range(n)]
                return rd(ex, s, iF), rd(ex, s, iB, 0, False), q

            def inv(name, fn):
                def g(s):
                    F, Bu, q = get(s)
                    return z3.Implies(mkb(F >= 0), mkb(fn(s, F, Bu, q)))
                out.append((name, g))
            inv('digits are in range', lambda s, F, Bu, q: AND(*[AND(q[i] >= 0, q[i] < sz[i]) for i in range(n)]))
            inv('position in the file', lambda s, F, Bu, q: EQ(F, sum(q[i] * box.W[i + 1] for i in range(n))))
            inv('position in the block', lambda s, F, Bu, q: EQ(Bu, sum(q[i] * box.w[i + 1] for i in range(n))))
            out.append(('positions below are still unmapped', lambda s: z3.Implies(mkb(AND(kp <= rd(ex, s, iF))), z3.Select(s.ghost['E'], kp) == V)))

            def above(s):
                F, Bu, q = get(s)
                if not any(isc(x) for x in q) and s is not st:
                    Q = box.place(s, q)
                    box.order(s, q, Q, p, P)
                    for x in (F, Bu):
                        lemma(T, s, 'bytes of an element', ['i', 'n', 's'], lambda i, n, s: AND(i >= 0, i < n, s >= 1),
                              lambda i, n, s: AND(i * s >= 0, i * s + s <= n * s), [(x, total, vs.t)])
                return z3.Implies(mkb(AND(kp > F)), z3.Select(s.ghost['E'], bp) == V)
            out.append(('positions above are mapped', above))
            return out
        ex.loop_hooks.append(hook)
        T.solver.quick = 4000
        ex.only_hooks = lambda f, hdr, st: ex.loop_calls(f, hdr, r'^llvm.mem(cpy|move)|^mem(cpy|move)$')
        for st, ret in T.run([v.p, off, size, block, imap, PtrV(buf, 0)]):
            T.ensure(st, 'the value is at its position in the block', z3.Select(st.ghost['E'], bp) == V)
            T.frame(st, [])


def divide(off, d):
    q, r = pdiv_mono(poly(off), monoof(d), 1)
    r = {k: c for k, c in r.items() if c}
    return unpoly(q), r


def monoof(t):
    m = [k for k in poly(t) if k]
    if len(m) != 1:
        raise Unsupported('element size')
    return m[0]


import os as _os
for _n in range(1, 5 if _os.environ.get('V4') else 4):
    reg_void(_n)


# --------------------------------------------------------------- getBlock
def netcdf_lock(ex, st):
    """The global lock of the netCDF library is held."""
    return any('netcdfLock' in (r.name or '') for r, o in models.held(st))


VARM = {'unsigned char': 'uchar', 'int': 'int', 'long': 'long', 'float': 'float', 'double': 'double'}


def reg_block(ty, n):
    @task('NetCdfReader::getBlock<%s> (%d dimensions)' % (ty, n), ['C12'], TU, R + r'getBlock<%s>\(' % ty, defs=('mpi',))
    def t_block(T):
        ex = T.ex
        v = T.obj('io::NetCdfReader', 'reader')
        v.set('m_dimensions', n)
        off, offs = nums(T, 'offset', n, hi=ELEMS)
        size, bs = nums(T, 'size', n, lo=1, hi=ELEMS)
        arr, vs = nums(T, 'fileSize', n, lo=1, hi=ELEMS)
        ex.put(T.st, v.p.r, v.loc('m_size')[0], 8, arr)
        for i in range(n):
            T.assume(offs[i] < vs[i])
        for k in range(2, n + 1):
            T.assume(prod(bs[-k:]) <= ELEMS)
        buf = Region('raw', 'block', None)
        T.st.ghost['$reads'] = 0

        def args(ex, st, off_, cnt, map_, b, what):
            ex.oblige(st, 'the netCDF library is used under its lock', netcdf_lock(ex, st), 'lock')
            for i in range(n):
                ex.oblige(st, '%s starts at the offset (dimension %d)' % (what, i), EQ2(rd(ex, st, off_, 8 * i, False), offs[i]), 'contract')
                rest = vs[i] - offs[i]
                ex.oblige(st, '%s gets the part of the block inside the variable (dimension %d)' % (what, i),
                          EQ2(rd(ex, st, cnt, 8 * i, False), z3.If(bs[i] > rest, rest, bs[i])), 'contract')
                ex.oblige(st, '%s maps to row-major positions (dimension %d)' % (what, i), EQ2(rd(ex, st, map_, 8 * i), prod([1] + bs[i + 1:])), 'contract')
            ex.oblige(st, '%s reads into the block' % what, AND(b.r is buf, EQ2(b.off, 0)), 'contract')
            st.ghost['$reads'] += 1

        def c_varm(ex, st, a, ins, dem):
            ex.oblige(st, 'the read has the type of the block', dem == 'nc_get_varm_' + VARM.get(ty, '?'), 'contract')
            ex.oblige(st, 'the open variable is read', AND(EQ2(ex.sv(st, a[0]), v['m_file']), EQ2(ex.sv(st, a[1]), v['m_variable'])), 'contract')
            ex.oblige(st, 'no stride', a[4].r is None, 'contract')
            args(ex, st, a[2], a[3], a[5], a[6], 'the read')
            return [(st, IntV(32, 0))]
        T.contract(r'^nc_get_varm_\w+$', c_varm)
        if ty == 'void':
            def c_var(ex, st, a, ins, dem):
                args(ex, st, a[1], a[2], a[4], a[5], 'the read')
                for i in range(n):
                    ex.oblige(st, 'extents of the block (dimension %d)' % i, EQ2(rd(ex, st, a[3], 8 * i, False), bs[i]), 'contract')
                return [(st, None)]
            T.contract(R + r'getVar<void>\(', c_var)
        for st, ret in T.run([v.p, PtrV(buf, 0), off, size]):
            T.ensure(st, 'one read', st.ghost['$reads'] == 1)
            T.ensure(st, 'the lock is released', not models.held(st))
            T.frame(st, [])


for _n in range(1, 5):
    for _t in list(VARM) + ['void']:
        reg_block(_t, _n)

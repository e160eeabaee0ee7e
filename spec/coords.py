"""Coordinates: geometry of the file (NetCdfReader), ranges (Level::open), lookups (Level::pos2index)."""
from vcgen.api import *
from vcgen.sym import cls, val
from vcgen.exec import mki
from spec.common import *
from spec.geo import *

TU = 'level'
L = r'^grid::level::Level<VerifType>::'
R = r'^io::NetCdfReader::'
NAN, FIN, PINF, NINF = 0, 1, 2, 3
CD, VD = cls['d'], val['d']
MAXDIM = 4


def fld(T, st, p):
    rec, T.ex.record = T.ex.record, False
    v = T.ex.load(st, p, DOUBLE)
    T.ex.record = rec
    return v.t


def dblarr(T, name, n=MAXDIM):
    """Array of doubles with any values."""
    r = Region('cell', name, 8 * n, layout={8 * i: [(8, ('d', 8), '')] for i in range(n)})
    ts = []
    for i in range(n):
        v = T.dbl('%s%d' % (name, i))
        T.ex.put(T.st, r, 8 * i, 8, v)
        ts.append(v.t)
    return PtrV(r, 0), ts


def idxout(name):
    return PtrV(Region('cell', name, 32, layout={8 * i: [(8, ('i', 8, False), '')] for i in range(4)}), 0)


# ---------------------------------------------------------------- pos2index
def dist(x, k):
    d = x - z3.ToReal(mki(k))
    return z3.If(d < 0, -d, d)


def closest(x, k, n):
    return z3.And(k >= 0, k < n, z3.Or(dist(x, k) <= z3.RealVal('1/2'), z3.And(k == 0, x < 0), z3.And(k == n - 1, x > z3.ToReal(mki(k)))))


def lemma_nearest(T, st):
    """Distances scale with the spacing."""
    key = '_nearest'
    if key in T.__dict__:
        return
    T._nearest = True
    x, i, j, s, v = [z3.Real(fname('n' + c)) for c in 'xijsv']
    ab = lambda e: z3.If(e < 0, -e, e)
    T.ex.fnstack = ['lemma']
    T.ex.oblige(State(), 'lemma: nearest in cells is nearest in coordinates',
                z3.Implies(z3.And(s * v == 1, ab(x - i) <= ab(x - j)), ab(x * s - i * s) <= ab(x * s - j * s)), 'lemma', assume=False)
    T.ex.oblige(State(), 'lemma: inverse spacing', z3.Implies(s * v == 1, (x * v) * s == x), 'lemma', assume=False)
    T.ex.fnstack = []


def reg_p2i(n):
    sfx = ' (%d dimensions)' % n

    @task('Level::pos2index is safe for every coordinate' + sfx, ['C01'], TU, L + r'pos2index\(', defs=('mpi',))
    def t_safe(T):
        lv = Level(T, n, 'grid::level::Level<VerifType>', blocks=False, comm=False)
        p, ps = dblarr(T, 'pos')
        out = idxout('index')
        for st, ret in T.run([lv.v.p, p, out]):
            f = rdarr(T, st, out, n)
            for i in range(n):
                T.ensure(st, 'the index is a grid point of dimension %d' % (n - 1 - i), AND(f[i] >= 0, f[i] < lv.size[i]))
            T.frame(st, [(out.r, 0, 8 * n)])

    @task('Level::pos2index selects the nearest grid point' + sfx, ['C01'], TU, L + r'pos2index\(', defs=('mpi',))
    def t_near(T):
        T.ex.real_mode = 'uf'
        lv = Level(T, n, 'grid::level::Level<VerifType>', blocks=False, comm=False)
        p, ps = dblarr(T, 'pos')
        out = idxout('index')
        off, inv = [], []
        for i in range(n):
            o, v = lv.v['m_offset[%d]' % i].t, lv.v['m_scalingInv[%d]' % i].t
            # finite coordinate and geometry (Level::open: C02)
            T.assume(CD(o) == FIN, CD(v) == FIN, CD(ps[n - 1 - i]) == FIN)
            off.append(o)
            inv.append(v)
        for st, ret in T.run([lv.v.p, p, out]):
            f = rdarr(T, st, out, n)
            lemma_nearest(T, st)
            for i in range(n):
                x = T.ex.rmul(st, VD(ps[n - 1 - i]) - VD(off[i]), VD(inv[i]))
                xs, k = z3.Real(fname('cells')), z3.Int(fname('selected'))
                st.assume(xs == x)
                st.assume(k == f[i])
                fact(T, st, 'rounded or clamped %d' % i, closest(xs, k, lv.size[i]))
                lemma(T, st, 'rounded and clamped is nearest', ['k', 'j', 'n'], lambda k, j, n: z3.And(closest(z3.Real('xs'), k, n), j >= 0, j < n, z3.Or(j <= k - 1, j == k, j >= k + 1)),
                      lambda k, j, n: dist(z3.Real('xs'), k) <= dist(z3.Real('xs'), j), [])
                j = z3.Int(fname('other'))
                h = z3.And(j >= 0, j < lv.size[i])
                st.assume(z3.Implies(z3.And(h, closest(xs, k, lv.size[i])), dist(xs, k) <= dist(xs, j)))
                T.ensure(st, 'no other grid point of dimension %d is nearer' % (n - 1 - i), z3.Implies(h, dist(xs, k) <= dist(xs, j)))
                T.ensure(st, 'the index is a grid point', AND(f[i] >= 0, f[i] < lv.size[i]))


for _n in range(1, 5):
    reg_p2i(_n)


# ------------------------------------------------- coordinate variables (C02)
def reader(T, n=None):
    """An open reader: dimensions (Fortran order) with sizes, names and maybe coordinate variables."""
    v = T.obj('io::NetCdfReader', 'reader')
    nd = v['m_dimensions'] if n is None else n
    if n is not None:
        v.set('m_dimensions', n)
    else:
        T.assume(nd >= 1, nd <= MAXDIM)
    names = T.array('names', [32], [nd])
    size = T.array('sizes', [8], [nd], layout={0: [(8, ('i', 8, False), '')]})
    v.set('m_names', PtrV(names, 0))
    v.set('m_size', PtrV(size, 0))
    return v, names, size


def netcdf(T, v, names, crd=None):
    """Contracts of the netCDF calls that read coordinates (assumed)."""
    crd = crd or z3.Function('coordinate', I, I, FSORT['d'])
    has = z3.Function('hasCoordinate', I, z3.BoolSort())
    vid = z3.Function('variableOf', I, I)
    fid = v['m_file']

    def c_str(ex, st, a, ins, dem):
        p = a[0]
        if p.r is not names:
            raise Unsupported('name of something else')
        r = Region('cell', 'cname', None, layout={})
        r.x['dim'] = p.off
        return [(st, PtrV(r, 0))]
    T.contract(r'^std::__cxx11::basic_string<.*>::(c_str|data)\(\) const$', c_str)

    def c_inq(ex, st, a, ins, dem):
        ex.oblige(st, 'the opened file is asked', EQ2(ex.sv(st, a[0]), fid), 'contract')
        d = a[1].r.x.get('dim') if isinstance(a[1], PtrV) and a[1].r is not None else None
        if d is None:
            raise Unsupported('variable of another name')
        k = mki(T.ex.divmod(st, d, 32)[0]) if not isc(d) else z3.IntVal(d // 32)
        s2 = st.fork()
        s2.assume(z3.Not(has(k)))
        st.assume(has(k))
        st.assume(z3.And(vid(k) >= 0, vid(k) < 1 << 31))
        ex.store(st, a[2], IntV(32, vid(k), 0, (1 << 31) - 1), INT(32))
        e = fint('ncerr')
        s2.assume(e != 0)
        s2.assume(z3.And(e >= -200, e <= 200))
        st.ghost['$dim'] = k
        return [(st, IntV(32, 0)), (s2, IntV(32, e, -200, 200))]
    T.contract(r'^nc_inq_varid$', c_inq)

    def c_get(ex, st, a, ins, dem):
        k = st.ghost.get('$dim')
        if k is None:
            ex.oblige(st, 'only a variable that exists is read', False, 'contract')
            return [(st, IntV(32, 0))]
        ex.oblige(st, 'the coordinates of this dimension are read', AND(EQ2(ex.sv(st, a[0]), fid), EQ2(ex.sv(st, a[1]), vid(k))), 'contract')
        ix = ex.u(st, ex.load(st, a[2], INT(64)))
        ex.store(st, a[3], FV('d', crd(k, mki(ix))), DOUBLE)
        st.assume(z3.And(CD(crd(k, mki(ix))) == FIN))
        return [(st, IntV(32, 0))]
    T.contract(r'^nc_get_var1_double$', c_get)
    return crd, has


def dimarg(T):
    return T.int('i', 32, signed=True, lo=0)


@task('NetCdfReader::getOffset', ['C02'], TU, R + r'getOffset\(int\) const$', defs=('mpi',))
def t_getoffset(T):
    v, names, size = reader(T)
    crd, has = netcdf(T, v, names)
    i = dimarg(T)
    T.assume(i.t < v['m_dimensions'])
    for st, ret in T.run([v.p, i]):
        T.ensure(st, 'the offset is the first coordinate', z3.Implies(has(i.t), ret.t == crd(i.t, z3.IntVal(0))))
        T.ensure(st, 'no coordinate variable: offset 0', z3.Implies(z3.Not(has(i.t)), z3.And(CD(ret.t) == FIN, VD(ret.t) == 0)))
        T.ensure(st, 'the lock is released', not models.held(st))
        T.frame(st, [])


@task('NetCdfReader::getScaling', ['C02'], TU, R + r'getScaling\(int\) const$', defs=('mpi',))
def t_getscaling(T):
    T.ex.real_mode = True
    v, names, size = reader(T)
    crd, has = netcdf(T, v, names)
    i = dimarg(T)
    T.assume(i.t < v['m_dimensions'])
    sz = arr_reader(T.ex, T.st, size, 0, 8)(i.t)
    T.assume(sz >= 1, sz <= POINTS)
    for st, ret in T.run([v.p, i]):
        c0, c1 = crd(i.t, z3.IntVal(0)), crd(i.t, mki(sz - 1))
        T.ensure(st, 'a single grid point has infinite spacing', z3.Implies(sz == 1, CD(ret.t) == PINF))
        T.ensure(st, 'no coordinate variable: spacing 1', z3.Implies(z3.And(sz > 1, z3.Not(has(i.t))), z3.And(CD(ret.t) == FIN, VD(ret.t) == 1)))
        T.ensure(st, 'the spacing is the distance of the first and the last grid point divided by their number minus one',
                 z3.Implies(z3.And(sz > 1, has(i.t)), z3.And(CD(ret.t) == FIN, VD(ret.t) * z3.ToReal(sz - 1) == VD(c1) - VD(c0))))
        T.ensure(st, 'the lock is released', not models.held(st))
        T.frame(st, [])


def reg_open(n):
    sfx = ' (%d dimensions)' % n

    @task('Level::open' + sfx, ['C02', 'C14'], TU, L + r'open\(', defs=('mpi',))
    def t_open(T):
        T.ex.real_mode = 'uf'
        v = T.obj('grid::level::Level<VerifType>')
        comm = T.obj('mpi::MPIComm', 'comm')
        typ = Region('cell', 'type', 16, layout={})
        nc = Region('cell', 'numaComm', 240, layout={})
        v.set('m_mpiComm', comm.p)
        v.set('m_type', PtrV(typ, 0))
        v.set('m_numaComm', PtrV(nc, 0))
        size, off, sc = [], [], []
        for i in range(n):
            s = T.int('size%d' % i)
            T.assume(s.t >= 1, s.t <= POINTS)
            o, c = T.dbl('offset%d' % i), T.dbl('scaling%d' % i)
            # contracts of getOffset, getScaling
            T.assume(CD(o.t) == FIN, z3.Or(CD(c.t) == FIN, CD(c.t) == PINF), z3.Implies(s.t == 1, CD(c.t) == PINF))
            size.append(s)
            off.append(o)
            sc.append(c)
        vp = T.int('valuePosition', 32, lo=0, hi=1)
        fname_, vname = PtrV(Region('cell', 'filename', None, layout={}), 0), PtrV(Region('cell', 'varname', None, layout={}), 0)
        ts = T.int('typeSize', 32)

        def c_ctor(ex, st, a, ins, dem):
            ex.oblige(st, 'the given file is opened', AND(a[1].r is fname_.r), 'contract')
            st.ghost['$reader'] = a[0].r
            return [(st, None)]
        T.contract(R + r'NetCdfReader\(', c_ctor)

        def mine(ex, st, p):
            ex.oblige(st, 'the reader of this level', p.r is st.ghost.get('$reader'), 'contract')

        def err(st, nm):
            s2 = st.fork()
            e = fint(nm)
            s2.assume(AND(e >= 1, e <= 20))
            s2.ghost['$err'] = e
            return [(s2, IntV(32, e, 1, 20))]

        def c_open(ex, st, a, ins, dem):
            mine(ex, st, a[0])
            ex.oblige(st, 'the given variable is opened', a[1].r is vname.r, 'contract')
            e = err(st, 'openerr')
            st.ghost['$opened'] = True
            return [(st, IntV(32, 0))] + e
        T.contract(R + r'open\(', c_open)

        def need(ex, st, p):
            mine(ex, st, p)
            ex.oblige(st, 'the reader is only used after it was opened', bool(st.ghost.get('$opened')), 'contract')

        def c_dim(ex, st, a, ins, dem):
            need(ex, st, a[0])
            return [(st, IntV(32, n))]
        T.contract(R + r'dimensions\(\)', c_dim)

        def per(vals):
            def c(ex, st, a, ins, dem):
                need(ex, st, a[0])
                i = ex.sv(st, a[1])
                if not isc(i) or i >= n:
                    raise Unsupported('symbolic dimension')
                return [(st, vals[i])]
            return c
        T.contract(R + r'getSize\(', per(size))
        T.contract(R + r'getOffset\(', per(off))
        T.contract(R + r'getScaling\(', per(sc))

        def c_check(ex, st, a, ins, dem):
            ex.oblige(st, 'the type of this level', a[0].r is typ, 'contract')
            need(ex, st, a[1])
            e = err(st, 'typeerr')
            st.ghost['$checked'] = True
            return [(st, IntV(32, 0))] + e
        T.contract(r'^VerifType::check\(', c_check)

        def c_size(ex, st, a, ins, dem):
            ex.oblige(st, 'the size is known after the check', bool(st.ghost.get('$checked')) and a[0].r is typ, 'contract')
            return [(st, ts)]
        T.contract(r'^VerifType::size\(', c_size)

        for st, ret in T.run([v.p, fname_, vname, vp]):
            q = v.at(st)
            rd_ = q.val('m_inputFile')
            T.ensure(st, 'the level keeps the reader (it is released with the level)', rd_.r is st.ghost.get('$reader') and rd_.r not in st.dead)
            if '$err' in st.ghost:
                T.ensure(st, 'errors of the file and of the type are reported', EQ2(T.ex.u(st, ret), st.ghost['$err']))
                continue
            T.ensure(st, 'success', EQ2(T.ex.u(st, ret), 0))
            T.ensure(st, 'the type accepted the file', bool(st.ghost.get('$checked')))
            T.ensure(st, 'number of dimensions', EQ2(q['m_dims'], n))
            T.ensure(st, 'size of an element', EQ2(q['m_typeSize'], ts.t))
            for i in range(n):
                c = n - 1 - i
                mn, mx, sp, inv = [q['m_%s[%d]' % (f, i)].t for f in ('min', 'max', 'scaling', 'scalingInv')]
                T.ensure(st, 'size of dimension %d' % c, EQ2(q['m_size[%d]' % i], size[i].t))
                T.ensure(st, 'offset of dimension %d' % c, q['m_offset[%d]' % i].t == off[i].t)
                inf, fin = CD(sc[i].t) == PINF, CD(sc[i].t) == FIN
                T.ensure(st, 'dimension %d without spacing is unbounded' % c, z3.Implies(inf, z3.And(CD(mn) == NINF, CD(mx) == PINF, CD(sp) == PINF)))
                s = VD(sc[i].t)
                ab = z3.If(s < 0, -s, s)
                last = VD(off[i].t) + T.ex.rmul(st, s, z3.ToReal(size[i].t - 1))
                lo, hi = z3.If(s < 0, last, VD(off[i].t)), z3.If(s < 0, VD(off[i].t), last)
                T.ensure(st, 'minimum and maximum of dimension %d are finite' % c, z3.Implies(fin, z3.And(CD(mn) == FIN, CD(mx) == FIN, CD(sp) == FIN)))
                T.ensure(st, 'the spacing of dimension %d is the absolute distance' % c, z3.Implies(fin, VD(sp) == ab))
                cell, vert = vp.t == 0, vp.t != 0       # enum ValuePosition
                T.ensure(st, 'vertex centered: the range of dimension %d is the range of the coordinates' % c,
                         z3.Implies(z3.And(fin, vert), z3.And(VD(mn) == lo, VD(mx) == hi)))
                near, half = z3.RealVal('0.4999'), z3.RealVal('0.5')
                T.ensure(st, 'cell centered: the range of dimension %d is extended by half a cell' % c,
                         z3.Implies(z3.And(fin, cell, s != 0), z3.And(VD(mn) > lo - half * ab, VD(mn) <= lo - near * ab,
                                                              VD(mx) < hi + half * ab, VD(mx) >= hi + near * ab)))
                T.ensure(st, 'minimum and maximum of dimension %d are ordered' % c, z3.Implies(fin, VD(mn) <= VD(mx)))
                T.ensure(st, 'dimension %d: inverse spacing' % c, z3.And(CD(inv) == FIN, z3.Implies(z3.Or(inf, s == 0), VD(inv) == 0),
                                                                         z3.Implies(z3.And(fin, s != 0), T.ex.rmul(st, VD(inv), s) == 1)))
            T.frame(st, [(v.p.r, v.loc(f)[0], 8 * n) for f in ('m_size', 'm_offset', 'm_scaling', 'm_min', 'm_max', 'm_scalingInv')] +
                    [(v.p.r, v.loc('m_inputFile')[0], 8), (v.p.r, v.loc('m_dims')[0], 4), (v.p.r, v.loc('m_typeSize')[0], 4)])


for _n in range(1, 5):
    reg_open(_n)

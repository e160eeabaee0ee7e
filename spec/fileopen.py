"""Opening and closing a netCDF file (C02, C12, C14): the documented error of every defect, no file that stays open after
an error, and the dimensions of the variable in the order of the file."""
from vcgen.api import *
from vcgen.exec import mki
from spec.common import *

TU = 'io'
R = r'^(virtual )?io::NetCdfReader::'
STR = r'^std::__cxx11::basic_string<char, .*>::'
NOT_OPEN, VAR_NOT_FOUND, UNSUPPORTED_DIMENSIONS = 8, 9, 11
sizeof = z3.Function('sizeOfDimension', I, I)
dimid = z3.Function('dimensionOfVariable', I, I)


def key(p):
    if not isinstance(p, PtrV) or p.r is None or not isc(p.off):
        raise Unsupported('string at an unknown place')
    return ('$str', p.r, p.off)


def strings(T):
    """std::string: the content of a string is what was last assigned to it (assumed)."""
    def content(ex, st, p):
        k = key(p)
        return st.ghost.get(k, ('text', p.r, p.off))

    def buf(ex, st, p):
        if isinstance(p, PtrV) and p.r is not None and p.r.x.get('string'):
            return p.r.x['string']
        return st.ghost.get(('$buf',) + key(p)[1:], ('text',) + key(p)[1:])

    def assign(ex, st, a, ins, dem):
        st.ghost[key(a[0])] = buf(ex, st, a[1])
        return [(st, a[0])]
    T.contract(STR + r'(operator=|assign)\(char const\*\)$', assign)
    T.contract(STR + r'basic_string(<std::allocator<char> ?>)?\(char const\*, std::allocator<char> const&\)$', lambda *x: [(assign(*x)[0][0], None)])

    def copy(ex, st, a, ins, dem):
        st.ghost[key(a[0])] = content(ex, st, a[1])
        return [(st, a[0])]
    T.contract(STR + r'(operator=|assign|swap|basic_string)\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>( const)?&&?\)$', copy)

    def empty(ex, st, a, ins, dem):
        st.ghost[key(a[0])] = 'empty'
        return [(st, None)]
    T.contract(STR + r'basic_string\(\)$', empty)

    def dtor(ex, st, a, ins, dem):
        st.ghost['$dtor'] = st.ghost.get('$dtor', ()) + (key(a[0]),)
        return [(st, None)]
    T.contract(STR + r'~basic_string\(\)$', dtor)

    def c_str(ex, st, a, ins, dem):
        r = Region('cell', 'cstr', None, layout={})
        r.x['string'] = content(ex, st, a[0])
        return [(st, PtrV(r, 0))]
    T.contract(STR + r'(c_str|data)\(\) const$', c_str)
    T.contract(r'^std::(__new_)?allocator<char>::~?(__new_)?allocator\(', lambda ex, st, a, ins, dem: [(st, None)])


class File:
    """The netCDF library as seen by this reader (assumed contract): a file that exists or not, a variable that exists or
    not, and its dimensions."""

    def __init__(self, T, v, ndims):
        self.T, self.v, self.ndims = T, v, ndims
        ex = T.ex
        g = T.st.ghost
        g['$opens'] = g['$closes'] = 0
        self.fid = T.int('ncid', 32, lo=0, hi=(1 << 31) - 1)
        self.vid = T.int('varid', 32, lo=0, hi=(1 << 31) - 1)
        self.varname = PtrV(Region('raw', 'varname', None), 0)

        def lock(ex, st):
            ex.oblige(st, 'netCDF calls are serialised', any('netcdfLock' in (r.name or '') for r, o in models.held(st)), 'contract')
        self.lock = lock

        def fails(st):
            s2 = st.fork()
            e = fint('ncerr')
            s2.assume(z3.And(e != 0, e >= -200, e <= 200))
            return s2, IntV(32, e, -200, 200)

        def live(ex, st, a, what):
            lock(ex, st)
            ex.oblige(st, '%s: the opened file' % what, AND(EQ2(ex.sv(st, a), self.fid.t), EQ2(st.ghost['$opens'], 1), EQ2(st.ghost['$closes'], 0)), 'contract')

        def c_open(ex, st, a, ins, dem):
            lock(ex, st)
            name = a[0].r.x.get('string') if isinstance(a[0], PtrV) and a[0].r is not None else None
            ex.oblige(st, 'the file of this reader is opened', name == ('text', v.p.r, v.loc('m_filename')[0]), 'contract')
            ex.oblige(st, 'the file is opened for reading, once', AND(EQ2(ex.sv(st, a[1]), 0), EQ2(st.ghost['$opens'], 0)), 'contract')
            s2, e = fails(st)
            s2.ghost['$expect'] = NOT_OPEN
            ex.store(s2, a[2], umodel(ex, s2, 32, 'garbage'), INT(32))
            st.ghost['$opens'] = 1
            ex.store(st, a[2], self.fid, INT(32))
            return [(st, IntV(32, 0)), (s2, e)]
        T.contract(r'^nc_open$', c_open)

        def c_close(ex, st, a, ins, dem):
            live(ex, st, a[0], 'close')
            st.ghost['$closes'] = st.ghost['$closes'] + 1
            return [(st, umodel(ex, st, 32, 'closed'))]
        T.contract(r'^nc_close$', c_close)

        def c_var(ex, st, a, ins, dem):
            live(ex, st, a[0], 'variable')
            ex.oblige(st, 'the requested variable is looked up', isinstance(a[1], PtrV) and a[1].r is self.varname.r and EQ2(a[1].off, 0), 'contract')
            s2, e = fails(st)
            s2.ghost['$expect'] = VAR_NOT_FOUND
            ex.store(s2, a[2], umodel(ex, s2, 32, 'garbage'), INT(32))
            ex.store(st, a[2], self.vid, INT(32))
            return [(st, IntV(32, 0)), (s2, e)]
        T.contract(r'^nc_inq_varid$', c_var)

        def var(ex, st, a, what):
            live(ex, st, a[0], what)
            ex.oblige(st, '%s: the requested variable' % what, AND(EQ2(ex.sv(st, a[1]), self.vid.t), '$expect' not in st.ghost), 'contract')

        def c_nd(ex, st, a, ins, dem):
            var(ex, st, a, 'number of dimensions')
            ex.store(st, a[2], self.ndims, INT(32))
            return [(st, IntV(32, 0))]
        T.contract(r'^nc_inq_varndims$', c_nd)

        def c_ids(ex, st, a, ins, dem):
            var(ex, st, a, 'dimensions')
            n = ex.sv(st, self.ndims)
            if not isc(n):
                ex.oblige(st, 'room for all dimensions', n <= 4, 'contract')
                raise Unsupported('number of dimensions')
            for i in range(n):
                ex.store(st, PtrV(a[2].r, a[2].off + 4 * i), IntV(32, dimid(z3.IntVal(i)), 0, (1 << 31) - 1), INT(32))
                st.assume(z3.And(dimid(z3.IntVal(i)) >= 0, dimid(z3.IntVal(i)) < 1 << 31))
            return [(st, IntV(32, 0))]
        T.contract(r'^nc_inq_vardimid$', c_ids)

        def dim(ex, st, fid, d, name, size):
            live(ex, st, fid, 'dimension')
            t = ex.sv(st, d)
            if name is not None and name.r is not None:
                if name.r.size is not None:
                    ex.oblige(st, 'room for every name of a dimension', AND(name.off >= 0, name.off + 257 <= name.r.size), 'contract')
                st.ghost[('$buf',) + key(name)[1:]] = ('dim', z3.simplify(mki(t)).sexpr())
            if size is not None and size.r is not None:
                st.assume(z3.And(sizeof(mki(t)) >= 1, sizeof(mki(t)) < 1 << 63))
                ex.store(st, size, IntV(64, sizeof(mki(t)), 0, (1 << 63) - 1), INT(64))
            return [(st, IntV(32, 0))]
        T.contract(r'^nc_inq_dim$', lambda ex, st, a, ins, dem: dim(ex, st, a[0], a[1], a[2], a[3]))
        T.contract(r'^nc_inq_dimname$', lambda ex, st, a, ins, dem: dim(ex, st, a[0], a[1], a[2], None))
        T.contract(r'^nc_inq_dimlen$', lambda ex, st, a, ins, dem: dim(ex, st, a[0], a[1], None, a[2]))
        self.type = T.int('type', 32, lo=0, hi=(1 << 31) - 1)
        self.tsize = T.int('sizeOfType', 64, lo=1, hi=(1 << 31) - 1)

        def c_ty(ex, st, a, ins, dem):
            var(ex, st, a, 'type')
            ex.store(st, a[2], self.type, INT(32))
            return [(st, IntV(32, 0))]
        T.contract(r'^nc_inq_vartype$', c_ty)

        def c_tsz(ex, st, a, ins, dem):
            live(ex, st, a[0], 'size of the type')
            ex.oblige(st, 'the type of the variable', EQ2(ex.sv(st, a[1]), self.type.t), 'contract')
            ex.store(st, a[3], self.tsize, INT(64))
            return [(st, IntV(32, 0))]
        T.contract(r'^nc_inq_type$', c_tsz)


def errors(T, st, ret, v):
    """The results after which the reader is unusable."""
    ex, g = T.ex, st.ghost
    q = v.at(st)
    T.ensure(st, 'the lock is released', not models.held(st))
    if '$expect' not in g:
        return False
    T.ensure(st, 'the documented error', EQ2(ex.u(st, ret), g['$expect']))
    T.ensure(st, 'no file stays open after an error', EQ2(g['$opens'], g['$closes']))
    T.ensure(st, 'a closed file is not closed again', q['m_file'] < 0)
    return True


def fresh(T):
    v = T.obj('io::NetCdfReader')
    v.set('m_file', -1)
    v.set('m_variable', -1)
    v.set('m_dimensions', -1)
    NUL = PtrV(None, 0)
    v.set('m_names', NUL)
    v.set('m_size', NUL)
    T.ex.merge_on = False
    strings(T)
    return v


def reg_open(n):
    @task('NetCdfReader::open (%d dimensions)' % n, ['C02', 'C12', 'C14'], TU, R + r'open\(char const\*\)$', defs=('mpi',))
    def t(T):
        ex = T.ex
        v = fresh(T)
        f = File(T, v, IntV(32, n))
        for st, ret in T.run([v.p, f.varname]):
            if errors(T, st, ret, v):
                continue
            q = v.at(st)
            T.ensure(st, 'success', EQ2(ex.u(st, ret), 0))
            T.ensure(st, 'the file stays open', AND(EQ2(st.ghost['$opens'], 1), EQ2(st.ghost['$closes'], 0), EQ2(q['m_file'], f.fid.t)))
            T.ensure(st, 'the variable', EQ2(q['m_variable'], f.vid.t))
            T.ensure(st, 'the number of dimensions', EQ2(q['m_dimensions'], n))
            T.ensure(st, 'the size of the type of the variable', EQ2(q['m_varSize'], f.tsize.t))
            nm, sz = q.val('m_names'), q.val('m_size')
            if not all(isinstance(p, PtrV) and p.r is not None and p.r.heap and p.r not in st.dead for p in (nm, sz)):
                T.ensure(st, 'names and sizes of the dimensions are stored', False)
                continue
            for i in range(n):
                d = dimid(z3.IntVal(i))
                T.ensure(st, 'size of dimension %d of the file' % i, EQ2(ex.u(st, ex.load(st, PtrV(sz.r, sz.off + 8 * i), INT(64))), sizeof(d)))
                T.ensure(st, 'name of dimension %d of the file' % i, st.ghost.get(('$str', nm.r, nm.off + 32 * i)) == ('dim', d.sexpr()))


for n_ in (1, 2, 3, 4):
    reg_open(n_)


@task('NetCdfReader::open (too many dimensions)', ['C14'], TU, R + r'open\(char const\*\)$', defs=('mpi',))
def t_many(T):
    ex = T.ex
    v = fresh(T)
    nd = T.int('dimensions', 32, lo=5, hi=(1 << 31) - 1)
    f = File(T, v, nd)
    for st, ret in T.run([v.p, f.varname]):
        st.ghost.setdefault('$expect', UNSUPPORTED_DIMENSIONS)
        errors(T, st, ret, v)


@task('NetCdfReader::NetCdfReader', ['C14'], TU, R + r'NetCdfReader\(char const\*, int\)$', defs=('mpi',))
def t_ctor(T):
    v = T.obj('io::NetCdfReader')
    strings(T)
    name = PtrV(Region('raw', 'filename', None), 0)
    rank = T.int('rank', 32, signed=True)
    for st, ret in T.run([v.p, name, rank]):
        q = v.at(st)
        nul = lambda p: isinstance(p, PtrV) and p.r is None
        T.ensure(st, 'no file is open', q['m_file'] < 0)
        T.ensure(st, 'no memory is owned', AND(nul(q.val('m_names')), nul(q.val('m_size'))))
        T.ensure(st, 'the name of the file', st.ghost.get(('$str', v.p.r, v.loc('m_filename')[0])) == ('text', name.r, 0))


def reg_dtor(opened):
    @task('NetCdfReader::~NetCdfReader (%s)' % ('opened' if opened else 'not opened'), ['C14', 'C23'], TU, R + r'~NetCdfReader\(\)$', defs=('mpi',))
    def t(T):
        ex = T.ex
        v = fresh(T)
        n = 3
        f = File(T, v, IntV(32, n))
        if opened:
            T.st.ghost['$opens'] = 1
            nm = PtrV(Region('cell', 'names', 8 + 32 * n, layout={}, heap=True), 8)
            sz = PtrV(Region('cell', 'sizes', 8 * n, layout={}, heap=True), 0)
            ex.put(T.st, nm.r, 0, 8, IntV(64, n))
            v.set('m_names', nm)
            v.set('m_size', sz)
            v.set('m_file', f.fid.t)
        for st, ret in T.run([v.p]):
            T.ensure(st, 'the lock is released', not models.held(st))
            T.ensure(st, 'the file is closed exactly once', EQ2(st.ghost['$closes'], 1 if opened else 0))
            d = st.ghost.get('$dtor', ())
            T.ensure(st, 'no string is destroyed twice', len(set(d)) == len(d))
            if opened:
                T.ensure(st, 'the description of the dimensions is released', AND(nm.r in st.dead, sz.r in st.dead))


reg_dtor(True)
reg_dtor(False)

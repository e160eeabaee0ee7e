"""The grid object: parameters, choice of the storage, opening, getters."""
from vcgen.api import *
from vcgen import strings
from vcgen.strings import intern, StrC, cstring
from spec.common import *

TU = 'grid'
G = r'^(virtual )?grid::Grid::'
MAP = r'std::map<.*basic_string.*basic_string.*>::'
VMAP = r'^std::vector<std::map<.*>::'
PLAIN = ('mpi', '-DUSE_MPI3')
SAFE = ('mpi', '-DUSE_MPI3', '-DTHREADSAFE_MPI')


class PMap:
    """Parameters: (level, name) -> value."""

    def __init__(self, dom, val):
        self.dom, self.val = dom, val

    def merge(self, c, o):
        return PMap(lambda l, k: ITE(c, self.dom(l, k), o.dom(l, k)), lambda l, k: ITE(c, self.val(l, k), o.val(l, k)))

    def havoc(self):
        raise Unsupported('parameters changed in a loop')


class Params:
    def __init__(self, T):
        self.T = T
        v = self.v = T.obj('grid::Grid')
        models.install(T.ex, strings.STRINGS)
        # (the grid is of the class grid::Grid)
        T.ex.put(T.st, v.p.r, 0, 8, PtrV(T.ex.global_region('_ZTVN4grid4GridE'), 16))
        d, w = z3.Function('param.set', I, I, B), z3.Function('param.value', I, I, I)
        T.st.ghost['$params'] = self.p0 = PMap(lambda l, k: d(mki(l), mki(k)), lambda l, k: w(mki(l), mki(k)))
        self.n0 = T.int('levels', 64, hi=1 << 32).t
        T.st.ghost['$levels'] = self.n0
        # no parameters beyond the levels
        l, k = z3.Ints('l k')
        T.assume(z3.ForAll([l, k], z3.Implies(d(l, k), z3.And(l >= 0, l < self.n0)), patterns=[d(l, k)]))
        self.off = v.loc('m_params')[0]
        self.maps = Region('arr', 'parameters', None, strides=[48], counts=[None], layout={})
        self.contracts()

    def mine(self, p):
        if not (isinstance(p, PtrV) and p.r is self.v.p.r and isc(p.off) and p.off == self.off):
            raise Unsupported('another vector of maps')

    def lvl(self, p):
        if not (isinstance(p, PtrV) and p.r is self.maps):
            raise Unsupported('another map')
        q, r = pdiv_mono(poly(p.off), (), 48)
        if any(r.values()):
            raise Unsupported('map')
        return unpoly(q)

    def get(self, l, k):
        """Value region of an existing element."""
        r = Region('cell', 'parameter', None, layout={})

        def acc(st, p, val, l=l, k=k):
            g = st.ghost['$params']
            if not (isc(p.off) and p.off in (0, 32)) or p.off == 0 and r.x.get('pair'):
                raise Unsupported('key of a parameter')
            if val is None:
                return g.val(l, k)
            st.ghost['$params'] = PMap(g.dom, lambda a, b: ITE(AND(EQ2(a, l), EQ2(b, k)), val, g.val(a, b)))
        r.x['strings'] = acc
        return r

    def contracts(self):
        T, ex = self.T, self.T.ex

        def size(ex, st, a, ins, dem):
            self.mine(a[0])
            return [(st, IntV(64, st.ghost['$levels'], 0, 1 << 33))]
        T.contract(VMAP + r'size\(\) const$', size)

        def resize(ex, st, a, ins, dem):
            self.mine(a[0])
            n, o, g = ex.u(st, a[1]), st.ghost['$levels'], st.ghost['$params']
            st.ghost['$params'] = PMap(lambda l, k: AND(g.dom(l, k), LTt(l, n)), g.val)
            st.ghost['$levels'] = n
            return [(st, None)]
        T.contract(VMAP + r'resize\(unsigned long\)', resize)

        def at(ex, st, a, ins, dem):
            self.mine(a[0])
            i = ex.u(st, a[1])
            ex.oblige(st, 'the level has parameters', AND(GE(i, 0), LTt(i, st.ghost['$levels'])), 'bounds')
            return [(st, PtrV(self.maps, i * 48))]
        T.contract(VMAP + r'(operator\[\]|at)\(unsigned long\)( const)?$', at)

        def index(ex, st, a, ins, dem):
            l, k = self.lvl(a[0]), strings.get(ex, st, a[1])
            g = st.ghost['$params']
            new = NOT(g.dom(l, k))
            here = lambda x, y: AND(EQ2(x, l), EQ2(y, k))
            st.ghost['$params'] = PMap(lambda x, y: OR(here(x, y), g.dom(x, y)), lambda x, y: ITE(AND(here(x, y), new), intern(''), g.val(x, y)))
            return [(st, PtrV(self.get(l, k), 0))]
        T.contract(r'^' + MAP + r'operator\[\]\(', index)

        def find(ex, st, a, ins, dem):
            l, k = self.lvl(a[0]), strings.get(ex, st, a[1])
            c = st.ghost['$params'].dom(l, k)
            out = []
            for x, r in ((c, self.get(l, k)), (NOT(c), self.end)):
                if ex.s.sat_quick(st.pc, [x]):
                    s = st.fork()
                    s.assume(x)
                    if r is not self.end:
                        r.x['pair'] = True
                    out.append((s, PtrV(r, 0)))
            return out
        self.end = Region('cell', 'end of the parameters', None, layout={})
        T.contract(r'^' + MAP + r'find\(', find)

        def count(ex, st, a, ins, dem):
            return [(st, ex.bool2int(st.ghost['$params'].dom(self.lvl(a[0]), strings.get(ex, st, a[1])), 64))]
        T.contract(r'^' + MAP + r'count\(', count)
        T.contract(r'^' + MAP + r'c?end\(\)( const)?$', lambda ex, st, a, ins, dem: [(st, PtrV(self.end, 0))])

        def arrow(ex, st, a, ins, dem):
            p = ex.load(st, a[0], PTR)
            ex.oblige(st, 'iterator refers to a parameter', p.r is not self.end, 'bounds')
            return [(st, PtrV(p.r, 0))]
        T.contract(r'^std::_Rb_tree_(const_)?iterator<std::pair<.*basic_string.*>::operator(->|\*)\(\) const$', arrow)

    def value(self, name, default, level=0):
        """Text of a parameter."""
        k = intern(name)
        g = self.p0
        return ITE(g.dom(level, k), g.val(level, k), default)


def cname(t):
    """Normalised parameter name."""
    return strings.dash(strings.upper(t))


def cvalue(n, v):
    """Normalised value of the parameter n: the sign of a number is kept, as are variable names and block sizes."""
    u = strings.upper(v)
    k = ITE(strings.empty(u), strings.dash(u), strings.dash(u, 1))
    return z3.If(mkb(OR(EQ2(n, intern('VARIABLE')), strings.starts(n, intern('BLOCK_SIZE_')))), mki(v), mki(k))


@task('Grid::setParam', ['C24'], TU, G + r'setParam\(', defs=PLAIN)
def t_set(T):
    q = Params(T)
    nm, vl = z3.Int('name'), z3.Int('value')
    lvl = T.int('level', 32, hi=(1 << 31) - 2)
    T.assume(*strings.empty_facts())
    for st, ret in T.run([q.v.p, cstring(nm, 'name'), cstring(vl, 'value'), lvl]):
        g = st.ghost['$params']
        n = cname(nm)
        l, k = z3.Ints('anyLevel anyName')
        here = z3.And(l == lvl.t, k == n)
        T.ensure(st, 'the parameter is set', g.dom(lvl.t, n))
        T.ensure(st, 'it has the normalised value', EQ2(g.val(lvl.t, n), cvalue(n, vl)))
        T.ensure(st, 'no other parameter is set or removed', z3.Implies(z3.Not(here), mkb(g.dom(l, k)) == mkb(q.p0.dom(l, k))))
        T.ensure(st, 'no other parameter is changed', z3.Implies(z3.And(z3.Not(here), mkb(q.p0.dom(l, k))), mkb(EQ2(g.val(l, k), q.p0.val(l, k)))))
        T.ensure(st, 'the level has parameters', z3.And(st.ghost['$levels'] > lvl.t, st.ghost['$levels'] >= q.n0))
        T.frame(st, [])


TYPES = {'int': r'^int ', 'unsigned int': r'^unsigned int ', 'char const*': r'^char const\* ', 'std::string': r'^std::__cxx11::basic_string<'}


def reg_param(ty):
    @task('Grid::param<%s>' % ty, ['C24'], TU, TYPES[ty] + r'.*grid::Grid::param<', defs=PLAIN)
    def t_param(T):
        q = Params(T)
        nm = z3.Int('name')
        lvl = T.int('level', 32)
        name = cstring(nm, 'name')
        set_ = q.p0.dom(lvl.t, nm)
        val = q.p0.val(lvl.t, nm)
        d = z3.Int('default')
        if ty in ('int', 'unsigned int'):
            dv = T.int('default', 32, signed=(ty == 'int'))
            args = [q.v.p, name, dv, lvl]
        elif ty == 'char const*':
            args = [q.v.p, name, cstring(d, 'default'), lvl]
        else:
            res, dp = Region('cell', 'result', 32, layout={}), Region('cell', 'default', 32, layout={})
            strings.put(T.ex, T.st, PtrV(dp, 0), d)
            args = [PtrV(res, 0), q.v.p, name, PtrV(dp, 0), lvl]
        for st, ret in T.run(args):
            if ty in ('int', 'unsigned int'):
                got, dd, vv = (T.ex.sv if ty == 'int' else T.ex.u)(st, ret), dv.t, strings.parsed(val, ty)
            elif ty == 'char const*':
                got, dd, vv = strings.chars(T.ex, st, ret), d, val
            else:
                got, dd, vv = strings.get(T.ex, st, PtrV(res, 0)), d, val
            T.ensure(st, 'a parameter that is set has its value', z3.Implies(set_, mkb(EQ2(got, vv))))
            T.ensure(st, 'a parameter that is not set has the default', z3.Implies(z3.Not(set_), mkb(EQ2(got, dd))))
            T.ensure(st, 'parameters are not changed', st.ghost['$params'] is q.p0)
            T.frame(st, [])


for _t in TYPES:
    reg_param(_t)


# ------------------------------------------------------ choice of the storage
class Containers:
    """The vector of containers, one per domain."""
    STRIDE = 256

    def __init__(self, T, v):
        self.T, self.v = T, v
        self.off = v.loc('m_containers')[0]
        self.vec = Region('arr', 'containers', None, strides=[8], counts=[None], layout={})
        self.objs = Region('arr', 'container', None, strides=[self.STRIDE], counts=[None], layout={})
        self.n0 = T.int('containers', 64, hi=1 << 31).t
        T.st.ghost['$conts'] = self.n0
        T.st.ghost['$class'] = z3.Const('class0', z3.ArraySort(I, I))
        T.ex.mem_hooks.insert(0, self.hook)
        V = r'^std::vector<grid::Container\*, std::allocator<grid::Container\*> ?>::'

        def own(p):
            if not (isinstance(p, PtrV) and p.r is v.p.r and isc(p.off) and p.off == self.off):
                raise Unsupported('another vector of containers')

        def mk(fn):
            def c(ex, st, a, ins, dem):
                own(a[0])
                return fn(ex, st, a, dem)
            return c
        T.contract(V + r'c?begin\(\)( const)?$', mk(lambda ex, st, a, dem: [(st, PtrV(self.vec, 0))]))
        T.contract(V + r'c?end\(\)( const)?$', mk(lambda ex, st, a, dem: [(st, PtrV(self.vec, 8 * lit(st.ghost['$conts'])))]))
        T.contract(V + r'size\(\) const$', mk(lambda ex, st, a, dem: [(st, IntV(64, st.ghost['$conts'], 0, 1 << 32))]))
        T.contract(V + r'empty\(\) const$', mk(lambda ex, st, a, dem: [(st, BoolV(EQ2(st.ghost['$conts'], 0)))]))

        def resize(ex, st, a, dem):
            st.ghost['$conts'] = ex.u(st, a[1])
            st.ghost['$class'] = z3.K(I, z3.IntVal(0))
            return [(st, None)]
        T.contract(V + r'resize\(unsigned long\)', mk(resize))

        def at(ex, st, a, dem):
            i = ex.u(st, a[1])
            self.exists(ex, st, i)
            return [(st, PtrV(self.vec, i * 8))]
        T.contract(V + r'(operator\[\]|at)\(unsigned long\)( const)?$', mk(at))

    def exists(self, ex, st, i):
        ex.oblige(st, 'the domain has a container', AND(GE(i, 0), LTt(i, st.ghost['$conts'])), 'bounds')

    def idx(self, off, n=8):
        q, r = pdiv_mono(poly(off), (), n)
        if any(r.values()):
            raise Unsupported('container')
        return unpoly(q)

    def hook(self, ex, st, r, off, n, ty, v):
        if r is not self.vec:
            return None
        i = self.idx(off)
        self.exists(ex, st, i)
        if v is None:
            return PtrV(self.objs, i * self.STRIDE)
        c = v.r.x.get('class', 0) if isinstance(v, PtrV) and v.r is not None else 0
        st.ghost['$class'] = z3.Store(st.ghost['$class'], mki(i), z3.IntVal(c))
        return True

    def domain(self, p):
        """Domain of the container at p."""
        if p.r is not self.objs:
            raise Unsupported('another container')
        return self.idx(p.off, self.STRIDE)


def progress(T, conts, fact_):
    """Loop invariants: fact_ holds for the domains before an iterator or index."""
    def hook(ex, f, hdr, st, h, xs):
        out = []
        for nm, p in st.regs.items():
            if not (isinstance(p, PtrV) and p.r is not None and p.r.local and isc(p.off) and p.r in st.mem):
                continue
            c = st.mem[p.r].cells.get(p.off)
            if c is None:
                continue
            o = p.off
            if isinstance(c[1], PtrV) and c[1].r is conts.vec:
                def g(s, r=p.r, o=o):
                    return fact_(s, s.mem[r].cells[o][1].off, 8)
                out.append(('domains before %s' % nm, g))

                def b(s, r=p.r, o=o):
                    x = s.mem[r].cells[o][1].off
                    return AND(GE(x, 0), GE(8 * lit(s.ghost['$conts']), x))
                out.append(('%s is in the range' % nm, b))
            elif isinstance(c[1], IntV) and c[0] in (4, 8):
                def g(s, r=p.r, o=o):
                    return fact_(s, ex.u(s, s.mem[r].cells[o][1]), 1)
                out.append(('domains before %s' % nm, g))
        return out
    T.ex.loop_hooks.append(hook)


def want_class(q, size, D, threadsafe):
    c = lambda s: z3.IntVal(intern(s))
    mpi, numa, grid = q.value('MPI_COMMUNICATION', intern('WINDOW')), q.value('NUMA_COMMUNICATION', intern('ON')), q.value('GRID', intern('FULL'))
    is_ = lambda t, s: mkb(EQ2(t, intern(s)))
    nompi = z3.Or(mkb(EQ2(size, 1)), is_(mpi, 'OFF'))
    thread = z3.BoolVal(False) if threadsafe else is_(mpi, 'THREAD')
    nonuma = z3.Or(mkb(EQ2(D, 1)), is_(numa, 'OFF'))
    nc = is_(numa, 'CACHE')
    If = z3.If
    cache = If(nompi, If(nonuma, c('CacheDefault'), c('CacheDistNuma')),
               If(thread, If(nonuma, c('CacheDistMPIThread'), c('CacheDistMPIThreadNuma')), If(nonuma, c('CacheDistMPIWin'), c('CacheDistMPIWinNuma'))))
    full = If(nompi, If(nonuma, c('FullDefault'), c('FullDistNuma')),
              If(thread, If(nonuma, c('FullDistMPIThread'), If(nc, c('FullDistMPIThreadNumaCache'), c('FullDistMPIThreadNuma'))),
                 If(nonuma, c('FullDistMPIWin'), If(nc, c('FullDistMPIWinNumaCache'), c('FullDistMPIWinNuma')))))
    return If(is_(grid, 'CACHE'), cache, If(is_(grid, 'PASS_THROUGH'), c('PassThrough'), full)), z3.And(mkb(NOT(EQ2(size, 1))), is_(mpi, 'OFF'))


def reg_init(defs):
    @task('Grid::initContainers', ['C24'], TU, G + r'initContainers\(', defs=defs)
    def t_init(T):
        q = Params(T)
        v = q.v
        cs = Containers(T, v)
        nm = Numa(T)
        size = v['m_comm.m_size'] if 'm_comm.m_size' in v.f else v.sub('m_comm')['m_size']
        T.assume(size >= 1)
        want, alone = want_class(q, size, nm.D.t, '-DTHREADSAFE_MPI' in defs)
        T.st.ghost['$self'] = False

        def c_init(ex, st, a, ins, dem):
            ex.oblige(st, 'the communicator of the grid is replaced by the process itself', AND(a[0].r is v.p.r, EQ2(a[0].off, v.loc('m_comm')[0]),
                      isinstance(a[1], PtrV) and a[1].r is not None and 'ompi_mpi_comm_self' in a[1].r.name), 'contract')
            st.ghost['$self'] = True
            w = v.at(st).sub('m_comm')
            w.set('m_size', 1)
            w.set('m_rank', 0)
            return [(st, IntV(32, 0))]
        T.contract(r'^mpi::MPIComm::init\(', c_init)

        def c_create(ex, st, a, ins, dem):
            ex.oblige(st, 'the container is created for this grid', AND(a[0].r is v.p.r, EQ2(a[0].off, 0)), 'contract')
            import re
            r = Region('cell', 'new container', None, layout={}, heap=True)
            r.x['class'] = intern(re.search(r'TypeSelector<grid::SimpleContainer, grid::level::(\w+),', dem).group(1))
            return [(st, PtrV(r, 0))]
        T.contract(r'^grid::Grid::TypeSelector<.*>::createContainer\(grid::Grid&\)', c_create)
        j = z3.Int('domain_j')
        T.assume(j >= 0, j < nm.D.t)
        progress(T, cs, lambda s, o, k: z3.Implies(mkb(j * k < o), z3.Select(s.ghost['$class'], j) == want))
        for st, ret in T.run([v.p]):
            T.ensure(st, 'one container for each domain', EQ2(st.ghost['$conts'], nm.D.t))
            T.ensure(st, 'every container has the documented storage', z3.Select(st.ghost['$class'], j) == want)
            T.ensure(st, 'the grid is local exactly if MPI is switched off', mkb(st.ghost['$self']) == alone)
            o, n = v.loc('m_comm')[0], 32
            T.frame(st, [(v.p.r, o, n)])


reg_init(PLAIN)
reg_init(SAFE)


# ------------------------------------------------------- creation of a container
KIND = ['types::ArrayType<unsigned char>', 'types::StructType<int>', 'types::BasicType<double>']


@task('Grid::TypeSelector::createContainer', ['C13', 'C24'], TU, r'^grid::Grid::TypeSelector<grid::VerifContainer, grid::VerifLevel, magic::Typelist<types::ArrayType<unsigned char>.*::createContainer\(', defs=PLAIN)
def t_create(T):
    q = Params(T)
    v = q.v
    ty = Region('cell', 'type', None, layout={})
    T.ex.put(T.st, v.p.r, v.loc('m_type')[0], 8, PtrV(ty, 0))
    kind = T.int('kind', 32, hi=len(KIND) - 1).t
    T.st.ghost['$made'] = 0
    T.st.ghost['$of'] = 0
    tinfo = {}
    for i, k in enumerate(KIND):
        for n, d in T.mod.dem.items():
            if d == 'typeinfo for ' + k:
                tinfo[n] = i
    if len(tinfo) != len(KIND):
        import subprocess
        names = [n for n in T.mod.globals if n.startswith('_ZTI')]
        out = subprocess.run(['c++filt'], input='\n'.join(names), text=True, capture_output=True).stdout.split('\n')
        for n, d in zip(names, out):
            for i, k in enumerate(KIND):
                if d.replace('> >', '>>') == 'typeinfo for ' + k:
                    tinfo[n] = i

    def c_cast(ex, st, a, ins, dem):
        ex.oblige(st, 'the type of the grid is examined', a[0].r is ty, 'contract')
        i = tinfo.get(a[2].r.name.lstrip('@'))
        if i is None:
            raise Unsupported('dynamic_cast to ' + a[2].r.name)
        out = []
        for c, p in ((kind == i, PtrV(ty, 0)), (kind != i, PtrV(None, 0))):
            if ex.s.sat_quick(st.pc, [c]):
                s = st.fork()
                s.assume(c)
                out.append((s, p))
        return out
    T.contract(r'^__dynamic_cast$', c_cast)
    tdim = q.value('TIME_DIMENSION', -1)
    tset = q.p0.dom(0, intern('TIME_DIMENSION'))
    tval = strings.parsed(q.p0.val(0, intern('TIME_DIMENSION')), 'int')
    vp = q.value('VALUE_POSITION', intern('CELL_CENTERED'))

    def c_new(ex, st, a, ins, dem):
        import re
        k = re.search(r'VerifContainer<grid::VerifLevel<(.*?)> ?>, ', dem).group(1).replace('> >', '>>').strip()
        k = k + '>' if k.count('<') > k.count('>') else k
        if k not in KIND:
            raise Unsupported('container of ' + k)
        st.ghost['$made'] = st.ghost['$made'] + 1
        st.ghost['$of'] = KIND.index(k) + 1
        for nm, x, off in (('communicator', a[1], v.loc('m_comm')[0]), ('NUMA information', a[2], v.loc('m_numa')[0])):
            ex.oblige(st, 'the container gets the %s of the grid' % nm, AND(x.r is v.p.r, EQ2(x.off, off)), 'contract')
        ex.oblige(st, 'the container gets the type of the grid', a[3].r is ty, 'contract')
        ex.oblige(st, 'the container gets the time dimension (default -1)', EQ2(ex.sv(st, a[4]), z3.If(mkb(tset), mki(tval), z3.IntVal(-1))), 'contract')
        ex.oblige(st, 'the container gets the value position (default cell centered)', EQ2(ex.u(st, a[5]), z3.If(mkb(EQ2(vp, intern('VERTEX_CENTERED'))), VERTEX, CELL)), 'contract')
        return [(st, None)]
    CELL, VERTEX = 0, 1
    T.contract(r'^grid::VerifContainer<.*>::VerifContainer\(', c_new)
    for st, ret in T.run([v.p]):
        T.ensure(st, 'one container is created', EQ2(st.ghost['$made'], 1))
        T.ensure(st, 'for the type of the grid', EQ2(st.ghost['$of'], kind + 1))
        T.frame(st, [])


# ---------------------------------------------------------------------- open
@task('Grid::open', ['C14', 'C17', 'C24', 'C25'], TU, G + r'open\(char const\*, unsigned int\)', defs=PLAIN)
def t_open(T):
    ex = T.ex
    q = Params(T)
    v = q.v
    cs = Containers(T, v)
    T.virtual(cs.objs, 'grid::Container')
    D, d = T.int('domains', 32, lo=1, hi=(1 << 31) - 1), T.int('domain', 32)
    T.assume(d.t < D.t)
    T.assume(OR(EQ(cs.n0, 0), EQ(cs.n0, D.t)))
    master = z3.Bool('master')
    e1, e2, e3, re = (T.int(n, 32, hi=30) for n in ('registerError', 'openError', 'broadcastError', 'rootError'))
    lvl = T.int('level', 32, hi=(1 << 31) - 2)
    fn = cstring(z3.Int('filename'), 'filename')
    g = T.st.ghost
    g['$step'] = g['$opened'] = g['$bcast'] = 0
    step = lambda st: st.ghost['$step']

    def c_reg(ex, st, a, ins, dem):
        ex.oblige(st, 'threads are registered first', EQ2(step(st), 0), 'contract')
        st.ghost['$step'] = 1
        det = ex.u(st, a[2])
        off = EQ2(q.value('NUMA_COMMUNICATION', intern('ON')), intern('OFF'))
        ex.oblige(st, 'domains are detected unless NUMA communication is off', mkb(EQ2(det, 0)) == mkb(off), 'contract')
        ex.put(st, a[1].r, a[1].off, 1, ex.bool2int(master, 8))
        return [(st, e1)]
    T.contract(r'^numa::Numa::registerThread\(', c_reg)
    T.contract(r'^numa::Numa(Comm)?::domainId\(\) const$', lambda ex, st, a, ins, dem: (ex.oblige(st, 'the domain is known', EQ2(step(st), 1), 'contract'), [(st, d)])[1])
    const_contract(T, r'^numa::Numa(Comm)?::totalDomains\(\) const$', D)

    def c_once(ex, st, a, ins, dem):
        ex.oblige(st, 'containers are initialised once per grid', AND(a[0].r is v.p.r, EQ2(a[0].off, v.loc('m_resizeOnce')[0]), a[1].r is v.p.r), 'contract')
        f = a[2]
        ok = isinstance(f, PtrV) and f.r.kind == 'fn' and 'initContainers' in T.mod.dem.get(f.r.x['fn'], '')
        if not ok:
            # (pointer to member function: passed in memory or as a pair)
            ok = any('initContainers' in str(T.mod.dem.get(x.r.x.get('fn'), '')) for x in vals(ex, st, f))
        ex.oblige(st, 'by initContainers', ok, 'contract')
        st.ghost['$conts'] = D.t
        return [(st, None)]

    def vals(ex, st, f):
        out = []
        if isinstance(f, PtrV) and f.r is not None and f.r in st.mem:
            for o, (n, x) in st.mem[f.r].cells.items():
                out += [y for y in walk(x) if isinstance(y, PtrV) and y.r is not None and y.r.kind == 'fn']
        else:
            out += [y for y in walk(f) if isinstance(y, PtrV) and y.r is not None and y.r.kind == 'fn']
        return out

    def walk(x):
        if isinstance(x, PtrV):
            return [x]
        r = []
        for k in ('elems', 'vals', 'v', 'items', 'a', 'b'):
            y = getattr(x, k, None)
            if isinstance(y, (list, tuple)):
                for z in y:
                    r += walk(z)
            elif y is not None and not callable(y) and not isinstance(y, (int, str, z3.ExprRef)):
                r += walk(y)
        for k in ('ptr', 'p', 'src'):
            y = getattr(x, k, None)
            if isinstance(y, PtrV):
                r.append(y)
        return r
    T.contract(r'threads::Once::saveExec<', c_once)

    def txt(name, default, level):
        k = intern(name)
        return ITE(q.p0.dom(level, k), q.p0.val(level, k), default)

    def num(name, default, level, ty):
        k = intern(name)
        return z3.If(mkb(q.p0.dom(level, k)), mki(strings.parsed(q.p0.val(level, k), ty)), z3.IntVal(default))

    def c_init(ex, st, a, ins, dem):
        ex.oblige(st, 'the thread opens the file for its own domain', EQ2(cs.domain(a[0]), d.t), 'contract')
        cs.exists(ex, st, cs.domain(a[0]))
        ex.oblige(st, 'only domain masters open files', master, 'contract')
        ex.oblige(st, 'the file', a[1].r is fn.r, 'contract')
        ex.oblige(st, 'the variable of the level (default z)', EQ2(strings.chars(ex, st, a[2]), txt('VARIABLE', intern('z'), lvl.t)), 'contract')
        for i in range(4):
            rec, ex.record = ex.record, False
            b = ex.sv(st, ex.load(st, PtrV(a[3].r, a[3].off + 4 * i), INT(32)))
            ex.record = rec
            ex.oblige(st, 'block size %d of the level (default 0)' % i, EQ2(b, num('BLOCK_SIZE_%d' % i, 0, lvl.t, 'int')), 'contract')
        ex.oblige(st, 'the cache size of the level (default 128)', EQ2(ex.u(st, a[4]), num('CACHE_SIZE', 128, lvl.t, 'unsigned int')), 'contract')
        ex.oblige(st, 'the cache size is not 0', NOT(EQ2(ex.u(st, a[4]), 0)), 'contract')
        ex.oblige(st, 'the hand spread of the level (default -1)', EQ2(ex.sv(st, a[5]), num('CACHE_HAND_SPREAD', -1, lvl.t, 'int')), 'contract')
        ex.oblige(st, 'the level', EQ2(ex.u(st, a[6]), lvl.t), 'contract')
        st.ghost['$opened'] = st.ghost['$opened'] + 1
        return [(st, e2)]
    T.contract(r'^virtual grid::Container::init$', c_init)
    cslot = num('CACHE_SIZE', 128, lvl.t, 'unsigned int')
    ex.fatal_ok = lambda st: EQ2(cslot, 0)

    def c_bcast(ex, st, a, ins, dem):
        ex.oblige(st, 'the result of the first domain is distributed', EQ2(ex.u(st, a[2]), 0), 'contract')
        own = ex.u(st, ex.load(st, a[1], INT(32)))
        want = z3.If(master, e2.t, z3.IntVal(0))
        ex.oblige(st, 'the result of opening is distributed', EQ2(own, want), 'contract')
        # the first domain distributes its own result; nothing is said about the value if the exchange fails
        st.assume(z3.Implies(z3.And(master, d.t == 0), re.t == e2.t))
        ex.put(st, a[1].r, a[1].off, 4, re)
        st.ghost['$bcast'] = st.ghost['$bcast'] + 1
        return [(st, e3)]
    T.contract(r'^asagi::Grid::Error numa::Numa::broadcast<asagi::Grid::Error>\(', c_bcast)
    for st, ret in T.run([v.p, fn, lvl]):
        r = ex.u(st, ret)
        reg = e1.t == 0
        g = st.ghost
        T.ensure(st, 'an error of the registration is returned', z3.Implies(e1.t != 0, mkb(EQ2(r, e1.t))))
        T.ensure(st, 'domain masters open the file once', z3.Implies(reg, z3.If(master, mkb(EQ2(g['$opened'], 1)), mkb(EQ2(g['$opened'], 0)))))
        T.ensure(st, 'all threads exchange the result once', z3.Implies(reg, mkb(EQ2(g['$bcast'], 1))))
        ok = z3.And(reg, e3.t == 0)
        T.ensure(st, 'an error of the exchange is returned', z3.Implies(z3.And(reg, e3.t != 0), r != 0))
        T.ensure(st, 'every thread gets an error of the first domain', z3.Implies(z3.And(ok, re.t != 0), r != 0))
        T.ensure(st, 'a thread that did not open the file gets the result of the first domain', z3.Implies(z3.And(ok, z3.Not(master)), r == re.t))
        T.ensure(st, 'a thread that opened the file gets its own error', z3.Implies(z3.And(ok, master, e2.t != 0), r == e2.t))
        T.ensure(st, 'success if opening succeeded', z3.Implies(z3.And(ok, re.t == 0, z3.Or(z3.Not(master), e2.t == 0)), r == 0))
        T.frame(st, [])


# ------------------------------------------------------------------- getters
def grid_with_containers(T):
    q = Params(T)
    cs = Containers(T, q.v)
    T.virtual(cs.objs, 'grid::Container')
    nm = Numa(T)
    T.assume(EQ(cs.n0, nm.D.t))
    return q, q.v, cs, nm


GET = [('Byte', ('i', 8)), ('Int', ('i', 32)), ('Long', ('i', 64)), ('Float', ('f', 32)), ('Double', ('d', 64)), ('Buf', None)]


def reg_get(N, ty):
    @task('Grid::get%s' % N, ['C13', 'C16', 'C23'], TU, G + r'get%s\(' % N, defs=PLAIN)
    def t_get(T):
        ex = T.ex
        q, v, cs, nm = grid_with_containers(T)
        pos = PtrV(Region('cell', 'position', None, layout={}), 0)
        lvl = T.int('level', 32)
        T.st.ghost['$calls'] = 0
        if ty is None:
            val = None
            buf = PtrV(Region('cell', 'buffer', None, layout={}), 0)
        elif ty[0] == 'i':
            val = T.int('value', ty[1])
        else:
            val = T.dbl('value', ty[0])

        def c_get(ex, st, a, ins, dem):
            ex.oblige(st, 'the container of the domain of the thread is used', EQ2(cs.domain(a[0]), nm.d.t), 'contract')
            cs.exists(ex, st, cs.domain(a[0]))
            ex.oblige(st, 'position', AND(a[2].r is pos.r, EQ2(a[2].off, 0)), 'contract')
            ex.oblige(st, 'level', EQ2(ex.u(st, a[3]), lvl.t), 'contract')
            if val is None:
                ex.oblige(st, 'buffer', AND(a[1].r is buf.r, EQ2(a[1].off, 0)), 'contract')
            else:
                ex.put(st, a[1].r, a[1].off, ty[1] // 8, val)
            st.ghost['$calls'] = st.ghost['$calls'] + 1
            return [(st, None)]
        T.contract(r'^virtual grid::Container::get%s$' % N, c_get)
        for st, ret in T.run([v.p] + ([buf] if val is None else []) + [pos, lvl]):
            T.ensure(st, 'one lookup', EQ2(st.ghost['$calls'], 1))
            if val is not None:
                T.ensure(st, 'the value of the lookup is returned', same_val(ret, val) if not isinstance(val, IntV) else EQ2(ex.u(st, ret), val.t))
            T.frame(st, [])


for _k in GET:
    reg_get(*_k)


INFO = [('getDimensions', [], 'i'), ('getMin', ['n'], 'd'), ('getMax', ['n'], 'd'), ('getDelta', ['n', 'level'], 'd')]


def reg_info(f, params, ty):
    @task('Grid::' + f, ['C02', 'C16', 'C23'], TU, G + f + r'\(', defs=PLAIN)
    def t_info(T):
        ex = T.ex
        q, v, cs, nm = grid_with_containers(T)
        args = [T.int(p, 32) for p in params]
        val = T.int('value', 32) if ty == 'i' else T.dbl('value')
        T.st.ghost['$calls'] = 0

        def c(ex, st, a, ins, dem):
            cs.exists(ex, st, cs.domain(a[0]))
            for p, x, y in zip(params, a[1:], args):
                ex.oblige(st, p, EQ2(ex.u(st, x), y.t), 'contract')
            st.ghost['$calls'] = st.ghost['$calls'] + 1
            return [(st, val)]
        T.contract(r'^(virtual )?grid::Container::%s(\(|$)' % f, c)
        for st, ret in T.run([v.p] + args):
            T.ensure(st, 'one query', EQ2(st.ghost['$calls'], 1))
            T.ensure(st, 'its result is returned', EQ2(ex.u(st, ret), val.t) if ty == 'i' else same_val(ret, val))
            T.frame(st, [])


for _k in INFO:
    reg_info(*_k)


@task('Grid::getVarSize', ['C13', 'C16'], TU, G + r'getVarSize\(', defs=PLAIN)
def t_varsize(T):
    q = Params(T)
    ty = Region('cell', 'type', None, layout={})
    T.virtual(ty, 'types::Type')
    T.ex.put(T.st, q.v.p.r, q.v.loc('m_type')[0], 8, PtrV(ty, 0))
    n = T.int('size', 32)
    const_contract(T, r'^virtual types::Type::size$', n)
    for st, ret in T.run([q.v.p]):
        T.ensure(st, 'the size of the type', EQ2(T.ex.u(st, ret), n.t))
        T.frame(st, [])


# ------------------------------------------------------------------ counters
@task('Grid::getCounter', ['C15', 'C16', 'C23'], TU, G + r'getCounter\(', defs=PLAIN)
def t_counter(T):
    ex = T.ex
    q, v, cs, nm = grid_with_containers(T)
    name = cstring(z3.Int('name'), 'name')
    lvl = T.int('level', 32)
    ty = T.int('type', 32, hi=10)

    def c_name(ex, st, a, ins, dem):
        ex.oblige(st, 'the counter of this name', a[0].r is name.r, 'contract')
        return [(st, ty)]
    T.contract(r'^perf::Counter::name2type\(', c_name)
    F = z3.Function('counter', I, I)
    S = z3.Function('sum', I, I)
    i = z3.Int('i')
    # ghost: sums of the counters of the first domains, modulo 2^64
    M = 1 << 64
    T.assume(EQ(S(z3.IntVal(0)), 0), S(mki(nm.D.t)) >= 0, S(mki(nm.D.t)) < M)

    def unfold(st, k):
        st.assume(z3.Implies(mkb(k >= 0), z3.And(S(mki(k)) >= 0, S(mki(k)) < M, S(mki(k) + 1) >= 0, S(mki(k) + 1) < M,
                                                 S(mki(k) + 1) == z3.If(S(mki(k)) + F(mki(k)) >= M, S(mki(k)) + F(mki(k)) - M, S(mki(k)) + F(mki(k))))))

    def c_get(ex, st, a, ins, dem):
        k = cs.domain(a[0])
        cs.exists(ex, st, k)
        ex.oblige(st, 'the type of the counter', EQ2(ex.u(st, a[1]), ty.t), 'contract')
        ex.oblige(st, 'the level of the counter', EQ2(ex.u(st, a[2]), lvl.t), 'contract')
        x = F(mki(k))
        st.assume(AND(x >= 0, x < M))
        unfold(st, k)
        return [(st, IntV(64, x, 0, M - 1))]
    T.contract(r'^virtual grid::Container::getCounter$', c_get)

    def hook(ex_, f, hdr, st, h, xs):
        its, accs, out = [], [], []
        for nm_, p in st.regs.items():
            if not (isinstance(p, PtrV) and p.r is not None and p.r.local and isc(p.off) and p.r in st.mem):
                continue
            c = st.mem[p.r].cells.get(p.off)
            if c is None:
                continue
            if isinstance(c[1], PtrV) and c[1].r is cs.vec:
                its.append((nm_, p, 8))
            elif isinstance(c[1], IntV) and c[0] in (4, 8):
                its.append((nm_, p, 1))
                if c[0] == 8:
                    accs.append((nm_, p))

        def at(s, p, k):
            x = s.mem[p.r].cells[p.off][1]
            if k == 8:
                return cs.idx(x.off)
            return ex.u(s, x)
        for nm_, p, k in its:
            out.append(('%s is in the range' % nm_, lambda s, p=p, k=k: AND(GE(at(s, p, k), 0), GE(s.ghost['$conts'], at(s, p, k)))))
            for an, ap in accs:
                if ap is p:
                    continue
                out.append(('%s is the sum of the domains before %s' % (an, nm_), lambda s, p=p, k=k, ap=ap: EQ(ex.u(s, s.mem[ap.r].cells[ap.off][1]), S(mki(at(s, p, k))))))

                def rest(s, p=p, k=k, ap=ap):
                    x, y = S(mki(nm.D.t)), S(mki(at(s, p, k)))
                    return EQ(ex.u(s, s.mem[ap.r].cells[ap.off][1]), z3.If(x >= y, x - y, x - y + M))
                out.append(('%s is the sum of the other domains than those before %s' % (an, nm_), rest))
        return out
    ex.loop_hooks.append(hook)
    for st, ret in T.run([v.p, name, lvl]):
        T.ensure(st, 'the counters of all domains are added', EQ2(ex.u(st, ret), S(mki(nm.D.t))))
        T.frame(st, [])


# ---------------------------------------------------- creation and destruction
def members(T, v):
    """Constructors and destructors of the members of the grid (assumed, or proved elsewhere)."""
    for rx in (r'^numa::Numa::~?Numa\(\)$', r'^mpi::MPIComm::~?MPIComm\(', r'^threads::Once::~?Once\(\)$', r'^threads::Mutex::~?Mutex\(\)$',
               r'^std::vector<(std::map<.*|grid::Container\*, .*)>::~?vector\(\)$'):
        T.contract(rx, lambda ex, st, a, ins, dem: [(st, None)])


@task('Grid::~Grid', ['C14', 'C16', 'C23'], TU, G + r'~Grid\(', defs=PLAIN)
def t_dtor(T):
    ex = T.ex
    q, v, cs, nm = grid_with_containers(T)
    # (a grid that was never opened has no containers)
    members(T, v)
    ty = Region('cell', 'type', None, layout={})
    T.virtual(ty, 'types::Type')
    ex.put(T.st, v.p.r, v.loc('m_type')[0], 8, PtrV(ty, 0))
    g = T.st.ghost
    g['$typeFreed'] = g['$removed'] = 0
    g['$freed'] = z3.K(I, z3.IntVal(0))
    comm = v.sub('m_comm')
    size = comm['m_size']
    g['$barrier'] = 0
    ident = v['m_id']

    def c_type(ex, st, a, ins, dem):
        ex.oblige(st, 'the type is released', a[0].r is ty, 'contract')
        st.ghost['$typeFreed'] = st.ghost['$typeFreed'] + 1
        return [(st, None)]
    T.contract(r'^virtual types::Type::~Type', c_type)

    def c_cont(ex, st, a, ins, dem):
        k = cs.domain(a[0])
        cs.exists(ex, st, k)
        st.ghost['$freed'] = z3.Store(st.ghost['$freed'], mki(k), z3.Select(st.ghost['$freed'], mki(k)) + 1)
        return [(st, None)]
    T.contract(r'^virtual grid::Container::~Container', c_cont)

    def c_remove(ex, st, a, ins, dem):
        ex.oblige(st, 'the handle of the grid is removed', EQ2(ex.sv(st, a[1]), ident), 'contract')
        st.ghost['$removed'] = st.ghost['$removed'] + 1
        return [(st, None)]
    T.contract(r'^fortran::PointerArray<grid::Grid>::remove\(', c_remove)

    def c_barrier(ex, st, a, ins, dem):
        ex.oblige(st, 'the processes of the grid are synchronised before anything is released', AND(a[0].r is v.p.r, EQ2(a[0].off, v.loc('m_comm')[0]), EQ2(st.ghost['$typeFreed'], 0)), 'contract')
        st.ghost['$barrier'] = st.ghost['$barrier'] + 1
        return [(st, IntV(32, 0))]
    T.contract(r'^mpi::MPIComm::barrier\(', c_barrier)
    j = z3.Int('domain_j')
    T.assume(j >= 0, j < cs.n0)
    progress(T, cs, lambda s, o, k: z3.Select(s.ghost['$freed'], j) == z3.If(mkb(j * k < o), z3.IntVal(1), z3.IntVal(0)))
    for st, ret in T.run([v.p]):
        g = st.ghost
        T.ensure(st, 'every container is released exactly once', z3.Select(g['$freed'], j) == 1)
        T.ensure(st, 'the type is released exactly once', EQ2(g['$typeFreed'], 1))
        T.ensure(st, 'the handle is released exactly once', EQ2(g['$removed'], 1))
        T.ensure(st, 'other processes are waited for', z3.Implies(mkb(size > 1), mkb(EQ2(g['$barrier'], 1))))


TYPE = ['unsigned char', 'int', 'long', 'float', 'double']


@task('Grid::Grid(type)', ['C13', 'C16'], TU, G + r'Grid\(asagi::Grid::Type, bool\)', defs=PLAIN)
def t_ctor(T):
    ex = T.ex
    q = Params(T)
    v = q.v
    members(T, v)
    T.contract(r'^asagi::Grid::Grid\(\)$', lambda ex, st, a, ins, dem: [(st, None)])
    ty = T.int('type', 32, hi=4)
    arr = z3.Bool('isArray')
    ident = T.int('handle', 32, signed=True)
    T.st.ghost['$added'] = 0

    def c_add(ex, st, a, ins, dem):
        ex.oblige(st, 'the handle names this grid', AND(a[1].r is v.p.r, EQ2(a[1].off, 0)), 'contract')
        st.ghost['$added'] = st.ghost['$added'] + 1
        return [(st, ident)]
    T.contract(r'^fortran::PointerArray<grid::Grid>::add\(', c_add)

    def c_type(ex, st, a, ins, dem):
        st.ghost[('$class', a[0].r)] = intern(dem.split('::~')[0].rsplit('::', 1)[0] if False else dem[:dem.rindex('::')])
        return [(st, None)]
    T.contract(r'^types::(ArrayType|BasicType)<[a-z ]+>::(ArrayType|BasicType)\(\)$', c_type)
    ex.merge_on = False
    want = z3.IntVal(0)
    for i, t in enumerate(TYPE):
        for k, a in (('ArrayType', True), ('BasicType', False)):
            want = z3.If(z3.And(ty.t == i, arr == a), z3.IntVal(intern('types::%s<%s>' % (k, t))), want)
    for st, ret in T.run([v.p, ty, BoolV(arr)]):
        w = v.at(st)
        p = w['m_type']
        T.ensure(st, 'the type of the values is the requested one', isinstance(p, PtrV) and p.r is not None and mkb(EQ2(st.ghost.get(('$class', p.r), 0), want)))
        T.ensure(st, 'the grid has one handle', AND(EQ2(st.ghost['$added'], 1), EQ2(w['m_id'], ident.t)))


@task('Grid::Grid(struct)', ['C13', 'C16'], TU, G + r'Grid\(unsigned int, unsigned int\*, unsigned long\*, asagi::Grid::Type\*\)', defs=PLAIN)
def t_ctor_struct(T):
    ex = T.ex
    q = Params(T)
    v = q.v
    members(T, v)
    T.contract(r'^asagi::Grid::Grid\(\)$', lambda ex, st, a, ins, dem: [(st, None)])
    n = T.int('count', 32)
    bl, ds, ty, new = (PtrV(Region('raw', x, None), 0) for x in ('blockLength', 'displacements', 'types', 'type'))
    ident = T.int('handle', 32, signed=True)
    T.st.ghost['$added'] = T.st.ghost['$made'] = 0

    def c_add(ex, st, a, ins, dem):
        ex.oblige(st, 'the handle names this grid', AND(a[1].r is v.p.r, EQ2(a[1].off, 0)), 'contract')
        st.ghost['$added'] = st.ghost['$added'] + 1
        return [(st, ident)]
    T.contract(r'^fortran::PointerArray<grid::Grid>::add\(', c_add)

    def c_make(ex, st, a, ins, dem):
        ex.oblige(st, 'the number of blocks', EQ2(ex.u(st, a[0]), n.t), 'contract')
        for x, y in zip(a[1:4], (bl, ds, ty)):
            ex.oblige(st, 'the %s are passed on' % y.r.name, isinstance(x, PtrV) and x.r is y.r and EQ2(x.off, 0), 'contract')
        st.ghost['$made'] = st.ghost['$made'] + 1
        return [(st, new)]
    T.contract(r'^types::createStruct\(', c_make)
    for st, ret in T.run([v.p, n, bl, ds, ty]):
        w = v.at(st)
        p = w['m_type']
        T.ensure(st, 'the type of the values is the described struct', isinstance(p, PtrV) and p.r is new.r and EQ2(st.ghost['$made'], 1))
        T.ensure(st, 'the grid has one handle', AND(EQ2(st.ghost['$added'], 1), EQ2(w['m_id'], ident.t)))

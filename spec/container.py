"""SimpleContainer: levels are independent, every operation acts on the level it names."""
from vcgen.api import *
from vcgen.sym import cls, val
from spec.common import *

TU = 'container'
C = r'^(virtual )?(void )?grid::SimpleContainer<VerifLevel, VerifType>::'
S = 64


class Cont:
    def __init__(self, T):
        self.T = T
        v = self.v = T.obj('grid::SimpleContainer<VerifLevel, VerifType>')
        self.comm, self.numa = T.obj('mpi::MPIComm', 'comm'), T.obj('numa::Numa', 'numa')
        self.type = T.obj('VerifType', 'type')
        v.set('m_comm', self.comm.p)
        v.set('m_numa', self.numa.p)
        v.set('m_type', self.type.p)
        self.levels = T.array('levels', [S], [None])
        self.n = T.int('levels', 64)
        T.assume(self.n.t < 1 << 31)
        T.st.ghost['$n'] = self.n.t
        T.st.ghost['$calls'] = ()
        self.level = T.int('level', 32)
        T.assume(self.level.t < (1 << 31) - 1)
        self.deque()

    def mylevels(self, p):
        return isinstance(p, PtrV) and p.r is self.v.p.r and isc(p.off) and p.off == self.v.loc('m_levels')[0]

    def deque(self):
        """std::deque: growing it does not move or copy its elements (assumed); std::vector does."""
        T = self.T
        D = r'^std::(deque|vector)<VerifLevel, std::allocator<VerifLevel>>::'

        def only(ex, st, p):
            if not self.mylevels(p):
                raise Unsupported('another container of levels')

        def size(ex, st, a, ins, dem):
            only(ex, st, a[0])
            t = st.ghost['$n']
            return [(st, IntV(64, t, 0, (1 << 32)))]
        T.contract(D + r'size\(\) const$', size)

        def empty(ex, st, a, ins, dem):
            only(ex, st, a[0])
            return [(st, BoolV(EQ2(st.ghost['$n'], 0)))]
        T.contract(D + r'empty\(\) const$', empty)

        def grow(ex, st, n, proto, dem):
            old = st.ghost['$n']
            ex.oblige(st, 'no level is removed', mkb(n >= old), 'contract')
            if dem.startswith('std::vector'):
                ex.oblige(st, 'open levels are not copied', EQ2(old, 0), 'contract')
            ok = False
            if proto is not None and isinstance(proto, PtrV):
                ok = st.ghost.get(('$level', proto.r)) == 'mine'
            ex.oblige(st, 'new levels belong to this container', ok, 'contract')
            st.ghost['$n'] = n
            return [(st, None)]

        def resize(ex, st, a, ins, dem):
            only(ex, st, a[0])
            return grow(ex, st, ex.u(st, a[1]), a[2], dem)
        T.contract(D + r'resize\(unsigned long, VerifLevel const&\)', resize)

        def push(ex, st, a, ins, dem):
            only(ex, st, a[0])
            return grow(ex, st, st.ghost['$n'] + 1, a[1], dem)
        T.contract(D + r'push_back\(VerifLevel( const)?&&?\)', push)

        def at(ex, st, a, ins, dem):
            only(ex, st, a[0])
            i = ex.u(st, a[1])
            ex.oblige(st, 'the level exists', AND(i >= 0, mkb(LTt(i, st.ghost['$n']))), 'bounds')
            return [(st, PtrV(self.levels, i * S))]
        T.contract(D + r'(operator\[\]|at)\(unsigned long\)( const)?$', at)

        def end(ex, st, a, ins, dem):
            only(ex, st, a[0])
            n = st.ghost['$n']
            ex.oblige(st, 'the level exists', n >= 1, 'bounds')
            return [(st, PtrV(self.levels, 0 if '::front' in dem else (n - 1) * S))]
        T.contract(D + r'(front|back)\(\)( const)?$', end)

        def ctor(ex, st, a, ins, dem):
            ok = isinstance(a[1], PtrV) and a[1].r is self.comm.p.r and a[2].r is self.numa.p.r and a[3].r is self.type.p.r
            st.ghost[('$level', a[0].r)] = 'mine' if ok else 'other'
            return [(st, None)]
        T.contract(r'^VerifLevel::VerifLevel\(mpi::MPIComm const&', ctor)

        def dtor(ex, st, a, ins, dem):
            ex.oblige(st, 'no open level is destroyed', a[0].r is not self.levels, 'contract')
            st.ghost.pop(('$level', a[0].r), None)
            return [(st, None)]
        T.contract(r'^VerifLevel::~VerifLevel\(\)$', dtor)
        for f in ('copy', 'assign'):
            def cp(ex, st, a, ins, dem):
                ex.oblige(st, 'levels are not copied', a[0].r is not self.levels and a[1].r is not self.levels, 'contract')
                st.ghost[('$level', a[0].r)] = st.ghost.get(('$level', a[1].r))
                return [(st, a[0] if 'operator' in dem else None)]
            T.contract(r'^VerifLevel::VerifLevel\(VerifLevel const&\)$' if f == 'copy' else r'^VerifLevel::operator=\(', cp)

    def which(self, ex, st, p, i, what):
        ex.oblige(st, '%s of the level that is named' % what, AND(p.r is self.levels, EQ2(p.off, lit(i) * S) if p.r is self.levels else False), 'contract')


def same(ex, st, a, b):
    if isinstance(a, PtrV):
        return a.r is b.r and a.off == b.off if isc(a.off) and isc(b.off) else a.r is b.r and EQ2(a.off, b.off)
    return EQ2(ex.u(st, a), ex.u(st, b))


def opaque(name):
    return PtrV(Region('cell', name, None, layout={}), 0)


@task('SimpleContainer::init', ['C02', 'C23', 'C24'], TU, C + r'init\(', defs=('mpi',))
def t_init(T):
    c = Cont(T)
    v = c.v
    fn, vn, bs = opaque('filename'), opaque('varname'), opaque('blockSize')
    cs, hs = T.int('cacheSize', 32), T.int('cacheHandSpread', 32, signed=True)
    td, vp = v.val('m_timeDimension'), v.val('m_valuePos')
    dims = T.int('dims', 32, hi=4)
    e = T.int('err', 32, hi=20)

    def c_open(ex, st, a, ins, dem):
        c.which(ex, st, a[0], c.level.t, 'open')
        for nm, x, y in (('the file', a[1], fn), ('the variable', a[2], vn), ('the block sizes', a[3], bs), ('the time dimension', a[4], td),
                         ('the cache size', a[5], cs), ('the hand spread', a[6], hs), ('the value position', a[7], vp)):
            ex.oblige(st, 'open gets %s' % nm, same(ex, st, x, y), 'contract')
        st.ghost['$calls'] += ('open',)
        return [(st, e)]
    T.contract(r'^VerifLevel::open\(', c_open)

    def c_dims(ex, st, a, ins, dem):
        c.which(ex, st, a[0], 0, 'dimensions')
        ex.oblige(st, 'asked after open', 'open' in st.ghost['$calls'], 'contract')
        return [(st, dims)]
    T.contract(r'^VerifLevel::dimensions\(\) const', c_dims)
    F = {f: z3.Function('level0_' + f, I, FSORT['d']) for f in ('min', 'max')}
    for f in F:
        def c_m(ex, st, a, ins, dem, f=f):
            c.which(ex, st, a[0], 0, f)
            ex.oblige(st, 'asked after open', 'open' in st.ghost['$calls'], 'contract')
            i = ex.u(st, a[1])
            ex.oblige(st, 'the dimension exists', mkb(LTt(i, dims.t)), 'contract')
            r = FV('d', F[f](mki(i)))
            ex.ffacts(st, r)
            return [(st, r)]
        T.contract(r'^VerifLevel::%s\(unsigned int\) const' % f, c_m)
    for st, ret in T.run([v.p, fn, vn, bs, cs, hs, c.level]):
        q = v.at(st)
        lvl, n = c.level.t, c.n.t
        T.ensure(st, 'the level is opened exactly once', st.ghost['$calls'] == ('open',))
        T.ensure(st, 'the result of open is returned', EQ2(T.ex.u(st, ret), e.t))
        T.ensure(st, 'the container has all levels up to the opened one', AND(EQ2(st.ghost['$n'], z3.If(lvl + 1 > n, lvl + 1, n))))
        ok = z3.And(lvl == 0, e.t == 0)
        T.ensure(st, 'dimensions of the grid are those of level 0', z3.Implies(ok, EQ2(q['m_dimensions'], dims.t)))
        T.ensure(st, 'dimensions are otherwise unchanged', z3.Implies(lvl != 0, EQ2(q['m_dimensions'], v['m_dimensions'])))
        for i in range(4):
            for f in ('min', 'max'):
                a, b = q['m_%s[%d]' % (f, i)].t, v['m_%s[%d]' % (f, i)].t
                T.ensure(st, '%s %d of the grid is that of level 0' % (f, i), z3.Implies(z3.And(ok, i < dims.t), a == F[f](z3.IntVal(i))))
                T.ensure(st, '%s %d is not changed by another level' % (f, i), z3.Implies(lvl != 0, a == b))
        T.frame(st, [(v.p.r, v.loc('m_dimensions')[0], 4), (v.p.r, v.loc('m_min')[0], 32), (v.p.r, v.loc('m_max')[0], 32)])


KINDS = [('Byte', 'unsigned char'), ('Int', 'int'), ('Long', 'long'), ('Float', 'float'), ('Double', 'double'), ('Buf', 'void')]


def reg_get(N, ty):
    @task('SimpleContainer::get%s' % N, ['C23', 'C13'], TU, C + r'get%s\(' % N, defs=('mpi',))
    def t_get(T):
        c = Cont(T)
        buf, pos = opaque('buf'), opaque('pos')
        T.assume(c.level.t < c.n.t)

        def c_get(ex, st, a, ins, dem):
            c.which(ex, st, a[0], c.level.t, 'lookup')
            ex.oblige(st, 'the lookup has the requested type', ('getAt<%s>' % ty) in dem, 'contract')
            ex.oblige(st, 'the lookup gets buffer and position', AND(same(ex, st, a[1], buf), same(ex, st, a[2], pos)), 'contract')
            st.ghost['$calls'] += ('get',)
            return [(st, None)]
        T.contract(r'^void VerifLevel::getAt<', c_get)
        for st, ret in T.run([c.v.p, buf, pos, c.level]):
            T.ensure(st, 'one lookup', st.ghost['$calls'] == ('get',))
            T.frame(st, [])


for _k in KINDS:
    reg_get(*_k)


@task('SimpleContainer::getDelta', ['C02', 'C23'], TU, C + r'getDelta\(', defs=('mpi',))
def t_delta(T):
    c = Cont(T)
    n = T.int('n', 32, hi=3)
    T.assume(c.level.t < c.n.t)
    d = T.dbl('delta')

    def c_delta(ex, st, a, ins, dem):
        c.which(ex, st, a[0], c.level.t, 'delta')
        ex.oblige(st, 'of the dimension', EQ2(ex.u(st, a[1]), n.t), 'contract')
        return [(st, d)]
    T.contract(r'^VerifLevel::delta\(unsigned int\) const', c_delta)
    for st, ret in T.run([c.v.p, n, c.level]):
        T.ensure(st, 'the spacing of the level', ret.t == d.t)
        T.frame(st, [])


@task('SimpleContainer::getCounter', ['C15', 'C23'], TU, C + r'getCounter\(', defs=('mpi',))
def t_counter(T):
    c = Cont(T)
    ty, val = T.int('type', 32), T.int('value', 64)
    T.assume(c.level.t < c.n.t)

    def c_counter(ex, st, a, ins, dem):
        c.which(ex, st, a[0], c.level.t, 'counter')
        ex.oblige(st, 'of the type', EQ2(ex.u(st, a[1]), ty.t), 'contract')
        return [(st, val)]
    T.contract(r'^VerifLevel::getCounter\(', c_counter)
    for st, ret in T.run([c.v.p, ty, c.level]):
        T.ensure(st, 'the counter of the level', EQ2(T.ex.u(st, ret), val.t))
        T.frame(st, [])

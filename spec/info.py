"""What a level and a grid report about themselves: ranges, spacing, dimensions, counters (C02, C15, C23), and the stubs of
the transfer classes that do nothing (C06, C11)."""
from vcgen.api import *
from vcgen.exec import mki
from spec.common import *
from spec.geo import Level

LV = r'^(grid::level::)?.*grid::level::Level<VerifType>::'


def reg(n):
    def one(f, field):
        @task('Level::%s (%d dimensions)' % (f, n), ['C02'], 'level', r'^grid::level::Level<VerifType>::%s\(unsigned int\) const$' % f, defs=('mpi',))
        def t(T):
            L = Level(T, n, 'grid::level::Level<VerifType>', blocks=False, comm=False)
            v = L.v
            k = T.int('dimension', 32, hi=n - 1)
            xs = [v['%s[%d]' % (field, n - 1 - i)].t for i in range(n)]
            for st, ret in T.run([v.p, k]):
                T.ensure(st, 'dimension k of the user is dimension n-1-k of the file', z3.And([z3.Implies(k.t == i, ret.t == xs[i]) for i in range(n)]))
                T.frame(st, [])
    one('min', 'm_min')
    one('max', 'm_max')
    one('delta', 'm_scaling')


for n_ in (1, 2, 3, 4):
    reg(n_)


@task('Level::getCounter', ['C15'], 'level', r'^grid::level::Level<VerifType>::getCounter\(', defs=('mpi',))
def t_counter(T):
    v = T.obj('grid::level::Level<VerifType>')
    k = T.int('type', 32, hi=7)
    x = T.int('value', 64)

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the counters of this level', AND(a[0].r is v.p.r, EQ2(a[0].off, v.loc('m_counter')[0]), EQ2(ex.u(st, a[1]), k.t)), 'contract')
        return [(st, x)]
    T.contract(r'^perf::Counter::get\(', c)
    for st, ret in T.run([v.p, k]):
        T.ensure(st, 'the value of the counter', EQ2(T.ex.u(st, ret), x.t))
        T.frame(st, [])


@task('Level::dimensions', ['C02'], 'level', r'^grid::level::Level<VerifType>::dimensions\(\) const$', defs=('mpi',))
def t_dims(T):
    v = T.obj('grid::level::Level<VerifType>')
    for st, ret in T.run([v.p]):
        T.ensure(st, 'the number of dimensions', EQ2(T.ex.u(st, ret), v['m_dims']))
        T.frame(st, [])


@task('NetCdfReader::dimensions', ['C02', 'C14'], 'level', r'^io::NetCdfReader::dimensions\(\) const$', defs=('mpi',))
def t_rdims(T):
    v = T.obj('io::NetCdfReader')
    for st, ret in T.run([v.p]):
        T.ensure(st, 'the number of dimensions', EQ2(T.ex.sv(st, ret), v['m_dimensions']))
        T.frame(st, [])


@task('Container::getDimensions', ['C02', 'C23'], 'container', r'^grid::Container::getDimensions\(\) const$', defs=('mpi',))
def t_cdims(T):
    v = T.obj('grid::Container')
    for st, ret in T.run([v.p]):
        T.ensure(st, 'the number of dimensions', EQ2(T.ex.u(st, ret), v['m_dimensions']))
        T.frame(st, [])


def creg(f, field):
    @task('Container::%s' % f, ['C02', 'C23'], 'container', r'^grid::Container::%s\(unsigned int\) const$' % f, defs=('mpi',))
    def t(T):
        v = T.obj('grid::Container')
        k = T.int('dimension', 32, hi=3)
        xs = [v['%s[%d]' % (field, i)].t for i in range(4)]
        for st, ret in T.run([v.p, k]):
            T.ensure(st, 'the range of the dimension', z3.And([z3.Implies(k.t == i, ret.t == xs[i]) for i in range(4)]))
            T.frame(st, [])


creg('getMin', 'm_min')
creg('getMax', 'm_max')


@task('SimpleContainer::SimpleContainer', ['C23', 'C24'], 'container', r'^grid::SimpleContainer<VerifLevel, VerifType>::SimpleContainer\(', defs=('mpi',))
def t_cctor(T):
    v = T.obj('grid::SimpleContainer<VerifLevel, VerifType>')
    comm, numa, ty = T.obj('mpi::MPIComm', 'comm'), T.obj('numa::Numa', 'numa'), T.obj('VerifType', 'type')
    td, vp = T.int('timeDimension', 32, signed=True), T.int('valuePosition', 32, hi=1)
    T.contract(r'^std::(vector|map|deque)<.*>::~?(vector|map|deque)\(\)$', lambda ex, st, a, ins, dem: [(st, None)])
    for st, ret in T.run([v.p, comm.p, numa.p, ty.p, td, vp]):
        q = v.at(st)
        same = lambda f, p: (lambda x: isinstance(x, PtrV) and x.r is p.r and EQ2(x.off, p.off))(q.val(f))
        T.ensure(st, 'communicator, domains and type of the grid', AND(same('m_comm', comm.p), same('m_numa', numa.p), same('m_type', ty.p)))
        T.ensure(st, 'the time dimension', EQ2(q['m_timeDimension'], T.ex.sv(st, td)))
        T.ensure(st, 'the position of the values', EQ2(q['m_valuePos'], vp.t))
        T.ensure(st, 'no level is open', EQ2(q['m_dimensions'], 0))


for f_, p_ in (('comm', 'm_comm'), ('numa', 'm_numa'), ('timeDimension', 'm_timeDimension'), ('valuePosition', 'm_valuePos')):
    @task('Container::%s' % f_, ['C24'], 'container', r'^grid::Container::%s\(\)( const)?$' % f_, defs=('mpi',))
    def t_acc(T, p_=p_):
        v = T.obj('grid::Container')
        for st, ret in T.run([v.p]):
            x = v.val(p_)
            T.ensure(st, 'the value of the grid', ret.r is x.r and EQ2(ret.off, x.off) if isinstance(x, PtrV) else EQ2(T.ex.u(st, ret), T.ex.u(st, x)))
            T.frame(st, [])


# ------------------------------------------------------------------ transfer classes that do nothing
def stub(cls, fn, sig, props, want=None):
    @task('%s::%s (%s)' % (cls, fn, sig), props, 'transfer', r'^transfer::%s::%s\(%s\)' % (cls, fn, re.escape(sig)), defs=('mpi', '-DUSE_MPI3'))
    def t(T):
        args = [T.obj('transfer::' + cls).p]
        for k, ty in enumerate(sig.split(', ')):
            if ty.endswith(('*', '&')):
                args.append(PtrV(Region('raw', 'argument %d' % k, None), 0))
            else:
                args.append(T.int('argument%d' % k, 64 if 'long' in ty else 32, signed='unsigned' not in ty))
        for st, ret in T.run(args):
            if want == 'ok':
                T.ensure(st, 'success', EQ2(T.ex.u(st, ret), 0))
            elif want == 'false':
                T.ensure(st, 'nothing is copied', NOT(T.ex.tobool(ret)))
            elif want == 'none':
                T.ensure(st, 'no copy is known', T.ex.sv(st, ret) < 0)
            T.frame(st, [])


TAIL = 'unsigned long, unsigned long, types::Type const&, mpi::MPIComm const&, numa::NumaComm const&'
stub('NumaNo', 'init', 'unsigned long, types::Type const&, numa::NumaComm&, cache::CacheManager&', ['C11'], 'ok')
stub('NumaNo', 'init', 'unsigned char const*, ' + TAIL + ', cache::CacheManager&', ['C06'], 'ok')
stub('MPINo', 'init', 'unsigned char*, ' + TAIL, ['C06'], 'ok')
stub('MPINo', 'init', 'unsigned char*, unsigned int, cache::CacheManager const&, ' + TAIL, ['C11'], 'ok')
stub('NumaNo', 'transfer', 'unsigned long, int, unsigned int, unsigned long, unsigned char*', ['C06'], 'false')
stub('MPINo', 'startTransfer', 'unsigned long, int, unsigned long, unsigned long', ['C11'], 'none')
for f_ in ('endTransfer', 'addBlock'):
    stub('MPINo', f_, 'unsigned long, int, unsigned long, unsigned long', ['C11'])
stub('MPINo', 'deleteBlock', 'long, int, unsigned long, unsigned long', ['C11'])

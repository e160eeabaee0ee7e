"""C and Fortran interfaces (C16), the node-local rank (C22)."""
from vcgen.api import *
from vcgen.exec import mki
from spec.common import *
from spec.types import handle

TU = 'capi'

# name of the function without prefix: (virtual function, parameters, order of the arguments of the virtual function)
# h: handle of the grid, u: unsigned number, p: pointer, i: number
FWD = {
    'set_comm': ('setComm', 'hc', (1,), 'v'),
    'set_threads': ('setThreads', 'hu', (1,), 'v'),
    'set_param': ('setParam', 'hppu', (1, 2, 3), 'v'),
    'open': ('open', 'hpu', (1, 2), 'e'),
    'dimensions': ('getDimensions', 'h', (), 'u'),
    'min': ('getMin', 'hu', (1,), 'd'),
    'max': ('getMax', 'hu', (1,), 'd'),
    'delta': ('getDelta', 'huu', (1, 2), 'd'),
    'var_size': ('getVarSize', 'h', (), 'u'),
    'get_byte': ('getByte', 'hpu', (1, 2), 'b'),
    'get_int': ('getInt', 'hpu', (1, 2), 'i'),
    'get_long': ('getLong', 'hpu', (1, 2), 'l'),
    'get_float': ('getFloat', 'hpu', (1, 2), 'f'),
    'get_double': ('getDouble', 'hpu', (1, 2), 'd'),
    'get_buf': ('getBuf', 'hppu', (1, 2, 3), 'v'),
    'close': ('~Grid', 'h', (), 'v'),
}
RET = {'u': (32, False), 'e': (32, True), 'i': (32, True), 'l': (64, True), 'b': (8, False)}


def result(T, k):
    if k == 'v':
        return None
    if k in 'df':
        return T.dbl('result', k)
    return T.int('result', RET[k][0], signed=RET[k][1])


def same(T, st, a, b):
    """Two values are the same."""
    ex = T.ex
    if b is None:
        return True
    if isinstance(b, PtrV):
        return isinstance(a, PtrV) and a.r is b.r and EQ2(a.off, b.off)
    if isinstance(b, FV):
        return isinstance(a, FV) and a.k == b.k and EQ2(a.t, b.t)
    return isinstance(a, IntV) and a.w == b.w and EQ2(ex.u(st, a), ex.u(st, b))


def f2c_contract(T, ident, g):
    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the handle of the caller', same(T, st, a[0], ident), 'contract')
        return [(st, g)]
    T.contract(r'^grid::Grid::f2c\(', c)


def comm_f2c(T, want):
    """MPI_Comm_f2c (assumed): the communicator a Fortran handle names."""
    c_ = handle('communicator')

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the communicator of the caller', same(T, st, a[0], want), 'contract')
        return [(st, c_)]
    T.contract(r'^(P?MPI_Comm_f2c)$', c)
    return c_


def reg_forward(nm, f90):
    virt, kinds, order, rk = FWD[nm]
    fn = ('f90asagi_grid_' if f90 else 'asagi_grid_') + nm

    @task(fn, ['C16'], TU, '^%s$' % fn, defs=('mpi',))
    def t_fwd(T):
        ex = T.ex
        g = Region('cell', 'grid', None, layout={})
        cls_ = 'grid::Grid' if f90 else 'asagi::Grid'
        T.virtual(g, cls_)
        args, want = [], []
        for i, k in enumerate(kinds):
            if k == 'h':
                a = T.int('handle', 32, signed=True) if f90 else PtrV(g, 0)
                w = a
                if f90:
                    f2c_contract(T, a, PtrV(g, 0))
            elif k == 'p':
                a = w = handle('argument %d' % i)
            elif k == 'c':
                a = T.int('communicator', 32, signed=True) if f90 else handle('communicator')
                w = comm_f2c(T, a) if f90 else a
            else:
                a = w = T.int('argument%d' % i, 32)
            args.append(a)
            want.append(w)
        r = result(T, rk)
        T.st.ghost['$calls'] = 0

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'the operation of the interface', dem in ('virtual %s::%s' % (cls_, virt), 'virtual %s::%s (deleting)' % (cls_, virt)), 'contract')
            ex.oblige(st, 'the grid of the handle', a[0].r is g and EQ2(a[0].off, 0), 'contract')
            for i, k in enumerate(order):
                ex.oblige(st, 'argument %d' % (i + 1), len(a) > i + 1 and same(T, st, a[i + 1], want[k]), 'contract')
            st.ghost['$calls'] = st.ghost['$calls'] + 1
            return [(st, r)]
        T.contract(r'^virtual ', c)
        for st, ret in T.run(args):
            T.ensure(st, 'one operation', EQ2(st.ghost['$calls'], 1))
            T.ensure(st, 'its result', same(T, st, ret, r))
            T.frame(st, [])


for _n in FWD:
    reg_forward(_n, False)
    reg_forward(_n, True)


def reg_create(nm, f90):
    fn = ('f90asagi_grid_' if f90 else 'asagi_grid_') + nm

    @task(fn, ['C13', 'C16'], TU, '^%s$' % fn, defs=('mpi',))
    def t_create(T):
        ex = T.ex
        if nm == 'create_struct':
            args = [T.int('count', 32, lo=1)] + [handle(x) for x in ('lengths', 'displacements', 'types')]
            want = args
        else:
            args = [T.int('type', 32, hi=4)]
            want = args + [BoolV(nm == 'create_array')]
        di = T.mod.di()
        ident = T.int('handle', 32, signed=True)
        T.st.ghost['$made'] = 0

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'the constructor for these arguments', ('unsigned int' in dem) == (nm == 'create_struct') and len(a) == len(want) + 1, 'contract')
            for i, (x, y) in enumerate(zip(a[1:], want)):
                if isinstance(y, BoolV):
                    ok = EQ2(ex.tobool(x), y.b) if not isinstance(ex.tobool(x), bool) else ex.tobool(x) == y.b
                else:
                    ok = same(T, st, x, y)
                ex.oblige(st, 'argument %d' % (i + 1), ok, 'contract')
            st.ghost['$made'] = st.ghost['$made'] + 1
            st.ghost['$grid'] = a[0]
            v = View(ex, st, a[0], '!%d' % di.record('grid::Grid'))
            v.set('m_id', ident.t)
            return [(st, None)]
        T.contract(r'^grid::Grid::Grid\(', c)
        for st, ret in T.run(args):
            T.ensure(st, 'one grid', EQ2(st.ghost['$made'], 1))
            g = st.ghost['$grid']
            T.ensure(st, 'a new object', g.r.heap and EQ2(g.off, 0))
            if f90:
                T.ensure(st, 'the handle of the grid', same(T, st, ret, ident))
            else:
                T.ensure(st, 'the grid', same(T, st, ret, g))


for _n in ('create', 'create_array', 'create_struct'):
    reg_create(_n, False)
    reg_create(_n, True)


@task('Grid::c2f', ['C16'], TU, r'^grid::Grid::c2f\(\) const$', defs=('mpi',))
def t_c2f(T):
    v = T.obj('grid::Grid')
    for st, ret in T.run([v.p]):
        T.ensure(st, 'the handle of the grid', EQ2(T.ex.sv(st, ret), v['m_id']))
        T.frame(st, [])


@task('Grid::f2c', ['C16'], TU, r'^grid::Grid::f2c\(', defs=('mpi',))
def t_f2c(T):
    g = handle('grid')
    i = T.int('handle', 32, signed=True)
    tab = [n for n in T.mod.globals if 'm_pointers' in n and 'Grid' in n]

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the table of grids', len(tab) == 1 and a[0].r is ex.global_region(tab[0]), 'contract')
        ex.oblige(st, 'the handle', same(T, st, a[1], i), 'contract')
        return [(st, g)]
    T.contract(r'^fortran::PointerArray<grid::Grid>::get\(', c)
    for st, ret in T.run([i]):
        T.ensure(st, 'the grid of the handle', same(T, st, ret, g))
        T.frame(st, [])


# ------------------------------------------------------ communication thread
def reg_comm_thread(f90):
    pre = 'f90asagi_' if f90 else 'asagi_'

    def thread(ex, a):
        n = [x for x in T_mod(ex).globals if x.endswith('CommThread10commThreadE')]
        return len(n) == 1 and a.r is ex.global_region(n[0]) and EQ2(a.off, 0)

    def T_mod(ex):
        return ex.m

    @task(pre + 'start_comm_thread', ['C16', 'C20'], TU, '^%sstart_comm_thread$' % pre, defs=('mpi',))
    def t_start(T):
        cpu = T.int('cpu', 32, signed=True)
        comm = T.int('comm', 32, signed=True) if f90 else handle('communicator')
        want = comm_f2c(T, comm) if f90 else comm
        r = T.int('result', 32, signed=True)
        T.st.ghost['$calls'] = 0

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'the communication thread', thread(ex, a[0]), 'contract')
            ex.oblige(st, 'the cpu', same(T, st, a[1], cpu), 'contract')
            ex.oblige(st, 'the communicator', same(T, st, a[2], want), 'contract')
            st.ghost['$calls'] = st.ghost['$calls'] + 1
            return [(st, r)]
        T.contract(r'^mpi::CommThread::init\(', c)
        for st, ret in T.run([cpu, comm]):
            T.ensure(st, 'started once', EQ2(st.ghost['$calls'], 1))
            T.ensure(st, 'its result', same(T, st, ret, r))

    @task(pre + 'stop_comm_thread', ['C16', 'C20'], TU, '^%sstop_comm_thread$' % pre, defs=('mpi',))
    def t_stop(T):
        T.st.ghost['$calls'] = 0

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'the communication thread', thread(ex, a[0]), 'contract')
            st.ghost['$calls'] = st.ghost['$calls'] + 1
            return [(st, None)]
        T.contract(r'^mpi::CommThread::fini\w+\(', c)
        for st, ret in T.run([]):
            T.ensure(st, 'stopped once', EQ2(st.ghost['$calls'], 1))

    @task(pre + 'node_local_rank', ['C16', 'C22'], TU, '^%snode_local_rank$' % pre, defs=('mpi',))
    def t_rank(T):
        comm = T.int('comm', 32, signed=True) if f90 else handle('communicator')
        want = comm_f2c(T, comm) if f90 else comm
        r = T.int('result', 32, signed=True)
        T.st.ghost['$calls'] = 0

        def c(ex, st, a, ins, dem):
            ex.oblige(st, 'the communicator', same(T, st, a[0], want), 'contract')
            st.ghost['$calls'] = st.ghost['$calls'] + 1
            return [(st, r)]
        T.contract(r'^asagi::Grid::nodeLocalRank\(', c)
        for st, ret in T.run([comm]):
            T.ensure(st, 'called once', EQ2(st.ghost['$calls'], 1))
            T.ensure(st, 'its result', same(T, st, ret, r))


reg_comm_thread(False)
reg_comm_thread(True)


# ----------------------------------------------------------- node-local rank
@task('nodeLocalRank', ['C22'], TU, r'^asagi::Grid::nodeLocalRank\(', defs=('mpi',))
def t_nlr(T):
    """Process me of P; NAME(r): the name of the node of process r; the value of MPI_Comm_split's colour is a function
    of the name, so processes of one node are in one group. COUNT(x): processes below x on the node of me."""
    ex, st0 = T.ex, T.st
    comm, node = handle('communicator'), handle('node communicator')
    P, me = T.int('P', 32, lo=1, hi=(1 << 31) - 1).t, T.int('me', 32).t
    T.assume(me < P)
    NAME, COUNT, HASH = z3.Function('NAME', I, I), z3.Function('COUNT', I, I), z3.Function('COLOUR', I, I)
    B_, S1, S2 = z3.Function('byte', I, I), z3.Function('s1', I, I), z3.Function('s2', I, I)
    mine = NAME(me)
    j = z3.Int('j')
    hit = lambda r: z3.If(NAME(r) == mine, z3.IntVal(1), z3.IntVal(0))
    T.assume(COUNT(0) == 0, z3.ForAll([j], z3.Implies(j >= 0, COUNT(j + 1) == COUNT(j) + hit(j)), patterns=[COUNT(j + 1)]))
    # the group: members in the order of their ranks
    n, k = T.int('nodeSize', 32, lo=1, hi=(1 << 31) - 1).t, T.int('nodeRank', 32).t
    T.assume(k < n, n <= P)
    G, CG = z3.Function('member', I, I), z3.Function('COUNT_member', I, I)
    # lemma (induction): ranks that are not on the node are not counted
    a, b = z3.Int('from'), z3.Int('to')
    lem = lambda x, y: z3.Implies(z3.And(x >= 0, x <= y, z3.ForAll([j], z3.Implies(z3.And(j >= x, j < y), NAME(j) != mine))), COUNT(y) == COUNT(x))
    s = st0.fork()
    T.ensure(s, 'lemma, no ranks', lem(a, a))
    s = st0.fork()
    s.assume(AND(a >= 0, a <= b))
    s.assume(lem(a, b))
    s.assume(COUNT(b + 1) == COUNT(b) + hit(b))
    T.ensure(s, 'lemma, one more rank', lem(a, b + 1))
    # members: G is increasing, its values are exactly the ranks of the colour of me
    T.assume(G(k) == me, CG(k) == COUNT(me))

    def between(st, x, lo, hi, nm):
        """Ranks in [lo, hi) between two members have another colour."""
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), HASH(NAME(j)) != HASH(mine))))
    s = st0.fork()
    x = z3.Int('x')
    s.assume(AND(x >= 0, x + 1 < n, G(x) >= 0, G(x + 1) > G(x), G(x + 1) < P))
    between(s, x, G(x) + 1, G(x + 1), 'next')
    s.assume(lem(G(x) + 1, G(x + 1)))
    s.assume(COUNT(G(x) + 1) == COUNT(G(x)) + hit(G(x)))
    T.ensure(s, 'lemma, counting over the members', COUNT(G(x + 1)) == COUNT(G(x)) + hit(G(x)))
    s = st0.fork()
    s.assume(G(0) >= 0)
    between(s, 0, 0, G(0), 'first')
    s.assume(lem(0, G(0)))
    T.ensure(s, 'lemma, first member', COUNT(G(0)) == 0)
    s = st0.fork()
    s.assume(AND(CG(x) >= 0, CG(x) <= x, CG(x + 1) == CG(x) + hit(G(x))))
    T.ensure(s, 'lemma, at most one per member', AND(CG(x + 1) >= 0, CG(x + 1) <= x + 1))
    T.assume(CG(0) == 0)
    step = lambda st, x: st.assume(z3.Implies(mkb(AND(GE(x, 0), LTt(x, k))), z3.And(CG(mki(x)) >= 0, CG(mki(x)) <= x, CG(mki(x) + 1) == CG(mki(x)) + hit(G(mki(x))))))
    g = st0.ghost
    g['$split'] = g['$freed'] = g['$gathered'] = 0
    g['$name'], g['$term'], g['$len'], g['$recv'] = None, None, None, None
    ln = T.int('nameLength', 32, lo=0, hi=256)
    T.assume(S1(0) == 1, S2(0) == 0)

    def ok(st, *out):
        return [(st, IntV(32, 0))]

    def c_name(ex, st, a, ins, dem):
        nm = Region('cell', 'name', 257, layout={})
        st.ghost['$name'] = a[0].r
        ex.oblige(st, 'room for the longest name', EQ2(a[0].off, 0) if a[0].r.size == 257 else False, 'bounds')
        ex.put(st, a[1].r, a[1].off, 4, ln)
        return ok(st)
    T.contract(r'^MPI_Get_processor_name$', c_name)

    def hook(ex, st, r, off, nb, ty, v):
        if st.ghost.get('$name') is None or r is not st.ghost['$name']:
            return None
        if nb != 1:
            raise Unsupported('access to a name')
        if v is not None:
            ex.oblige(st, 'only the end of the name is marked', AND(EQ2(off, ln.t), EQ2(ex.u(st, v), 0)), 'contract')
            st.ghost['$term'] = True
            return True
        ex.oblige(st, 'a character of the name', AND(GE(off, 0), LTt(off, ln.t)), 'bounds')
        t = B_(mki(off))
        st.assume(AND(t >= 0, t <= 255))
        st.assume(z3.And(S1(mki(off) + 1) == (S1(mki(off)) + t) % 65521, S2(mki(off) + 1) == (S2(mki(off)) + S1(mki(off) + 1)) % 65521,
                         S1(mki(off)) >= 0, S2(mki(off)) >= 0, S1(mki(off)) < 65521, S2(mki(off)) < 65521))
        return IntV(8, t, 0, 255)
    ex.mem_hooks.append(hook)

    def c_rank(ex, st, a, ins, dem):
        if a[0].r is comm.r:
            v = me
        else:
            ex.oblige(st, 'a communicator', a[0].r is node.r and EQ2(st.ghost['$freed'], 0), 'contract')
            v = k
        ex.put(st, a[1].r, a[1].off, 4, IntV(32, v, 0, (1 << 31) - 1))
        return ok(st)
    T.contract(r'^MPI_Comm_rank$', c_rank)

    def c_size(ex, st, a, ins, dem):
        if a[0].r is comm.r:
            v = P
        else:
            ex.oblige(st, 'a communicator', a[0].r is node.r and EQ2(st.ghost['$freed'], 0), 'contract')
            v = n
        ex.put(st, a[1].r, a[1].off, 4, IntV(32, v, 1, (1 << 31) - 1))
        return ok(st)
    T.contract(r'^MPI_Comm_size$', c_size)

    def c_split(ex, st, a, ins, dem):
        ex.oblige(st, 'the communicator of the caller', a[0].r is comm.r, 'contract')
        col = ex.sv(st, a[1])
        ex.oblige(st, 'the colour is not negative', GE(col, 0), 'contract')
        key = ex.sv(st, a[2])
        ex.oblige(st, 'the members are in the order of their ranks', OR(EQ2(key, me), isc(key)), 'contract')
        s1, s2 = S1(ln.t), S2(ln.t)
        want = (s2 * 65536 + s1) % (1 << 31)
        r, _, _ = T.solver._run([mkb(x_) for x_ in st.pc] + [z3.Not(mkb(EQ2(col, want)))], 20000)
        if r != z3.unsat:
            raise Unsupported('the colour is not shown to be a function of the name only')
        ex.oblige(st, 'the colour is a function of the name', EQ2(col, want), 'contract')
        st.ghost['$split'] = st.ghost['$split'] + 1
        ex.put(st, a[3].r, a[3].off, 8, node)
        return ok(st)
    T.contract(r'^MPI_Comm_split$', c_split)

    def c_gather(ex, st, a, ins, dem):
        ex.oblige(st, 'the processes of the node', a[6].r is node.r, 'contract')
        ex.oblige(st, 'the name of this process', a[0].r is st.ghost['$name'] and EQ2(a[0].off, 0), 'contract')
        ex.oblige(st, 'the name has an end', st.ghost['$term'] is True, 'contract')
        ex.oblige(st, 'room for the longest name', AND(EQ2(ex.sv(st, a[1]), 257), EQ2(ex.sv(st, a[4]), 257)), 'contract')
        ch = lambda p: isinstance(p, PtrV) and p.r is not None and p.r.name == '@ompi_mpi_char'
        ex.oblige(st, 'names are sent as characters', ch(a[2]) and ch(a[5]), 'contract')
        ex.oblige(st, 'room for all names', AND(EQ2(a[3].off, 0), a[3].r.size is not None and GE(a[3].r.size, n * 257)), 'bounds')
        st.ghost['$recv'] = a[3].r
        return ok(st)
    T.contract(r'^MPI_Allgather$', c_gather)

    def c_free(ex, st, a, ins, dem):
        p = ex.load(st, a[0], PTR)
        ex.oblige(st, 'the communicator of the node is released', p.r is node.r and EQ2(st.ghost['$freed'], 0), 'contract')
        st.ghost['$freed'] = 1
        return ok(st)
    T.contract(r'^MPI_Comm_free$', c_free)

    def text(st, p):
        if p.r is st.ghost['$name']:
            ex.oblige(st, 'the whole name is compared', AND(EQ2(p.off, 0), st.ghost['$term'] is True), 'contract')
            return mine
        ex.oblige(st, 'a received name', st.ghost['$recv'] is not None and p.r is st.ghost['$recv'], 'contract')
        if p.r in st.dead:
            ex.oblige(st, 'the names are not released yet', False, 'uaf')
        if isc(p.off):
            q, rest = p.off // 257, p.off % 257
        else:
            q, rest = pdiv_mono(poly(p.off), (), 257)
            q, rest = unpoly(q), unpoly(rest)
        ex.oblige(st, 'the start of a name', AND(EQ2(rest, 0), GE(q, 0), LTt(q, n)), 'bounds')
        step(st, q)
        return NAME(G(mki(q)))

    def c_cmp(ex, st, a, ins, dem):
        x, y = text(st, a[0]), text(st, a[1])
        r = fint('compare')
        st.assume(AND((r == 0) == (x == y), r >= -(1 << 31), r < 1 << 31))
        return [(st, IntV(32, r, -(1 << 31), (1 << 31) - 1))]
    T.contract(r'^strcmp$', c_cmp)

    def c_ncmp(whole):
        def c(ex, st, a, ins, dem):
            """The first bytes of two names; memcmp goes on behind the end of a name, where anything may be."""
            x, y = text(st, a[0]), text(st, a[1])
            if x is not mine and y is not mine:
                raise Unsupported('two received names are compared')
            m = ex.u(st, a[2])
            ex.oblige(st, 'the bytes of the names', GE(257, m), 'bounds')
            r = fint('compare')
            st.assume(AND(r >= -(1 << 31), r < 1 << 31))
            st.assume(z3.Implies(mkb(AND(EQ2(r, 0), GE(m, ln.t + 1))), x == y))
            st.assume(z3.Implies(mkb(AND(x == y, GE(ln.t + 1, m) if whole else True)), mki(r) == 0))
            return [(st, IntV(32, r, -(1 << 31), (1 << 31) - 1))]
        return c
    T.contract(r'^memcmp$', c_ncmp(True))
    T.contract(r'^strncmp$', c_ncmp(False))

    def loop(ex_, f, hdr, st, h, xs):
        out = []
        loc = []
        for nm, p in st.regs.items():
            if isinstance(p, PtrV) and p.r is not None and p.r.local and isc(p.off) and p.r in st.mem:
                c = st.mem[p.r].cells.get(p.off)
                if c is not None and c[0] == 4 and isinstance(c[1], IntV):
                    loc.append((nm, lambda s, p=p: ex.sv(s, s.mem[p.r].cells[p.off][1])))
                elif c is not None and isinstance(c[1], PtrV) and c[1].r is not None and c[1].r is st.ghost.get('$name'):
                    loc.append((nm, lambda s, p=p: s.mem[p.r].cells[p.off][1].off))
        for nm, at in loc:
            out.append(('%s counts the members down' % nm, lambda s, at=at: AND(GE(at(s), -1), LTt(at(s), k))))
            for lim, w in ((k, 'members before this process'), (ln.t, 'characters')):
                out.append(('%s counts the %s' % (nm, w), lambda s, at=at, lim=lim: AND(GE(at(s), 0), GE(lim, at(s)))))
            for n2, at2 in loc:
                if n2 == nm:
                    continue
                out.append(('%s counts processes of the node before member %s' % (n2, nm), lambda s, at=at, at2=at2: EQ(CG(mki(at(s))), at2(s))))
                out.append(('%s is not more than the members behind %s' % (n2, nm), lambda s, at=at, at2=at2: AND(GE(at2(s), 0), LTt(at2(s) + at(s), k))))
                out.append(('%s is not more than the members from %s on' % (n2, nm), lambda s, at=at, at2=at2: AND(GE(at2(s), 0), GE(k, at2(s) + at(s)))))
                out.append(('%s counts processes of the node from member %s on' % (n2, nm), lambda s, at=at, at2=at2: EQ(CG(mki(k)) - CG(mki(at(s))), at2(s))))
                out.append(('%s counts processes of the node behind member %s' % (n2, nm), lambda s, at=at, at2=at2: EQ(CG(mki(k)) - CG(mki(at(s)) + 1), at2(s))))
                out.append(('%s is s1 at %s' % (n2, nm), lambda s, at=at, at2=at2: AND(EQ(S1(mki(at(s))), at2(s)), GE(at2(s), 0), LTt(at2(s), 65521))))
                out.append(('%s is s2 at %s' % (n2, nm), lambda s, at=at, at2=at2: AND(EQ(S2(mki(at(s))), at2(s)), GE(at2(s), 0), LTt(at2(s), 65521))))
        return out
    ex.loop_hooks.append(loop)
    for st, ret in T.run([comm]):
        T.ensure(st, 'the processes are grouped by node once', EQ2(st.ghost['$split'], 1))
        T.ensure(st, 'the group is released', EQ2(st.ghost['$freed'], 1))
        r = st.ghost['$recv']
        T.ensure(st, 'the names are released', r is not None and r in st.dead)
        T.ensure(st, 'the number of lower ranks on the node', EQ2(ex.sv(st, ret), COUNT(me)))
        T.frame(st, [])

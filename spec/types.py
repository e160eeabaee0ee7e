"""Types of values (C13, C12), counters (C15), table of handles (C16)."""
from vcgen.api import *
from vcgen.strings import *
from vcgen import strings
from vcgen.exec import mki
from spec.common import *

TU = 'types'
SUCCESS, MPI_ERROR = 0, 1
BASIC = {'unsigned char': ('i', 1, False), 'int': ('i', 4, True), 'long': ('i', 8, True), 'float': ('f', 4), 'double': ('d', 8)}
CLS = ('BasicType', 'ArrayType', 'StructType')
E = '^'


def stored(T, name, ty):
    """A variable of the type ty with an arbitrary value: (pointer, value)."""
    k = BASIC[ty]
    if k[0] == 'i':
        v = T.int(name, 8 * k[1], signed=k[2])
        return T.cell(name, k[1], signed=k[2], value=v), v
    v = T.dbl(name, k[0])
    return T.cell(name, k[1], kind=k[0], value=v), v


def converted(ex, st, v, a, b):
    """The C++ conversion of v of the type a to the type b."""
    A, B_ = BASIC[a], BASIC[b]
    if A[0] == 'i' and B_[0] == 'i':
        w = 8 * B_[1]
        x = v.t
        if A[1] < B_[1] or A[:3] == B_[:3]:
            return x                # all values are values of b
        q, r = ex.divmod(st, x, 1 << w)
        return ITE(r >= (1 << (w - 1)), r - (1 << w), r) if B_[2] else r
    if A[0] == 'i':
        return ex.itof(st, v.t, B_[0]).t
    if B_[0] == 'i':
        V = val[A[0]](v.t)
        return z3.If(V >= 0, z3.ToInt(V), -z3.ToInt(-V))
    if A[0] == B_[0]:
        return v.t
    op = 'fpext' if A[0] == 'f' else 'fptrunc'
    return z3.Function('%s.%s%s' % (op, A[0], B_[0]), FSORT[A[0]], FSORT[B_[0]])(v.t)


def reg_convert(c, s, b):
    @task('%s<%s>::convert<%s>' % (c, s, b), ['C13'], TU, r'^void conv<types::%s<%s>, %s>\(' % (c, s, b), defs=('mpi',))
    def t_conv(T):
        ex = T.ex
        v = T.obj('types::%s<%s>' % (c, s))
        data, x = stored(T, 'data', s)
        buf, _ = stored(T, 'buf', b)
        A, B_ = BASIC[s], BASIC[b]
        if A[0] != 'i' and B_[0] == 'i':
            # the conversion is defined for these values only
            V = val[A[0]](x.t)
            tr = z3.If(V >= 0, z3.ToInt(V), -z3.ToInt(-V))
            w = 8 * B_[1]
            lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if B_[2] else (0, 1 << w)
            T.assume(cls[A[0]](x.t) == 1, tr >= lo, tr < hi)
        want = converted(ex, T.st, x, s, b)
        for st, ret in T.run([v.p, data, buf]):
            ty = INT(8 * B_[1]) if B_[0] == 'i' else DOUBLE if B_[0] == 'd' else FLOAT
            y = ex.load(st, buf, ty)
            y = (ex.sv(st, y) if B_[2] else ex.u(st, y)) if B_[0] == 'i' else y.t
            T.ensure(st, 'the value is converted like in C++', EQ2(y, want))
            T.frame(st, [(buf.r, 0, B_[1])])


def size_of(T, v, c, s):
    """Size of one value in bytes."""
    n = BASIC[s][1]
    if c == 'BasicType':
        return n
    if c == 'ArrayType':
        T.assume(v['m_arraySize'] * n < 1 << 32)
        return v['m_arraySize'] * n
    return v['m_size']


def reg_copy(c, s):
    @task('%s<%s>::convert<void>' % (c, s), ['C13'], TU, r'^types::%s<%s>::convert\(void const\*, void\*\) const$' % (c, s), defs=('mpi',))
    def t_copy(T):
        ex = T.ex
        v = T.obj('types::%s<%s>' % (c, s))
        n = size_of(T, v, c, s)
        data = PtrV(Region('raw', 'data', None), 0)
        buf = PtrV(Region('raw', 'buf', None), 0)
        T.st.ghost['$copies'] = 0

        def copy(ex, st, d, src, k):
            ex.oblige(st, 'the value is copied to the buffer', d.r is buf.r and src.r is data.r and AND(EQ2(d.off, 0), EQ2(src.off, 0)), 'contract')
            ex.oblige(st, 'exactly the bytes of one value', EQ2(k, n), 'contract')
            st.ghost['$copies'] = st.ghost['$copies'] + 1
            return True
        ex.memcpy_hooks.append(copy)
        for st, ret in T.run([v.p, data, buf]):
            T.ensure(st, 'copied once', EQ2(st.ghost['$copies'], 1))
            T.frame(st, [])

    @task('%s<%s>::size' % (c, s), ['C12', 'C13'], TU, r'^types::%s<%s>::size\(\) const$' % (c, s), defs=('mpi',))
    def t_size(T):
        v = T.obj('types::%s<%s>' % (c, s))
        n = size_of(T, v, c, s)
        for st, ret in T.run([v.p]):
            T.ensure(st, 'size of one value', EQ2(T.ex.u(st, ret), n))
            T.frame(st, [])

    @task('%s<%s>::load' % (c, s), ['C12', 'C13'], TU, r'^types::%s<%s>::load\(' % (c, s), defs=('mpi',))
    def t_load(T):
        ex = T.ex
        v = T.obj('types::%s<%s>' % (c, s))
        f, o, z, b = [PtrV(Region('raw', x, None), 0) for x in ('file', 'offset', 'size', 'buffer')]
        T.st.ghost['$reads'] = 0
        elem = s if c == 'BasicType' else 'void'

        def blk(ex, st, a, ins, dem):
            ex.oblige(st, 'values are read as %s' % elem, ('getBlock<%s>(' % elem) in dem, 'contract')
            for x, y, w in ((a[0], f, 'file'), (a[1], b, 'buffer'), (a[2], o, 'offset'), (a[3], z, 'size')):
                ex.oblige(st, 'the %s is passed on' % w, x.r is y.r and EQ2(x.off, 0), 'contract')
            st.ghost['$reads'] = st.ghost['$reads'] + 1
            return [(st, None)]
        T.contract(r'^void io::NetCdfReader::getBlock<', blk)
        for st, ret in T.run([v.p, f, o, z, b]):
            T.ensure(st, 'one block is read', EQ2(st.ghost['$reads'], 1))
            T.frame(st, [])

    @task('%s<%s>::getMPIType' % (c, s), ['C13', 'C06'], TU, r'^types::%s<%s>::getMPIType\(\) const$' % (c, s), defs=('mpi',))
    def t_mpitype(T):
        v = T.obj('types::%s<%s>' % (c, s))
        for st, ret in T.run([v.p]):
            if c == 'BasicType':
                T.ensure(st, 'the MPI type of the values', ret.r is not None and ret.r.name == MPITYPE[s])
            else:
                p = v['m_mpiType']
                T.ensure(st, 'the MPI type that was created', ret.r is p.r and EQ2(ret.off, p.off))
            T.frame(st, [])


MPITYPE = {'unsigned char': '@ompi_mpi_byte', 'int': '@ompi_mpi_int', 'long': '@ompi_mpi_long', 'float': '@ompi_mpi_float', 'double': '@ompi_mpi_double'}


# ------------------------------------------------------------ size of values
def file_size(T):
    f = PtrV(Region('raw', 'file', None), 0)
    n = T.int('varSize', 32, lo=1, hi=(1 << 31) - 1)

    def c(ex, st, a, ins, dem):
        ex.oblige(st, 'the size in this file', a[0].r is f.r, 'contract')
        return [(st, n)]
    T.contract(r'^io::NetCdfReader::getVarSize\(\) const$', c)
    return f, n.t


def under_lock(T, v, fld, n, need, lockfld='m_lock'):
    """The field is accessed under the lock only, or after it was set (it does not change any more then).
    While the lock is not held, other threads may set it. Invariant of the lock: if the size is set, the MPI type is
    complete (the calls need were made)."""
    ex = T.ex
    lk = models.lock_id(v.addr(lockfld))
    off = v.loc(fld)[0]

    def held(st):
        return OR(*[models.same_lock(h, lk) for h in models.held(st)])
    ex.guards.append((v.p.r, off, off + n, lambda st: OR(held(st), st.ghost.get('$set', False)), 'the size is accessed under the lock'))

    def on_lock(st, k):
        ex.oblige(st, 'the lock of this type', models.same_lock(k, lk), 'lock')
        # other threads may have set the size meanwhile
        x = fint('size')
        st.assume(AND(x >= 0, x < 1 << 32))
        o = v.at(st)[fld]
        if st.ghost.get('$first'):
            st.assume(EQ(x, ITE(EQ(o, 0), x, o)))
        v.at(st).set(fld, x)
        st.ghost['$old'] = x

    def on_unlock(st, k):
        x = v.at(st)[fld]
        o = st.ghost['$old']
        ex.oblige(st, 'a size that was set is never changed', OR(EQ(o, 0), EQ2(x, o)), 'protocol')
        ex.oblige(st, 'the MPI type is complete when other threads see the size', OR(EQ2(x, 0), NOT(EQ(o, 0)), set(st.ghost.get('$did', ())) >= need), 'protocol')
        st.ghost['$new'] = x
        st.ghost['$set'] = NOT(EQ2(x, 0))
    ex.on_lock, ex.on_unlock = on_lock, on_unlock
    return held


def mpi_call(T, rx, check, eff, name):
    """An MPI function: success or an error."""
    def c(ex, st, a, ins, dem):
        check(ex, st, a)
        f = st.fork()
        e = fint('mpierror')
        f.assume(AND(e > 0, e < 1 << 30))
        f.ghost['$fail'] = name
        eff(ex, st, a)
        st.ghost['$did'] = st.ghost.get('$did', ()) + (name,)
        return [(st, IntV(32, 0)), (f, IntV(32, e, 1, 1 << 30))]
    T.contract(rx, c)


def handle(name):
    return PtrV(Region('raw', name, None), 0)


def errcodes(T):
    """Values of the error enumeration."""
    out = {}
    for n, t in T.mod.md.items():
        m = re.search(r'DIEnumerator\(name: "(\w+)", value: (-?\d+)', t or '')
        if m:
            out.setdefault(m.group(1), int(m.group(2)))
    return out


def reg_check(c, s):
    n = BASIC[s][1]

    @task('%s<%s>::check' % (c, s), ['C13', 'C14', 'C11'], TU, E + r'types::%s<%s>::check\(' % (c, s), defs=('mpi',))
    def t_check(T):
        ex = T.ex
        v = T.obj('types::%s<%s>' % (c, s))
        f, vs = file_size(T)
        if c == 'BasicType':
            for st, ret in T.run([v.p, f]):
                T.ensure(st, 'values of every size are converted', EQ2(ex.sv(st, ret), SUCCESS))
                T.frame(st, [])
            return
        err = errcodes(T)
        arr = c == 'ArrayType'
        fld = 'm_arraySize' if arr else 'm_size'
        need = {'create', 'commit'} if arr else {'create', 'resize', 'commit', 'free'}
        held = under_lock(T, v, fld, 4, need)
        ty, tmp = handle('MPI type'), handle('temporary MPI type')
        ex.merge_on = False
        sz = T.st.ghost
        q = z3.Int('elements')
        rem = z3.Int('remainder')
        T.assume(EQ(vs, q * n + rem), rem >= 0, rem < n)
        want = q if arr else vs
        tyoff = v.loc('m_mpiType')[0]

        def unlocked(ex, st):
            ex.oblige(st, 'the type is created by the first thread only, under the lock', AND(held(st), EQ(st.ghost['$old'], 0)) if '$old' in st.ghost else False, 'protocol')
        if arr:
            def chk(ex, st, a):
                unlocked(ex, st)
                ex.oblige(st, 'number of elements', EQ2(ex.sv(st, a[0]), want), 'contract')
                ex.oblige(st, 'type of the elements', a[1].r is not None and a[1].r.name == MPITYPE[s], 'contract')
            mpi_call(T, r'^MPI_Type_contiguous$', chk, lambda ex, st, a: ex.put(st, a[2].r, a[2].off, 8, ty), 'create')
        else:
            fields = [v[x] for x in ('m_blockLength', 'm_displacements', 'm_types')]

            def chk(ex, st, a):
                unlocked(ex, st)
                ex.oblige(st, 'number of blocks', EQ2(ex.u(st, a[0]), v['m_count']), 'contract')
                for x, y, w in zip(a[1:4], fields, ('lengths', 'displacements', 'types')):
                    ex.oblige(st, w + ' of the blocks', x.r is y.r and EQ2(x.off, y.off), 'contract')
            mpi_call(T, r'^MPI_Type_create_struct$', chk, lambda ex, st, a: ex.put(st, a[4].r, a[4].off, 8, tmp), 'create')

            def chkr(ex, st, a):
                ex.oblige(st, 'the type of the struct', a[0].r is tmp.r, 'contract')
                ex.oblige(st, 'lower bound and size of the struct', AND(EQ2(ex.sv(st, a[1]), 0), EQ2(ex.sv(st, a[2]), vs)), 'contract')
            mpi_call(T, r'^MPI_Type_create_resized$', chkr, lambda ex, st, a: ex.put(st, a[3].r, a[3].off, 8, ty), 'resize')

            def chkf(ex, st, a):
                p = ex.load(st, a[0], PTR)
                ex.oblige(st, 'the temporary type is released', isinstance(p, PtrV) and p.r is tmp.r, 'contract')
            mpi_call(T, r'^MPI_Type_free$', chkf, lambda ex, st, a: None, 'free')

        def chkc(ex, st, a):
            p = ex.load(st, a[0], PTR)
            ex.oblige(st, 'the created type is committed', isinstance(p, PtrV) and p.r is ty.r and a[0].r is v.p.r and EQ2(a[0].off, tyoff), 'contract')
        mpi_call(T, r'^MPI_Type_commit$', chkc, lambda ex, st, a: None, 'commit')
        for st, ret in T.run([v.p, f]):
            e = ex.sv(st, ret)
            T.ensure(st, 'the lock is released', not models.held(st))
            did = st.ghost.get('$did', ())
            if st.ghost.get('$fail'):
                T.ensure(st, 'a failure of MPI is reported', EQ2(e, MPI_ERROR))
                T.ensure(st, 'no size without an MPI type', EQ2(st.ghost['$new'], 0))
                continue
            if arr:
                bad = rem != 0
                T.ensure(st, 'a variable that is not a whole number of elements is rejected', mkb(bad) == mkb(EQ2(e, err['INVALID_VAR_SIZE'])))
                if '$old' not in st.ghost:
                    T.ensure(st, 'only such a variable is not compared', bad)
                    T.frame(st, [])
                    continue
            old = st.ghost['$old']
            T.ensure(st, 'the first file sets the size', OR(NOT(EQ(old, 0)), AND(EQ2(st.ghost['$new'], want), EQ2(e, SUCCESS), len(did) == len(need) and set(did) == need)))
            T.ensure(st, 'other files must have the same size', OR(EQ(old, 0), AND(EQ2(st.ghost['$new'], old), not did, mkb(EQ2(e, SUCCESS)) == mkb(EQ2(old, want)), OR(EQ2(e, SUCCESS), EQ2(e, err['WRONG_SIZE'])))))
            T.ensure(st, 'the size is not changed later', EQ2(v.at(st)[fld], st.ghost['$new']))
            if did:
                p = v.at(st)['m_mpiType']
                T.ensure(st, 'the MPI type is stored', p.r is ty.r)
            al = [(v.p.r, v.loc(fld)[0], 4), (v.p.r, tyoff, 8)]
            if not arr:
                al += [(v.p.r, v.loc(x)[0], 8) for x in ('m_blockLength', 'm_displacements', 'm_types')]
                if did:
                    T.ensure(st, 'the description is released', all(x.r in st.dead for x in fields))
                    w = v.at(st)
                    T.ensure(st, 'and not released again', all(w[x].r is None for x in ('m_blockLength', 'm_displacements', 'm_types')))
            T.frame(st, al)


for _c in CLS:
    for _s in BASIC:
        for _b in BASIC:
            reg_convert(_c, _s, _b)
        reg_copy(_c, _s)
        reg_check(_c, _s)


# ---------------------------------------------------- creation and destruction
def reg_ctor(c, s):
    @task('%s<%s>::%s' % (c, s, c), ['C13'], TU, r'^types::%s<%s>::%s\(' % (c, s, c), defs=('mpi',))
    def t_ctor(T):
        ex = T.ex
        v = T.obj('types::%s<%s>' % (c, s))
        if c == 'ArrayType':
            for st, ret in T.run([v.p]):
                w = v.at(st)
                T.ensure(st, 'the size is not known yet', EQ2(w['m_arraySize'], 0))
                T.ensure(st, 'there is no MPI type yet', w['m_mpiType'].r is not None and w['m_mpiType'].r.name == '@ompi_mpi_datatype_null')
            return
        n = T.int('count', 32, lo=1, hi=(1 << 31) - 1)
        bl = T.array('blockLength', [4], [n.t], layout=T.scalar_layout(4), const=True)
        ds = T.array('displacements', [8], [n.t], layout=T.scalar_layout(8), const=True)
        ty = T.array('types', [4], [n.t], layout=T.scalar_layout(4), const=True)
        rb, rd_, rt = (arr_reader(ex, T.st, r, 0, k) for r, k in ((bl, 4), (ds, 8), (ty, 4)))
        j = z3.Int('block')
        T.assume(j >= 0, j < n.t, rb(j) >= 0, rb(j) < 1 << 31, rd_(j) >= 0, rd_(j) < 1 << 63)
        k = z3.Int('block_k')
        T.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.t), z3.And(rt(k) >= 0, rt(k) <= 4)), patterns=[rt(k)]))
        T.st.ghost['$types'] = z3.K(I, z3.IntVal(-1))

        def written(ex, st, r, off, nn, ty_, val_):
            """The MPI types of the blocks: ghost array of their numbers."""
            if val_ is None or r is v.p.r or not r.heap:
                return None
            p = v.at(st)['m_types']
            if not isinstance(p, PtrV) or r is not p.r:
                return None
            ix = unpoly(pdiv_mono(poly(off), (), 8)[0]) if not isc(off) else off // 8
            nm = val_.r.name if isinstance(val_, PtrV) and val_.r is not None else None
            num = [i for i, x in enumerate(MPITYPE.values()) if x == nm]
            ex.oblige(st, 'a type of MPI', bool(num), 'contract')
            ex.oblige(st, 'a block of the struct', AND(GE(ix, 0), LTt(ix, n.t)), 'bounds')
            st.ghost['$types'] = z3.Store(st.ghost['$types'], mki(ix), z3.IntVal(num[0] if num else -1))
            return True
        ex.mem_hooks.append(written)

        def hook(ex_, f, hdr, st, h, xs):
            out = []

            def rdr(s, fld, nn):
                p = v.at(s)[fld]
                return arr_reader(ex, s, p.r, 0, nn)
            for nm, p in st.regs.items():
                if not (isinstance(p, PtrV) and p.r is not None and p.r.local and isc(p.off) and p.r in st.mem):
                    continue
                c_ = st.mem[p.r].cells.get(p.off)
                if c_ is None or not isinstance(c_[1], IntV):
                    continue
                at = lambda s, p=p: ex.u(s, s.mem[p.r].cells[p.off][1])
                out.append(('%s is a number of blocks' % nm, lambda s, at=at: at(s) <= n.t if not isc(at(s)) else at(s) <= n.t))
                out.append(('lengths before %s' % nm, lambda s, at=at: OR(LTt(at(s), j + 1), EQ(rdr(s, 'm_blockLength', 4)(j), rb(j)))))
                out.append(('displacements before %s' % nm, lambda s, at=at: OR(LTt(at(s), j + 1), EQ(rdr(s, 'm_displacements', 8)(j), rd_(j)))))
                out.append(('types before %s' % nm, lambda s, at=at: OR(LTt(at(s), j + 1), EQ(z3.Select(s.ghost['$types'], j), rt(j)))))
            return out
        ex.loop_hooks.append(hook)
        for st, ret in T.run([v.p, n, PtrV(bl, 0), PtrV(ds, 0), PtrV(ty, 0)]):
            w = v.at(st)
            T.ensure(st, 'the size is not known yet', EQ2(w['m_size'], 0))
            T.ensure(st, 'there is no MPI type yet', w['m_mpiType'].r is not None and w['m_mpiType'].r.name == '@ompi_mpi_datatype_null')
            T.ensure(st, 'number of blocks', EQ2(w['m_count'], n.t))
            T.ensure(st, 'length of every block', EQ(arr_reader(ex, st, w['m_blockLength'].r, 0, 4)(j), rb(j)))
            T.ensure(st, 'displacement of every block', EQ(arr_reader(ex, st, w['m_displacements'].r, 0, 8)(j), rd_(j)))
            T.ensure(st, 'MPI type of every block', EQ(z3.Select(st.ghost['$types'], j), rt(j)))

def reg_dtor(c, s, has):
    @task('%s<%s>::~%s (%s)' % (c, s, c, 'with MPI type' if has else 'without MPI type'), ['C13', 'C23'], TU, r'^types::%s<%s>::~%s\(' % (c, s, c), defs=('mpi',))
    def t_dtor(T):
        ex = T.ex
        v = T.obj('types::%s<%s>' % (c, s))
        ty = handle('MPI type')
        null = ex.global_region('ompi_mpi_datatype_null')
        g = T.st.ghost
        g['$frees'] = 0
        hs = [PtrV(Region('raw', x, None, heap=True), 0) for x in ('m_blockLength', 'm_displacements', 'm_types')] if c == 'StructType' else []
        for h in hs:
            ex.put(T.st, v.p.r, v.loc(h.r.name)[0], 8, NULL if has else h)

        def free(ex, st, a, ins, dem):
            p = ex.load(st, a[0], PTR)
            ex.oblige(st, 'the MPI type is released', isinstance(p, PtrV) and p.r is ty.r, 'contract')
            st.ghost['$frees'] = st.ghost['$frees'] + 1
            return [(st, IntV(32, 0))]
        T.contract(r'^MPI_Type_free$', free)
        ex.put(T.st, v.p.r, v.loc('m_mpiType')[0], 8, ty if has else PtrV(null, 0))
        for st, ret in T.run([v.p]):
            T.ensure(st, 'the MPI type is released exactly once', EQ2(st.ghost['$frees'], 1 if has else 0))
            T.ensure(st, 'the description is released', has or all(h.r in st.dead for h in hs))


MAKE = r'^types::createStruct\('


@task('createStruct', ['C13', 'C16'], TU, MAKE, defs=('mpi',))
def t_make(T):
    ex = T.ex
    n = T.int('count', 32, lo=1, hi=(1 << 31) - 1)
    bl = T.array('blockLength', [4], [n.t], layout=T.scalar_layout(4), const=True)
    ds = T.array('displacements', [8], [n.t], layout=T.scalar_layout(8), const=True)
    ty = T.array('types', [4], [n.t], layout=T.scalar_layout(4), const=True)
    first = arr_reader(ex, T.st, ty, 0, 4)(0)
    T.assume(EQ(arr_reader(ex, T.st, ds, 0, 8)(0), 0), first >= 0, first <= 4)

    def c(ex, st, a, ins, dem):
        for x, y, w in ((a[2], bl, 'lengths'), (a[3], ds, 'displacements'), (a[4], ty, 'types')):
            ex.oblige(st, 'the %s are passed on' % w, x.r is y and EQ2(x.off, 0), 'contract')
        ex.oblige(st, 'the number of blocks', EQ2(ex.u(st, a[1]), n.t), 'contract')
        st.ghost['$class'] = (dem.split('::StructType(')[0], a[0])
        return [(st, None)]
    T.contract(r'^types::StructType<[a-z ]+>::StructType\(', c)
    ex.merge_on = False
    for st, ret in T.run([n, PtrV(bl, 0), PtrV(ds, 0), PtrV(ty, 0)]):
        k, p = st.ghost.get('$class', (None, None))
        T.ensure(st, 'a struct is created', k is not None and ret.r is p.r and EQ2(ret.off, p.off))
        for i, s in enumerate(BASIC):
            if k == 'types::StructType<%s>' % s:
                T.ensure(st, 'typed access converts from the type of the first element', EQ(first, i))
        T.ensure(st, 'its class is one of the types', k in ['types::StructType<%s>' % s for s in BASIC])


# ------------------------------------------------------------------ counters
PC = r'^perf::Counter::'
NATIVE = ('ACCESS', 'NUMA', 'MPI', 'FILE')
NAMES = {'accesses': 'ACCESS', 'numa_transfers': 'NUMA', 'mpi_transfers': 'MPI', 'file_loads': 'FILE', 'local_hits': 'HIT', 'node_hits': 'NODE_HIT', 'local_misses': 'MISS'}
M64 = 1 << 64


def counters(T):
    v = T.obj('perf::Counter')
    c = [v['m_counter[%d]' % i] for i in range(4)]
    return v, c


@task('Counter::Counter', ['C15'], TU, PC + r'Counter\(\)$', defs=('mpi',))
def t_cctor(T):
    v, c = counters(T)
    for st, ret in T.run([v.p]):
        T.ensure(st, 'all counters are zero', AND(*[EQ2(v.at(st)['m_counter[%d]' % i], 0) for i in range(4)]))
        T.frame(st, [(v.p.r, None, None)])


def reg_inc(i):
    @task('Counter::inc (%s)' % NATIVE[i], ['C15'], TU, PC + r'inc\(', defs=('mpi',))
    def t_inc(T):
        v, c = counters(T)
        e = errcodes(T)
        T.ensure(T.st, 'number of the counter', e.get(NATIVE[i]) is not None)
        for st, ret in T.run([v.p, IntV(32, e[NATIVE[i]])]):
            w = v.at(st)
            for j in range(4):
                T.ensure(st, 'counter %d' % j, OR(EQ2(w['m_counter[%d]' % j], c[j] + (1 if e[NATIVE[j]] == e[NATIVE[i]] else 0)), EQ(c[j], M64 - 1)) if False else
                         EQ2(w['m_counter[%d]' % j], ITE(EQ(c[j], M64 - 1), 0, c[j] + 1) if j == e[NATIVE[i]] else c[j]))
            T.frame(st, [(v.p.r, v.loc('m_counter[%d]' % e[NATIVE[i]])[0], 8)])


@task('Counter::get', ['C15'], TU, PC + r'get\(', defs=('mpi',))
def t_cget(T):
    ex = T.ex
    v, c = counters(T)
    e = errcodes(T)
    k = T.int('type', 32, hi=max(e[x] for x in NATIVE + ('HIT', 'NODE_HIT', 'MISS', 'INVALID')))
    A, N, M, F = (c[e[x]] for x in NATIVE)
    # every transfer and load belongs to a counted access
    T.assume(N + M + F <= A)
    want = z3.IntVal(0)
    for x, y in (('ACCESS', A), ('NUMA', N), ('MPI', M), ('FILE', F), ('HIT', A - N - M - F), ('NODE_HIT', A - M - F), ('MISS', N + M + F)):
        want = z3.If(k.t == e[x], y, want)
    for st, ret in T.run([v.p, k]):
        T.ensure(st, 'the counter follows from the native counters', EQ(ex.u(st, ret), want))
        T.frame(st, [])


def namemap(T, p, init):
    """Assumed contract of std::unordered_map<std::string, CounterType>: a finite map from texts."""
    UM = r'std::unordered_map<std::__cxx11::basic_string<char.*>, perf::Counter::CounterType.*>'
    ex = T.ex
    models.node_region(ex, p).x['voff'] = 40
    T.st.ghost[models.mapkey(p)] = init

    def key(ex, st, x, dem):
        return strings.get(ex, st, x)

    def c_find(ex, st, a, ins, dem):
        m = models.map_of(ex, st, a[0])
        k = key(ex, st, a[1], dem)
        out = []
        for c, off in ((m.dom(k), k * models.NODE), (NOT(m.dom(k)), -models.NODE)):
            if ex.s.sat_quick(st.pc, [c]):
                s = st.fork()
                s.assume(c)
                out.append((s, PtrV(models.node_region(ex, a[0]), off)))
        return out
    T.contract('^' + UM + r'::find\(.*\)( const)?$', c_find)

    def c_count(ex, st, a, ins, dem):
        return [(st, ex.bool2int(models.map_of(ex, st, a[0]).dom(key(ex, st, a[1], dem)), 64))]
    T.contract('^' + UM + r'::count\(.*\) const$', c_count)

    def c_at(ex, st, a, ins, dem):
        m, k = models.map_of(ex, st, a[0]), key(ex, st, a[1], dem)
        ex.oblige(st, 'at() refers to an element', m.dom(k), 'bounds')
        return [(st, PtrV(models.node_region(ex, a[0]), k * models.NODE + 40))]
    T.contract('^' + UM + r'::at\(.*\)( const)?$', c_at)

    def c_index(ex, st, a, ins, dem):
        m, k = models.map_of(ex, st, a[0]), key(ex, st, a[1], dem)
        st.ghost[models.mapkey(a[0])] = models.MapC(lambda x: OR(EQ2(x, k), m.dom(x)), lambda x: ITE(AND(EQ2(x, k), NOT(m.dom(k))), 0, m.val(x)), m.w)
        return [(st, PtrV(models.node_region(ex, a[0]), k * models.NODE + 40))]
    T.contract('^' + UM + r'::operator\[\]\(', c_index)
    models.install(ex, strings.STRINGS)


def documented(e):
    """The counters by name."""
    dom = lambda t: OR(*[EQ2(t, intern(n)) for n in NAMES])

    def value(t):
        r = 0
        for n, c in NAMES.items():
            r = ITE(EQ2(t, intern(n)), e[c], r)
        return r
    return models.MapC(dom, value, 64)


@task('Counter::NameToCounterMap', ['C15'], TU, PC + r'NameToCounterMap::NameToCounterMap\(\)$', defs=('mpi',))
def t_names(T):
    ex = T.ex
    e = errcodes(T)
    p = PtrV(Region('raw', 'map', None), 0)
    namemap(T, p, models.MapC.fresh('uninitialised'))
    t = T.int('name', 64, lo=1).t
    want = documented(e)
    for st, ret in T.run([p]):
        m = models.map_of(ex, st, p)
        T.ensure(st, 'the documented names and no others', mkb(m.dom(t)) == mkb(want.dom(t)))
        T.ensure(st, 'counter of every name', OR(NOT(want.dom(t)), EQ2(m.val(t), want.val(t))))


@task('Counter::name2type', ['C15'], TU, PC + r'name2type\(', defs=('mpi',))
def t_n2t(T):
    ex = T.ex
    e = errcodes(T)
    g = [n for n in T.mod.globals if 'NAME_TO_COUNTER' in n]
    p = PtrV(ex.global_region(g[0]), 0)
    want = documented(e)
    namemap(T, p, want)
    t = T.int('name', 64, lo=1).t
    ex.merge_on = False
    for st, ret in T.run([cstring(t, 'name')]):
        T.ensure(st, 'the counter of this name, or none', EQ2(ex.u(st, ret), ITE(want.dom(t), want.val(t), e['INVALID'])))


# ---------------------------------------------------------- table of handles
class Table:
    """std::vector<T*> (assumed contract): a ghost array of pointers' numbers and its length."""
    VEC = r'^std::vector<verif_T\*, std::allocator<verif_T\*> ?>::'

    def __init__(self, T):
        self.T = T
        ex = T.ex
        self.v = v = T.obj('fortran::PointerArray<verif_T>', 'table')
        self.vec = None
        self.lk = models.lock_id(v.addr('m_lock'))
        self.elems = Region('raw', 'pointers', None)
        self.objs = Region('raw', 'objects', None)
        g = T.st.ghost
        g['$n'] = T.int('handles', 64, hi=(1 << 31) - 1).t
        g['$p'] = z3.Array('pointer', I, I)
        g['$adds'] = g['$writes'] = 0
        foff = min(o for k, (o, sc) in v.f.items() if k.startswith('m_pointers'))

        def mine(ex, st, a):
            ex.oblige(st, 'the pointers of this table', a.r is v.p.r and EQ2(a.off, foff), 'contract')
            ex.oblige(st, 'the table is used under its lock', self.locked(st), 'lock')
        self.num = lambda p: p.off if p.r is self.objs else 0 if p.r is None else None

        def ptr(t):
            return PtrV(self.objs, t)

        def c_push(ex, st, a, ins, dem):
            mine(ex, st, a[0])
            p = ex.load(st, a[1], PTR)
            k = self.num(p)
            if k is None:
                raise Unsupported('pointer')
            st.ghost['$p'] = z3.Store(st.ghost['$p'], mki(st.ghost['$n']), mki(k))
            st.ghost['$n'] = st.ghost['$n'] + 1
            st.ghost['$adds'] = st.ghost['$adds'] + 1
            return [(st, None)]
        T.contract(self.VEC + r'(push_back|emplace_back)\b', c_push)

        def c_size(ex, st, a, ins, dem):
            mine(ex, st, a[0])
            return [(st, IntV(64, st.ghost['$n'], 0, 1 << 31))]
        T.contract(self.VEC + r'size\(\) const$', c_size)

        def c_ix(ex, st, a, ins, dem):
            mine(ex, st, a[0])
            i = ex.u(st, a[1])
            ex.oblige(st, 'the handle is in the table', AND(GE(i, 0), LTt(i, st.ghost['$n'])), 'bounds')
            return [(st, PtrV(self.elems, i * 8))]
        T.contract(self.VEC + r'(operator\[\]|at)\(unsigned long\)( const)?$', c_ix)

        def hook(ex, st, r, off, n, ty, val_):
            if r is not self.elems:
                return None
            ex.oblige(st, 'the table is used under its lock', self.locked(st), 'lock')
            i = unpoly(pdiv_mono(poly(off), (), 8)[0]) if not isc(off) else off // 8
            if val_ is None:
                return PtrV(self.objs, z3.Select(st.ghost['$p'], mki(i)))
            k = self.num(val_)
            if k is None:
                raise Unsupported('pointer')
            st.ghost['$p'] = z3.Store(st.ghost['$p'], mki(i), mki(k))
            st.ghost['$writes'] = st.ghost['$writes'] + 1
            return True
        ex.mem_hooks.append(hook)
        self.j = T.int('other handle', 32, hi=(1 << 31) - 1).t

        def on_lock(st, k):
            """Other threads add and remove other handles meanwhile."""
            ex.oblige(st, 'the lock of this table', models.same_lock(k, self.lk), 'lock')
            n = fint('handles')
            st.assume(AND(n >= st.ghost['$n'], n < 1 << 31))
            st.ghost['$n'] = n
            a = z3.Const(fname('pointer'), z3.ArraySort(I, I))
            for h in self.kept:
                st.assume(EQ(z3.Select(a, h), z3.Select(st.ghost['$p'], h)))
            st.ghost['$p'] = a
            st.ghost['$n0'], st.ghost['$p0'] = n, a
        ex.on_lock = on_lock
        self.kept = []

    def locked(self, st):
        return OR(*[models.same_lock(h, self.lk) for h in models.held(st)])

    def done(self, st):
        g = st.ghost
        self.T.ensure(st, 'the lock is released', not models.held(st))
        self.T.ensure(st, 'one critical section', '$n0' in g)


PA = r'fortran::PointerArray<verif_T>::'


@task('PointerArray::add', ['C16'], TU, '^' + PA + r'add\(', defs=('mpi',))
def t_padd(T):
    q = Table(T)
    p = PtrV(q.objs, T.int('object', 64, lo=1, hi=1 << 47).t)
    for st, ret in T.run([q.v.p, p]):
        g = st.ghost
        q.done(st)
        h = T.ex.sv(st, ret)
        T.ensure(st, 'the handle is in the table', AND(GE(h, 0), LTt(h, g['$n'])))
        T.ensure(st, 'the handle named no live object', OR(GE(h, g['$n0']), EQ(z3.Select(g['$p0'], mki(h)), 0)))
        T.ensure(st, 'the handle names the object', EQ(z3.Select(g['$p'], mki(h)), p.off))
        T.ensure(st, 'no handle is lost', GE(g['$n'], g['$n0']))
        T.ensure(st, 'other handles keep their objects', OR(EQ(q.j, h), GE(q.j, g['$n0']), EQ(z3.Select(g['$p'], q.j), z3.Select(g['$p0'], q.j))))
        T.frame(st, [])


@task('PointerArray::get', ['C16'], TU, PA + r'get\(', defs=('mpi',))
def t_pget(T):
    q = Table(T)
    i = T.int('handle', 32, signed=True, lo=0)
    T.assume(i.t < T.st.ghost['$n'])
    q.kept.append(i.t)
    want = z3.Select(T.st.ghost['$p'], i.t)
    for st, ret in T.run([q.v.p, i]):
        g = st.ghost
        q.done(st)
        T.ensure(st, 'the object of the handle', ret.r is q.objs and EQ2(ret.off, want))
        T.ensure(st, 'the table is not changed', AND(EQ2(g['$n'], g['$n0']), EQ(z3.Select(g['$p'], q.j), z3.Select(g['$p0'], q.j))))
        T.frame(st, [])


@task('PointerArray::remove', ['C16'], TU, '^' + PA + r'remove\(', defs=('mpi',))
def t_prem(T):
    q = Table(T)
    i = T.int('handle', 32, signed=True, lo=0)
    T.assume(i.t < T.st.ghost['$n'])
    for st, ret in T.run([q.v.p, i]):
        g = st.ghost
        q.done(st)
        T.ensure(st, 'the handle names no object', EQ(z3.Select(g['$p'], i.t), 0))
        T.ensure(st, 'no handle is lost', GE(g['$n'], g['$n0']))
        T.ensure(st, 'other handles keep their objects', OR(EQ(q.j, i.t), GE(q.j, g['$n0']), EQ(z3.Select(g['$p'], q.j), z3.Select(g['$p0'], q.j))))
        T.frame(st, [])


for _c in CLS[1:]:
    for _s in BASIC:
        reg_ctor(_c, _s)
        reg_dtor(_c, _s, True)
        reg_dtor(_c, _s, False)
for _i in range(4):
    reg_inc(_i)

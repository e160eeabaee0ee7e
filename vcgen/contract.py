"""Contracts: pre, post, frame; checked against a body, or used in place of a call."""
import re
import z3
from .ir import INT, PTR, DOUBLE, FLOAT, IRError
from .sym import *
from .exec import Exec, Obl, mkb, mki, LTt, GE, LazyV, ZeroV
from . import models, names


MAXOBJ = 1 << 47


class View:
    """Typed access to the fields of an object in one state (the object may be
    part of a larger one: base region + offset + path prefix)."""

    def __init__(self, ex, st, p, di):
        self.ex, self.st, self.p, self.di = ex, st, p, di
        self.f = ex.m.di().fields(di)

    def at(self, st):
        return View(self.ex, st, self.p, self.di)

    def loc(self, name):
        if name in self.f:
            o, sc = self.f[name]
            return o, sc
        m = re.match(r'^(.*)\[(\d+)\]$', name)
        if m and m.group(1) in self.f:
            o, sc = self.f[m.group(1)]
            e = sc[1]
            n = e[1] if e[0] != 'rec' else self.ex.m.di().sizeof(sc[3])
            return o + int(m.group(2)) * n, e
        m = re.match(r'^(.*)\[(\d+)\]\.(.*)$', name)
        if m and m.group(1) in self.f:
            o, sc = self.f[m.group(1)]
            n = self.ex.m.di().sizeof(sc[3])
            o2, s2 = self.ex.m.di().fields(self.ex.m.di().strip(sc[3]))[m.group(3)]
            return o + int(m.group(2)) * n + o2, s2
        raise Unsupported('no field %s' % name)

    def ty(self, sc):
        return {'i': lambda: INT(8 * sc[1]), 'p': lambda: PTR, 'd': lambda: DOUBLE, 'f': lambda: FLOAT}[sc[0]]()

    def val(self, name):
        o, sc = self.loc(name)
        rec = self.ex.record
        self.ex.record = False
        self.ex.record_guards = False
        try:
            return self.ex.load(self.st, PtrV(self.p.r, self.p.off + o), self.ty(sc))
        finally:
            self.ex.record = rec
            self.ex.record_guards = True

    def __getitem__(self, name):
        o, sc = self.loc(name)
        v = self.val(name)
        if sc[0] == 'i':
            if len(sc) > 3:
                return self.ex.tobool(v) if v.b is not None or isc(v.t) else v.t != 0
            return self.ex.sv(self.st, v) if sc[2] else self.ex.u(self.st, v)
        return v

    def set(self, name, v):
        o, sc = self.loc(name)
        if sc[0] == 'i' and not isinstance(v, IntV):
            if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
                v = self.ex.bool2int(v, 8 * sc[1])
            else:
                w = 8 * sc[1]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sc[2] else (0, (1 << w) - 1)
                v = IntV(w, v, lo, hi)
        n = sc[1] if sc[0] in 'idf' else 8
        self.ex.put(self.st, self.p.r, self.p.off + o, n, v)

    def addr(self, name):
        o, sc = self.loc(name)
        return PtrV(self.p.r, self.p.off + o)

    def sub(self, name):
        o, sc = self.loc(name)
        return View(self.ex, self.st, PtrV(self.p.r, self.p.off + o), sc[1])

    def arr(self, name, foff=0, n=None, kind='i'):
        """Element reader of the array a pointer field points to."""
        p = self.val(name)
        o, sc = self.loc(name)
        boolean, signed = False, None
        if sc[0] == 'p' and sc[2]:
            try:
                e = self.ex.m.di().scalar(sc[2])
                boolean = e[0] == 'i' and len(e) > 3
                signed = e[2] if e[0] == 'i' else None
            except IRError:
                pass
        return arr_reader(self.ex, self.st, p.r, foff, n, kind, boolean, signed)

    def map(self, name):
        return models.map_of(self.ex, self.st, self.addr(name))


def arr_reader(ex, st, r, foff=0, n=None, kind='i', boolean=False, signed=None):
    if r.kind == 'raw' and r.strides is None and n is not None:
        r.strides = [n]
        r.kind = 'arr'
    if r.strides is not None and st.mem.get(r) is not None and st.mem[r].cells:
        ex.migrate(st, r)
    if n is None:
        n = r.strides[-1]
    c = st.contents(r)
    key = (foff, n, kind)
    a = c.arrs.get(key)
    if a is None:
        a = ex.initial_arr(r, c.ver, key)

    isbool = boolean or any(nb == n and sc[0] == 'i' and len(sc) > 3 for (nb, sc, p) in (r.layout or {}).get(foff, []))

    def get(*ix):
        v = a.sel(tuple(ix))
        if isinstance(v, IntV):
            if isbool:
                return bool(v.t) if isc(v.t) else v.b if v.b is not None else v.t != 0
            if signed is not None:
                return ex.sv(st, v) if signed else ex.u(st, v)
            return v.t
        return v
    return get


def forall(n, body, lo=0, pats=None, name='j'):
    """ForAll j in [lo, n): body(j)"""
    j = z3.Int(fname(name))
    b = body(j)
    if isinstance(b, bool):
        if b:
            return True
        b = z3.BoolVal(b)
    g = z3.And(mkb(j >= lo), mkb(LTt(j, n))) if n is not None else mkb(j >= lo)
    f = z3.Implies(g, b)
    return z3.ForAll([j], f)


def forall2(n, m, body):
    i, j = z3.Int(fname('i')), z3.Int(fname('j'))
    b = body(i, j)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, mkb(LTt(i, n)), j >= 0, mkb(LTt(j, m))), mkb(b)))


class Task:
    """Verification of one function (or case of a function) against its contract."""

    def __init__(self, mod, solver, fn_rx, label=None):
        self.mod, self.solver = mod, solver
        self.ex = Exec(mod, solver)
        models.install(self.ex, models.BASE, models.UMAP, models.LOCKS)
        self.fn = self.find(fn_rx)
        self.label = label or mod.dem[self.fn]
        self.st = State()
        self.goals = 0
        self.returns = 0
        self.vacuous = None
        self.allow_noreturn = False

    def find(self, rx):
        r = re.compile(rx)
        c = [n for n, d in self.mod.dem.items() if n in self.mod.functions and r.search(d)]
        if not c:
            raise Unsupported('no function matches ' + rx)
        c.sort(key=lambda n: (len(self.mod.dem[n]), n))
        # constructors/destructors: prefer the complete object variant
        for n in c:
            if re.search(r'C1E|D1E', n):
                return n
        return c[0]

    def obj(self, type_name, name='this', **kw):
        di = self.mod.di().record(type_name)
        r = self.ex.record_region(di, name, **kw)
        return View(self.ex, self.st, PtrV(r, 0), '!%d' % di)

    def virtual(self, region, cls_name):
        """Objects of the region (at offset 0, or one per element) are of a class derived from cls_name; calls
        of its virtual functions are calls of functions named 'virtual Class::method' (to be given a contract)."""
        di = self.mod.di()
        vt = Region('cell', 'vtable of ' + cls_name, None, layout={})
        slots = {}
        todo = ['!%d' % di.record(cls_name)]
        while todo:
            ref = todo.pop()
            k, f = di.node(ref)
            for e in di.elements(f['elements']):
                kk, ff = di.node(int(e))
                if kk == 'DISubprogram' and 'virtualIndex' in ff:
                    i = int(ff['virtualIndex'])
                    nm = 'virtual %s::%s' % (cls_name, ff['name'].strip('"'))
                    slots.setdefault(i, nm)
                    if ff['name'].strip('"').startswith('~'):
                        slots.setdefault(i + 1, nm + ' (deleting)')
                elif kk == 'DIDerivedType' and ff.get('tag') == 'DW_TAG_inheritance':
                    todo.append(di.strip(ff['baseType']))
        vt.x['slots'] = slots
        region.x['vtable'] = vt
        if not self.__dict__.get('_vhook'):
            self._vhook = True
            self.ex.mem_hooks.insert(0, vhook)

    def array(self, name, strides, counts, layout=None, ptrs=None, const=False, zero=False):
        r = Region('arr', name, None, strides=list(strides), counts=list(counts), layout=layout, ptrs=ptrs, const=const,
                   zero=zero)
        tot = 1
        for c in counts:
            tot = None if c is None or tot is None else tot * c
        if tot is not None and not isc(tot):
            # no object is larger than the address space
            for c in counts:
                if not isc(c):
                    self.st.assume(c <= MAXOBJ)
            if isc(strides[-1]):
                self.st.assume(tot * strides[-1] <= MAXOBJ)
        return r

    def scalar_layout(self, n, kind='i', signed=False, boolean=False):
        sc = ('i', n, signed, 'bool') if boolean else ('i', n, signed) if kind == 'i' else (kind, n)
        return {0: [(n, sc, '')]}

    def cell(self, name, n=8, signed=False, value=None, kind='i'):
        """A scalar variable reachable through a pointer."""
        lay = self.scalar_layout(n, kind, signed)
        r = Region('cell', name, n, layout=lay)
        if value is not None:
            self.st.mem[r] = Cells({0: (n, value)})
        return PtrV(r, 0)

    def int(self, name, w=64, signed=False, lo=None, hi=None):
        t = z3.Int(name)
        l, h = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        l = l if lo is None else lo
        h = h if hi is None else hi
        self.st.assume(z3.And(t >= l, t <= h))
        return IntV(w, t, l, h)

    def dbl(self, name, k='d'):
        t = z3.Const(name, FSORT[k])
        v = FV(k, t)
        self.ex.ffacts(self.st, v)
        return v

    def assume(self, *fs):
        for f in fs:
            self.st.assume(f if not isinstance(f, tuple) else f[1])

    def contract(self, rx, fn):
        """Calls of matching functions are replaced by their contract."""
        gone = names.missing(rx)
        if gone:
            raise Unsupported('%s, which the contract stands for, is not in the program' % gone)

        def call(ex, st, a, ins, dem):
            if names.changed(dem):
                raise Unsupported('%s does not take the arguments its contract was written for' % dem)
            return fn(ex, st, a, ins, dem)
        self.ex.models.insert(0, (re.compile(rx), call))
        self.ex.contracts.add(rx)

    def run(self, args):
        ex = self.ex
        self.pre_state = self.st.fork()
        # vacuity: the precondition must be satisfiable
        r, m, t = None, None, 0
        rr, s, dt = self.solver._run([mkb(x) for x in self.st.pc], self.solver.timeout)
        self.pre_sat = rr
        if rr == z3.unsat:
            self.vacuous = 'the precondition is contradictory'
        s0 = self.st.fork()
        s0.ghost['$mark'] = next(sym_fresh())
        f = self.mod.functions[self.fn]
        out = ex.call_function(s0, f, args)
        self.returns += len(out)
        if not self.allow_noreturn:
            ok = False
            for s1, ret in out:
                r1, _, _ = self.solver._run([mkb(x) for x in s1.pc], 1000)
                if r1 != z3.unsat:
                    ok = True
                    break
            if not ok:
                self.ex.fnstack = [self.label]
                self.ex.oblige(s0, 'some execution returns', False, 'termination', assume=False)
                self.ex.fnstack = []
        return out

    def ensure(self, st, name, goal, timeout=None):
        self.ex.fnstack = [self.label]
        o = self.ex.oblige(st, name, goal, 'contract', assume=True, timeout=timeout)
        self.ex.fnstack = []
        return o

    def frame(self, st, allowed, base=None):
        """Everything outside `allowed` (list of (region, offset, size) or (region, None, None)) is unchanged."""
        ex = self.ex
        base = base or self.pre_state
        self.ex.fnstack = [self.label]
        for (r, k, key) in sorted(ex.modified(base, st), key=lambda x: (x[0].id if x[0] is not None else -1, x[1], str(x[2]))):
            if r is None:
                if isinstance(key, tuple) and key[0] == 'map':
                    if any(a[0] is key[1] and (a[1] is None or (isc(key[2]) and a[1] <= key[2] < a[1] + a[2])) for a in allowed):
                        continue
                    ex.oblige(st, 'frame: map unchanged', False, 'frame')
                continue
            if r.local or r.heap or r.const or r not in base.mem and r.name.startswith('heap'):
                continue
            if r.kind in ('mapnode',):
                continue
            if k == 'c':
                o, n, kind = key
                if any(a[0] is r and (a[1] is None or (a[1] <= o and o + n <= a[1] + a[2])) for a in allowed):
                    continue
                bv = base.mem[r].cells.get(o) if r in base.mem else None
                nv = st.mem[r].cells[o][1]
                ov = bv[1] if bv else ex.init_cb('c', r, base.contents(r).ver, (o, n), nv)
                ex.oblige(st, 'frame: %s unchanged' % self.path(r, o, n), self.eqv(st, ov, nv), 'frame')
            elif k == 'a':
                if any(a[0] is r for a in allowed):
                    continue
                foff, n, kind = key
                a0 = base.contents(r).arrs.get(key) or ex.initial_arr(r, base.contents(r).ver, key)
                a1 = st.mem[r].arrs[key]
                ix = tuple(fint('fr') for _ in r.strides)
                hyp = AND(*[AND(i >= 0, (i < c) if c is not None else True) for i, c in zip(ix, r.counts or [None] * len(ix))])
                ex.oblige(st, 'frame: %s unchanged' % r.name, OR(NOT(hyp), self.eqv(st, a0.sel(ix), a1.sel(ix))), 'frame')
            else:
                if any(a[0] is r and a[1] is None for a in allowed):
                    continue
                ex.oblige(st, 'frame: %s unchanged' % r.name, False, 'frame')
        self.ex.fnstack = []

    def eqv(self, st, a, b):
        if isinstance(a, IntV) and isinstance(b, IntV):
            return EQ2(self.ex.u(st, a), self.ex.u(st, b))
        if isinstance(a, FV) and isinstance(b, FV):
            return EQ(a.t, b.t)
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            return EQ2(a.off, b.off) if a.r is b.r else False
        return same_val(a, b)

    def path(self, r, o, n):
        for (nb, s, p) in (r.layout or {}).get(o, []):
            if nb == n:
                return '%s.%s' % (r.name, p)
        return '%s+%d' % (r.name, o)


def vhook(ex, st, r, off, n, ty, v):
    if 'slots' in r.x:
        if v is not None or not isc(off):
            raise Unsupported('vtable')
        nm = r.x['slots'].get(off // 8)
        if nm is None:
            raise Unsupported('virtual function %s' % (off // 8))
        f = Region('fn', nm)
        f.x['fn'] = nm
        return PtrV(f, 0)
    if 'vtable' in r.x and n == 8 and ty.k == 'ptr':
        o = off
        if r.strides is not None and not isc(off):
            q, rest = pdiv_mono(poly(off), (), r.strides[-1])
            if any(mm for mm in rest):
                return None
            o = rest.get((), 0)
        elif r.strides is not None:
            o = off % r.strides[-1]
        if isc(o) and o == 0 and v is None:
            return PtrV(r.x['vtable'], 0)
    return None


def sym_fresh():
    from . import sym
    return sym._fresh


class ex_guard:
    pass

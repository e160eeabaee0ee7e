"""Symbolic values, memory and states of the verification-condition generator."""
import itertools
import z3

_fresh = itertools.count()
I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
D = z3.DeclareSort('Dbl')
F = z3.DeclareSort('Flt')
# classification of a floating point value: 0 NaN, 1 finite, 2 +inf, 3 -inf
cls = {'d': z3.Function('cls.d', D, I), 'f': z3.Function('cls.f', F, I)}
val = {'d': z3.Function('val.d', D, R), 'f': z3.Function('val.f', F, R)}
FSORT = {'d': D, 'f': F}


class Unsupported(Exception):
    """The verifier cannot express this; nothing is proved about the function."""


def fname(p):
    return '%s!%d' % (p, next(_fresh))


def fint(p):
    return z3.Int(fname(p))


def fbool(p):
    return z3.Bool(fname(p))


def ffloat(k, p):
    return z3.Const(fname(p), FSORT[k])


def isc(x):
    return isinstance(x, (int, bool))


def simp(t):
    if isc(t):
        return int(t)
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return t


def eqt(a, b):
    """Syntactic equality of terms."""
    if isc(a) or isc(b):
        return isc(a) and isc(b) and int(a) == int(b)
    return a.eq(b)


def AND(*xs):
    out = []
    for x in xs:
        if x is True or (not isinstance(x, bool) and z3.is_true(x)):
            continue
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if x is False or (not isinstance(x, bool) and z3.is_false(x)):
            continue
        if x is True or (not isinstance(x, bool) and z3.is_true(x)):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    if isinstance(x, bool):
        return not x
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    return OR(NOT(a), b)


def ITE(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else NOT(c)
    if isinstance(a, bool):
        return OR(c, b) if a else AND(NOT(c), b)
    if isinstance(b, bool):
        return OR(NOT(c), a) if b else AND(c, a)
    if eqt(a, b):
        return a
    return z3.If(c, a, b)


def EQ(a, b):
    if isc(a) and isc(b):
        return a == b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    return a == b


def LT(a, b):
    return a < b


def LE(a, b):
    return a <= b


# --------------------------------------------------------------- polynomials
_poly_cache = {}


def poly(t):
    """Polynomial normal form: {sorted tuple of atom ids: coeff}; atoms in _atoms."""
    if isc(t):
        return {(): int(t)} if t else {}
    k = t.get_id()
    if k in _poly_cache:
        return _poly_cache[k][0]
    r = _poly(t)
    _poly_cache[k] = (r, t)
    return r


_atoms = {}


def _atom(t):
    _atoms[t.get_id()] = t
    return {(t.get_id(),): 1}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = tuple(sorted(m1 + m2))
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _poly(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return {(): v} if v else {}
    d = t.decl().kind()
    if d == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            r = padd(r, poly(c))
        return r
    if d == z3.Z3_OP_SUB:
        cs = t.children()
        r = poly(cs[0])
        for c in cs[1:]:
            r = padd(r, poly(c), -1)
        return r
    if d == z3.Z3_OP_UMINUS:
        return padd({}, poly(t.arg(0)), -1)
    if d == z3.Z3_OP_MUL:
        r = {(): 1}
        for c in t.children():
            r = pmul(r, poly(c))
        if len(r) > 200:
            return _atom(t)
        return r
    return _atom(t)


def unpoly(p):
    if not p:
        return 0
    ts = []
    for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0])):
        f = [_atoms[i] for i in m]
        t = None
        for x in f:
            t = x if t is None else t * x
        if t is None:
            t = c
        elif c != 1:
            t = c * t
        ts.append(t)
    r = ts[0]
    for x in ts[1:]:
        r = r + x
    return r


def peq(a, b):
    return poly(a) == poly(b)


def pdiv_mono(p, mono, coeff):
    """Split p = q*(coeff*mono) + rest, taking every divisible monomial."""
    q, rest = {}, {}
    for m, c in p.items():
        mm = list(m)
        ok = True
        for x in mono:
            if x in mm:
                mm.remove(x)
            else:
                ok = False
                break
        if ok:
            if coeff in (1, -1) or c % coeff == 0:
                q[tuple(mm)] = c // coeff
                continue
            qq, rr = divmod(c, coeff)
            if qq:
                q[tuple(mm)] = qq
            rest[m] = rr
        else:
            rest[m] = c
    return q, rest


# -------------------------------------------------------------------- values
class IntV:
    __slots__ = ('w', 't', 'lo', 'hi', 'b', 'p')

    def __init__(self, w, t, lo=None, hi=None, b=None, p=None):
        self.w = w
        if not isc(t) and z3.is_int_value(t):
            t = t.as_long()
        self.t = t
        if isc(t):
            self.t = int(t)
            lo = hi = self.t
        self.lo, self.hi, self.b, self.p = lo, hi, b, p

    def __repr__(self):
        return 'i%d:%s' % (self.w, self.t)


class BoolV:
    __slots__ = ('b',)

    def __init__(self, b):
        if not isinstance(b, bool):
            if z3.is_true(b):
                b = True
            elif z3.is_false(b):
                b = False
        self.b = b

    def __repr__(self):
        return 'i1:%s' % self.b


class FV:
    __slots__ = ('k', 't')

    def __init__(self, k, t):
        self.k, self.t = k, t

    def __repr__(self):
        return '%s:%s' % (self.k, self.t)


class PtrV:
    __slots__ = ('r', 'off')

    def __init__(self, r, off=0):
        self.r = r           # Region or None (null)
        if not isc(off) and z3.is_int_value(off):
            off = off.as_long()
        self.off = off

    def __repr__(self):
        return 'ptr:%s+%s' % (self.r, self.off)


class AggV:
    __slots__ = ('es',)

    def __init__(self, es):
        self.es = es

    def __repr__(self):
        return 'agg%r' % (self.es,)


class UndefV:
    def __repr__(self):
        return 'undef'


class PoisonV:
    """A register that could not be merged; using it stops the proof."""

    def __repr__(self):
        return 'unmergeable'


UNDEF = UndefV()
POISON = PoisonV()
NULL = PtrV(None, 0)


# -------------------------------------------------------- functional arrays
class FArr:
    """Immutable map from index tuples to values of one kind."""

    def sel(self, ix):
        raise NotImplementedError


class ABase(FArr):
    def __init__(self, fn):
        self.fn = fn         # python callable index-tuple -> value

    def sel(self, ix):
        return self.fn(ix)


class AStore(FArr):
    def __init__(self, prev, ix, v, guard=True):
        self.prev, self.ix, self.v, self.guard = prev, ix, v, guard

    def sel(self, ix):
        c = AND(self.guard, *[EQ2(a, b) for a, b in zip(ix, self.ix)])
        if c is True:
            return self.v
        if c is False:
            return self.prev.sel(ix)
        return merge_val(c, self.v, self.prev.sel(ix))


class ARange(FArr):
    """Where cond(ix) holds the value is fn(ix)."""

    def __init__(self, prev, cond, fn):
        self.prev, self.cond, self.fn = prev, cond, fn

    def sel(self, ix):
        c = self.cond(ix)
        if c is True:
            return self.fn(ix)
        if c is False:
            return self.prev.sel(ix)
        return merge_val(c, self.fn(ix), self.prev.sel(ix))


class AMerge(FArr):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def sel(self, ix):
        return merge_val(self.c, self.a.sel(ix), self.b.sel(ix))


def EQ2(a, b):
    if isc(a) and isc(b):
        return a == b
    if not isc(a) and not isc(b) and a.eq(b):
        return True
    d = padd(poly(a), poly(b), -1)
    if not d:
        return True
    if list(d) == [()]:
        return False
    return a == b


class CannotMerge(Exception):
    pass


def merge_val(c, a, b):
    if a is b:
        return a
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, UndefV):
        return b
    if isinstance(b, UndefV):
        return a
    if isinstance(a, PoisonV) or isinstance(b, PoisonV):
        return POISON
    if type(a) is not type(b):
        raise CannotMerge()
    if isinstance(a, IntV):
        if a.w != b.w:
            raise CannotMerge()
        if eqt(a.t, b.t):
            return a
        lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
        hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
        bb = None
        if a.b is not None and b.b is not None:
            bb = ITE(c, a.b, b.b)
        elif a.b is not None and isc(b.t) and b.t in (0, 1):
            bb = ITE(c, a.b, b.t == 1)
        elif b.b is not None and isc(a.t) and a.t in (0, 1):
            bb = ITE(c, a.t == 1, b.b)
        elif a.w == 8 and isc(a.t) and isc(b.t) and a.t in (0, 1) and b.t in (0, 1):
            bb = c if a.t else z3.Not(c)
        ta = a.t if not isc(a.t) else z3.IntVal(a.t)
        tb = b.t if not isc(b.t) else z3.IntVal(b.t)
        if (a.p is None) != (b.p is None):
            raise CannotMerge()
        pp = None
        if a.p is not None:
            pp = merge_val(c, a.p, b.p)
        return IntV(a.w, z3.If(c, ta, tb), lo, hi, bb, pp)
    if isinstance(a, BoolV):
        return BoolV(ITE(c, a.b, b.b))
    if isinstance(a, FV):
        if a.k != b.k:
            raise CannotMerge()
        return a if a.t.eq(b.t) else FV(a.k, z3.If(c, a.t, b.t))
    if isinstance(a, PtrV):
        if a.r is not b.r:
            raise CannotMerge()
        if eqt(a.off, b.off):
            return a
        ta = a.off if not isc(a.off) else z3.IntVal(a.off)
        tb = b.off if not isc(b.off) else z3.IntVal(b.off)
        return PtrV(a.r, z3.If(c, ta, tb))
    if isinstance(a, AggV):
        return AggV([merge_val(c, x, y) for x, y in zip(a.es, b.es)])
    raise CannotMerge()


def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, IntV):
        return a.w == b.w and eqt(a.t, b.t)
    if isinstance(a, BoolV):
        if isinstance(a.b, bool) or isinstance(b.b, bool):
            return a.b is b.b
        return a.b.eq(b.b)
    if isinstance(a, FV):
        return a.k == b.k and a.t.eq(b.t)
    if isinstance(a, PtrV):
        return a.r is b.r and eqt(a.off, b.off)
    if isinstance(a, AggV):
        return len(a.es) == len(b.es) and all(same_val(x, y) for x, y in zip(a.es, b.es))
    return False


# -------------------------------------------------------------------- memory
class Region:
    """A memory object. kind: 'cell' (concrete offsets), 'arr' (strided array),
    'raw' (fresh heap memory, becomes 'arr' when indexed), 'fn', 'lazy', 'map'..."""
    n = itertools.count()

    def __init__(self, kind, name, size=None, **kw):
        self.id = next(Region.n)
        self.kind, self.name, self.size = kind, name, size
        self.strides = kw.pop('strides', None)   # list of terms, outermost first
        self.counts = kw.pop('counts', None)
        self.layout = kw.pop('layout', None)     # {off: (nbytes, scalar, path)}
        self.local = kw.pop('local', False)
        self.heap = kw.pop('heap', False)
        self.const = kw.pop('const', False)
        self.zero = kw.pop('zero', False)
        self.ptrs = kw.pop('ptrs', None)         # {field: fn(ix)->PtrV}
        self.x = kw

    def __repr__(self):
        return '%s#%d' % (self.name, self.id)


class Cells:
    """Contents of a region. cells: {off: (nbytes, value)}; arrs: {(fieldoff, nbytes): FArr}."""
    __slots__ = ('cells', 'arrs', 'ver')

    def __init__(self, cells=None, arrs=None, ver=0):
        self.cells = cells if cells is not None else {}
        self.arrs = arrs if arrs is not None else {}
        self.ver = ver

    def copy(self):
        return Cells(dict(self.cells), dict(self.arrs), self.ver)


class State:
    __slots__ = ('mem', 'pc', 'regs', 'ghost', 'dead', 'prev', 'facts', 'trace')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.regs = {}
        self.ghost = {}
        self.dead = frozenset()
        self.prev = None
        self.trace = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.regs = dict(self.regs)
        s.ghost = dict(self.ghost)
        s.dead = self.dead
        s.prev = self.prev
        s.trace = self.trace
        return s

    def assume(self, c):
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            return
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)

    def contents(self, r):
        c = self.mem.get(r)
        if c is None:
            c = Cells()
            self.mem[r] = c
        return c

    def wcontents(self, r):
        c = self.contents(r).copy()
        self.mem[r] = c
        return c


def merge_contents(c, r, a, b, init):
    """init(kind, region, ver, key, like) gives the initial value of an untouched cell."""
    if a is b:
        return a
    if a.ver != b.ver:
        raise CannotMerge()
    out = Cells({}, {}, a.ver)
    for o in set(a.cells) | set(b.cells):
        x, y = a.cells.get(o), b.cells.get(o)
        if x is None:
            x = (y[0], init('c', r, a.ver, (o, y[0]), y[1]))
        if y is None:
            y = (x[0], init('c', r, a.ver, (o, x[0]), x[1]))
        if x[0] != y[0]:
            raise CannotMerge()
        out.cells[o] = (x[0], merge_val(c, x[1], y[1]))
    for o in set(a.arrs) | set(b.arrs):
        x, y = a.arrs.get(o), b.arrs.get(o)
        if x is None:
            x = init('a', r, a.ver, o, None)
        if y is None:
            y = init('a', r, a.ver, o, None)
        out.arrs[o] = x if x is y else AMerge(c, x, y)
    return out

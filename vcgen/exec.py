"""Forward symbolic execution of LLVM IR producing verification conditions.

Every path of a function under contract is executed on symbolic values; loops
are either executed to completion (when their trip count is decided by the
contract's case split) or cut by inductive invariants found among candidates
(Houdini). Callees with a contract are replaced by it, others are inlined."""
import math
import os
import re
import z3
from .ir import IRError, INT, PTR, Ty
from .sym import *
from . import sym

MAXSTATES = 400


class Obl:
    __slots__ = ('name', 'kind', 'fn', 'line', 'status', 'time', 'backend', 'model', 'info', 'pc', 'goal')

    def __init__(self, name, kind, fn, line):
        self.name, self.kind, self.fn, self.line = name, kind, fn, line
        self.status = None
        self.time = 0.0
        self.backend = ''
        self.model = None
        self.info = ''
        self.pc = None
        self.goal = None

    def ident(self):
        return '%s/%s@%s' % (self.fn, self.name, self.line) if self.line else '%s/%s' % (self.fn, self.name)


class LazyV:
    """n bytes copied from an untouched part of region r."""
    def __init__(self, r, ver, off):
        self.r, self.ver, self.off = r, ver, off


class ZeroV:
    pass


ZERO = ZeroV()


def fnum(x):
    return z3.RealVal(x) if not isinstance(x, str) else z3.RealVal(x)


class Exec:
    def __init__(self, mod, solver):
        self.m = mod
        self.s = solver
        self.obls = []
        self.assumptions = set()
        self.models = []          # [(compiled regex, callable)]
        self.modelcache = {}
        self.inits = {}
        self.globals = {}
        self.strings = {}
        self.named = {}           # polynomial -> constant that stands for it when it is stored in a variable
        self.only_hooks = None    # callable (fn, header, entry state): no candidates but those of the hooks
        self.unstrided = set()
        self.modelled = {}
        self.loop_hooks = []      # callables (ex, fn, header, entry state) -> candidate list
        self.unroll = 9
        self.no_unroll = set()
        self.record = True
        self.depth = 0
        self.fnstack = []
        self.curline = 0
        self.icmp_log = None
        self.floats = {}
        self.divs = {}
        self.inlined = set()
        self.used_models = set()
        self.contracts = set()    # models that are contracts proved elsewhere
        self.fatal_ok = None      # callable(state) -> formula under which a fatal error is allowed
        self.on_lock = None
        self.on_unlock = None
        self.merge_on = True
        self.check_overflow = True
        self.real_mode = False
        self.steps = 0
        self.max_steps = 400000
        self.loops_done = []
        self.variant_hooks = []
        self.mem_hooks = []
        self.memcpy_hooks = []    # callables (ex, st, dst, src, n) -> handled
        self.guards = []          # (region, lo, hi, callable(state) -> formula, text)

    # ======================================================== obligations
    def oblige(self, st, name, goal, kind='contract', assume=True, timeout=None):
        fn = self.fnstack[0] if self.fnstack else '?'
        o = Obl(name, kind, fn, self.curline if kind != 'contract' else 0)
        if len(self.fnstack) > 1 and kind != 'contract':
            o.info = 'in ' + self.fnstack[-1]
        if self.record:
            r = self.s.prove(st.pc, goal, timeout)
            o.status, o.model, o.time, o.backend = r
            if o.status != 'valid':
                o.pc = list(st.pc)
                o.goal = goal
            self.obls.append(o)
        if assume:
            st.assume(goal)
        return o

    # ============================================================= integers
    def u(self, st, v):
        """Canonical unsigned term of an IntV."""
        if isinstance(v, BoolV):
            return ITE(v.b, 1, 0)
        if isinstance(v, UndefV):
            return fint('undef')
        w = v.w
        t = v.t
        M = 1 << w
        if isc(t):
            return t % M
        if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi < M:
            return t
        goals = []
        if v.lo is None or v.lo < 0:
            goals.append(t >= 0)
        if v.hi is None or v.hi >= M:
            goals.append(t < M)
        if self.s.entails_quick(st.pc, AND(*goals), quant=True):
            return t
        if v.lo is not None and v.lo >= -M and v.hi is not None and v.hi < M:
            return z3.If(t < 0, t + M, t)
        if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi < 2 * M:
            return z3.If(t >= M, t - M, t)
        q = fint('wrap')
        # t = q*M + r
        r = fint('wrapped')
        st.assume(t == q * M + r)
        st.assume(r >= 0)
        st.assume(r < M)
        return r

    def sv(self, st, v):
        """Canonical signed term of an IntV."""
        if isinstance(v, BoolV):
            return ITE(v.b, -1, 0)
        if isinstance(v, UndefV):
            return fint('undef')
        w = v.w
        t = v.t
        M = 1 << w
        H = M >> 1
        if isc(t):
            t %= M
            return t - M if t >= H else t
        if v.lo is not None and v.hi is not None and v.lo >= -H and v.hi < H:
            return t
        goals = []
        if v.lo is None or v.lo < -H:
            goals.append(t >= -H)
        if v.hi is None or v.hi >= H:
            goals.append(t < H)
        if self.s.entails_quick(st.pc, AND(*goals), quant=True):
            return t
        uu = self.u(st, v)
        if isc(uu):
            return uu - M if uu >= H else uu
        return z3.If(uu >= H, uu - M, uu)

    def mkint(self, st, w, t, lo=None, hi=None, b=None):
        v = IntV(w, t, lo, hi, b)
        return v

    def widen_ok(self, lo, hi, w):
        return lo is not None and hi is not None and lo >= -(1 << (w + 16)) and hi <= (1 << (w + 16))

    def norm(self, st, v):
        """Keep terms inside a window so that later canonical views stay cheap."""
        if isc(v.t):
            return IntV(v.w, v.t % (1 << v.w))
        if self.widen_ok(v.lo, v.hi, v.w):
            return v
        t = self.u(st, IntV(v.w, v.t, None, None))
        return IntV(v.w, t, 0, (1 << v.w) - 1)

    def binop(self, st, op, w, a, b, flags):
        if isinstance(a, UndefV):
            a = IntV(w, fint('undef'))
        if isinstance(b, UndefV):
            b = IntV(w, fint('undef'))
        if isinstance(a, PoisonV) or isinstance(b, PoisonV):
            raise Unsupported('value lost at a join')
        if w == 1:
            x, y = self.tobool(a), self.tobool(b)
            if op == 'and' or op == 'mul':
                return BoolV(AND(x, y))
            if op == 'or':
                return BoolV(OR(x, y))
            if op in ('xor', 'add', 'sub'):
                if isinstance(y, bool):
                    return BoolV(NOT(x) if y else x)
                if isinstance(x, bool):
                    return BoolV(NOT(y) if x else y)
                return BoolV(x != y)
            raise Unsupported('i1 ' + op)
        M = 1 << w
        H = M >> 1
        if a.p is not None or b.p is not None:
            r = self.ptr_arith(st, op, w, a, b)
            if r is not None:
                return r
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                x, y = self.sv(st, a), self.sv(st, b)
                t = x + y if op == 'add' else x - y if op == 'sub' else x * y
                if isc(t):
                    if not (-H <= t < H):
                        self.oblige(st, 'no signed overflow', False, 'overflow')
                    return IntV(w, t)
                lo, hi = self.bounds2(op, (a, x), (b, y), True)
                if lo is None or lo < -H or hi is None or hi >= H:
                    if self.check_overflow:
                        self.oblige(st, 'no signed overflow', AND(t >= -H, t < H), 'overflow')
                    else:
                        st.assume(AND(t >= -H, t < H))
                    lo = -H if lo is None or lo < -H else lo
                    hi = H - 1 if hi is None or hi >= H else hi
                return IntV(w, t, lo, hi)
            x, y = a.t, b.t
            if op == 'mul' and not (isc(x) or isc(y)):
                x, y = self.u(st, a), self.u(st, b)
                t = x * y
                # keep the mathematical product when it cannot wrap
                if self.s.entails_quick(st.pc, t < M, timeout=1500):
                    return IntV(w, t, 0, M - 1)
                q, r = fint('wrapq'), fint('wrapped')
                st.assume(t == q * M + r)
                st.assume(AND(r >= 0, r < M))
                return IntV(w, r, 0, M - 1)
            t = x + y if op == 'add' else x - y if op == 'sub' else x * y
            if isc(t):
                return IntV(w, t % M)
            lo, hi = self.bounds2(op, (a, x), (b, y), False)
            return self.norm(st, IntV(w, t, lo, hi))
        if op in ('udiv', 'urem'):
            x, y = self.u(st, a), self.u(st, b)
            if isc(y) and y == 0:
                self.oblige(st, 'no division by zero', False, 'div0')
                return IntV(w, fint('undef'), 0, M - 1)
            if not isc(y):
                self.oblige(st, 'no division by zero', y != 0, 'div0')
            q, r = self.divmod(st, x, y)
            t = q if op == 'udiv' else r
            return IntV(w, t, 0, M - 1 if not isc(y) or op == 'udiv' else y - 1)
        if op in ('sdiv', 'srem'):
            x, y = self.sv(st, a), self.sv(st, b)
            if not isc(y) or y == 0:
                self.oblige(st, 'no division by zero', y != 0 if not isc(y) else False, 'div0')
            if not isc(y) or y == -1:
                self.oblige(st, 'no division overflow', OR(NOT(EQ(y, -1)), NOT(EQ(x, -H))), 'overflow')
            if isc(x) and isc(y) and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return IntV(w, q if op == 'sdiv' else x - q * y)
            # truncating division
            if self.s.entails_quick(st.pc, AND(x >= 0, y > 0)):
                q, r = self.divmod(st, x, y)
            else:
                q, r = fint('q'), fint('r')
                st.assume(x == q * y + r)
                st.assume(z3.If(mkb(x >= 0), AND(r >= 0, r < ITE(y > 0, y, -y)),
                                AND(r <= 0, -r < ITE(y > 0, y, -y))))
            t = q if op == 'sdiv' else r
            return IntV(w, t, -H, H - 1)
        if op == 'shl':
            y = self.u(st, b)
            if isc(y):
                if y >= w:
                    self.oblige(st, 'shift in range', False, 'shift')
                    return IntV(w, fint('undef'), 0, M - 1)
                x = self.u(st, a)
                return self.binop(st, 'mul', w, IntV(w, x, *self.bn(a, x)), IntV(w, 1 << y), ())
            self.oblige(st, 'shift in range', y < w, 'shift')
            x = self.u(st, a)
            if isc(x) and x == 1:
                # 1 << y as a case split
                t = z3.IntVal(1 << (w - 1))
                for k in range(w - 2, -1, -1):
                    t = z3.If(y == k, z3.IntVal(1 << k), t)
                return IntV(w, t, 1, 1 << (w - 1))
            raise Unsupported('shl by variable')
        if op in ('lshr', 'ashr'):
            y = self.u(st, b)
            if not isc(y):
                raise Unsupported('shift by variable')
            if y >= w:
                self.oblige(st, 'shift in range', False, 'shift')
                return IntV(w, fint('undef'), 0, M - 1)
            if op == 'lshr':
                x = self.u(st, a)
                q, r = self.divmod(st, x, 1 << y)
                return IntV(w, q, 0, (M - 1) >> y)
            x = self.sv(st, a)
            if isc(x):
                return IntV(w, x >> y)
            q = fint('ashr')
            st.assume(AND(q * (1 << y) <= x, x < (q + 1) * (1 << y)))
            return IntV(w, q, -(H >> y), H >> y)
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, w, a, b)
        raise Unsupported(op)

    def bn(self, v, x):
        if isc(x):
            return (x, x)
        M = 1 << v.w
        if v.lo is not None and v.lo >= 0 and v.hi is not None and v.hi < M:
            return (v.lo, v.hi)
        return (0, M - 1)

    def ptr_arith(self, st, op, w, a, b):
        if op == 'sub' and a.p is not None and b.p is not None and a.p.r is b.p.r:
            t = a.p.off - b.p.off
            return IntV(w, simp(t) if isc(t) else t, -(1 << 63), (1 << 63) - 1)
        return None

    def bounds2(self, op, A, Bb, signed):
        (a, x), (b, y) = A, Bb
        M = 1 << a.w
        H = M >> 1

        def bd(v, t):
            if isc(t):
                return t, t
            lo, hi = v.lo, v.hi
            if signed:
                if lo is None or lo < -H:
                    lo = -H
                if hi is None or hi >= H:
                    hi = H - 1
            return lo, hi
        l1, h1 = bd(a, x)
        l2, h2 = bd(b, y)
        if None in (l1, h1, l2, h2):
            return None, None
        if op == 'add':
            return l1 + l2, h1 + h2
        if op == 'sub':
            return l1 - h2, h1 - l2
        ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
        return min(ps), max(ps)

    def divmod(self, st, x, y):
        """Unsigned quotient and remainder (y != 0 is assumed to hold)."""
        if isc(x) and isc(y):
            return x // y, x % y
        if isc(y) and y == 1:
            return x, 0
        px, py = poly(x), poly(y)
        if not px:
            return 0, 0
        # syntactic division: x = y*k + rest with 0 <= rest < y
        if len(py) == 1:
            (mono, coeff), = py.items()
            if coeff > 0:
                q, rest = pdiv_mono(px, mono, coeff)
                if q:
                    rt = unpoly(rest)
                    qt = unpoly(q)
                    g = AND(GE(rt, 0), GT(y, rt))
                    if g is True or (g is not False and self.s.entails_quick(st.pc, AND(g, GE(qt, 0)), timeout=1500)):
                        return qt, rt
        elif px == py:
            return 1, 0
        if not isc(y) or not isc(x):
            if self.s.entails_quick(st.pc, LTt(x, y), timeout=300):
                return 0, x
        if not isc(y) and not (isc(x)):
            if self.s.entails_quick(st.pc, AND(GE(x, 0), GT(y, 0), LTt(x, 2 * y)), timeout=800):
                c = LTt(x, y)
                return ITE(c, 0, 1), ITE(c, x, x - y)
        key = (frozenset(px.items()), frozenset(py.items()))
        if key in self.divs:
            q, r, ax = self.divs[key]
        else:
            q, r = fint('q'), fint('r')
            if isc(y):
                ax = [x == q * y + r, r >= 0, r < y, q >= 0]
            else:
                # (y > 0, x >= 0) => x = q*y + r, and the usual monotonicity facts
                ax = [z3.Implies(mkb(GT(y, 0)), mkb(AND(x == q * y + r, r >= 0, r < y, q >= 0, q <= x, r <= x)))]
            self.divs[key] = (q, r, ax)
        ids = {p.get_id() for p in st.pc}
        for a in ax:
            if a.get_id() not in ids:
                st.assume(a)
        return q, r

    def bitop(self, st, op, w, a, b):
        M = 1 << w
        x, y = self.u(st, a), self.u(st, b)
        if isc(x) and isc(y):
            return IntV(w, x & y if op == 'and' else x | y if op == 'or' else x ^ y)
        if isc(x):
            x, y = y, x
            a, b = b, a
        # boolean-valued integers
        if a.b is not None and (b.b is not None or (isc(y) and y in (0, 1))):
            bb = b.b if b.b is not None else y == 1
            r = AND(a.b, bb) if op == 'and' else OR(a.b, bb) if op == 'or' else \
                (NOT(a.b) if bb is True else a.b if bb is False else a.b != bb)
            return self.bool2int(r, w)
        if isc(y):
            if op == 'and':
                if y == 0:
                    return IntV(w, 0)
                if y == M - 1:
                    return IntV(w, x, 0, M - 1)
                # y = ones << k  (contiguous)
                k = (y & -y).bit_length() - 1
                n = (y >> k)
                if n & (n + 1) == 0:
                    nb = n.bit_length()
                    q, r = self.divmod(st, x, 1 << k) if k else (x, 0)
                    if k + nb < w:
                        q2, r2 = self.divmod(st, q, 1 << nb)
                    else:
                        r2 = q
                    t = r2 * (1 << k) if k else r2
                    return IntV(w, simp(t) if isc(t) else t, 0, y)
            if op == 'or' and y == 0:
                return IntV(w, x, 0, M - 1)
            if op == 'xor':
                if y == 0:
                    return IntV(w, x, 0, M - 1)
                if y == M - 1:
                    return IntV(w, (M - 1) - x, 0, M - 1)
        if op == 'or':
            # disjoint bits: one side is a multiple of 2^k, the other below 2^k
            for p, q in ((x, y), (y, x)):
                for k in (32, 16, 8, 1, 24, 48, 31, 30, 20):
                    if k >= w:
                        continue
                    if self.s.entails_quick(st.pc, AND(LTt(q, 1 << k), GE(q, 0))) and self.multiple(st, p, 1 << k):
                        t = p + q
                        return IntV(w, t, 0, M - 1)
        if op == 'and' and self.small(st, x) is not None and isc(y) is False:
            pass
        raise Unsupported('bit operation %s on %s, %s' % (op, x, y))

    def small(self, st, x):
        return None

    def multiple(self, st, t, m):
        p = poly(t)
        if all(c % m == 0 for c in p.values()):
            return True
        return False

    def step_of(self, r):
        """Number of bytes a pointer into the object is expected to move by."""
        if r.strides is not None:
            return r.strides[-1] if isc(r.strides[-1]) else 1
        if r.heap and r.size is not None and not isc(r.size):
            g = 0
            for c in poly(r.size).values():
                g = math.gcd(g, abs(c))
            return g if g in (2, 4, 8) else 1
        return 1

    # ============================================================== booleans
    def tobool(self, v):
        if isinstance(v, BoolV):
            return v.b
        if isinstance(v, UndefV):
            return fbool('undef')
        if isinstance(v, IntV):
            if isc(v.t):
                return bool(v.t & 1)
            if v.b is not None:
                return v.b
            if v.lo is not None and v.hi is not None and v.lo >= 0 and v.hi <= 1:
                return v.t == 1
        raise Unsupported('bool of %r' % (v,))

    def bool2int(self, b, w):
        if isinstance(b, bool):
            return IntV(w, int(b))
        return IntV(w, z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1, b)

    def icmp(self, st, pred, a, b):
        if isinstance(a, PoisonV) or isinstance(b, PoisonV):
            raise Unsupported('value lost at a join')
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.pcmp(st, pred, a, b)
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            x, y = self.tobool(a), self.tobool(b)
            if pred == 'eq':
                return BoolV(ITE(x, y, NOT(y)))
            if pred == 'ne':
                return BoolV(ITE(x, NOT(y), y))
            raise Unsupported('i1 icmp')
        if isinstance(a, UndefV) or isinstance(b, UndefV):
            return BoolV(fbool('undef'))
        if a.p is not None and b.p is not None:
            return self.pcmp(st, pred, a.p, b.p)
        w = a.w
        M = 1 << w
        H = M >> 1

        def inr(v, l, h):
            return v.lo is not None and v.hi is not None and v.lo >= l and v.hi <= h
        if pred in ('eq', 'ne'):
            if a.b is not None and isc(b.t) and b.t in (0, 1):
                r = a.b if b.t == 1 else NOT(a.b)
            else:
                if inr(a, -H, H - 1) and inr(b, -H, H - 1) or inr(a, 0, M - 1) and inr(b, 0, M - 1):
                    x, y = a.t, b.t
                elif (a.lo is not None and a.lo < 0) or (isc(a.t) and a.t >= H) or (b.lo is not None and b.lo < 0):
                    x, y = self.sv(st, a), self.sv(st, b)
                else:
                    x, y = self.u(st, a), self.u(st, b)
                r = EQ2(x, y)
                if self.icmp_log is not None:
                    self.icmp_log.append((x, y))
            return BoolV(r if pred == 'eq' else NOT(r))
        if pred[0] == 'u':
            x, y = self.u(st, a), self.u(st, b)
        else:
            x, y = self.sv(st, a), self.sv(st, b)
        if self.icmp_log is not None:
            self.icmp_log.append((x, y))
        p = pred[1:]
        if p == 'lt':
            r = LTt(x, y)
        elif p == 'gt':
            r = LTt(y, x)
        elif p == 'le':
            r = NOT(LTt(y, x))
        else:
            r = NOT(LTt(x, y))
        return BoolV(r)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, IntV) and isc(a.t) and a.t == 0:
            a = NULL
        if isinstance(b, IntV) and isc(b.t) and b.t == 0:
            b = NULL
        if not (isinstance(a, PtrV) and isinstance(b, PtrV)):
            raise Unsupported('pointer comparison with %r %r' % (a, b))
        if a.r is b.r:
            x, y = a.off, b.off
            if self.icmp_log is not None:
                self.icmp_log.append((x, y))
            if pred in ('eq', 'ne'):
                r = EQ2(x, y)
                return BoolV(r if pred == 'eq' else NOT(r))
            r = {'lt': lambda: LTt(x, y), 'gt': lambda: LTt(y, x), 'le': lambda: NOT(LTt(y, x)),
                 'ge': lambda: NOT(LTt(x, y))}[pred[1:]]()
            return BoolV(r)
        for p, q in ((a, b), (b, a)):
            if p.r is not None and p.r.x.get('maybe_null') is not None and q.r is None:
                r = p.r.x['maybe_null']
                return BoolV(r if pred == 'eq' else NOT(r))
        if pred == 'eq':
            return BoolV(False)
        if pred == 'ne':
            return BoolV(True)
        raise Unsupported('ordering of unrelated pointers')

    # ================================================================ floats
    def flit(self, k, x):
        import math
        key = (k, repr(x))
        if key in self.floats:
            return self.floats[key]
        t = z3.Const('lit.%s.%s' % (k, repr(x)), FSORT[k])
        if math.isnan(x):
            ax = [cls[k](t) == 0]
        elif math.isinf(x):
            ax = [cls[k](t) == (2 if x > 0 else 3)]
        else:
            from fractions import Fraction
            f = Fraction(x)
            ax = [cls[k](t) == 1, val[k](t) == z3.RealVal('%d/%d' % (f.numerator, f.denominator))]
        self.s.axioms.extend(ax)
        self.floats[key] = FV(k, t)
        return self.floats[key]

    def ffacts(self, st, v):
        st.assume(AND(cls[v.k](v.t) >= 0, cls[v.k](v.t) <= 3))

    def fop(self, st, op, a, b):
        k = a.k
        if op in ('fadd', 'fmul') and a.t.get_id() > b.t.get_id():
            a, b = b, a
        f = z3.Function('%s.%s' % (op, k), FSORT[k], FSORT[k], FSORT[k])
        r = FV(k, f(a.t, b.t))
        self.ffacts(st, r)
        C, V = cls[k], val[k]
        x, y, t = a.t, b.t, r.t
        st.assume(z3.Implies(z3.Or(C(x) == 0, C(y) == 0), C(t) == 0))
        if op == 'fsub':
            # x - y and x + (-y) are the same operation
            pass
        if self.real_mode:
            fin = z3.And(C(x) == 1, C(y) == 1)
            ex = {'fadd': V(x) + V(y), 'fsub': V(x) - V(y), 'fmul': self.rmul(st, V(x), V(y)) if op == 'fmul' else None}.get(op)
            if ex is not None:
                st.assume(z3.Implies(fin, z3.And(C(t) == 1, V(t) == ex)))
            elif op == 'fdiv':
                st.assume(z3.Implies(z3.And(fin, V(y) != 0), z3.And(C(t) == 1, self.rmul(st, V(t), V(y)) == V(x))))
        return r

    def rmul(self, st, x, y):
        """Product of real numbers; with real_mode 'uf' an uninterpreted commutative function."""
        if self.real_mode != 'uf':
            return x * y
        for a, b in ((x, y), (y, x)):
            n = a.arg(0).decl().name() if z3.is_app(a) and a.num_args() == 1 else ''
            if n.startswith('lit.'):
                try:
                    return z3.RealVal('%d/%d' % float(n[6:]).as_integer_ratio()) * b
                except (ValueError, OverflowError):
                    pass
        f = z3.Function('rmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
        st.assume(f(x, y) == f(y, x))
        p = f(x, y)
        st.assume(z3.And(z3.Implies(z3.Or(x == 0, y == 0), p == 0), z3.Implies(z3.And(x > 0, y > 0), p > 0), z3.Implies(z3.And(x < 0, y < 0), p > 0),
                         z3.Implies(z3.And(x < 0, y > 0), p < 0), z3.Implies(z3.And(x > 0, y < 0), p < 0)))
        return f(x, y)

    def fcmp(self, st, pred, a, b):
        k = a.k
        C, V = cls[k], val[k]
        x, y = a.t, b.t
        nan = z3.Or(C(x) == 0, C(y) == 0)
        eq = z3.And(z3.Not(nan), C(x) == C(y), z3.Implies(C(x) == 1, V(x) == V(y)))
        lt = z3.And(z3.Not(nan), z3.Or(z3.And(C(x) == 3, C(y) != 3), z3.And(C(y) == 2, C(x) != 2),
                                       z3.And(C(x) == 1, C(y) == 1, V(x) < V(y))))
        gt = z3.And(z3.Not(nan), z3.Or(z3.And(C(y) == 3, C(x) != 3), z3.And(C(x) == 2, C(y) != 2),
                                       z3.And(C(x) == 1, C(y) == 1, V(y) < V(x))))
        o = {'eq': eq, 'lt': lt, 'gt': gt, 'le': z3.Or(eq, lt), 'ge': z3.Or(eq, gt),
             'ne': z3.Or(lt, gt)}
        if pred == 'ord':
            r = z3.Not(nan)
        elif pred == 'uno':
            r = nan
        elif pred[0] == 'o':
            r = o[pred[1:]]
        elif pred[0] == 'u':
            r = z3.Or(nan, o[pred[1:]])
        else:
            r = z3.BoolVal(pred == 'true')
        return BoolV(r)

    def f1(self, st, name, a):
        """Exact unary operations."""
        k = a.k
        f = z3.Function('%s.%s' % (name, k), FSORT[k], FSORT[k])
        r = FV(k, f(a.t))
        self.ffacts(st, r)
        C, V = cls[k], val[k]
        x, t = a.t, r.t
        if name == 'fneg':
            st.assume(z3.And(z3.Implies(C(x) == 0, C(t) == 0), z3.Implies(C(x) == 2, C(t) == 3),
                             z3.Implies(C(x) == 3, C(t) == 2),
                             z3.Implies(C(x) == 1, z3.And(C(t) == 1, V(t) == -V(x)))))
        elif name == 'fabs':
            st.assume(z3.And(z3.Implies(C(x) == 0, C(t) == 0), z3.Implies(z3.Or(C(x) == 2, C(x) == 3), C(t) == 2),
                             z3.Implies(C(x) == 1, z3.And(C(t) == 1, V(t) == z3.If(V(x) < 0, -V(x), V(x))))))
        elif name in ('floor', 'ceil', 'trunc'):
            fl = z3.ToInt(V(x))
            e = {'floor': z3.ToReal(fl), 'ceil': -z3.ToReal(z3.ToInt(-V(x))),
                 'trunc': z3.If(V(x) >= 0, z3.ToReal(fl), -z3.ToReal(z3.ToInt(-V(x))))}[name]
            st.assume(z3.And(z3.Implies(C(x) != 1, C(t) == C(x)),
                             z3.Implies(C(x) == 1, z3.And(C(t) == 1, V(t) == e))))
        elif name in ('round', 'rint', 'nearbyint', 'roundeven'):
            st.assume(z3.And(z3.Implies(C(x) != 1, C(t) == C(x)), z3.Implies(C(x) == 1, C(t) == 1)))
            if name == 'round':
                e = z3.If(V(x) >= 0, z3.ToReal(z3.ToInt(V(x) + z3.RealVal('1/2'))),
                          -z3.ToReal(z3.ToInt(-V(x) + z3.RealVal('1/2'))))
                st.assume(z3.Implies(C(x) == 1, V(t) == e))
            else:
                st.assume(z3.Implies(C(x) == 1, z3.And(V(t) - V(x) <= z3.RealVal('1/2'),
                                                       V(x) - V(t) <= z3.RealVal('1/2'), z3.IsInt(V(t)))))
        return r

    def itof(self, st, t, k, exact_bound=1 << 53):
        if isc(t):
            return self.flit(k, float(t)) if k == 'd' or abs(t) < 1 << 24 else self._itof(st, t, k, 1 << 24)
        return self._itof(st, t, k, exact_bound)

    def _itof(self, st, t, k, eb):
        f = z3.Function('itof.%s' % k, I, FSORT[k])
        r = FV(k, f(t))
        self.ffacts(st, r)
        C, V = cls[k], val[k]
        if k == 'f':
            eb = 1 << 24
        st.assume(C(r.t) == 1)
        st.assume(z3.Implies(mkb(AND(t <= eb, t >= -eb)), V(r.t) == z3.ToReal(t)))
        st.assume(z3.Implies(mkb(t >= 0), V(r.t) >= 0))
        st.assume(z3.Implies(mkb(t > eb), V(r.t) >= eb))
        return r

    def ftoi(self, st, a, w, signed):
        k = a.k
        C, V = cls[k], val[k]
        x = a.t
        lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
        tr = z3.If(V(x) >= 0, z3.ToInt(V(x)), -z3.ToInt(-V(x)))
        self.oblige(st, 'float to integer conversion in range', z3.And(C(x) == 1, tr >= lo, tr < hi), 'conv')
        r = z3.Function('ftoi.%s%d%s' % (k, w, 's' if signed else 'u'), FSORT[k], I)(x)
        st.assume(r == tr)
        m = self.int_of(x, k)
        if m is not None:
            # a tautology that spares the solver the integrality argument
            st.assume(z3.Implies(V(x) == z3.ToReal(m), tr == m))
            st.assume(z3.Implies(V(x) == z3.ToReal(m), r == m))
        return IntV(w, r, lo, hi - 1)

    def int_of(self, x, k):
        """An integer term that is probably the value of x."""
        n = x.decl().name()
        if x.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = x.children()
            a, b = self.int_of(a, k), self.int_of(b, k)
            return None if a is None or b is None else z3.If(c, a, b)
        V = val[k]
        if n == 'floor.' + k:
            return z3.ToInt(V(x.arg(0)))
        if n == 'trunc.' + k:
            y = V(x.arg(0))
            return z3.If(y >= 0, z3.ToInt(y), -z3.ToInt(-y))
        if n == 'ceil.' + k:
            return -z3.ToInt(-V(x.arg(0)))
        if n == 'round.' + k:
            y, h = V(x.arg(0)), z3.RealVal('1/2')
            return z3.If(y >= 0, z3.ToInt(y + h), -z3.ToInt(-y + h))
        if n == 'itof.' + k:
            return x.arg(0)
        if n.startswith('lit.%s.' % k):
            try:
                v = float(n[6:])
                return z3.IntVal(int(v)) if v == int(v) else None
            except (ValueError, OverflowError):
                return None
        return None

    # ================================================================ memory
    def initial(self, r, ver, off, n, ty):
        """Deterministic initial value of untouched memory."""
        kind = 'p' if ty.k == 'ptr' else 'd' if ty.k == 'double' else 'f' if ty.k == 'float' else 'i' if ty.k == 'int' else None
        if kind is None:
            raise Unsupported('initial value of type %r' % ty)
        key = (r.id, ver, off, n, kind)
        if key in self.inits:
            return self.inits[key]
        v = self._initial(r, ver, off, n, kind)
        self.inits[key] = v
        return v

    def _initial(self, r, ver, off, n, kind):
        if r.zero and ver == 0:
            return self.zeroval(kind, n)
        sc = None
        path = '+%d' % off
        if r.layout and off in r.layout:
            for (nb, s, p) in r.layout[off]:
                if nb == n:
                    sc, path = s, p
        nm = '%s.%s%s' % (r.name, path, "'" * ver if ver < 4 else '~%d' % ver)
        if r.local and ver == 0:
            nm = fname(nm + '.uninit')
        if kind == 'i':
            if sc is not None and sc[0] == 'i':
                signed = sc[2]
            else:
                signed = n == 4
            if sc is not None and sc[0] == 'p':
                raise Unsupported('pointer read as integer')
            if sc is not None and sc[0] == 'i' and len(sc) > 3 and sc[3] == 'bool':
                b = z3.Bool(nm)
                return self.bool2int(b, 8)
            w = 8 * n
            t = z3.Int(nm)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            self.s.axioms.append(z3.And(t >= lo, t <= hi))
            return IntV(w, t, lo, hi)
        if kind in ('d', 'f'):
            t = z3.Const(nm, FSORT[kind])
            self.s.axioms.append(z3.And(cls[kind](t) >= 0, cls[kind](t) <= 3))
            return FV(kind, t)
        # pointer
        if r.ptrs and off in r.ptrs and ver == 0:
            return r.ptrs[off]
        rr = self.lazy_region(nm, sc)
        self.assumptions.add('pointer %s is valid and not aliased' % re.sub(r"[!~']\d*", '', nm))
        return PtrV(rr, 0)

    def lazy_region(self, nm, sc):
        di = self.m.di()
        if sc is not None and sc[0] == 'p' and len(sc) > 2 and sc[2]:
            base = di.strip(sc[2])
            if base is not None:
                try:
                    s = di.scalar(base)
                except IRError:
                    s = ('unk',)
                if s[0] == 'rec':
                    try:
                        return self.record_region(base, nm)
                    except IRError:
                        pass
        return Region('raw', nm, None)

    def layout_of(self, ref):
        di = self.m.di()
        lay = {}
        for p, (o, sc) in di.fields(ref).items():
            if sc[0] in ('i', 'd', 'f', 'p'):
                lay.setdefault(o, []).append((sc[1], sc, p))
            elif sc[0] == 'arr':
                e = sc[1]
                cnt = 1
                for c in sc[2]:
                    cnt *= max(c, 0)
                if e[0] in ('i', 'd', 'f', 'p') and cnt <= 4096:
                    for j in range(cnt):
                        lay.setdefault(o + j * e[1], []).append((e[1], e, '%s[%d]' % (p, j)))
                elif e[0] == 'rec' and cnt <= 64:
                    es = di.sizeof(sc[3])
                    sub = self.layout_of(di.strip(sc[3]))
                    for j in range(cnt):
                        for oo, l in sub.items():
                            for (nb, s2, p2) in l:
                                lay.setdefault(o + j * es + oo, []).append((nb, s2, '%s[%d].%s' % (p, j, p2)))
        return lay

    def record_region(self, ref, nm, **kw):
        di = self.m.di()
        if isinstance(ref, str) and not ref.startswith('!'):
            ref = '!%d' % di.record(ref)
        elif isinstance(ref, int):
            ref = '!%d' % ref
        k, f = di.node(ref)
        r = Region('cell', nm, di.sizeof(ref), layout=self.layout_of(ref), **kw)
        r.x['di'] = ref
        return r

    def zeroval(self, kind, n):
        if kind == 'i':
            return IntV(8 * n, 0)
        if kind == 'p':
            return NULL
        return self.flit(kind, 0.0)

    def kindof(self, ty):
        return {'ptr': 'p', 'double': 'd', 'float': 'f', 'int': 'i'}[ty.k]

    def init_cb(self, c, r, ver, key, like):
        if c == 'c':
            off, n = key
            if isinstance(like, PtrV):
                ty = PTR
            elif isinstance(like, FV):
                ty = Ty('double') if like.k == 'd' else Ty('float')
            elif isinstance(like, IntV):
                ty = INT(like.w)
            else:
                raise CannotMerge()
            if r.local and ver == 0:
                return UNDEF
            return self.initial(r, ver, off, n, ty)
        return self.initial_arr(r, ver, key)

    def initial_arr(self, r, ver, key):
        k = (r.id, ver, 'arr') + key
        if k in self.inits:
            return self.inits[k]
        foff, n, kind = key
        nidx = len(r.strides)
        nm = '%s[%s]%s' % (r.name, foff, "'" * ver if ver < 4 else '~%d' % ver)
        if r.zero and ver == 0:
            a = ABase(lambda ix: self.zeroval(kind, n))
        elif kind == 'i':
            signed = n == 4
            isbool = False
            if r.layout and foff in r.layout:
                for (nb, s, p) in r.layout[foff]:
                    if nb == n and s[0] == 'i':
                        signed = s[2]
                        isbool = len(s) > 3
            w = 8 * n
            if isbool:
                f = z3.Function(nm, *([I] * nidx + [B]))
                a = ABase(lambda ix: self.bool2int(f(*[mki(x) for x in ix]), 8))
            else:
                f = z3.Function(nm, *([I] * nidx + [I]))
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                a = ABase(lambda ix: IntV(w, f(*[mki(x) for x in ix]), lo, hi))
                a.lohi = (lo, hi)
        elif kind in ('d', 'f'):
            f = z3.Function(nm, *([I] * nidx + [FSORT[kind]]))
            a = ABase(lambda ix: FV(kind, f(*[mki(x) for x in ix])))
        elif kind == 'p':
            if r.ptrs and foff in r.ptrs:
                a = ABase(r.ptrs[foff])
            else:
                raise Unsupported('array of pointers %s' % r.name)
        else:
            raise Unsupported('array of %s' % kind)
        a.kind = kind
        self.inits[k] = a
        return a

    def access(self, st, p, n, write):
        if isinstance(p, PoisonV):
            raise Unsupported('pointer lost at a join')
        if isinstance(p, IntV) and p.p is not None:
            p = p.p
        if not isinstance(p, PtrV):
            raise Unsupported('access through %r' % (p,))
        if p.r is None:
            self.oblige(st, 'no null dereference', False, 'null')
            return None
        r = p.r
        if r.kind == 'fn':
            raise Unsupported('access to code')
        mn = r.x.get('maybe_null')
        if mn is not None:
            self.oblige(st, 'no null dereference', NOT(mn), 'null')
        if r in st.dead:
            self.oblige(st, 'no use after free', False, 'uaf')
            return None
        if r.const and write:
            self.oblige(st, 'no write to constant', False, 'const')
        return r

    def check_guards(self, st, r, off, n, write):
        """Shared data is accessed only under its lock."""
        if not self.record_guards:
            return
        for (gr, lo, hi, held, txt) in self.guards:
            if gr is r and (lo is None or not isc(off) or (off < hi and lo < off + n)):
                g = held(st)
                if g is not True:
                    self.oblige(st, txt, g, 'lock')

    record_guards = True

    def bounds(self, st, r, off, n):
        if r.size is None:
            return
        if isc(off) and isc(r.size) and isc(n):
            if off < 0 or off + n > r.size:
                self.oblige(st, 'access in bounds of ' + self.rname(r), False, 'bounds')
            return
        self.oblige(st, 'access in bounds of ' + self.rname(r), AND(GE(off, 0), GE(r.size, off + n)), 'bounds')

    def rname(self, r):
        return re.sub(r'!\d+', '', r.name)

    def split(self, st, r, off, n, check=True):
        """Index tuple and field offset of an access into an array region."""
        p = poly(off)
        ix = []
        for k, S in enumerate(r.strides):
            ps = poly(S)
            if len(ps) != 1:
                raise Unsupported('stride %s' % S)
            (mono, coeff), = ps.items()
            q, p = pdiv_mono(p, mono, coeff)
            ix.append(unpoly(q))
        if not (not p or list(p) == [()]):
            # a symbolic rest: try to place it with the solver
            raise Unsupported('offset %s is not a multiple of the element size of %s' % (off, r.name))
        f = p.get((), 0)
        last = r.strides[-1]
        if check:
            for k, c in enumerate(r.counts or []):
                if c is None:
                    continue
                g = AND(GE(ix[k], 0), LTt(ix[k], c))
                self.oblige(st, 'index in bounds of ' + self.rname(r), g, 'bounds')
            if isc(last) and not (0 <= f and f + n <= last):
                raise Unsupported('access crosses elements of ' + r.name)
        return tuple(ix), f

    def ensure_arr(self, st, r, off, n):
        """Turn heap memory into an array when it is first indexed by a variable."""
        if r.strides is not None:
            return
        if r.kind == 'cell' and r.size is not None and isc(r.size) and r.layout is not None:
            return
        p = poly(off)
        g = 0
        import math
        for m, c in p.items():
            if m:
                g = math.gcd(g, abs(c))
        if g == 0:
            return
        S = g
        if S < n:
            raise Unsupported('stride %d below access size in %s' % (S, r.name))
        r.strides = [S]
        r.kind = 'arr'

    def migrate(self, st, r):
        """Concrete cells of a region that became an array move into the array."""
        c = st.contents(r)
        if not c.cells or r.strides is None or len(r.strides) != 1 or not isc(r.strides[0]):
            return
        S = r.strides[0]
        w = st.wcontents(r)
        for off, (n, v) in sorted(w.cells.items()):
            f = off % S
            if isinstance(v, (LazyV, ZeroV)):
                raise Unsupported('mixed initialisation of ' + r.name)
            kind = 'i' if isinstance(v, IntV) else 'p' if isinstance(v, PtrV) else v.k
            key = (f, n, kind)
            a = w.arrs.get(key) or self.initial_arr(r, w.ver, key)
            w.arrs[key] = AStore(a, (off // S,), self.canon(st, r, key, v))
        w.cells = {}

    def canon(self, st, r, key, v):
        foff, n, kind = key
        if kind != 'i':
            return v
        if isinstance(v, UndefV):
            v = IntV(8 * n, fint('undef'))
        if v.p is not None:
            raise Unsupported('pointer stored as integer in array')
        signed = n == 4
        if r.layout and foff in r.layout:
            for (nb, s, p) in r.layout[foff]:
                if nb == n and s[0] == 'i':
                    signed = s[2]
        w = 8 * n
        t = self.sv(st, v) if signed else self.u(st, v)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
            lo, hi = v.lo, v.hi
        return IntV(w, t, lo, hi, v.b)

    def typed(self, st, v, ty, n):
        """Reinterpret a stored value at the loaded type."""
        if isinstance(v, (UndefV,)):
            k = self.kindof(ty)
            if k == 'i':
                return IntV(ty.a, fint('undef'), 0, (1 << ty.a) - 1) if ty.a > 1 else BoolV(fbool('undef'))
            if k in 'df':
                f = FV(k, ffloat(k, 'undef'))
                self.ffacts(st, f)
                return f
            return UNDEF
        if isinstance(v, ZeroV):
            if ty.k == 'int' and ty.a < 8:
                return BoolV(False)
            return self.zeroval(self.kindof(ty), n)
        if ty.k == 'ptr':
            if isinstance(v, IntV):
                if v.p is not None:
                    return v.p
                if isc(v.t) and v.t == 0:
                    return NULL
                raise Unsupported('integer read as pointer')
            return v
        if ty.k == 'int':
            if isinstance(v, PtrV):
                return IntV(64, fint('addr'), 0, (1 << 64) - 1, None, v)
            if isinstance(v, IntV):
                if ty.a == v.w:
                    return v
                if ty.a < 8 and v.w == 8:
                    return v
            if isinstance(v, FV):
                f = z3.Function('bits.' + v.k, FSORT[v.k], I)
                g = z3.Function('frombits.' + v.k, I, FSORT[v.k])
                t = f(v.t)
                st.assume(g(t) == v.t)
                w = 64 if v.k == 'd' else 32
                st.assume(AND(t >= 0, t < (1 << w)))
                return IntV(w, t, 0, (1 << w) - 1)
        if ty.k in ('double', 'float'):
            if isinstance(v, FV) and v.k == self.kindof(ty):
                return v
            if isinstance(v, IntV):
                k = self.kindof(ty)
                g = z3.Function('frombits.' + k, I, FSORT[k])
                r = FV(k, g(mki(self.u(st, v))))
                self.ffacts(st, r)
                return r
        raise Unsupported('type confusion: %r as %r' % (v, ty))

    def load(self, st, p, ty):
        ty = self.m.res_ty(ty)
        if ty.k in ('struct', 'array'):
            es = []
            cnt = len(ty.a) if ty.k == 'struct' else ty.a
            for i in range(cnt):
                if ty.k == 'struct':
                    o, et = self.m.field_off(ty, i)
                else:
                    et = ty.b
                    o = i * self.m.sizeof(et)
                es.append(self.load(st, PtrV(p.r, p.off + o), et))
            return AggV(es)
        n = self.m.sizeof(ty)
        r = self.access(st, p, n, False)
        if r is None:
            return self.typed(st, UNDEF, ty, n)
        p2 = p if isinstance(p, PtrV) else p.p
        off = p2.off
        if self.guards:
            self.check_guards(st, r, off, n, False)
        for h in self.mem_hooks:
            v = h(self, st, r, off, n, ty, None)
            if v is not None:
                return v
        self.load_global(st, r)
        if not isc(off):
            off = simp(off)
        if not isc(off) or r.strides is not None:
            self.ensure_arr(st, r, off, n)
            if r.strides is not None:
                self.migrate(st, r)
                if r.counts is None:
                    self.bounds(st, r, off, n)
                ix, f = self.split(st, r, off, n)
                key = (f, n, self.kindof(ty))
                c = st.contents(r)
                a = c.arrs.get(key)
                if a is None:
                    self.check_arr_key(r, c, key)
                    a = self.initial_arr(r, c.ver, key)
                v = a.sel(ix)
                if isinstance(v, IntV) and not isc(v.t) and v.lo is not None and v.b is None:
                    self.range_facts(st, v)
                if isinstance(v, FV):
                    self.ffacts(st, v)
                return self.typed(st, v, ty, n)
            return self.load_sym_cell(st, r, off, n, ty)
        self.bounds(st, r, off, n)
        return self.load_cell(st, r, off, n, ty)

    def range_facts(self, st, v):
        f = z3.And(v.t >= v.lo, v.t <= v.hi)
        st.assume(f)

    def check_arr_key(self, r, c, key):
        for k in c.arrs:
            if k != key and not (k[0] + k[1] <= key[0] or key[0] + key[1] <= k[0]):
                raise Unsupported('array %s accessed at different types' % r.name)

    def load_cell(self, st, r, off, n, ty):
        c = st.contents(r)
        x = c.cells.get(off)
        if x is not None and x[0] == n and not isinstance(x[1], LazyV):
            return self.typed(st, x[1], ty, n)
        over = [(o, y) for o, y in c.cells.items() if o < off + n and off < o + y[0]]
        if not over:
            if r.local and c.ver == 0 and not r.zero:
                return self.typed(st, UNDEF, ty, n)
            return self.typed(st, self.initial(r, c.ver, off, n, ty), ty, n)
        if len(over) == 1 and over[0][0] <= off and over[0][0] + over[0][1][0] >= off + n:
            o, (nn, v) = over[0]
            if isinstance(v, ZeroV):
                return self.typed(st, ZERO, ty, n)
            if isinstance(v, LazyV):
                return self.typed(st, self.initial(v.r, v.ver, v.off + off - o, n, ty), ty, n)
            if isinstance(v, IntV) and ty.k == 'int':
                # part of a wider integer (little endian)
                t = self.u(st, v)
                q, _ = self.divmod(st, t, 1 << (8 * (off - o))) if off > o else (t, 0)
                _, q2 = self.divmod(st, q, 1 << (8 * n))
                return IntV(8 * n, q2, 0, (1 << (8 * n)) - 1)
        # compose an integer from adjacent pieces
        if ty.k == 'int' and n in (2, 4, 8):
            o = off
            parts = []
            while o < off + n:
                y = c.cells.get(o)
                if y is None or o + y[0] > off + n or not isinstance(y[1], (IntV, ZeroV)):
                    break
                parts.append((o, y))
                o += y[0]
            if o == off + n:
                t = 0
                for o, (nn, v) in parts:
                    if isinstance(v, ZeroV):
                        continue
                    t = t + self.u(st, v) * (1 << (8 * (o - off)))
                return IntV(8 * n, t, 0, (1 << (8 * n)) - 1)
        raise Unsupported('mixed-size access to %s+%d' % (r.name, off))

    def candidates(self, st, r, off, n):
        """Possible concrete offsets of a symbolic access into a small object."""
        if r.size is None or not isc(r.size) or r.size > 4096:
            raise Unsupported('symbolic offset %s into %s' % (off, r.name))
        self.bounds(st, r, off, n)
        p = poly(off)
        import math
        g = 0
        for m, cc in p.items():
            if m:
                g = math.gcd(g, abs(cc))
        c0 = p.get((), 0)
        out = []
        for o in range(c0 % g, r.size - n + 1, g):
            if self.s.sat_quick(st.pc, [off == o]):
                out.append(o)
        if len(out) > 40:
            raise Unsupported('symbolic offset %s into %s' % (off, r.name))
        return out

    def load_sym_cell(self, st, r, off, n, ty):
        cs = self.candidates(st, r, off, n)
        if not cs:
            return self.typed(st, UNDEF, ty, n)
        v = self.load_cell(st, r, cs[-1], n, ty)
        for o in reversed(cs[:-1]):
            try:
                v = merge_val(off == o, self.load_cell(st, r, o, n, ty), v)
            except CannotMerge:
                raise Unsupported('symbolic choice of pointers in ' + r.name)
        return v

    def store(self, st, p, v, ty):
        ty = self.m.res_ty(ty)
        if isinstance(v, PoisonV):
            raise Unsupported('value lost at a join is stored')
        if ty.k in ('struct', 'array'):
            cnt = len(ty.a) if ty.k == 'struct' else ty.a
            for i in range(cnt):
                if ty.k == 'struct':
                    o, et = self.m.field_off(ty, i)
                else:
                    et = ty.b
                    o = i * self.m.sizeof(et)
                e = v.es[i] if isinstance(v, AggV) else ZERO if isinstance(v, ZeroV) else UNDEF
                if isinstance(e, ZeroV):
                    e = self.zeroval(self.kindof(et), self.m.sizeof(et))
                self.store(st, PtrV(p.r, p.off + o), e, et)
            return
        n = self.m.sizeof(ty)
        r = self.access(st, p, n, True)
        if r is None:
            return
        p2 = p if isinstance(p, PtrV) else p.p
        off = p2.off
        if self.named and isinstance(v, IntV) and not isc(v.t) and v.b is None and v.p is None:
            nm = self.named.get(frozenset(poly(v.t).items()))
            if nm is not None:
                v = IntV(v.w, nm, v.lo, v.hi)
        if isinstance(v, BoolV):
            v = self.bool2int(v.b, 8)
        if self.guards:
            self.check_guards(st, r, off, n, True)
        for h in self.mem_hooks:
            if h(self, st, r, off, n, ty, v):
                return
        self.load_global(st, r)
        if not isc(off):
            off = simp(off)
        if not isc(off) or r.strides is not None:
            self.ensure_arr(st, r, off, n)
            if r.strides is not None:
                self.migrate(st, r)
                if r.counts is None:
                    self.bounds(st, r, off, n)
                ix, f = self.split(st, r, off, n)
                key = (f, n, self.kindof(ty))
                c = st.wcontents(r)
                a = c.arrs.get(key)
                if a is None:
                    self.check_arr_key(r, c, key)
                    a = self.initial_arr(r, c.ver, key)
                c.arrs[key] = AStore(a, ix, self.canon(st, r, key, v))
                return
            for o in self.candidates(st, r, off, n):
                old = self.load_cell(st, r, o, n, ty)
                try:
                    self.put(st, r, o, n, merge_val(off == o, v, old))
                except CannotMerge:
                    raise Unsupported('symbolic store of pointer in ' + r.name)
            return
        self.bounds(st, r, off, n)
        self.put(st, r, off, n, v)

    def put(self, st, r, off, n, v):
        c = st.wcontents(r)
        for o, (nn, old) in list(c.cells.items()):
            if o < off + n and off < o + nn and not (o == off and nn == n):
                del c.cells[o]
                # keep the parts outside
                for (a, b) in ((o, off), (off + n, o + nn)):
                    if a < b:
                        if isinstance(old, ZeroV):
                            c.cells[a] = (b - a, ZERO)
                        elif isinstance(old, LazyV):
                            c.cells[a] = (b - a, LazyV(old.r, old.ver, old.off + a - o))
                        elif isinstance(old, UndefV):
                            c.cells[a] = (b - a, UNDEF)
                        elif isinstance(old, IntV):
                            t = self.u(st, old)
                            q, _ = self.divmod(st, t, 1 << (8 * (a - o))) if a > o else (t, 0)
                            _, q2 = self.divmod(st, q, 1 << (8 * (b - a)))
                            c.cells[a] = (b - a, IntV(8 * (b - a), q2, 0, (1 << (8 * (b - a))) - 1))
                        else:
                            raise Unsupported('partial overwrite in ' + r.name)
        c.cells[off] = (n, v)

    def load_global(self, st, r):
        if r.x.get('ginit') is None or r in st.mem:
            return
        c = Cells()
        self.global_cells(c, 0, *r.x['ginit'])
        st.mem[r] = c

    def global_cells(self, c, off, ty, v):
        ty = self.m.res_ty(ty)
        n = self.m.sizeof(ty)
        if v[0] == 'zero' or v[0] == 'undef':
            if n:
                c.cells[off] = (n, ZERO)
        elif v[0] == 'str':
            for i, b in enumerate(v[1]):
                c.cells[off + i] = (1, IntV(8, b))
        elif v[0] == 'agg':
            for i, (t, x) in enumerate(v[1]):
                o = self.m.field_off(ty, i)[0] if ty.k == 'struct' else i * self.m.sizeof(ty.b)
                self.global_cells(c, off + o, t, x)
        else:
            c.cells[off] = (n, self.const(ty, v))

    def havoc_region(self, st, r):
        c = st.contents(r)
        st.mem[r] = Cells({}, {}, self.fresh_ver())

    _ver = 10

    def fresh_ver(self):
        Exec._ver += 1
        return Exec._ver

    def memcpy(self, st, d, s, n):
        for hk in self.memcpy_hooks:
            if hk(self, st, d, s, n):
                return
        if isc(n) and n == 0:
            return
        if not isc(n):
            if self.s.entails_quick(st.pc, n == 0):
                return
        rd = self.access(st, d, n, True)
        rs = self.access(st, s, n, False)
        if rd is None or rs is None:
            return
        self.load_global(st, rs)
        self.load_global(st, rd)
        so, do = simp(s.off), simp(d.off)
        if isc(n) and isc(so) and isc(do) and rs.strides is None and rd.strides is None:
            self.bounds(st, rs, so, n)
            self.bounds(st, rd, do, n)
            self.copy_cells(st, rd, do, rs, so, n)
            return
        self.copy_arr(st, rd, do, rs, so, n)

    def copy_cells(self, st, rd, do, rs, so, n):
        c = st.contents(rs)
        pieces = []
        o = so
        for off in sorted(c.cells):
            nn, v = c.cells[off]
            if off + nn <= so or off >= so + n:
                continue
            a, b = max(off, so), min(off + nn, so + n)
            if a > o:
                pieces.append((o, a - o, None))
            if (a, b) == (off, off + nn):
                pieces.append((a, b - a, v))
            elif isinstance(v, ZeroV) or isinstance(v, UndefV):
                pieces.append((a, b - a, v))
            elif isinstance(v, LazyV):
                pieces.append((a, b - a, LazyV(v.r, v.ver, v.off + a - off)))
            else:
                raise Unsupported('partial copy')
            o = b
        if o < so + n:
            pieces.append((o, so + n - o, None))
        for (a, nn, v) in pieces:
            if v is None:
                if rs.zero and c.ver == 0:
                    v = ZERO
                elif rs.local and c.ver == 0:
                    v = UNDEF
                else:
                    v = LazyV(rs, c.ver, a)
            elif isinstance(v, LazyV) and a != so and False:
                pass
            self.put(st, rd, do + a - so, nn, v)

    def copy_arr(self, st, rd, do, rs, so, n):
        """memcpy between arrays of the same element size."""
        for r, o in ((rs, so), (rd, do)):
            if r.strides is None and r.kind == 'raw':
                other = rd if r is rs else rs
                if other.strides is not None and len(other.strides) == 1:
                    r.strides = list(other.strides)
                    r.kind = 'arr'
                    r.layout = r.layout or other.layout
        if rs.strides is None or rd.strides is None:
            raise Unsupported('copy of %s bytes from %s to %s' % (n, rs.name, rd.name))
        self.migrate(st, rs)
        self.migrate(st, rd)
        S = rs.strides[-1]
        if not peq(S, rd.strides[-1]):
            raise Unsupported('copy between arrays of different element size')
        ixs, fs = self.split(st, rs, so, 0, check=False)
        ixd, fd = self.split(st, rd, do, 0, check=False)
        if fs or fd:
            raise Unsupported('copy inside elements')
        ps = poly(S)
        (mono, coeff), = ps.items()
        q, rest = pdiv_mono(poly(n), mono, coeff)
        if rest:
            raise Unsupported('copy of partial elements')
        cnt = unpoly(q)
        for r, o in ((rs, so), (rd, do)):
            if r.counts is None:
                self.bounds(st, r, o, n)
        for r, ix in ((rs, ixs), (rd, ixd)):
            if r.counts is not None:
                for k, c in enumerate(r.counts):
                    if c is None:
                        continue
                    if k < len(r.counts) - 1:
                        g = AND(GE(ix[k], 0), LTt(ix[k], c))
                    else:
                        g = AND(GE(ix[k], 0), GE(c, ix[k] + cnt))
                    self.oblige(st, 'copy in bounds of ' + self.rname(r), OR(LTt(cnt, 1), g), 'bounds')
        cs = st.contents(rs)
        cd = st.wcontents(rd)
        keys = set(cs.arrs) | set(cd.arrs)
        if not keys:
            keys = set(self.default_keys(rs)) or set(self.default_keys(rd))
        if not keys:
            raise Unsupported('copy of untyped arrays %s, %s' % (rs.name, rd.name))
        for k in keys:
            a = cs.arrs.get(k) or self.initial_arr(rs, cs.ver, k)
            b = cd.arrs.get(k) or self.initial_arr(rd, cd.ver, k)

            def cond(ix, ixd=ixd, cnt=cnt):
                return AND(*([EQ2(x, y) for x, y in zip(ix[:-1], ixd[:-1])] +
                             [GE(ix[-1], ixd[-1]), LTt(ix[-1], ixd[-1] + cnt)]))

            def fn(ix, a=a, ixd=ixd, ixs=ixs):
                return a.sel(tuple(ixs[:-1]) + (ix[-1] - ixd[-1] + ixs[-1],))
            cd.arrs[k] = ARange(b, cond, fn)

    def default_keys(self, r):
        if not r.layout:
            return []
        return [(o, nb, s[0]) for o, l in r.layout.items() for (nb, s, p) in l]

    def memset(self, st, d, v, n):
        if isc(n) and n == 0:
            return
        rd = self.access(st, d, n, True)
        if rd is None:
            return
        off = simp(d.off)
        x = self.u(st, v)
        if isc(n) and isc(off) and rd.strides is None:
            self.bounds(st, rd, off, n)
            if isc(x) and x == 0:
                self.put(st, rd, off, n, ZERO)
                return
            for i in range(n):
                self.put(st, rd, off + i, 1, IntV(8, x))
            return
        if rd.strides is None and rd.kind in ('raw', 'arr'):
            # whole-region fill
            if not isc(x) or x != 0:
                raise Unsupported('memset')
            self.bounds(st, rd, off, n)
            c = st.wcontents(rd)
            if isc(off) and off == 0 and rd.size is not None and peq(n, rd.size) and not c.cells:
                self.assumptions.add('memset of whole region modelled as zero fill')
                rd.zero = True
                return
            raise Unsupported('memset of part of ' + rd.name)
        self.migrate(st, rd)
        S = rd.strides[-1]
        ixd, fd = self.split(st, rd, off, 0, check=False)
        (mono, coeff), = poly(S).items()
        q, rest = pdiv_mono(poly(n), mono, coeff)
        if fd or rest or not isc(x) or x != 0:
            raise Unsupported('memset of part of ' + rd.name)
        cnt = unpoly(q)
        if rd.counts is None:
            self.bounds(st, rd, off, n)
        c = st.wcontents(rd)
        keys = set(c.arrs) or set(self.default_keys(rd))
        for k in keys:
            b = c.arrs.get(k) or self.initial_arr(rd, c.ver, k)

            def cond(ix):
                return AND(*([EQ2(a, y) for a, y in zip(ix[:-1], ixd[:-1])] +
                             [GE(ix[-1], ixd[-1]), LTt(ix[-1], ixd[-1] + cnt)]))
            c.arrs[k] = ARange(b, cond, lambda ix, k=k: self.zeroval(k[2], k[1]))

    # ============================================================= constants
    def const(self, ty, v):
        k = v[0]
        ty = self.m.res_ty(ty) if ty is not None else ty
        if k == 'i':
            if ty.k == 'int' and ty.a == 1:
                return BoolV(bool(v[1]))
            return IntV(ty.a, v[1] % (1 << ty.a))
        if k == 'f':
            return self.flit('d' if ty.k == 'double' else 'f', v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if ty.k in ('struct', 'array'):
                ts = ty.a if ty.k == 'struct' else [ty.b] * ty.a
                return AggV([self.const(t, v) for t in ts])
            return self.zeroval(self.kindof(ty), self.m.sizeof(ty))
        if k == 'g':
            return PtrV(self.global_region(v[1]), 0)
        if k == 'gep':
            base = self.const(v[2][0][0], v[2][0][1])
            off = base.off
            t = v[1]
            for i, (it, iv) in enumerate(v[2][1:]):
                x = self.const(it, iv).t
                x = x - (1 << it.a) if x >= 1 << (it.a - 1) else x
                if i == 0:
                    off += x * self.m.sizeof(t)
                else:
                    t = self.m.res_ty(t)
                    if t.k == 'struct':
                        o, t = self.m.field_off(t, x)
                        off += o
                    else:
                        t = t.b
                        off += x * self.m.sizeof(t)
            return PtrV(base.r, off)
        if k == 'cast':
            _, op, t, x, t2 = v
            if op == 'ptrtoint':
                p = self.const(t, x)
                return IntV(64, fint('addr'), 0, (1 << 64) - 1, None, p)
            if op == 'inttoptr':
                a = self.const(t, x)
                if isc(a.t) and a.t == 0:
                    return NULL
                r = self.globals.get(('inttoptr', a.t))
                if r is None:
                    r = Region('special', 'inttoptr:%s' % a.t, 0)
                    self.globals[('inttoptr', a.t)] = r
                return PtrV(r, 0)
            return self.const(t2, x)
        if k == 'agg':
            return AggV([self.const(t, x) for t, x in v[1]])
        raise Unsupported('constant %r' % (v,))

    def global_region(self, name):
        if name in self.globals:
            return self.globals[name]
        if name in self.m.functions or name in self.m.decls:
            r = Region('fn', name)
            r.x['fn'] = name
        else:
            d = self.m.globals.get(name)
            if d is None:
                raise Unsupported('global ' + name)
            r = self._global(name, d)
        self.globals[name] = r
        return r

    def _global(self, name, d):
        from .ir import P, tokenize
        d = re.sub(r', comdat(\([^)]*\))?', '', d)
        m = re.match(r'(.*?)\b(global|constant) (.*)$', d)
        alias = re.match(r'.*\balias ', d)
        if alias:
            t = re.match(r'.*\bptr @"?([^",\s]+)"?\s*$', d.split(', comdat')[0])
            if not t:
                raise Unsupported('alias ' + name)
            self.m.aliases[name] = t.group(1)
            return self.global_region(t.group(1))
        ext = 'external' in m.group(1)
        const = m.group(2) == 'constant'
        p = P(tokenize(m.group(3)))
        ty = p.ty()
        r = Region('cell', '@' + name, None, const=const)
        try:
            r.size = self.m.sizeof(ty)
        except IRError:
            r.size = None
        if not ext and const:
            r.x['ginit'] = (ty, p.val(ty))
        if ext and name.startswith('_ZTV'):
            r.size = None
        return r

    def value(self, st, tv):
        ty, v = tv
        if v[0] == 'l':
            try:
                x = st.regs[v[1]]
            except KeyError:
                raise Unsupported('undefined register %' + v[1])
            if isinstance(x, PoisonV):
                raise Unsupported('register %' + v[1] + ' lost at a join')
            return x
        return self.const(ty, v)

    # ================================================================= merge
    def merge(self, states, live=None):
        if len(states) <= 1 or not self.merge_on:
            return states
        out = [states[0]]
        for s in states[1:]:
            done = False
            for i, t in enumerate(out):
                m = self.merge2(t, s, live)
                if m is not None:
                    out[i] = m
                    done = True
                    break
            if not done:
                out.append(s)
        if len(out) > MAXSTATES:
            raise Unsupported('too many paths')
        return out

    def merge2(self, a, b, live=None):
        if a.dead != b.dead:
            return None
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k].eq(b.pc[k]):
            k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        # facts that hold unconditionally (common to both) stay outside
        ids_b = {x.get_id() for x in rb}
        common = [x for x in ra if x.get_id() in ids_b]
        cid = {x.get_id() for x in common}
        ra = [x for x in ra if x.get_id() not in cid]
        rb = [x for x in rb if x.get_id() not in cid]
        ca = AND(*ra)
        cb = AND(*rb)
        if set(a.ghost) != set(b.ghost):
            return None
        c = fbool('path') if not isinstance(ca, bool) else ca
        try:
            g = {}
            for key in a.ghost:
                x, y = a.ghost[key], b.ghost[key]
                if x is y:
                    g[key] = x
                elif hasattr(x, 'merge'):
                    g[key] = x.merge(c, y)
                elif isinstance(x, (IntV, BoolV, FV, PtrV)):
                    g[key] = merge_val(c, x, y)
                elif isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef):
                    g[key] = ITE(c, x, y)
                elif x == y:
                    g[key] = x
                else:
                    return None
            mem = {}
            for r in set(a.mem) | set(b.mem):
                x, y = a.mem.get(r), b.mem.get(r)
                if x is y:
                    mem[r] = x
                    continue
                if x is None:
                    if r.local or r.heap or r.x.get('ginit') is not None:
                        mem[r] = y
                        continue
                    x = Cells()
                if y is None:
                    if r.local or r.heap or r.x.get('ginit') is not None:
                        mem[r] = x
                        continue
                    y = Cells()
                mem[r] = merge_contents(c, r, x, y, self.init_cb)
            regs = {}
            for key in set(a.regs) | set(b.regs):
                x, y = a.regs.get(key), b.regs.get(key)
                if x is y:
                    regs[key] = x
                    continue
                if x is None or y is None:
                    continue
                try:
                    regs[key] = merge_val(c, x, y)
                except CannotMerge:
                    # (a register that is used afterwards keeps the paths apart)
                    if key == '$ret' or (live is not None and key in live):
                        raise
                    regs[key] = POISON
        except (CannotMerge, Unsupported):
            return None
        s = State()
        s.mem, s.regs, s.ghost = mem, regs, g
        s.dead = a.dead
        s.prev = a.prev
        s.trace = a.trace
        s.pc = a.pc[:k] + common
        if isinstance(c, bool):
            s.assume(OR(ca, cb))
        else:
            # name the branch once: c <-> first path
            s.pc.append(z3.If(c, mkb(ca), mkb(cb)))
        return s

    # ============================================================== control
    def cfg(self, f):
        if hasattr(f, 'rpo'):
            return
        self.m.body(f)
        seen, post = set(), []
        stack = [(f.order[0], iter(f.blocks[f.order[0]].succ))]
        seen.add(f.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                post.append(b)
                stack.pop()
        order = post[::-1]
        f.rpo = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in f.blocks[b].succ:
                preds[s].append(b)
        # dominators
        dom = {order[0]: {order[0]}}
        allb = set(order)
        for b in order[1:]:
            dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ds = [dom[p] for p in preds[b]]
                d = set.intersection(*ds) | {b} if ds else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in order:
            for s in f.blocks[b].succ:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
                elif f.rpo[s] <= f.rpo[b]:
                    loops.setdefault(s, None)
                    loops[s] = None
        f.loops = loops

    def live_in(self, f):
        """Registers each block (after its phi nodes) or a block behind it uses."""
        if hasattr(f, 'live'):
            return f.live
        use, defs, phi = {}, {}, {}

        def regs(x, out):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'l' and isinstance(x[1], str):
                out.add(x[1])
            elif isinstance(x, (tuple, list)):
                for y in x:
                    regs(y, out)
            elif isinstance(x, dict):
                for y in x.values():
                    regs(y, out)
        for b, blk in f.blocks.items():
            u, d = set(), set()
            for ins in blk.ins:
                if ins.op == 'phi':
                    for p, v in ins.x:
                        regs(v, phi.setdefault((p, b), set()))
                    # its result is in place when the block starts
                    continue
                w = set()
                regs(ins.ops, w)
                regs(ins.x, w)
                u |= w - d
                if ins.res:
                    d.add(ins.res)
            use[b], defs[b] = u, d
        live = {b: set(use[b]) for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(list(f.blocks)):
                n = set(live[b])
                for t in f.blocks[b].succ:
                    pd = {i.res for i in f.blocks[t].ins if i.op == 'phi'}
                    n |= (live[t] - pd - defs[b]) | (phi.get((b, t), set()) - defs[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        f.live = live
        return live

    def exec_region(self, f, blocks, entry, states, header=None):
        pend = {entry: list(states)}
        exits, back, rets = {}, [], []
        first = True

        def route(tgt, s):
            if tgt == header:
                back.append(s)
            elif tgt in blocks:
                pend.setdefault(tgt, []).append(s)
            else:
                exits.setdefault(tgt, []).append(s)
        while pend:
            b = min(pend, key=lambda x: f.rpo[x])
            sts = pend.pop(b)
            blk = f.blocks[b]
            isloop = b in f.loops and not (b == header and first)
            if not (b == header and first):
                for s in sts:
                    self.phis(f, blk, s)
                sts = self.merge(sts, self.live_in(f)[b])
            first = False
            if isloop:
                if f.loops[b] is None:
                    raise Unsupported('irreducible loop in ' + self.m.dem.get(f.name, f.name))
                for s in sts:
                    ex, rt = self.run_loop(f, b, s)
                    rets.extend(rt)
                    for tgt, ss in ex.items():
                        for x in ss:
                            route(tgt, x)
                continue
            for s in sts:
                for o in self.exec_block(f, blk, s):
                    if o[0] is None:
                        rets.append((o[1], o[2]))
                    else:
                        o[1].prev = b
                        route(o[0], o[1])
        return exits, back, rets

    def phis(self, f, blk, s):
        new = {}
        for ins in blk.ins:
            if ins.op != 'phi':
                break
            for b, v in ins.x:
                if b == s.prev:
                    new[ins.res] = self.value(s, (ins.ty, v))
                    break
            else:
                raise Unsupported('phi')
        if new:
            s.regs = dict(s.regs)
            s.regs.update(new)

    def run_loop(self, f, hdr, st):
        body = f.loops[hdr]
        name = self.m.dem.get(f.name, f.name)
        short = re.sub(r'\(.*', '', re.sub(r'<.*>', '<>', name))
        if not any(re.search(p, name) for p in self.no_unroll) and not (self.only_hooks and self.only_hooks(f, hdr, st)):
            r = self.try_unroll(f, hdr, body, st)
            if r is not None:
                return r
        return self.houdini(f, hdr, body, st)

    def try_unroll(self, f, hdr, body, st):
        saved_obls = len(self.obls)
        exits, rets = {}, []
        cur = [st.fork()]
        steps = self.steps
        loops_done = list(self.loops_done)
        rec = self.record
        try:
            for it in range(self.unroll + 1):
                ex, back, rt = self.exec_region(f, body, hdr, cur, hdr)
                for k, v in ex.items():
                    exits.setdefault(k, []).extend(v)
                rets.extend(rt)
                if not back:
                    return exits, rets
                for s in back:
                    self.phis(f, f.blocks[hdr], s)
                cur = self.merge(back, self.live_in(f)[hdr])
                cur = [s for s in cur if self.s.sat_quick(s.pc)]
                if not cur:
                    return exits, rets
                if it == 1 and not self.bounded_hint(f, hdr, st, cur):
                    break
        except Unsupported:
            # may be a consequence of unrolling; decided again with invariants
            del self.obls[saved_obls:]
            self.loops_done = loops_done
            return None
        del self.obls[saved_obls:]
        self.loops_done = loops_done
        return None

    def bounded_hint(self, f, hdr, st, cur):
        return True

    # ---------------------------------------------------------------- Houdini
    def modified(self, base, after):
        """Locations of base's objects that differ in after: list of (region, 'c'/'a', key)."""
        out = set()
        for r, c in after.mem.items():
            b = base.mem.get(r)
            if b is c:
                continue
            if b is None:
                if r.local or r.heap:
                    continue
                b = Cells()
            if b.ver != c.ver:
                out.add((r, 'v', 0))
                continue
            for o, (n, v) in c.cells.items():
                x = b.cells.get(o)
                if x is None:
                    if r.local and b.ver == 0 and not r.zero:
                        out.add((r, 'c', (o, n, self.vkind(v))))
                        continue
                    try:
                        iv = self.init_cb('c', r, b.ver, (o, n), v)
                    except CannotMerge:
                        out.add((r, 'v', 0))
                        continue
                    if not same_val(iv, v):
                        out.add((r, 'c', (o, n, self.vkind(v))))
                elif x[0] != n or not (x[1] is v or same_val(x[1], v)):
                    out.add((r, 'c', (o, n, self.vkind(v))))
            for k, a in c.arrs.items():
                x = b.arrs.get(k)
                if x is None:
                    x = self.init_cb('a', r, b.ver, k, None)
                if x is not a:
                    out.add((r, 'a', k))
        for k, g in after.ghost.items():
            x = base.ghost.get(k)
            if x is g:
                continue
            if isinstance(x, z3.ExprRef) and isinstance(g, z3.ExprRef) and x.eq(g):
                continue
            if type(x) is type(g) and not isinstance(x, z3.ExprRef) and not hasattr(x, 'merge'):
                try:
                    if x == g:
                        continue
                except Exception:
                    pass
            out.add((None, 'g', k))
        return out

    def vkind(self, v):
        if isinstance(v, IntV):
            return 'b' if v.b is not None else 'i'
        if isinstance(v, FV):
            return v.k
        if isinstance(v, PtrV):
            return 'p'
        return 'z'

    def havoc_locs(self, f, base, M):
        h = base.fork()
        xs = {}
        self.bflags = {}
        for (r, k, key) in sorted(M, key=lambda x: (x[0].id if x[0] is not None else -1, x[1], str(x[2]))):
            if k == 'v':
                self.havoc_region(h, r)
            elif k == 'a':
                c = h.wcontents(r)
                ver = self.fresh_ver()
                c.arrs[key] = self.initial_arr(r, ver, key)
            elif k == 'g':
                g = base.ghost[key]
                if hasattr(g, 'havoc'):
                    h.ghost[key] = g.havoc()
                elif isinstance(g, bool) or z3.is_bool(g):
                    h.ghost[key] = fbool('g.' + key)
                elif isinstance(g, int) or z3.is_int(g):
                    h.ghost[key] = fint('g.' + str(key))
                elif z3.is_array(g):
                    h.ghost[key] = z3.Const(fname('g.' + str(key)), g.sort())
                else:
                    raise Unsupported('loop changes ghost ' + str(key))
            elif k == 'c':
                o, n, kind = key
                old = base.mem[r].cells.get(o) if r in base.mem else None
                ov = old[1] if old is not None else None
                nm = '%s+%d' % (r.name, o)
                if kind == 'b' and (ov is None or (isinstance(ov, IntV) and (ov.b is not None or isc(ov.t) and ov.t in (0, 1)))):
                    v = self.bool2int(fbool(nm), 8 * n)
                    if n == 1 and r.local:
                        self.bflags[(r, o)] = v
                elif kind in ('i', 'b', 'z'):
                    if isinstance(ov, PtrV):
                        raise Unsupported('loop overwrites pointer with integer')
                    w = 8 * n
                    signed = self.cell_signed(f, r, o, n, ov)
                    t = fint(nm)
                    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                    h.assume(AND(t >= lo, t <= hi))
                    v = IntV(w, t, lo, hi)
                    xs[(r, o)] = v
                elif kind in 'df':
                    v = FV(kind, ffloat(kind, nm))
                    self.ffacts(h, v)
                elif kind == 'p':
                    # pointer that moves inside one object
                    rr = None
                    if isinstance(ov, PtrV):
                        rr = ov.r
                    if rr is None and ov is None and r.local:
                        # a temporary of the loop body: not to be read before it is written
                        v = POISON
                    elif rr is None:
                        raise Unsupported('loop changes pointer %s' % nm)
                    else:
                        S = self.step_of(rr)
                        if S > 1 and (r, o) not in self.unstrided and self.multiple(h, ov.off, S):
                            # moves in steps of whole elements (checked on the back edges)
                            v = PtrV(rr, S * fint(nm))
                        else:
                            v = PtrV(rr, fint(nm))
                        xs[(r, o)] = v
                else:
                    raise Unsupported('loop changes %s' % nm)
                self.put(h, r, o, n, v)
        return h, xs

    def cell_signed(self, f, r, o, n, ov):
        if r.layout and o in r.layout:
            for (nb, s, p) in r.layout[o]:
                if nb == n and s[0] == 'i':
                    return s[2]
        if isinstance(ov, IntV) and ov.lo is not None and ov.lo < 0:
            return True
        return n == 4

    def houdini(self, f, hdr, body, st):
        M = set()
        rec = self.record
        name = self.m.dem.get(f.name, f.name)
        dropped = set()
        rounds = 0
        entry_obls = len(self.obls)
        icl = []
        self.record = False
        try:
            while True:
                rounds += 1
                if rounds > 60:
                    raise Unsupported('loop invariants of %s do not stabilise' % name)
                h, xs = self.havoc_locs(f, st, M)
                cands = [c for c in self.cand(f, hdr, st, h, xs, icl) if c[0] not in dropped]
                # initially true?
                keep = []
                for nm, fn in cands:
                    g = fn(st)
                    if g is None:
                        dropped.add(nm)
                        continue
                    if self.s.entails_quick(st.pc, g, timeout=2000, quant=True):
                        keep.append((nm, fn))
                    else:
                        dropped.add(nm)
                        if os.environ.get('VERIF_HOUDINI'):
                            print('houdini: not on entry', nm, str(g)[:600])
                cands = keep
                hh = h.fork()
                for nm, fn in cands:
                    hh.assume(fn(hh))
                old_log = self.icmp_log
                self.icmp_log = []
                ex, back, rets = self.exec_region(f, body, hdr, [hh.fork()], hdr)
                log = self.icmp_log
                self.icmp_log = old_log
                M2 = set(M)
                alls = back + [s for ss in ex.values() for s in ss] + [s for s, _ in rets]
                for s in back:
                    M2 |= self.normM(st, self.modified(h, s))
                if M2 != M:
                    M = M2
                    icl = []
                    continue
                again = False
                for (r, o), v in xs.items():
                    if isinstance(v, PtrV) and self.step_of(v.r) > 1 and (r, o) not in self.unstrided:
                        S = self.step_of(v.r)
                        for s in back:
                            c = s.mem[r].cells.get(o) if r in s.mem else None
                            if c is None or not isinstance(c[1], PtrV) or not self.multiple(s, c[1].off, S):
                                self.unstrided.add((r, o))
                                again = True
                if again:
                    continue
                n0 = len(icl)
                icl = self.bound_terms(log, h, st, xs, icl)
                if len(icl) > n0:
                    continue
                bad = set()
                for s in back:
                    for nm, fn in cands:
                        if nm in bad:
                            continue
                        g = fn(s)
                        if g is None or not self.s.entails_quick(s.pc, g, timeout=3000, quant=True):
                            bad.add(nm)
                            if os.environ.get('VERIF_HOUDINI'):
                                print('houdini: not preserved', nm, str(g)[:600])
                if bad:
                    dropped |= bad
                    continue
                break
        finally:
            self.record = rec
        for s in back:
            for (r, k, key) in M:
                if k != 'c' or r not in s.mem or r not in h.mem:
                    continue
                a, b = h.mem[r].cells.get(key[0]), s.mem[r].cells.get(key[0])
                if a is None or b is None or a[1] is POISON:
                    continue
                if isinstance(a[1], PtrV) != isinstance(b[1], PtrV) or isinstance(a[1], PtrV) and a[1].r is not b[1].r:
                    raise Unsupported('loop changes the object %s+%d points to' % (r.name, key[0]))
        # final pass with obligations
        h, xs = self.havoc_locs(f, st, M)
        cands = [c for c in self.cand(f, hdr, st, h, xs, icl) if c[0] not in dropped]
        hh = h.fork()
        names = []
        for nm, fn in cands:
            hh.assume(fn(hh))
            names.append(nm)
        h0 = hh.fork()
        ex, back, rets = self.exec_region(f, body, hdr, [hh], hdr)
        # re-establish (recorded): entry and preservation
        for nm, fn in cands:
            self.oblige(st, 'invariant on entry: ' + nm, fn(st), 'invariant', assume=False)
            for s in back:
                self.oblige(s, 'invariant preserved: ' + nm, fn(s), 'invariant', assume=False)
        for vh in self.variant_hooks:
            vh(self, f, hdr, st, h0, back)
        self.loops_done.append((name, hdr, sorted(names), len(M)))
        return ex, rets

    def normM(self, st, M):
        # a cell that is overwritten at different widths: havoc the version of the region
        return M

    def bound_terms(self, log, h, st, xs, icl):
        """Terms compared with a loop variable that do not depend on the loop."""
        ids, scale = {}, {}
        for (r, o), v in xs.items():
            t = v.t if isinstance(v, IntV) else v.off
            if not isc(t):
                # a pointer that moves in steps of S elements: S * x
                m = [(k, c) for k, c in poly(t).items() if k]
                if len(m) == 1 and len(m[0][0]) == 1:
                    ids[m[0][0][0]] = (r, o)
                    scale[m[0][0][0]] = m[0][1]
        hv = set(ids)
        out = list(icl)
        have = {(k, str(b)) for k, b in out}
        for x, y in log or []:
            for a, b in ((x, y), (y, x)):
                if isc(a):
                    continue
                d = poly(a)
                # a = loopvar + const
                vs = [m for m in d if m]
                if len(vs) == 1 and len(vs[0]) == 1 and vs[0][0] in ids and d[vs[0]] == scale[vs[0][0]]:
                    if not isc(b) and self.mentions(b, hv, st):
                        continue
                    b2 = b - d.get((), 0)
                    key = (ids[vs[0][0]], str(b2))
                    if key not in have:
                        have.add(key)
                        out.append((ids[vs[0][0]], b2))
        return out

    def mentions(self, t, ids, st):
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in ids:
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            # names created inside the loop (fresh) are not stable
            if x.num_args() == 0 and '!' in str(x.decl().name()):
                nm = str(x.decl().name())
                try:
                    n = int(nm.rsplit('!', 1)[1])
                except ValueError:
                    n = 0
                if n > self.loop_mark(st):
                    return True
            stack.extend(x.children())
        return False

    def loop_mark(self, st):
        return st.ghost.get('$mark', 1 << 60) if isinstance(st.ghost.get('$mark', None), int) else 1 << 60

    def cand(self, f, hdr, st, h, xs, icl):
        out = []

        def getter(r, o, like):
            def g(s):
                c = s.mem.get(r)
                if c is None or o not in c.cells:
                    if r.local and not r.zero:
                        return None
                    try:
                        v = self.init_cb('c', r, c.ver if c else 0, (o, like.w // 8 if isinstance(like, IntV) else 8), like)
                    except CannotMerge:
                        return None
                else:
                    v = c.cells[o][1]
                if isinstance(v, PtrV):
                    return v.off
                if not isinstance(v, IntV):
                    return None
                return v
            return g

        def term(s, g, like):
            v = g(s)
            if v is None:
                return None
            if isinstance(v, IntV):
                if like.lo is not None and like.lo < 0:
                    return self.sv(s, v)
                return self.u(s, v)
            return v
        gs = {}
        for (r, o), v in xs.items():
            g = getter(r, o, v)
            gs[(r, o)] = (g, v)
            nm = '%s+%d' % (r.name, o)
            x0 = term(st, g, v)
            if x0 is None:
                continue
            out.append(('%s >= entry' % nm, lambda s, g=g, v=v, x0=x0: ge_(term(s, g, v), x0)))
            out.append(('%s <= entry' % nm, lambda s, g=g, v=v, x0=x0: ge_(x0, term(s, g, v))))
            for (key, b) in icl:
                if key == (r, o):
                    out.append(('%s <= %s' % (nm, b), lambda s, g=g, v=v, b=b: ge_(b, term(s, g, v))))
                    out.append(('%s >= %s' % (nm, b), lambda s, g=g, v=v, b=b: ge_(term(s, g, v), b)))
            if isinstance(v, PtrV):
                pass
        keys = list(gs)
        for i in range(len(keys)):
            for j in range(i + 1, len(keys)):
                (g1, v1), (g2, v2) = gs[keys[i]], gs[keys[j]]
                a0, b0 = term(st, g1, v1), term(st, g2, v2)
                if a0 is None or b0 is None:
                    continue
                for k in (1, 8, 4):
                    for sg in (1, -1):
                        out.append(('%s+%d advances with %s+%d (x%d)' % (keys[i][0].name, keys[i][1], keys[j][0].name, keys[j][1], k * sg),
                                    lambda s, g1=g1, v1=v1, g2=g2, v2=v2, a0=a0, b0=b0, k=k, sg=sg:
                                    eq_(term(s, g1, v1), a0, term(s, g2, v2), b0, k * sg)))
                        if k > 1:
                            out.append(('%s+%d advances with %s+%d (x%d)' % (keys[j][0].name, keys[j][1], keys[i][0].name, keys[i][1], k * sg),
                                        lambda s, g1=g1, v1=v1, g2=g2, v2=v2, a0=a0, b0=b0, k=k, sg=sg:
                                        eq_(term(s, g2, v2), b0, term(s, g1, v1), a0, k * sg)))
        if self.only_hooks and self.only_hooks(f, hdr, st):
            out = []
        hks = []
        for hk in self.loop_hooks:
            hks.extend(hk(self, f, hdr, st, h, {k: (lambda s, g=g, v=v: term(s, g, v)) for k, (g, v) in gs.items()}) or [])
        out.extend(hks)
        # flags of the loop (found, done, ...): the specification's invariants may hold for one value only
        flags = [(k, g, v) for k, (g, v) in gs.items() if isinstance(v, IntV) and v.w == 8 and k[0].local]
        flags += [(k, getter(k[0], k[1], v), v) for k, v in self.bflags.items()]
        for k, g, v in flags:
            out.append(('%s+%d is 0 or 1' % (k[0].name, k[1]), lambda s, g=g, v=v: ge_(1, term(s, g, v))))
            for nm, fn in hks:
                for val in (0, 1):
                    def cond(s, fn=fn, g=g, v=v, val=val):
                        x = term(s, g, v)
                        if x is None:
                            return None
                        if isc(x):
                            return fn(s) if (x != 0) == bool(val) else True
                        c = fn(s)
                        return None if c is None else OR(EQ(x, 0) if val else NOT(EQ(x, 0)), c)
                    out.append(('if %s+%d is %d: %s' % (k[0].name, k[1], val, nm), cond))
        return out

    # ============================================================== function
    def call_function(self, st, f, args):
        """Inline a function body. Returns [(state, ret)]."""
        self.cfg(f)
        if len(self.fnstack) > 60:
            raise Unsupported('recursion in ' + f.name)
        name = self.m.dem.get(f.name, f.name)
        self.fnstack.append(name)
        saved = st.regs
        savedprev = st.prev
        st.regs = {}
        for (t, n), a in zip(f.params, args):
            st.regs[n] = a
        pre = set(st.mem)
        line = self.curline
        try:
            exits, back, rets = self.exec_region(f, set(f.blocks), f.order[0], [st])
        finally:
            self.fnstack.pop()
        self.curline = line
        outs = []
        for s, v in rets:
            s.regs = dict(saved)
            s.prev = savedprev
            if v is not None:
                s.regs['$ret'] = v
            # drop the callee's frame
            fr = [r for r in s.mem if r.local and r not in pre and r.x.get('frame') == f.name]
            for r in fr:
                del s.mem[r]
            outs.append(s)
        outs = self.merge(outs)
        res = []
        for s in outs:
            v = s.regs.pop('$ret', None)
            res.append((s, v))
        return res

    def exec_block(self, f, blk, st):
        """Run a block; returns [(target, state)] or [(None, state, retval)]."""
        work = [(st, 0)]
        out = []
        while work:
            s, i = work.pop()
            ins_list = blk.ins
            while True:
                ins = ins_list[i]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('step limit')
                if ins.dbg is not None and len(self.fnstack) == 1:
                    self.curline = self.m.line_of(ins.dbg)
                op = ins.op
                if op in ('call', 'invoke'):
                    rs = self.do_call(f, s, ins)
                    if op == 'invoke':
                        for s2, v in rs:
                            if ins.res is not None:
                                s2.regs = dict(s2.regs)
                                s2.regs[ins.res] = v
                            out.append((ins.x['to'], s2))
                        break
                    if not rs:
                        break
                    for s2, v in rs[1:]:
                        if ins.res is not None:
                            s2.regs = dict(s2.regs)
                            s2.regs[ins.res] = v
                        work.append((s2, i + 1))
                    s, v = rs[0]
                    if ins.res is not None:
                        s.regs = dict(s.regs)
                        s.regs[ins.res] = v
                    i += 1
                    continue
                if op == 'br':
                    if not ins.ops:
                        out.append((ins.x[0], s))
                        break
                    c = self.tobool(self.value(s, ins.ops[0]))
                    if not isinstance(c, bool):
                        c2 = z3.simplify(c)
                        if z3.is_true(c2):
                            c = True
                        elif z3.is_false(c2):
                            c = False
                    if isinstance(c, bool):
                        out.append((ins.x[0] if c else ins.x[1], s))
                        break
                    t1 = self.s.sat_quick(s.pc, [c])
                    t2 = self.s.sat_quick(s.pc, [NOT(c)]) if t1 else True
                    if t1 and t2:
                        s2 = s.fork()
                        s2.assume(NOT(c))
                        s.assume(c)
                        out.append((ins.x[0], s))
                        out.append((ins.x[1], s2))
                    elif t1:
                        s.assume(c)
                        out.append((ins.x[0], s))
                    else:
                        s.assume(NOT(c))
                        out.append((ins.x[1], s))
                    break
                if op == 'switch':
                    v = self.value(s, ins.ops[0])
                    w = ins.ops[0][0].a
                    rest = s
                    if isinstance(v, IntV) and isc(v.t):
                        tgt = ins.x[0]
                        for cv, lab in ins.x[1]:
                            if cv % (1 << w) == v.t % (1 << w):
                                tgt = lab
                        out.append((tgt, s))
                        break
                    neg = []
                    bylab = {}
                    for cv, lab in ins.x[1]:
                        c = self.icmp(s, 'eq', v, IntV(w, cv % (1 << w))).b
                        neg.append(NOT(c))
                        bylab.setdefault(lab, []).append(c)
                    for lab, cs in bylab.items():
                        c = OR(*cs)
                        if self.s.sat_quick(s.pc, [c]):
                            s2 = s.fork()
                            s2.assume(c)
                            out.append((lab, s2))
                    dflt = AND(*neg)
                    if self.s.sat_quick(s.pc, [dflt]):
                        s.assume(dflt)
                        out.append((ins.x[0], s))
                    break
                if op == 'ret':
                    v = self.value(s, ins.ops[0]) if ins.ops else None
                    out.append((None, s, v))
                    break
                if op == 'unreachable':
                    # after a noreturn call; falling off a function's end
                    prev = ins_list[i - 1] if i else None
                    if prev is None or prev.op not in ('call', 'invoke'):
                        self.oblige(s, 'end of function with return value not reached', False, 'unreachable')
                    break
                self.simple(f, s, ins)
                i += 1
        return out

    def simple(self, f, s, ins):
        op = ins.op
        if op == 'phi':
            return
        if op == 'unsupported':
            raise Unsupported(str(ins.x))
        if op == 'alloca':
            t, cnt = ins.x
            if cnt is not None and cnt[1] != ('i', 1):
                v = self.value(s, cnt)
                size = self.u(s, v) * self.m.sizeof(t)
            else:
                size = self.m.sizeof(t)
            r = Region('cell' if isc(size) else 'raw', ins.res, size, local=True)
            r.x['frame'] = f.name
            self.alloca_types(f, r, ins)
            s.mem[r] = Cells()
            s.regs[ins.res] = PtrV(r, 0)
            return
        if op == 'load':
            v = self.load(s, self.value(s, ins.ops[0]), ins.ty)
            if ins.ty.k == 'int' and ins.ty.a == 1 and isinstance(v, IntV):
                v = BoolV(self.tobool(v))
            s.regs[ins.res] = v
            return
        if op == 'store':
            self.store(s, self.value(s, ins.ops[1]), self.value(s, ins.ops[0]), ins.ops[0][0])
            return
        if op == 'getelementptr':
            s.regs[ins.res] = self.gep(s, ins)
            return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.value(s, ins.ops[0]), self.value(s, ins.ops[1])
            s.regs[ins.res] = self.binop(s, op, ins.ty.a, a, b, ins.x)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.value(s, ins.ops[0]), self.value(s, ins.ops[1])
            if not isinstance(a, FV) or not isinstance(b, FV):
                raise Unsupported('floating point type')
            s.regs[ins.res] = self.fop(s, op, a, b)
            return
        if op == 'fneg':
            s.regs[ins.res] = self.f1(s, 'fneg', self.value(s, ins.ops[0]))
            return
        if op == 'icmp':
            a, b = self.value(s, ins.ops[0]), self.value(s, ins.ops[1])
            s.regs[ins.res] = self.icmp(s, ins.x, a, b)
            return
        if op == 'fcmp':
            a, b = self.value(s, ins.ops[0]), self.value(s, ins.ops[1])
            if not isinstance(a, FV) or not isinstance(b, FV):
                raise Unsupported('floating point type')
            s.regs[ins.res] = self.fcmp(s, ins.x, a, b)
            return
        if op == 'select':
            c = self.tobool(self.value(s, ins.ops[0]))
            a, b = self.value(s, ins.ops[1]), self.value(s, ins.ops[2])
            try:
                s.regs[ins.res] = merge_val(c, a, b) if not isinstance(c, bool) else (a if c else b)
            except CannotMerge:
                raise Unsupported('select of pointers')
            return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'fptoui',
                  'sitofp', 'uitofp', 'fpext', 'fptrunc', 'addrspacecast'):
            s.regs[ins.res] = self.cast(s, op, ins.ops[0][0], self.value(s, ins.ops[0]), ins.ty)
            return
        if op == 'extractvalue':
            v = self.value(s, ins.ops[0])
            for i in ins.x:
                v = v.es[i] if isinstance(v, AggV) else UNDEF
            s.regs[ins.res] = v
            return
        if op == 'insertvalue':
            a, b = self.value(s, ins.ops[0]), self.value(s, ins.ops[1])
            t = self.m.res_ty(ins.ty)
            n = len(t.a) if t.k == 'struct' else t.a
            es = list(a.es) if isinstance(a, AggV) else [UNDEF] * n
            if len(ins.x) != 1:
                raise Unsupported('nested insertvalue')
            es[ins.x[0]] = b
            s.regs[ins.res] = AggV(es)
            return
        if op == 'freeze':
            s.regs[ins.res] = self.value(s, ins.ops[0])
            return
        if op == 'fence':
            return
        if op == 'atomicrmw':
            p = self.value(s, ins.ops[0])
            v = self.value(s, ins.ops[1])
            old = self.load(s, p, ins.ty)
            o = ins.x
            if o in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(s, o, ins.ty.a, old, v, ())
            elif o == 'xchg':
                new = v
            else:
                raise Unsupported('atomicrmw ' + o)
            self.store(s, p, new, ins.ty)
            s.regs[ins.res] = old
            return
        raise Unsupported('instruction ' + op)

    def alloca_types(self, f, r, ins):
        """Signedness of a local variable, from the debug information."""
        if not hasattr(f, 'locals'):
            f.locals = {}
            for b in f.blocks.values():
                for x in b.ins:
                    if x.op == 'call' and x.x['callee'] == ('g', 'llvm.dbg.declare'):
                        a = x.ops[0][1]
                        md = x.ops[1][1]
                        if a[0] == 'mdval' and a[1][0] == 'l' and md[0] == 'md':
                            f.locals[a[1][1]] = md[1]
        md = f.locals.get(ins.res)
        if md is None:
            return
        try:
            k, fl = self.m.di().node(md)
            nm = fl.get('name', '').strip('"')
            if nm:
                r.name = nm
            sc = self.m.di().scalar(fl['type'])
            if sc[0] == 'i':
                r.layout = {0: [(sc[1], sc, r.name)]}
        except (IRError, KeyError, ValueError):
            pass

    def gep(self, s, ins):
        bt, flags = ins.x
        p = self.value(s, ins.ops[0])
        if isinstance(p, IntV) and p.p is not None:
            p = p.p
        if not isinstance(p, PtrV):
            raise Unsupported('gep on %r' % (p,))
        off = p.off
        t = bt
        for i, tv in enumerate(ins.ops[1:]):
            v = self.value(s, tv)
            if i > 0:
                t = self.m.res_ty(t)
                if t.k == 'struct':
                    o, t = self.m.field_off(t, v.t)
                    off = off + o
                    continue
                t = t.b
            x = self.sv(s, v)
            sz = self.m.sizeof(t)
            if isc(x):
                off = off + x * sz
            else:
                off = off + (x * sz if sz != 1 else x)
        if p.r is None:
            if isc(off) and off == 0:
                return p
            return PtrV(None, off)
        return PtrV(p.r, off if isc(off) else off)

    def cast(self, s, op, ft, v, tt):
        if isinstance(v, UndefV):
            return UNDEF
        if op == 'bitcast' or op == 'addrspacecast':
            if ft.k == tt.k and ft.k != 'int':
                return v
            return self.typed(s, v, tt, self.m.sizeof(tt))
        if op == 'zext':
            if isinstance(v, BoolV):
                return self.bool2int(v.b, tt.a)
            t = self.u(s, v)
            lo, hi = self.bn(v, t)
            return IntV(tt.a, t, lo, hi, v.b)
        if op == 'sext':
            if isinstance(v, BoolV):
                return IntV(tt.a, ITE(v.b, -1, 0), -1, 0)
            t = self.sv(s, v)
            H = 1 << (v.w - 1)
            lo = v.lo if v.lo is not None and v.lo >= -H else -H
            hi = v.hi if v.hi is not None and v.hi < H else H - 1
            return IntV(tt.a, t, lo, hi)
        if op == 'trunc':
            if tt.a == 1:
                if isc(v.t):
                    return BoolV(bool(v.t & 1))
                if v.b is not None:
                    return BoolV(v.b)
                t = self.u(s, v)
                if v.lo == 0 and v.hi == 1:
                    return BoolV(t == 1)
                q, r = self.divmod(s, t, 2)
                return BoolV(EQ(r, 1))
            if isc(v.t):
                return IntV(tt.a, v.t % (1 << tt.a))
            lo, hi = v.lo, v.hi
            return self.norm(s, IntV(tt.a, v.t, lo, hi, v.b))
        if op == 'ptrtoint':
            if isinstance(v, PtrV) and v.r is None:
                return IntV(tt.a, 0 if isc(v.off) and v.off == 0 else v.off)
            return IntV(tt.a, fint('addr'), 0, (1 << 64) - 1, None, v)
        if op == 'inttoptr':
            if v.p is not None:
                return v.p
            if isc(v.t) and v.t == 0:
                return NULL
            return PtrV(None, self.u(s, v))      # (not the address of an object)
        if op in ('fptosi', 'fptoui'):
            if not isinstance(v, FV):
                raise Unsupported('floating point type')
            return self.ftoi(s, v, tt.a, op == 'fptosi')
        if op in ('sitofp', 'uitofp'):
            if tt.k not in ('double', 'float'):
                raise Unsupported('floating point type')
            t = self.sv(s, v) if op == 'sitofp' else self.u(s, v)
            return self.itof(s, t, 'd' if tt.k == 'double' else 'f')
        if op in ('fpext', 'fptrunc'):
            if not isinstance(v, FV) or tt.k not in ('double', 'float'):
                raise Unsupported('floating point type')
            a, b = v.k, self.kindof(tt)
            f = z3.Function('%s.%s%s' % (op, a, b), FSORT[a], FSORT[b])
            r = FV(b, f(v.t))
            self.ffacts(s, r)
            if op == 'fpext':
                s.assume(z3.And(cls[b](r.t) == cls[a](v.t), z3.Implies(cls[a](v.t) == 1, val[b](r.t) == val[a](v.t))))
            return r
        raise Unsupported(op)

    # ================================================================= calls
    def name_term(self, const, expr):
        self.named[frozenset(poly(expr).items())] = const

    def loop_calls(self, f, hdr, rx):
        """Does the loop call a function that matches?"""
        for b in f.loops[hdr] or ():
            for ins in f.blocks[b].ins:
                if ins.op in ('call', 'invoke') and ins.x['callee'][0] == 'g' and re.search(rx, self.m.dem.get(ins.x['callee'][1], ins.x['callee'][1])):
                    return True
        return False

    def find_model(self, name):
        if name in self.modelcache:
            return self.modelcache[name]
        dem = self.m.dem.get(name, name)
        r = None
        for rx, fn in self.models:
            if rx.search(dem):
                r = (rx.pattern, fn)
                break
        self.modelcache[name] = r
        return r

    def do_call(self, f, s, ins):
        cal = ins.x['callee']
        if cal[0] == 'g':
            name = cal[1]
            if name.startswith('llvm.dbg.') or name.startswith('llvm.lifetime'):
                return [(s, None)]
        else:
            v = self.value(s, (PTR, cal))
            if not isinstance(v, PtrV) or v.r is None or v.r.kind != 'fn':
                raise Unsupported('indirect call through %r' % (v,))
            name = v.r.x['fn']
        args = []
        for t, a in ins.ops:
            if t.k == 'metadata':
                args.append(None)
            else:
                args.append(self.value(s, (t, a)))
        return self.invoke(s, name, args, ins)

    def invoke(self, s, name, args, ins=None):
        if name.startswith('llvm.'):
            return self.intrinsic(s, name, args, ins)
        m = self.find_model(name)
        if m is not None:
            dem = self.m.dem.get(name, name)
            r = m[1](self, s, args, ins, dem)
            if r is not NotImplemented:
                self.used_models.add(m[0])
                return r
        f = self.m.functions.get(name)
        if f is None:
            d = self.m.globals.get(name)
            if name not in self.m.aliases and d is not None and ' alias ' in d:
                self.global_region(name)
            if name in self.m.aliases:
                return self.invoke(s, self.m.aliases[name], args, ins)
            raise Unsupported('call of external function ' + self.m.dem.get(name, name))
        dem = self.m.dem.get(name, name)
        if self.modelled_class(dem):
            # the object is represented by its contract: its memory means nothing
            raise Unsupported('no contract for ' + dem[-120:])
        self.inlined.add(dem)
        return self.call_function(s, f, args)

    def modelled_class(self, dem):
        """Is this a member of a standard container of which other members have contracts?"""
        m = re.match(r'^(?:[\w:<>*&, ]+ )?(std::(?:__cxx11::)?(?:deque|vector|map|unordered_map|list|set|multimap)<.*>)::(~?\w+|operator ?\S+)\(', dem)
        if m is None:
            return False
        cl = m.group(1)
        if cl not in self.modelled:
            r = False
            for n, d in self.m.dem.items():
                if cl + '::' in d and not re.search(r'::_[A-Z]\w*(<.*>)?\(', d):
                    k = d.index(cl + '::') + len(cl) + 2
                    if '::' not in d[k:].split('(')[0] and self.find_model(n) is not None:
                        r = True
                        break
            self.modelled[cl] = r
        return self.modelled[cl]

    def intrinsic(self, s, name, a, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(s, a[0], a[1], self.u(s, a[2]))
            return [(s, None)]
        if name.startswith('llvm.memset'):
            self.memset(s, a[0], a[1], self.u(s, a[2]))
            return [(s, None)]
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m.group(3))
            M = 1 << w
            if m.group(1) == 'u':
                x, y = self.u(s, a[0]), self.u(s, a[1])
                lo, hi = 0, M - 1
            else:
                x, y = self.sv(s, a[0]), self.sv(s, a[1])
                lo, hi = -(M >> 1), (M >> 1) - 1
            t = x + y if m.group(2) == 'add' else x - y if m.group(2) == 'sub' else x * y
            if isc(t):
                return [(s, AggV([IntV(w, t % M), BoolV(not lo <= t <= hi)]))]
            ov = OR(LTt(t, lo), LTt(hi, t))
            if self.s.entails_quick(s.pc, NOT(ov)):
                return [(s, AggV([IntV(w, t, lo, hi), BoolV(False)]))]
            return [(s, AggV([IntV(w, t), BoolV(ov)]))]
        m = re.match(r'llvm\.(fabs|floor|ceil|trunc|round|rint|nearbyint|roundeven)\.f(\d+)', name)
        if m:
            return [(s, self.f1(s, m.group(1), a[0]))]
        if name.startswith('llvm.is.fpclass'):
            k = a[0].k
            mask = a[1].t
            C, V = cls[k], val[k]
            x = a[0].t
            ps = []
            if mask & 3:
                ps.append(C(x) == 0)
            if mask & 4:
                ps.append(C(x) == 3)
            if mask & 512:
                ps.append(C(x) == 2)
            fin = 8 | 16 | 32 | 64 | 128 | 256
            if mask & fin == fin:
                ps.append(C(x) == 1)
            elif mask & fin:
                raise Unsupported('is.fpclass mask')
            return [(s, BoolV(OR(*ps)))]
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma.'):
            t = self.fop(s, 'fmul', a[0], a[1])
            return [(s, self.fop(s, 'fadd', t, a[2]))]
        if name.startswith('llvm.expect'):
            return [(s, a[0])]
        if name.startswith('llvm.assume'):
            s.assume(self.tobool(a[0]))
            return [(s, None)]
        if name.startswith('llvm.trap'):
            self.oblige(s, 'trap not reached', False, 'unreachable')
            return []
        if name.startswith('llvm.stacksave'):
            return [(s, UNDEF)]
        if name.startswith('llvm.stackrestore') or name.startswith('llvm.prefetch'):
            return [(s, None)]
        m = re.match(r'llvm\.([us])(min|max)\.i(\d+)', name)
        if m:
            x, y = (self.u(s, a[0]), self.u(s, a[1])) if m.group(1) == 'u' else (self.sv(s, a[0]), self.sv(s, a[1]))
            c = LTt(x, y)
            return [(s, merge_val(c, a[0], a[1]) if m.group(2) == 'min' else merge_val(c, a[1], a[0]))]
        if name.startswith('llvm.abs.'):
            x = self.sv(s, a[0])
            H = 1 << (a[0].w - 1)
            t = ITE(LTt(x, 0), -x, x)
            return [(s, IntV(a[0].w, t, 0, H))]
        raise Unsupported(name)


def mkb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def mki(x):
    return z3.IntVal(x) if isc(x) else x


def GE(a, b):
    return a >= b


def GT(a, b):
    return a > b


def LTt(a, b):
    if isc(a) and isc(b):
        return a < b
    d = padd(poly(b), poly(a), -1)
    if not d:
        return False
    if list(d) == [()]:
        return d[()] > 0
    return a < b


def ge_(a, b):
    if a is None or b is None:
        return None
    return a >= b


def eq_(a, a0, b, b0, k):
    if a is None or b is None:
        return None
    return (a - a0) == k * (b - b0)

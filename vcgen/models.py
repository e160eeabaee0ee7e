"""Assumed contracts of external functions (the trusted base): C++ runtime,
libstdc++ containers, pthread. Keyed by demangled name."""
import re
import z3
from .ir import INT, PTR, Ty
from .sym import *
from .exec import AND, OR, NOT, mki, LTt, GE


def model(table, rx):
    def deco(fn):
        table.append((re.compile(rx), fn))
        return fn
    return deco


BASE = []


@model(BASE, r'^__assert_fail$')
def m_assert(ex, st, a, ins, dem):
    txt = cstr(ex, st, a[0])
    ex.oblige(st, 'assert(%s)' % txt, False, 'assert')
    return []


def cstr(ex, st, p):
    """The text of a constant C string, or None."""
    if not isinstance(p, PtrV) or p.r is None or not isc(p.off):
        return None
    ex.load_global(st, p.r)
    c = st.mem.get(p.r)
    out = []
    o = p.off
    while c is not None and o in c.cells and isinstance(c.cells[o][1], IntV) and isc(c.cells[o][1].t):
        b = c.cells[o][1].t
        if b == 0:
            return ''.join(out)
        out.append(chr(b))
        o += 1
    return None


@model(BASE, r'^utils::verifFatal\(\)$')
def m_fatal(ex, st, a, ins, dem):
    ok = ex.fatal_ok(st) if ex.fatal_ok else False
    ex.oblige(st, 'no fatal error', ok, 'fatal')
    return []


@model(BASE, r'^utils::verifWarn\(\)$')
def m_warn(ex, st, a, ins, dem):
    return [(st, None)]


@model(BASE, r'^utils::(Message|FatalMessage)& utils::(Message|FatalMessage)::operator<<')
def m_msg(ex, st, a, ins, dem):
    return [(st, a[0])]


@model(BASE, r'^(abort|exit|_exit|terminate|std::terminate\(\)|__clang_call_terminate|std::__throw_\w+.*|__cxa_throw.*|__cxa_pure_virtual)$')
def m_abort(ex, st, a, ins, dem):
    ex.oblige(st, '%s not reached' % dem.split('(')[0], False, 'unreachable')
    return []


@model(BASE, r'^operator new(\[\])?\(unsigned long\)$')
def m_new(ex, st, a, ins, dem):
    n = ex.u(st, a[0])
    r = Region('raw', fname('heap'), n, heap=True)
    if isc(n):
        r.kind = 'cell'
    st.mem[r] = Cells()
    r.x['new'] = '[]' if '[]' in dem else ''
    if not isc(n):
        st.assume(n <= 1 << 47)      # otherwise the allocation throws
    return [(st, PtrV(r, 0))]


@model(BASE, r'^operator delete(\[\])?\(void\*')
def m_delete(ex, st, a, ins, dem):
    p = a[0]
    if p.r is None:
        return [(st, None)]
    if p.r in st.dead:
        ex.oblige(st, 'no double free', False, 'uaf')
        return [(st, None)]
    if not (isc(p.off) and p.off == 0):
        ex.oblige(st, 'freed pointer is the start of its allocation', EQ2(p.off, 0), 'uaf')
    st.dead = st.dead | {p.r}
    return [(st, None)]


@model(BASE, r'^(malloc)$')
def m_malloc(ex, st, a, ins, dem):
    n = ex.u(st, a[0])
    r = Region('raw', fname('malloc'), n, heap=True)
    if isc(n):
        r.kind = 'cell'
    st.mem[r] = Cells()
    return [(st, PtrV(r, 0))]


@model(BASE, r'^free$')
def m_free(ex, st, a, ins, dem):
    return m_delete(ex, st, a, ins, dem)


@model(BASE, r'^__cxa_guard_|^__cxa_atexit')
def m_guard(ex, st, a, ins, dem):
    return [(st, IntV(32, 1))]


@model(BASE, r'^(floor|ceil|trunc|fabs|round|rint|nearbyint)f?$')
def m_libm(ex, st, a, ins, dem):
    n = dem[:-1] if dem.endswith('f') and dem not in ('f',) else dem
    return [(st, ex.f1(st, n, a[0]))]


# ------------------------------------------------------- std::unordered_map
class MapC:
    """Abstract content of an associative container with integer keys."""

    def __init__(self, dom, val, w, size=None):
        self.dom, self.val, self.w = dom, val, w

    def merge(self, c, o):
        return MapC(lambda k: ITE(c, self.dom(k), o.dom(k)), lambda k: ITE(c, self.val(k), o.val(k)), self.w)

    def havoc(self):
        return MapC.fresh(fname('map'), self.w)

    @staticmethod
    def fresh(nm, w=64):
        d = z3.Function(nm + '.dom', I, B)
        v = z3.Function(nm + '.val', I, I)
        return MapC(lambda k: d(mki(k)), lambda k: v(mki(k)), w)


NODE = 64     # stride of abstract nodes; layout of _Hash_node<pair<K,V>>: next, key, value
UMAP = []
_nodes = {}


def mapkey(p):
    return ('map', p.r, p.off if isc(p.off) else p.off.get_id())


def map_of(ex, st, p):
    k = mapkey(p)
    if k not in st.ghost:
        st.ghost[k] = MapC.fresh(fname('map'))
    return st.ghost[k]


def node_region(ex, p):
    k = mapkey(p)
    if k not in _nodes:
        r = Region('mapnode', 'node', None)
        r.x['map'] = k
        _nodes[k] = r
    return _nodes[k]


def map_hook(ex, st, r, off, n, ty, v):
    """Loads and stores inside a map node."""
    if r.kind != 'mapnode':
        return None
    m = st.ghost[r.x['map']]
    q, rest = pdiv_mono(poly(off), (), NODE)
    key = unpoly(q)
    f = rest.get((), 0)
    if any(mm for mm in rest):
        raise Unsupported('map node offset')
    ex.oblige(st, 'iterator refers to an element', AND(GE(key, 0), m.dom(key)), 'bounds')
    if f == 8:
        if v is not None:
            raise Unsupported('map key overwritten')
        return IntV(8 * n, key, 0, (1 << (8 * n)) - 1)
    if f == r.x.get('voff', 16):
        if v is None:
            t = m.val(key)
            st.assume(AND(t >= 0, t < (1 << (8 * n))))
            return IntV(8 * n, t, 0, (1 << (8 * n)) - 1)
        nv = ex.u(st, v)
        st.ghost[r.x['map']] = MapC(m.dom, lambda k: ITE(EQ2(k, key), nv, m.val(k)), m.w)
        return True
    raise Unsupported('map node field')


def endp(ex, p):
    return PtrV(node_region(ex, p), -NODE)


UM = r'^std::unordered_map<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>)*[^<>]*>::'


@model(UMAP, r'^std::unordered_map<.*>::(end|cend)\(\)( const)?$')
def m_end(ex, st, a, ins, dem):
    map_of(ex, st, a[0])
    return [(st, endp(ex, a[0]))]


@model(UMAP, r'^std::unordered_map<.*>::find\(.*&\)( const)?$')
def m_find(ex, st, a, ins, dem):
    m = map_of(ex, st, a[0])
    k = ex.u(st, ex.load(st, a[1], INT(64)))
    d = m.dom(k)
    out = []
    for c, off in ((d, k * NODE), (NOT(d), -NODE)):
        if ex.s.sat_quick(st.pc, [c]):
            s = st.fork()
            s.assume(c)
            out.append((s, PtrV(node_region(ex, a[0]), off)))
    return out


@model(UMAP, r'^std::unordered_map<.*>::count\(.*&\) const$')
def m_count(ex, st, a, ins, dem):
    m = map_of(ex, st, a[0])
    k = ex.u(st, ex.load(st, a[1], INT(64)))
    return [(st, ex.bool2int(m.dom(k), 64))]


@model(UMAP, r'^std::unordered_map<.*>::erase\(unsigned long const&\)$')
def m_erase(ex, st, a, ins, dem):
    m = map_of(ex, st, a[0])
    k = ex.u(st, ex.load(st, a[1], INT(64)))
    st.ghost[mapkey(a[0])] = MapC(lambda x: AND(NOT(EQ2(x, k)), m.dom(x)), m.val, m.w)
    return [(st, ex.bool2int(m.dom(k), 64))]


@model(UMAP, r'^std::unordered_map<.*>::erase\(std::__detail::_Node_(const_)?iterator<.*>\)$')
def m_erase_it(ex, st, a, ins, dem):
    m = map_of(ex, st, a[0])
    q, rest = pdiv_mono(poly(a[1].off), (), NODE)
    k = unpoly(q)
    if isinstance(a[1].off, z3.ExprRef) and a[1].off.decl().kind() == z3.Z3_OP_ITE:
        k = unite(a[1].off)
    ex.oblige(st, 'erased iterator refers to an element', AND(GE(k, 0), m.dom(k)), 'bounds')
    st.ghost[mapkey(a[0])] = MapC(lambda x: AND(NOT(EQ2(x, k)), m.dom(x)), m.val, m.w)
    return [(st, UNDEF)]


def unite(t):
    """off = If(c, k*NODE, -NODE) -> If(c, k, -1)"""
    c, a, b = t.children()
    f = lambda x: unite(x) if x.decl().kind() == z3.Z3_OP_ITE else unpoly(pdiv_mono(poly(x), (), NODE)[0])
    return ITE(c, f(a), f(b))


@model(UMAP, r'^std::unordered_map<.*>::operator\[\]\(unsigned long (const&|&&)\)$')
def m_index(ex, st, a, ins, dem):
    m = map_of(ex, st, a[0])
    k = ex.u(st, ex.load(st, a[1], INT(64)))
    st.ghost[mapkey(a[0])] = MapC(lambda x: OR(EQ2(x, k), m.dom(x)),
                                  lambda x: ITE(AND(EQ2(x, k), NOT(m.dom(k))), 0, m.val(x)), m.w)
    return [(st, PtrV(node_region(ex, a[0]), k * NODE + 16))]


@model(UMAP, r'^std::unordered_map<.*>::at\(unsigned long const&\)( const)?$')
def m_at(ex, st, a, ins, dem):
    m = map_of(ex, st, a[0])
    k = ex.u(st, ex.load(st, a[1], INT(64)))
    ex.oblige(st, 'at() refers to an element', m.dom(k), 'bounds')
    return [(st, PtrV(node_region(ex, a[0]), k * NODE + 16))]


@model(UMAP, r'^std::unordered_map<.*>::(clear)\(\)$')
def m_clear(ex, st, a, ins, dem):
    st.ghost[mapkey(a[0])] = MapC(lambda x: False, lambda x: 0, 64)
    return [(st, None)]


@model(UMAP, r'^std::unordered_map<.*>::unordered_map\(\)$')
def m_ctor(ex, st, a, ins, dem):
    st.ghost[mapkey(a[0])] = MapC(lambda x: False, lambda x: 0, 64)
    return [(st, None)]


@model(UMAP, r'^std::unordered_map<.*>::(reserve|rehash|~unordered_map|max_load_factor)\(')
def m_reserve(ex, st, a, ins, dem):
    return [(st, None)]


@model(UMAP, r'^std::unordered_map<.*>::')
def m_umap_other(ex, st, a, ins, dem):
    raise Unsupported('no contract for ' + dem)


# ------------------------------------------------------------------- locks
LOCKS = []


def lock_id(p):
    return (p.r, p.off)


def same_lock(a, b):
    """Formula: two lock addresses are the same."""
    if a[0] is not b[0]:
        return False
    return EQ2(a[1], b[1])


def held(st):
    return st.ghost.get('$held', ())


@model(LOCKS, r'^pthread_(spin|mutex)_lock$')
def m_lock(ex, st, a, ins, dem):
    k = lock_id(a[0])
    for h in held(st):
        ex.oblige(st, 'lock is not already held by this thread', NOT(same_lock(h, k)), 'lock')
    st.ghost['$held'] = held(st) + (k,)
    if ex.on_lock:
        ex.on_lock(st, k)
    return [(st, IntV(32, 0))]


@model(LOCKS, r'^pthread_(spin|mutex)_trylock$')
def m_trylock(ex, st, a, ins, dem):
    k = lock_id(a[0])
    s2 = st.fork()
    e = fint('trylock')
    s2.assume(e > 0)
    s2.assume(e < 200)
    out = []
    ok = AND(*[NOT(same_lock(h, k)) for h in held(st)])
    st.assume(ok)
    st.ghost['$held'] = held(st) + (k,)
    if ex.on_lock:
        ex.on_lock(st, k)
    if ok is not False:
        out.append((st, IntV(32, 0)))
    out.append((s2, IntV(32, e, 1, 199)))
    return out


@model(LOCKS, r'^pthread_(spin|mutex)_unlock$')
def m_unlock(ex, st, a, ins, dem):
    k = lock_id(a[0])
    hs = list(held(st))
    for i in range(len(hs) - 1, -1, -1):
        if same_lock(hs[i], k) is True or ex.s.entails_quick(st.pc, same_lock(hs[i], k), quant=True):
            if ex.on_unlock:
                ex.on_unlock(st, hs[i])
            del hs[i]
            st.ghost['$held'] = tuple(hs)
            return [(st, IntV(32, 0))]
    ex.oblige(st, 'unlocked lock is held by this thread', False, 'lock')
    return [(st, IntV(32, 0))]


@model(LOCKS, r'^pthread_(spin|mutex|cond)_(init|destroy)$')
def m_lockinit(ex, st, a, ins, dem):
    return [(st, IntV(32, 0))]


def install(ex, *tables):
    ex.models = [x for t in tables for x in t] + ex.models
    if UMAP in tables:
        ex.mem_hooks.append(map_hook)

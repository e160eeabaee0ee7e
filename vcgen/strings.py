"""Assumed contract of std::string: the text of a string is a value of an
uninterpreted sort (constants are interned), operations are functions on it."""
import re
import z3
from .ir import INT, PTR
from .sym import *
from .exec import AND, OR, NOT, mki, mkb
from .models import model, cstr

STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>'
STRINGS = []
_ids = {}
_txt = {}


def intern(s):
    if s not in _ids:
        _ids[s] = len(_ids) + 1
        _txt[_ids[s]] = s
    return _ids[s]


def text(t):
    """The text of a constant, or None."""
    return _txt.get(t) if isc(t) else None


class StrC:
    """Content of a string."""

    def __init__(self, t):
        self.t = t

    def merge(self, c, o):
        if isc(self.t) and isc(o.t) and self.t == o.t:
            return self
        return StrC(ITE(c, self.t, o.t))

    def havoc(self):
        return StrC(fint('text'))

    def __eq__(self, o):
        return isinstance(o, StrC) and (isc(self.t) and isc(o.t) and self.t == o.t or
                                        isinstance(self.t, z3.ExprRef) and isinstance(o.t, z3.ExprRef) and self.t.eq(o.t))

    __hash__ = None


_fun = {}


def fun(name, n=1, ret=I):
    if (name, n) not in _fun:
        _fun[(name, n)] = z3.Function('str.' + name, *([I] * n + [ret]))
    return _fun[(name, n)]


def apply(name, *ts, py=None):
    """f(texts): computed for constants, uninterpreted otherwise."""
    if py is not None and all(text(t) is not None for t in ts):
        r = py(*[text(t) for t in ts])
        return intern(r) if isinstance(r, str) else r
    ret = B if name in PREDS else I
    return fun(name, len(ts), ret)(*[mki(t) for t in ts])


PREDS = {'startsWith'}


def parts(t):
    """(condition, a, b) of a conditional text, or None."""
    if isinstance(t, z3.ExprRef) and z3.is_app_of(t, z3.Z3_OP_ITE):
        return t.children()
    return None


def fun_of(t, *names):
    """Name of the outermost function of the text if it is one of these."""
    if isinstance(t, z3.ExprRef) and t.num_args() == 1 and t.decl().name() in ['str.' + n for n in names]:
        return t.decl().name()[4:]
    return None


def texts(t):
    """Constants of the text sort appear as numerals inside of terms."""
    if isinstance(t, z3.IntNumRef):
        return t.as_long()
    return t


def upper(t):
    """Upper case; case and the replacement of '-' do not influence each other: in normal form the replacement comes last."""
    c = parts(t)
    if c:
        return ITE(c[0], upper(texts(c[1])), upper(texts(c[2])))
    f = fun_of(t, 'dash0', 'dash1')
    if f:
        return dash(upper(texts(t.arg(0))), int(f[4:]))
    if fun_of(t, 'upper'):
        return t
    return apply('upper', t, py=lambda s: ''.join(chr(ord(c) - 32) if 'a' <= c <= 'z' else c for c in s))


def dash(t, first=0):
    """'-' replaced by '_' from position first on."""
    c = parts(t)
    if c:
        return ITE(c[0], dash(texts(c[1]), first), dash(texts(c[2]), first))
    f = fun_of(t, 'dash0', 'dash1')
    if f:
        return dash(texts(t.arg(0)), min(first, int(f[4:])))
    return apply('dash%d' % first, t, py=lambda s: s[:first] + s[first:].replace('-', '_'))


def empty(t):
    """Neither upper case nor the replacement changes the length of a text."""
    c = parts(t)
    if c:
        return ITEb(c[0], empty(texts(c[1])), empty(texts(c[2])))
    if fun_of(t, 'dash0', 'dash1', 'upper'):
        return empty(texts(t.arg(0)))
    return EQ2(t, intern(''))


def ITEb(c, a, b):
    return OR(AND(c, a), AND(NOT(c), b))


def empty_facts():
    """The empty text stays empty."""
    return [fun(f)(mki(intern(''))) == intern('') for f in ('upper', 'dash0', 'dash1')]


def starts(t, p):
    return apply('startsWith', t, p, py=lambda s, q: s.startswith(q))


def concat(a, b):
    return apply('concat', a, b, py=lambda x, y: x + y)


def skey(ex, p):
    if not isinstance(p, PtrV) or p.r is None:
        raise Unsupported('string object')
    o = p.off
    if isc(o):
        return '$str', p.r, o
    return '$str', p.r, str(z3.simplify(o))


def get(ex, st, p):
    """Content of the string object at p."""
    if 'strings' in p.r.x:
        return p.r.x['strings'](st, p, None)
    k = skey(ex, p)
    if k not in st.ghost:
        st.ghost[k] = StrC(fint('text of ' + p.r.name))
    return st.ghost[k].t


def put(ex, st, p, t):
    if 'strings' in p.r.x:
        p.r.x['strings'](st, p, t)
        return
    st.ghost[skey(ex, p)] = StrC(t)


def drop(ex, st, p):
    if 'strings' not in p.r.x:
        st.ghost.pop(skey(ex, p), None)


def chars(ex, st, p):
    """Text of a C string."""
    if not isinstance(p, PtrV) or p.r is None:
        raise Unsupported('C string')
    if 'text' in p.r.x:
        if not (isc(p.off) and p.off == 0):
            raise Unsupported('part of a C string')
        return p.r.x['text']
    k = ('$text', p.r)
    if k in st.ghost:
        return st.ghost[k].t
    s = cstr(ex, st, p)
    if s is None:
        raise Unsupported('C string %r' % (p,))
    return intern(s)


def cstring(t, name='chars'):
    """A C string with this text."""
    r = Region('cell', name, None, layout={})
    r.x['text'] = t
    return PtrV(r, 0)


def m(rx):
    return model(STRINGS, rx.replace('STR', STR))


@m(r'^STR::basic_string\(char const\*, std::allocator<char> const&\)$')
@m(r'^STR::basic_string<std::allocator<char> ?>\(char const\*, std::allocator<char> const&\)$')
def s_ctor(ex, st, a, ins, dem):
    put(ex, st, a[0], chars(ex, st, a[1]))
    return [(st, None)]


@m(r'^STR::basic_string\(STR ?(const&|&&)\)$')
def s_copy(ex, st, a, ins, dem):
    put(ex, st, a[0], get(ex, st, a[1]))
    return [(st, None)]


@m(r'^STR::basic_string\(\)$')
def s_default(ex, st, a, ins, dem):
    put(ex, st, a[0], intern(''))
    return [(st, None)]


@m(r'^STR::~basic_string\(\)$')
def s_dtor(ex, st, a, ins, dem):
    drop(ex, st, a[0])
    return [(st, None)]


@m(r'^STR::(operator=|assign)\(char const\*\)$')
def s_set(ex, st, a, ins, dem):
    put(ex, st, a[0], chars(ex, st, a[1]))
    return [(st, a[0])]


@m(r'^STR::(operator=|assign)\(STR ?(const&|&&)\)$')
def s_assign(ex, st, a, ins, dem):
    put(ex, st, a[0], get(ex, st, a[1]))
    return [(st, a[0])]


@m(r'^STR::(c_str|data)\(\) const$')
def s_cstr(ex, st, a, ins, dem):
    return [(st, cstring(get(ex, st, a[0])))]


@m(r'^STR::empty\(\) const$')
def s_empty(ex, st, a, ins, dem):
    return [(st, BoolV(empty(get(ex, st, a[0]))))]


@m(r'^STR::(size|length)\(\) const$')
def s_size(ex, st, a, ins, dem):
    t = get(ex, st, a[0])
    if text(t) is not None:
        return [(st, IntV(64, len(text(t)), 0, 1 << 40))]
    n = fun('length')(mki(t))
    st.assume(AND(n >= 0, n < 1 << 40))
    st.assume(EQ(n == 0, mkb(empty(t))))
    return [(st, IntV(64, n, 0, 1 << 40))]


@m(r'^STR::(begin|end)\(\)$')
def s_begin(ex, st, a, ins, dem):
    k = ('$chars', a[0].r, a[0].off if isc(a[0].off) else str(a[0].off))
    r = ex.__dict__.setdefault('_chars', {}).setdefault(k, Region('cell', 'characters', None, layout={}))
    r.x['string'] = a[0]
    e = z3.Int('end of %s' % r.id)
    if '::end' in dem:
        return [(st, PtrV(r, e))]
    return [(st, PtrV(r, 0))]


@m(r'^(void )?std::replace<__gnu_cxx::__normal_iterator<char\*, STR ?>, char>\(')
def s_replace(ex, st, a, ins, dem):
    b, e = a[0], a[1]
    if b.r is not e.r or 'string' not in b.r.x or not (isinstance(e.off, z3.ExprRef) and e.off.eq(z3.Int('end of %s' % b.r.id))):
        raise Unsupported('replace in a part of a string')
    c = [ex.u(st, ex.load(st, x, INT(8))) for x in a[2:4]]
    if c != [ord('-'), ord('_')]:
        raise Unsupported('replace of other characters')
    p = b.r.x['string']
    t = get(ex, st, p)
    o = b.off
    if isc(o) and o in (0, 1):
        n = dash(t, o)
        if o == 1:
            ex.oblige(st, 'the string is not empty', NOT(empty(t)), 'bounds')
    else:
        # 0 or 1, whichever the string allows
        ex.oblige(st, 'start of the range is a position of the string', AND(o >= 0, o <= 1, OR(EQ2(o, 0), NOT(empty(t)))), 'bounds')
        n = ITE(EQ2(o, 1), dash(t, 1), dash(t, 0))
    put(ex, st, p, n)
    return [(st, None)]


def sarg(ex, st, p, isstr):
    return get(ex, st, p) if isstr else chars(ex, st, p)


@m(r'^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> ?>\((STR const&|char const\*), (STR const&|char const\*)\)$')
def s_eq(ex, st, a, ins, dem):
    tail = dem.rsplit('(', 1)[1]
    first = not tail.startswith('char const*')
    second = not tail.rstrip(')').endswith('char const*')
    c = EQ2(sarg(ex, st, a[0], first), sarg(ex, st, a[1], second))
    if 'operator!=' in dem:
        c = NOT(c)
    return [(st, BoolV(c))]


@m(r'^STR::compare\((STR const&|char const\*)\) const$')
def s_compare(ex, st, a, ins, dem):
    r = fint('compare')
    x = sarg(ex, st, a[1], 'char const*' not in dem.rsplit('(', 1)[1])
    st.assume(EQ(r == 0, mkb(EQ2(get(ex, st, a[0]), x))))
    st.assume(AND(r >= -(1 << 31), r < 1 << 31))
    return [(st, IntV(32, r, -(1 << 31), (1 << 31) - 1))]


@m(r'^STR std::operator\+<char, std::char_traits<char>, std::allocator<char> ?>\(')
def s_plus(ex, st, a, ins, dem):
    tail = dem.rsplit('(', 1)[1]
    first = not tail.startswith('char const*')
    second = not tail.rstrip(')').endswith('char const*')
    put(ex, st, a[0], concat(sarg(ex, st, a[1], first), sarg(ex, st, a[2], second)))
    return [(st, None)]


@m(r'^utils::StringUtils::toUpper\(STR&\)$')
def s_upper(ex, st, a, ins, dem):
    put(ex, st, a[0], upper(get(ex, st, a[0])))
    return [(st, None)]


@m(r'^utils::StringUtils::startsWith\(STR const&, STR const&\)$')
def s_starts(ex, st, a, ins, dem):
    c = starts(get(ex, st, a[0]), get(ex, st, a[1]))
    return [(st, BoolV(c))]


@m(r'^STR utils::StringUtils::toString<(unsigned int|int|unsigned long|long)>\(')
def s_tostring(ex, st, a, ins, dem):
    v = ex.u(st, a[1]) if 'unsigned' in dem.split('toString', 1)[1] else ex.sv(st, a[1])
    if isc(v):
        put(ex, st, a[0], intern(str(v)))
    else:
        put(ex, st, a[0], fun('decimal')(mki(v)))
    return [(st, None)]


def parsed(t, ty):
    """utils::StringUtils::parse<ty>(text): a function of the text."""
    return fun('parse<%s>' % ty)(mki(t))


@m(r'^(int|unsigned int|char const\*|STR) utils::StringUtils::parse<')
def s_parse(ex, st, a, ins, dem):
    ty = dem.split(' utils::')[0]
    if ty.startswith('std::'):
        put(ex, st, a[0], get(ex, st, a[1]))
        return [(st, None)]
    t = get(ex, st, a[0])
    if ty == 'char const*':
        return [(st, cstring(t))]
    v = parsed(t, ty)
    lo, hi = (-(1 << 31), (1 << 31) - 1) if ty == 'int' else (0, (1 << 32) - 1)
    st.assume(AND(v >= lo, v <= hi))
    return [(st, IntV(32, v, lo, hi))]


@m(r'^std::(__new_)?allocator<char>::~?(__new_)?allocator\(')
@m(r'^std::__new_allocator<char>::~?__new_allocator\(')
def s_alloc(ex, st, a, ins, dem):
    return [(st, None)]


@m(r'^STR::')
def s_other(ex, st, a, ins, dem):
    raise Unsupported('no contract for ' + dem[-120:])

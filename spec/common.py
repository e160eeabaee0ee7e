"""Contracts shared by several specification modules."""
from vcgen.api import *


def umodel(ex, st, w, name, lo=0, hi=None):
    t = fint(name)
    hi = (1 << w) - 1 if hi is None else hi
    st.assume(AND(t >= lo, t <= hi))
    return IntV(w, t, lo, hi)


def const_contract(T, rx, val):
    """Calls of rx return a fixed value (accessor contract)."""
    def c(ex, st, a, ins, dem):
        return [(st, val)]
    T.contract(rx, c)


class Numa:
    """One domain master of a process with D domains: domain d. Contract of
    the accessors of numa::NumaComm (proved under C17)."""

    def __init__(self, T, threads=False):
        self.D = T.int('domains', 32, lo=1)
        self.d = T.int('domain', 32)
        T.assume(self.D.t >= 1, self.D.t <= (1 << 31) - 1, self.d.t >= 0, self.d.t < self.D.t)
        const_contract(T, r'^numa::Numa(Comm)?::totalDomains\(\) const$', self.D)
        const_contract(T, r'^numa::Numa(Comm)?::domainId\(\) const$', self.d)


@models.model(models.BASE, r'^rand$')
def m_rand(ex, st, a, ins, dem):
    t = fint('rand')
    st.assume(AND(t >= 0, t <= 2147483647))
    return [(st, IntV(32, t, 0, 2147483647))]


def fill_shapes(k, g, entry, los=(), stride=8):
    """Parts of an array a loop may have handled so far, as seen from one of its counters: [(name, fn(state) -> (j -> formula))].
    The counter may be an index that counts up or down, a number of elements from a known start, or a position in bytes."""
    x0 = g(entry)
    if x0 is None:
        return []
    out = []
    c = entry.mem[k[0]].cells.get(k[1]) if k[0] in entry.mem else None
    ptr = c is not None and isinstance(c[1], PtrV)

    def add(name, lo, hi, m=1):
        def f(s):
            x = g(s)
            if x is None:
                return None
            a, b = lo(x), hi(x)
            return lambda j: AND(j * m >= a, j * m < b)
        out.append(('%s %s' % (k, name), f))
    if ptr:
        add('bytes', lambda x: x0, lambda x: x, stride)
        add('bytes down', lambda x: x, lambda x: x0, stride)
        return out
    add('up', lambda x: x0, lambda x: x)
    add('down', lambda x: x, lambda x: x0)
    add('down incl', lambda x: x + 1, lambda x: x0 + 1)
    for n, L in enumerate(los):
        add('up from %d' % n, lambda x, L=L: L, lambda x, L=L: L + x - x0)
        add('down to %d' % n, lambda x, L=L: L + x, lambda x, L=L: L + x0)
        add('down incl to %d' % n, lambda x, L=L: L + x + 1, lambda x, L=L: L + x0 + 1)
    return out

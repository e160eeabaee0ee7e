"""Which functions of the program a contract stands for, and whether the program still has them.

A contract for calls names the functions by their names. If such a function was renamed or merged into its caller, the
calls are no longer replaced by the contract: what fails then says nothing about the program. symbols.txt lists the
functions (demangled) of the tree the contracts were written for. When a class does not mention one of them any more,
the task is outside the verifier's reach (BOUNDED), like one whose own function is missing."""
import functools
import os
import re

from .build import REPO

FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'symbols.txt')


def parts(dem):
    """(class, method) of a demangled name"""
    s, old = dem.strip(), None
    while s != old:
        old = s
        s = re.sub(r'<[^<>]*>', '', s)
    p = s.split('(')[0].split(' ')[-1].split('::')
    return (p[-2], p[-1]) if len(p) > 1 else (None, p[-1])


@functools.lru_cache(None)
def classes():
    """class -> identifiers in the files that define it (comments and tests left out)"""
    out = {}
    for d, ds, fs in os.walk(REPO):
        if d == REPO:
            ds[:] = [x for x in ds if x not in ('tests', 'examples', 'submodules', 'documentation', 'tools') and not x.startswith(('_', '.'))]
        for f in fs:
            if f.endswith(('.h', '.cpp')):
                with open(os.path.join(d, f), errors='replace') as h:
                    t = h.read()
                t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
                ids = set(re.findall(r'[A-Za-z_]\w*', t))
                for c in re.findall(r'\b(?:class|struct)\s+([A-Za-z_]\w*)\s*(?:final\s*)?(?:[:{])', t):
                    out.setdefault(c, set()).update(ids)
    return out


@functools.lru_cache(None)
def baseline():
    with open(FILE) as h:
        return [(l.strip(), parts(l)) for l in h if l.strip()]


@functools.lru_cache(None)
def missing(rx):
    """A function the contract was written for that is not in the program any more, or None."""
    r = re.compile(rx)
    for dem, (c, m) in baseline():
        if r.search(dem) and m not in classes().get(c, ()):
            return '%s::%s' % (c, m)
    return None


def arity(dem):
    """Number of parameters in a demangled name (None without a parameter list)."""
    i = len(dem)
    depth = 0
    j = dem.rfind(')')
    if j < 0:
        return None
    for i in range(j, -1, -1):
        depth += {')': 1, '(': -1}.get(dem[i], 0)
        if depth == 0:
            break
    t = dem[i + 1:j].strip()
    if not t:
        return 0
    n, d = 1, 0
    for ch in t:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        elif ch == ',' and d == 0:
            n += 1
    return n


@functools.lru_cache(None)
def arities():
    out = {}
    for dem, k in baseline():
        out.setdefault(k, set()).add(arity(dem))
    return out


@functools.lru_cache(None)
def changed(dem):
    """The function takes another number of arguments than its contract was written for."""
    k = arities().get(parts(dem))
    n = arity(dem)
    return k is not None and n is not None and n not in k

from vcgen.api import *

def _abs(T):
    x = T.int('x', 32, signed=True)
    T.assume(x.t > -(1 << 31)) if False else None
    for st, r in T.run([x]):
        T.ensure(st, 'not negative', T.ex.sv(st, r) >= 0)


def _obj(T):
    v = T.obj('S')
    n = v['n']
    a = T.array('a', [1], [n], layout={0: [(1, ('i', 1, False), '')]})
    a.size = n
    v.set('a', PtrV(a, 0))
    T.assume(n <= 1 << 40)
    return v, a


def _read(T):
    v, a = _obj(T)
    i = T.int('i')
    for st, r in T.run([v.p, i]):
        T.frame(st, [])


def _fill(T):
    v, a = _obj(T)
    T.ex.loop_hooks.append(_below(v))
    for st, r in T.run([v.p]):
        rd = arr_reader(T.ex, st, a, 0, 1)
        T.ensure(st, 'cleared', forall(v['n'], lambda j: EQ(rd(j), 0)))
        T.frame(st, [(a, None, None)])


def _below(v):
    def hook(ex, f, hdr, entry, h, getters):
        out = []
        for r, c in h.mem.items():
            for key in c.arrs:
                for k, g in getters.items():
                    def inv(s, r=r, key=key, g=g):
                        x = g(s)
                        if x is None:
                            return None
                        rd = arr_reader(ex, s, r, key[0], key[1])
                        return forall(x, lambda j: EQ(rd(j), 0))
                    out.append(('cleared below', inv))
        return out
    return hook


def _div(T):
    a, b = T.int('a'), T.int('b')
    for st, r in T.run([a, b]):
        T.ensure(st, 'quotient', OR(EQ(b.t, 0), T.ex.u(st, r) * b.t <= a.t))


def _lock(T):
    v, a = _obj(T)
    hl = lambda st: len(models.held(st)) > 0
    T.ex.guards.append((v.p.r, v.loc('k')[0], v.loc('k')[0] + 4, hl, 'k under the lock'))
    for st, r in T.run([v.p]):
        T.ensure(st, 'no lock held on return', len(models.held(st)) == 0)


def _frame(T):
    v, a = _obj(T)
    for st, r in T.run([v.p]):
        T.frame(st, [(v.p.r, v.loc('k')[0], 4)])


def _one(T):
    x = T.int('x', 32)
    for st, r in T.run([x]):
        pass


def _none(T):
    for st, r in T.run([]):
        pass


CASES = [
    ('abs_ok', r'^abs_ok$', _abs, []),
    ('abs_bad', r'^abs_bad$', _abs, ['overflow']),
    ('read_ok', r'^read_ok$', _read, []),
    ('read_bad', r'^read_bad$', _read, ['bounds']),
    ('fill_ok', r'^fill_ok$', _fill, []),
    ('fill_bad', r'^fill_bad$', _fill, ['contract']),
    ('div_ok', r'^div_ok$', _div, []),
    ('div_bad', r'^div_bad$', _div, ['div0']),
    ('lock_ok', r'^lock_ok$', _lock, []),
    ('lock_twice', r'^lock_twice$', _lock, ['lock']),
    ('lock_leak', r'^lock_leak$', _lock, ['contract']),
    ('frame_bad', r'^frame_bad$', _frame, ['frame']),
    ('asserts', r'^asserts$', _one, ['assert']),
    ('freed', r'^freed$', _none, ['uaf']),
]

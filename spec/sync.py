"""threads::Sync: monitor proof for any number of threads.

All state (m_syncedThreads S, m_lastThreads L, m_finishing F, m_data) is
protected by m_mutex. A *section* is the code one thread runs between getting
the mutex (lock or wakeup) and giving it up (unlock or wait). Ghost variable
IN: this thread is counted in S. Every section of every thread must be a
transition of the barrier protocol:

  e = it enters (only while F is false), x = it leaves (only when all N entered),
  S' = S + e - x, L' = L + last*(e-x), F' = (F or S+e = N) and S' > 0,
  a last thread leaves only when no other kind is left,
  whoever makes a waiting condition true broadcasts it in that section,
  and a thread waits only while its condition is false.

Inductive invariant over sections: 0 <= L <= S <= N, F => S > 0, not F => S < N.
A thread inside (IN) is counted, so S >= 1 and the round cannot end without it:
F stays true, and the number of other threads only shrinks once F holds."""
from vcgen.api import *

TU = 'sync'
WHEN = {'m_condition': 'F', 'm_lastCondition': 'SL', 'm_finishCondition': 'notF'}


def bz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Mon:
    def __init__(self, T, N, last, inside=False, root=None, data=None, can_fail=False):
        self.T, self.ex, self.N, self.last = T, T.ex, N, last
        self.v = T.obj('threads::Sync')
        self.root, self.data = root, data      # broadcast: current == root
        v = self.v
        self.mx = models.lock_id(v.addr('m_mutex'))
        self.conds = {v.loc(c)[0]: c for c in WHEN}
        ex = self.ex
        ex.on_lock, ex.on_unlock = self.on_lock, self.on_unlock
        hl = lambda st: OR(*[models.same_lock(h, self.mx) for h in models.held(st)])
        for f, n in (('m_syncedThreads', 4), ('m_lastThreads', 4), ('m_finishing', 1), ('m_data', 8)):
            o = v.loc(f)[0]
            ex.guards.append((v.p.r, o, o + n, hl, '%s is accessed only under the mutex' % f))
        T.contract(r'^pthread_cond_wait$', self.c_wait)
        T.contract(r'^pthread_cond_(broadcast|signal)$', self.c_bcast)
        if can_fail:
            T.contract(r'^pthread_mutex_lock$', self.c_lock)
        ex.loop_hooks.append(self.hook)
        g = T.st.ghost
        g['in'] = z3.IntVal(0)
        for c in WHEN:
            g['bc.' + c] = z3.BoolVal(False)
        self.garbage = None
        if data is not None:
            # offset 0: data of the root of this round; offset 16: of another round
            ptr = data[2] if len(data) > 2 else None
            self.rootr = Region('cell', 'the data of the root', 32, layout={o: [(data[1], ('p', 8, None) if ptr else ('i', data[1], False), '')] for o in (0, 16)})
            self.R = z3.Int('rootvalue')
            T.st.mem[self.rootr] = Cells({0: (8, PtrV(ptr, self.R)), 16: (8, PtrV(ptr, z3.Int('othervalue')))} if ptr else
                                         {0: (data[1], IntV(8 * data[1], self.R, 0, (1 << 8 * data[1]) - 1))})
            T.assume(self.R >= 0, self.R < 1 << (8 * data[1]))
        if inside:
            g['$held'] = (self.mx,)
            self.snap(T.st)

    def cur(self, st):
        w = self.v.at(st)
        return w['m_syncedThreads'], w['m_lastThreads'], w['m_finishing']

    def inv(self, S, L, F):
        """Protocol invariant between sections."""
        return AND(L >= 0, L <= S, S <= self.N, OR(NOT(F), S > 0), OR(F, S < self.N))

    def snap(self, st):
        """Start of a section."""
        S, L, F = self.cur(st)
        st.assume(self.inv(S, L, F))
        st.ghost['s0'], st.ghost['l0'], st.ghost['f0'] = S, L, bz(F)
        for c in WHEN:
            st.ghost['bc.' + c] = z3.BoolVal(False)

    def fork_data(self, st):
        """What m_data is at the start of a section: the root's data as soon as
        all others entered (monitor invariant of broadcast)."""
        if self.data is None:
            return [st]
        S, L, F = self.cur(st)
        g = st.ghost
        ready = OR(AND(EQ(g['in'], 1), F), AND(EQ(g['in'], 0), NOT(F), EQ(S + 1, self.N)))
        if self.root:
            if ex_in(g['in']) == 0:
                self.v.at(st).set('m_data', PtrV(self.rootr, 16))
        else:
            self.v.at(st).set('m_data', PtrV(self.rootr, ITE(ready, z3.IntVal(0), z3.IntVal(16))))
        return [st]

    def havoc(self, st):
        w = self.v.at(st)
        for f, n in (('m_syncedThreads', 32), ('m_lastThreads', 32)):
            t = fint(f)
            st.assume(AND(t >= 0, t < 1 << n))
            w.set(f, t)
        w.set('m_finishing', fbool('finishing'))

    def c_lock(self, ex, st, a, ins, dem):
        s2 = st.fork()
        e = fint('lockerr')
        s2.assume(AND(e > 0, e < 200))
        s2.ghost['lockfailed'] = True
        return [(s2, IntV(32, e, 1, 199))] + self.lock1(ex, st, a)

    def lock1(self, ex, st, a):
        k = models.lock_id(a[0])
        for h in models.held(st):
            ex.oblige(st, 'lock is not already held by this thread', NOT(models.same_lock(h, k)), 'lock')
        st.ghost['$held'] = models.held(st) + (k,)
        self.on_lock(st, k)
        return [(s, IntV(32, 0)) for s in self.fork_data(st)]

    def on_lock(self, st, k):
        self.havoc(st)
        self.snap(st)

    def section(self, st, in1, what):
        ex, g = self.ex, st.ghost
        if 's0' not in g:
            ex.oblige(st, what + ': the mutex was acquired', False, 'protocol', assume=False)
            return
        S, L, F = self.cur(st)
        s0, l0, f0, in0, N = g['s0'], g['l0'], g['f0'], g['in'], self.N
        last = ITE(self.last, 1, 0)
        if in1 is None:         # outside of the barrier
            e, x = 0, 0
            ex.oblige(st, what + ': the thread is not counted', EQ(in0, 0), 'protocol')
        else:
            e, x = 1 - in0, 1 - in1
        comp = OR(f0, AND(EQ(e, 1), EQ(s0 + e, N)))
        ob = lambda nm, c: ex.oblige(st, '%s: %s' % (what, nm), c, 'protocol', assume=False)
        ob('a barrier is entered only after all threads left the previous one', OR(NOT(EQ(e, 1)), NOT(f0)))
        ob('no thread leaves before all threads entered', OR(NOT(EQ(x, 1)), comp))
        ob('number of threads inside', EQ2(S, s0 + e - x))
        ob('number of last threads inside', EQ2(L, l0 + last * (e - x)))
        ob('last threads leave after all others', OR(NOT(EQ(x, 1)), NOT(self.last), EQ2(S, L)))
        ob('the leaving phase begins when all entered and ends when all left', z3.And(z3.Implies(mkb(F), mkb(AND(comp, S > 0))), z3.Implies(mkb(AND(comp, S > 0)), mkb(F))))
        ob('waiting threads are woken when all entered', OR(f0, NOT(comp), EQ(N, 1), g['bc.m_condition']))
        ob('last threads are woken when the others left', OR(NOT(EQ(x, 1)), self.last, NOT(EQ2(S, L)), EQ2(L, 0), g['bc.m_lastCondition']))
        ob('threads of the next barrier are woken when all left', OR(NOT(EQ(x, 1)), NOT(EQ2(S, 0)), g['bc.m_finishCondition']))
        if self.data is not None and in1 == 1:
            p = self.v.at(st).val('m_data')
            if self.root:
                ob('the root publishes its data', AND(p.r is self.data[0].r, EQ2(p.off, 0)) if p.r is not None else False)
            else:
                ob('only the root publishes data', p.r is self.rootr)

    def c_wait(self, ex, st, a, ins, dem):
        ex.oblige(st, 'the mutex is held while waiting', OR(*[models.same_lock(h, self.mx) for h in models.held(st)]), 'lock')
        ex.oblige(st, 'the mutex of the barrier is passed', models.same_lock(models.lock_id(a[1]), self.mx), 'lock')
        c = self.conds.get(a[0].off) if a[0].r is self.v.p.r and isc(a[0].off) else None
        ex.oblige(st, 'waits on a condition of the barrier', c is not None, 'protocol')
        if c is None:
            return []
        S, L, F = self.cur(st)
        pred = {'F': F, 'SL': S <= L, 'notF': NOT(F)}[WHEN[c]]
        ex.oblige(st, '%s: waits only while the condition is false' % c, NOT(pred), 'protocol')
        in1 = None if c == 'm_finishCondition' else 1
        self.section(st, in1, 'at the wait on ' + c)
        oS, oL, oF, oin = S, L, F, st.ghost['in']
        self.havoc(st)
        st.ghost['in'] = z3.IntVal(0 if in1 is None else 1)
        self.snap(st)
        S, L, F = self.cur(st)
        if in1 == 1:
            # this thread is counted, so the round goes on
            st.assume(S >= 1)
            st.assume(L >= ITE(self.last, 1, 0))
            st.assume(S - L >= ITE(self.last, 0, 1))
            st.assume(OR(NOT(oF), F))
            st.assume(OR(NOT(oF), S - L <= oS - oL))
        return [(s, IntV(32, 0)) for s in self.fork_data(st)]

    def c_bcast(self, ex, st, a, ins, dem):
        c = self.conds.get(a[0].off) if a[0].r is self.v.p.r and isc(a[0].off) else None
        if c is not None and 'broadcast' in dem:
            st.ghost['bc.' + c] = z3.BoolVal(True)
        return [(st, IntV(32, 0))]

    def on_unlock(self, st, k):
        self.section(st, 0, 'at the unlock')
        st.ghost['in'] = z3.IntVal(0)
        st.ghost['unlocked'] = True

    def hook(self, ex, f, hdr, entry, h, getters):
        N, last = self.N, ITE(self.last, 1, 0)
        C = []

        def add(nm, fn):
            def g(s, fn=fn):
                if 's0' not in s.ghost:
                    return None
                S, L, F = self.cur(s)
                q = s.ghost
                return fn(S, L, F, q['s0'], q['l0'], q['f0'], q['in'], q)
            C.append((nm, g))
        add('in 0/1', lambda S, L, F, s, l, f, i, q: AND(i >= 0, i <= 1))
        add('in 0', lambda S, L, F, s, l, f, i, q: EQ(i, 0))
        add('in 1', lambda S, L, F, s, l, f, i, q: EQ(i, 1))
        add('S = s', lambda S, L, F, s, l, f, i, q: EQ2(S, s))
        add('S = s + (1-in)', lambda S, L, F, s, l, f, i, q: EQ2(S, s + 1 - i))
        add('L = l', lambda S, L, F, s, l, f, i, q: EQ2(L, l))
        add('L = l + last(1-in)', lambda S, L, F, s, l, f, i, q: EQ2(L, l + last * (1 - i)))
        add('F = f', lambda S, L, F, s, l, f, i, q: mkb(F) == mkb(f))
        add('F = all in', lambda S, L, F, s, l, f, i, q: mkb(F) == mkb(OR(f, AND(EQ(i, 0), EQ(s + 1, N)))))
        add('F', lambda S, L, F, s, l, f, i, q: F)
        add('not F', lambda S, L, F, s, l, f, i, q: NOT(F))
        add('not f', lambda S, L, F, s, l, f, i, q: NOT(f))
        add('in=0 -> not f', lambda S, L, F, s, l, f, i, q: OR(EQ(i, 1), NOT(f)))
        add('in=1 -> counted', lambda S, L, F, s, l, f, i, q: OR(EQ(i, 0), AND(s >= 1, l >= last, s - l >= 1 - last)))
        add('inv at start', lambda S, L, F, s, l, f, i, q: self.inv(s, l, f))
        add('inv', lambda S, L, F, s, l, f, i, q: self.inv(S, L, F))
        add('not F -> S < N', lambda S, L, F, s, l, f, i, q: OR(F, S < N))
        add('counts', lambda S, L, F, s, l, f, i, q: AND(L >= last, S - L >= 1 - last, S >= 1, S <= N))
        for c in WHEN:
            add('broadcast ' + c, lambda S, L, F, s, l, f, i, q, c=c: q['bc.' + c])
            add('no broadcast ' + c, lambda S, L, F, s, l, f, i, q, c=c: NOT(q['bc.' + c]))
            add('broadcast %s if completed' % c, lambda S, L, F, s, l, f, i, q, c=c: OR(f, NOT(F), EQ(N, 1), q['bc.' + c]))
            add('broadcast %s only if completed' % c, lambda S, L, F, s, l, f, i, q, c=c: OR(NOT(q['bc.' + c]), AND(F, NOT(f))))
        if self.data is not None and not self.root:
            def dat(s):
                p = self.v.at(s).val('m_data')
                return OR(NOT(AND(EQ(s.ghost['in'], 1), self.cur(s)[2])), EQ2(p.off, 0)) if p.r is self.rootr else None
            C.append(('m_data', dat))

            def dat0(s):
                p = self.v.at(s).val('m_data')
                S, L, F = self.cur(s)
                return OR(NOT(AND(EQ(s.ghost['in'], 0), NOT(F), EQ(S + 1, self.N))), EQ2(p.off, 0)) if p.r is self.rootr else None
            C.append(('m_data before entering', dat0))
        return C


def ex_in(t):
    t = z3.simplify(t) if isinstance(t, z3.ExprRef) else t
    return t.as_long() if isinstance(t, z3.IntNumRef) else t if isc(t) else None


def locked(st, m):
    return len(models.held(st)) == 1


@task('Sync::startBarrier', ['C18'], TU, r'^threads::Sync::startBarrier\(\)$')
def t_start(T):
    N = T.int('numThreads', 32, lo=1)
    T.assume(N.t >= 1)
    m = Mon(T, N.t, False, can_fail=True)
    for st, ret in T.run([m.v.p]):
        ok = T.ex.tobool(ret)
        hs = models.held(st)
        if st.ghost.get('lockfailed'):
            T.ensure(st, 'a failed lock operation is reported', NOT(ok))
            continue
        T.ensure(st, 'success', ok)
        T.ensure(st, 'the mutex is held', len(hs) == 1)
        S, L, F = m.cur(st)
        T.ensure(st, 'no thread is leaving the previous barrier', NOT(F))
        g = st.ghost
        T.ensure(st, 'nothing changed', AND(EQ2(S, g['s0']), EQ2(L, g['l0']), NOT(g['f0'])) if 's0' in g else False)


@task('Sync::waitBarrier', ['C18'], TU, r'^threads::Sync::waitBarrier\(')
def t_wait(T):
    N = T.int('numThreads', 32, lo=1)
    T.assume(N.t >= 1)
    last = fbool('last')
    m = Mon(T, N.t, last, inside=True)
    S, L, F = m.cur(T.st)
    T.assume(NOT(F))
    for st, ret in T.run([m.v.p, N, BoolV(last)]):
        T.ensure(st, 'success', T.ex.tobool(ret))
        T.ensure(st, 'the mutex is held', locked(st, m))
        T.ex.fnstack = [T.label]
        m.section(st, 0, 'on return')
        T.ex.fnstack = []
        S, L, F = m.cur(st)
        T.ensure(st, 'invariant', m.inv(S, L, F))


@task('Sync::endBarrier', ['C18'], TU, r'^threads::Sync::endBarrier\(\)$')
def t_end(T):
    N = T.int('numThreads', 32, lo=1)
    m = Mon(T, N.t, False, inside=True)
    T.ex.on_unlock = None
    for st, ret in T.run([m.v.p]):
        T.ensure(st, 'the mutex is released', len(models.held(st)) == 0)
        T.ensure(st, 'success', T.ex.tobool(ret))
        T.frame(st, [])


@task('Sync::barrier', ['C18'], TU, r'^threads::Sync::barrier\(')
def t_barrier(T):
    N = T.int('numThreads', 32, lo=1)
    T.assume(N.t >= 1)
    m = Mon(T, N.t, False, can_fail=True)
    for st, ret in T.run([m.v.p, N]):
        ok = T.ex.tobool(ret)
        if st.ghost.get('lockfailed'):
            T.ensure(st, 'a failed lock operation is reported', NOT(ok))
            continue
        T.ensure(st, 'success', ok)
        T.ensure(st, 'the mutex is released', len(models.held(st)) == 0)
        T.ensure(st, 'the barrier was passed', st.ghost.get('unlocked', False))


def reg_bcast(tn, n, rx, isroot):
    @task('Sync::broadcast<%s>, %s' % (tn, 'root' if isroot else 'other threads'), ['C18'], TU, rx)
    def t_bcast(T):
        N, c, r = T.int('numThreads', 32, lo=1), T.int('current', 32), T.int('root', 32)
        T.assume(N.t >= 1, c.t < N.t, r.t < N.t)
        T.assume(EQ(c.t, r.t) if isroot else NOT(EQ(c.t, r.t)))
        # a pointer points to some place of the memory tgt
        tgt = Region('raw', 'the memory pointed to', None) if tn.endswith('*') else None
        data = T.cell('data', n)
        if tgt is not None:
            data = PtrV(Region('cell', 'data', 8, layout={0: [(8, ('p', 8, None), '')]}), 0)
            T.st.mem[data.r] = Cells({0: (8, PtrV(tgt, z3.Int('mine')))})

        def value(st):
            if tgt is None:
                return T.ex.u(st, T.ex.load(st, data, INT(8 * n)))
            p = T.ex.load(st, data, PTR)
            return p.off if isinstance(p, PtrV) and p.r is tgt else z3.Int(fname('elsewhere'))
        m = Mon(T, N.t, isroot, root=isroot, data=(data, n, tgt), can_fail=True)
        d0 = value(T.st)
        for st, ret in T.run([m.v.p, data, N, c, r]):
            ok = T.ex.tobool(ret)
            if st.ghost.get('lockfailed'):
                T.ensure(st, 'a failed lock operation is reported', NOT(ok))
                continue
            T.ensure(st, 'success', ok)
            T.ensure(st, 'the mutex is released', len(models.held(st)) == 0)
            d1 = value(st)
            if isroot:
                T.ensure(st, 'the root keeps its value', EQ(d1, d0))
            else:
                T.ensure(st, 'the thread holds the value of the root', EQ(d1, m.R))
            T.frame(st, [(data.r, 0, n), (m.v.p.r, m.v.loc('m_data')[0], 8), (m.v.p.r, m.v.loc('m_syncedThreads')[0], 4),
                         (m.v.p.r, m.v.loc('m_lastThreads')[0], 4), (m.v.p.r, m.v.loc('m_finishing')[0], 1)])


for _r in (True, False):
    reg_bcast('unsigned long', 8, r'^bool threads::Sync::broadcast<unsigned long>\(', _r)
    reg_bcast('int', 4, r'^bool threads::Sync::broadcast<int>\(', _r)
    reg_bcast('asagi::Grid::Error', 4, r'^bool threads::Sync::broadcast<asagi::Grid::Error>\(', _r)
    reg_bcast('unsigned char*', 8, r'^bool threads::Sync::broadcast<unsigned char\*>\(', _r)
    reg_bcast('long*', 8, r'^bool threads::Sync::broadcast<long\*>\(', _r)

falsifier('sync', ['C18'], 'sync.cpp', ['sched'], budget=20,
          rule='1-5 threads, sequences of barriers and broadcasts, enumerated (preemption bound 2) and random schedules with and without spurious wakeups; non-trivial: more than one thread')

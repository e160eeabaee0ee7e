"""Discharging of verification conditions. Primary back end: z3 (library);
fallbacks on 'unknown': the newer z3 and cvc5 command-line tools."""
import os
import subprocess
import tempfile
import time
import z3
from .sym import NOT, isc

z3.set_param('smt.random_seed', 1)
RL = 1500


def mk(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Solver:
    def __init__(self, timeout=10000, quick=400, fallback=True, cross=False):
        self.timeout, self.quick = timeout, quick
        self.fallback = fallback
        self.cross = cross
        self.cache = {}
        self.keep = []
        self.t_total = 0.0
        self.n = 0
        self.backends = {}
        self.axioms = []
        self.crossed = 0
        self.cross_fail = []
        self.failed = 0

    # ------------------------------------------------------------- internal
    def _run(self, fs, timeout, full=True):
        if any(_nonlin(f) for f in fs):
            # products as opaque terms first: most conditions follow from instances of lemmas
            s = z3.Solver()
            s.set('smt.arith.nl', False)
            s.set('rlimit', int(min(timeout, 3000) * RL))
            s.set('timeout', int(min(timeout, 3000) * 4 + 2000))
            for f in fs:
                s.add(f)
            for f in self.axioms:
                s.add(f)
            t = time.time()
            r = s.check()
            dt = time.time() - t
            self.t_total += dt
            self.n += 1
            if r == z3.unsat or not full:
                return r, s, dt
        s = z3.Solver()
        # a deterministic budget; the time limit only guards against its misjudgement
        s.set('rlimit', int(timeout * RL))
        s.set('timeout', int(timeout * 4 + 2000))
        for f in fs:
            s.add(f)
        for f in self.axioms:
            s.add(f)
        t = time.time()
        r = s.check()
        dt = time.time() - t
        self.t_total += dt
        self.n += 1
        if os.environ.get('VERIF_SOLVERLOG') and dt > 0.2:
            st = {k: v for k, v in s.statistics()}
            print('solver', r, 'limit %d ms' % timeout, 'time %.2f' % dt, 'rlimit/ms %.0f' % (st.get('rlimit count', 0) / dt / 1000))
        return r, s, dt

    def sat_quick(self, pc, extra=()):
        """False only when pc and extra are certainly contradictory."""
        fs = [f for f in pc if not _quant(f)] + [mk(e) for e in extra]
        key = ('q', tuple(sorted(f.get_id() for f in fs)))
        if key in self.cache:
            return self.cache[key]
        r, s, _ = self._run(fs, self.quick, full=False)
        res = r != z3.unsat
        self.cache[key] = res
        self.keep.append(fs)
        return res

    def entails_quick(self, pc, goal, timeout=None, quant=False):
        if goal is True or (not isinstance(goal, bool) and z3.is_true(goal)):
            return True
        if goal is False:
            return not self.sat_quick(pc)
        ng = mk(NOT(goal))
        fs = [f for f in pc if quant or not _quant(f)] + [ng]
        key = ('e', tuple(sorted(f.get_id() for f in fs)))
        if key in self.cache:
            return self.cache[key]
        r, s, _ = self._run(fs, timeout or self.quick)
        res = r == z3.unsat
        self.cache[key] = res
        self.keep.append(fs)
        return res

    def prove(self, pc, goal, timeout=None):
        """-> (status, model or None, seconds, backend); status: valid, cex, unknown"""
        if goal is True or (not isinstance(goal, bool) and z3.is_true(goal)):
            return ('valid', None, 0.0, 'simplifier')
        ng = mk(NOT(goal))
        fs = list(pc) + [ng]
        key = ('p', tuple(sorted(f.get_id() for f in fs)))
        if key in self.cache:
            return self.cache[key]
        self.keep.append(fs)
        t0 = time.time()
        has_q = any(_quant(f) for f in fs)
        many = self.failed >= 10      # (the property is violated already; do not spend long on the rest)
        r, s, dt = self._run(fs, min(timeout or self.timeout, 1500) if many else timeout or self.timeout)
        backend = 'z3-5.3.2'
        if r != z3.unsat:
            self.failed += 1
        if r == z3.unknown and self.fallback and not many:
            r2, backend2 = self._cli(s, (timeout or self.timeout) / 1000.0)
            if r2 == 'unsat':
                r, backend = z3.unsat, backend2
            elif r2 == 'sat' and not has_q:
                r = z3.sat
                backend = backend2
        if r == z3.unsat:
            res = ('valid', None, time.time() - t0, backend)
            if self.cross:
                self._cross(s)
        elif r == z3.sat:
            m = None
            try:
                m = s.model()
            except z3.Z3Exception:
                pass
            res = ('cex', m, time.time() - t0, backend)
        else:
            res = ('unknown', None, time.time() - t0, backend)
        self.backends[backend] = self.backends.get(backend, 0) + (r == z3.unsat)
        self.cache[key] = res
        return res

    def _cli(self, s, secs):
        txt = s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
            nm = f.name
        try:
            ps = []
            for be, cmd in (('z3-4.8.12', ['z3', '-T:%d' % max(1, int(secs)), nm]),
                            ('cvc5-1.1.2', ['cvc5', '--tlimit=%d' % int(secs * 1000), nm])):
                ps.append((be, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            out = {}
            for be, p in ps:
                try:
                    out[be] = p.communicate(timeout=secs + 5)[0].strip().split('\n')[0]
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.communicate()
                    out[be] = 'timeout'
            for be, o in out.items():
                if o == 'unsat':
                    return 'unsat', be
            for be, o in out.items():
                if o == 'sat':
                    return 'sat', be
            return 'unknown', 'none'
        finally:
            os.unlink(nm)

    def _cross(self, s):
        """Thorough tier: the same condition must be discharged by a second, independent prover."""
        txt = s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + txt)
            nm = f.name
        try:
            o = subprocess.run(['cvc5', '--tlimit=20000', nm], capture_output=True, text=True).stdout.strip()
            o = o.split('\n')[0]
            if o == 'unsat':
                self.crossed += 1
            elif o == 'sat':
                self.cross_fail.append(txt)
        finally:
            os.unlink(nm)


_nl = {}


def _nonlin(f):
    i = f.get_id()
    if i in _nl:
        return _nl[i][0]
    seen = set()
    st = [f]
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MUL and sum(0 if z3.is_int_value(c) or z3.is_rational_value(c) else 1 for c in x.children()) > 1:
                r = True
                break
            st.extend(x.children())
    _nl[i] = (r, f)
    return r


_qc = {}


def _quant(f):
    i = f.get_id()
    if i in _qc:
        return _qc[i][0]
    seen = set()
    st = [f]
    r = False
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            r = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        st.extend(x.children())
    _qc[i] = (r, f)
    return r

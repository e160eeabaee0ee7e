"""Setup: the tools are there and the verifier accepts and rejects what it should."""
import os
import subprocess
import sys
import tempfile
from . import build, api
from .ir import Module
from .solver import Solver


def main():
    for c in (['clang++', '--version'], ['z3', '--version'], ['cvc5', '--version'], ['/usr/lib/llvm-18/bin/llvm-cxxfilt', '--version']):
        subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
    d = os.path.join(build.VERIF, 'selftest')
    bad = 0
    n = 0
    with tempfile.TemporaryDirectory() as tmp:
        ll = os.path.join(tmp, 's.ll')
        subprocess.run(['clang++'] + build.IRFLAGS + [os.path.join(d, 'cases.cpp'), '-o', ll], check=True)
        mod = Module(ll)
        src = open(os.path.join(d, 'cases.py')).read()
        ns = {}
        exec(compile(src, 'cases.py', 'exec'), ns)
        for name, fn, body, expect in ns['CASES']:
            n += 1
            T = None
            try:
                T = api.Task(mod, Solver(), fn)
                body(T)
                got = {(o.kind, o.status == 'valid') for o in T.ex.obls}
                failed = sorted({o.kind for o in T.ex.obls if o.status != 'valid'})
            except api.Unsupported as e:
                failed = ['unsupported: %s' % e]
            if failed != sorted(expect):
                bad += 1
                print('selftest %s: failing obligations %s, expected %s' % (name, failed, expect))
    print('selftest: %d cases, %d wrong' % (n, bad))
    return 1 if bad else 0

"""What the verification relies on and does not check."""
BASE = [
    'clang 18 front end: the LLVM IR (-O0) it emits for the real sources is the meaning of the code; the shipped library is built from the same sources by another compiler',
    'vcgen (the verification condition generator in /verif/vcgen): IR semantics, memory model, loop rule',
    'SMT solvers: z3 5.3.2 (library); on unknown z3 4.8.12 and cvc5 1.1.2',
    'stand-in headers /verif/shim/utils (submodule TUM-I5/utils is empty in this tree): logError ends the caller, other log calls do nothing, parse is istringstream extraction',
]
ASSUMPTIONS = [
    'no object is larger than 2^47 bytes (address space of the platform)',
    'a pointer to an object comes from that object (provenance); distinct allocations do not overlap',
    'memory allocation succeeds or throws',
]
NAMES = {
    '__assert_fail': 'assert (an assertion must be proved to hold, although release builds drop it)',
    'verifFatal': 'utils logger: a fatal error ends the caller (must be proved unreachable unless the contract allows it)',
    'verifWarn': 'utils logger: warnings have no effect',
    'operator<<': 'utils logger: output has no effect',
    'operator new': 'operator new returns fresh memory of the requested size',
    'operator delete': 'operator delete requires a live allocation',
    'unordered_map': 'std::unordered_map behaves as a finite map',
    'pthread_(spin|mutex)': 'pthread locks: mutual exclusion (monitor rule)',
    'pthread_(spin|mutex|cond)_(init': 'pthread init/destroy succeed',
    'floor|ceil': 'libm floor/ceil/... are the exact IEEE functions',
}
PROPERTY = {}


def describe(m):
    for k, v in NAMES.items():
        if k in m:
            return '%s [%s]' % (v, m)
    return m


def for_property(p):
    return PROPERTY.get(p, [])

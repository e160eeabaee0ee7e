#include <string>
#include <unordered_map>
#include <vector>
#include <mutex>
#include <cstring>
#define private public
#define protected public
#include "types/structtype.cpp"
#include "types/arraytype.h"
#include "perf/counter.cpp"
#include "fortran/pointerarray.h"
struct verif_T { int x; };
template<class Ty, class B> void conv(Ty &t, const void *d, B *b) { t.convert(d, b); }
template<class S> void make(types::StructType<S>*) { types::StructType<S> t(0, 0L, 0L, 0L); }
template<class T> void make(T*) { T t; }
template<template<class> class W, class S> void uses(W<S> &t, const io::NetCdfReader &f, io::NetCdfReader &g)
{
	size_t o[4]; char buf[8];
	make((W<S>*) 0L);
	t.check(f); t.size(); t.load(g, o, o, buf); t.getMPIType();
	conv(t, buf, (unsigned char*) buf); conv(t, buf, (int*) buf); conv(t, buf, (long*) buf); conv(t, buf, (float*) buf); conv(t, buf, (double*) buf); t.convert(buf, (void*) buf);
}
#define USES(S) template void uses<types::BasicType, S>(types::BasicType<S>&, const io::NetCdfReader&, io::NetCdfReader&); \
	template void uses<types::ArrayType, S>(types::ArrayType<S>&, const io::NetCdfReader&, io::NetCdfReader&); \
	template void uses<types::StructType, S>(types::StructType<S>&, const io::NetCdfReader&, io::NetCdfReader&);
USES(unsigned char)
USES(int)
USES(long)
USES(float)
USES(double)
void verif_types(perf::Counter &c, fortran::PointerArray<verif_T> &a, verif_T *p)
{
	types::ArrayType<int> at;
	c.inc(perf::Counter::MPI); c.get(perf::Counter::HIT);
	a.remove(a.add(p)); a.get(3);
}

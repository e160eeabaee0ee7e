// Full, cached, distributed and pass-through levels, for any element type, allocator and transfer class (contracts).
#include <string>
#include <vector>
#include <limits>
#include <mutex>
#include <map>
#include <algorithm>
#include <unordered_map>
#include <cmath>
#include <cstring>
#define private public
#define protected public
#include "types/type.h"
#include "grid/level/full.h"
#include "grid/level/fulldist.h"
#include "grid/level/cache.h"
#include "grid/level/cachedist.h"
#include "grid/level/passthrough.h"
struct VerifType {
	asagi::Grid::Error check(io::NetCdfReader&);
	unsigned int size() const;
	void load(io::NetCdfReader&, const size_t*, const size_t*, unsigned char*) const;
	void convert(const unsigned char*, void*) const;
	unsigned long x;
};
struct VerifAlloc {
	template<typename T> static asagi::Grid::Error allocate(size_t size, T* &ptr);
	template<typename T> static void free(T *ptr);
};
struct VerifNuma {
	asagi::Grid::Error init(const unsigned char*, unsigned long, unsigned long, const VerifType&, mpi::MPIComm&, numa::NumaComm&, cache::CacheManager&);
	asagi::Grid::Error init(unsigned long, const VerifType&, numa::NumaComm&, cache::CacheManager&);
	bool transfer(unsigned long, int, unsigned int, unsigned long, unsigned char*);
	bool transfer(unsigned long, unsigned char*);
	unsigned long x;
};
struct VerifMPI {
	asagi::Grid::Error init(unsigned char*, unsigned long, unsigned long, const VerifType&, mpi::MPIComm&, numa::NumaComm&);
	asagi::Grid::Error init(unsigned char*, unsigned int, cache::CacheManager&, unsigned long, unsigned long, const VerifType&, mpi::MPIComm&, numa::NumaComm&);
	void transfer(int, unsigned long, unsigned char*);
	long startTransfer(unsigned long, int, unsigned long, unsigned long);
	bool transfer(long, unsigned long, unsigned char*, bool&);
	void endTransfer(unsigned long, int, unsigned long, unsigned long);
	void addBlock(unsigned long, int, unsigned long, unsigned long);
	void deleteBlock(long, int, unsigned long, unsigned long);
	unsigned long x;
};
typedef grid::level::Full<VerifType, VerifAlloc> F;
typedef grid::level::Cache<VerifType, VerifAlloc> C;
typedef grid::level::PassThrough<VerifType> P;
typedef grid::level::FullDist<VerifMPI, VerifNuma, VerifType, VerifAlloc> FD;
typedef grid::level::CacheDist<VerifMPI, VerifNuma, VerifType, VerifAlloc> CD;
template class grid::level::Full<VerifType, VerifAlloc>;
template class grid::level::Cache<VerifType, VerifAlloc>;
template class grid::level::PassThrough<VerifType>;
template class grid::level::FullDist<VerifMPI, VerifNuma, VerifType, VerifAlloc>;
template class grid::level::CacheDist<VerifMPI, VerifNuma, VerifType, VerifAlloc>;
template void F::getAt<void>(void*, const double*);
template void C::getAt<void>(void*, const double*);
template void P::getAt<void>(void*, const double*);
template void FD::getAt<void>(void*, const double*);
template void CD::getAt<void>(void*, const double*);

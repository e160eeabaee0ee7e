// The grid: parameters, choice of the level classes, domains. The level
// classes themselves are not instantiated here (see the other files).
#include <string>
#include <vector>
#include <limits>
#include <mutex>
#include <map>
#include <deque>
#include <algorithm>
#include <cstring>
#include <sstream>
#define private public
#define protected public
#include "grid/grid.h"
#include "grid/simplecontainer.h"
#include "grid/level/cache.h"
#include "grid/level/cachedist.h"
#include "grid/level/full.h"
#include "grid/level/fulldist.h"
#include "grid/level/passthrough.h"
#define VERIF_LEVEL(L) \
	template<class TL> class Grid::TypeSelector<SimpleContainer, level::L, TL> \
	{ public: static grid::Container* createContainer(Grid &grid); };
namespace grid
{
VERIF_LEVEL(CacheDefault)
VERIF_LEVEL(CacheDistNuma)
VERIF_LEVEL(CacheDistMPIThread)
VERIF_LEVEL(CacheDistMPIThreadNuma)
VERIF_LEVEL(FullDefault)
VERIF_LEVEL(FullDistNuma)
VERIF_LEVEL(FullDistMPIThread)
VERIF_LEVEL(FullDistMPIThreadNuma)
VERIF_LEVEL(FullDistMPIThreadNumaCache)
VERIF_LEVEL(PassThrough)
#ifdef USE_MPI3
VERIF_LEVEL(CacheDistMPIWin)
VERIF_LEVEL(CacheDistMPIWinNuma)
#endif
VERIF_LEVEL(FullDistMPIWin)
VERIF_LEVEL(FullDistMPIWinNuma)
VERIF_LEVEL(FullDistMPIWinNumaCache)
}
#include "grid/grid.cpp"
namespace grid
{
// A container that records what it is created for
template<class Level, class Type>
class VerifContainer : public Container
{
public:
	VerifContainer(const mpi::MPIComm &comm, numa::Numa &numa, Type &type, int timeDimension, ValuePosition valuePos);
	~VerifContainer();
	asagi::Grid::Error init(const char* filename, const char* varname, const int* blockSize, unsigned int cacheSize, int cacheHandSpread, unsigned int level);
	double getDelta(unsigned int n, unsigned int level) const;
	void getByte(unsigned char* buf, const double* pos, unsigned int level);
	void getInt(int* buf, const double* pos, unsigned int level);
	void getLong(long* buf, const double* pos, unsigned int level);
	void getFloat(float* buf, const double* pos, unsigned int level);
	void getDouble(double* buf, const double* pos, unsigned int level);
	void getBuf(void* buf, const double* pos, unsigned int level);
	unsigned long getCounter(perf::Counter::CounterType type, unsigned int level) const;
};
template<class Type> class VerifLevel {};
typedef magic::MakeTypelist<
	types::ArrayType<unsigned char>, types::StructType<int>, types::BasicType<double> >::result VerifTypes;
template grid::Container* Grid::TypeSelector<VerifContainer, VerifLevel, VerifTypes>::createContainer(Grid&);
}

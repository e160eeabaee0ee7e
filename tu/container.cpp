// The container of all levels of a grid, for any level and element type.
#include <string>
#include <vector>
#include <deque>
#include <limits>
#include <mutex>
#include <map>
#include <algorithm>
#include <unordered_map>
#include <cmath>
#include <cstring>
#define private public
#define protected public
#include "grid/simplecontainer.h"
struct VerifType {
	unsigned long x;
};
struct VerifLevel {
	VerifLevel(const mpi::MPIComm&, const numa::Numa&, VerifType&);
	VerifLevel(const VerifLevel&);
	virtual ~VerifLevel();
	asagi::Grid::Error open(const char*, const char*, const int*, int, unsigned int, int, grid::ValuePosition);
	unsigned int dimensions() const;
	double min(unsigned int) const;
	double max(unsigned int) const;
	double delta(unsigned int) const;
	template<typename T> void getAt(T*, const double*);
	unsigned long getCounter(perf::Counter::CounterType) const;
	unsigned long x[7];
};
typedef grid::SimpleContainer<VerifLevel, VerifType> C;
template class grid::SimpleContainer<VerifLevel, VerifType>;
C* use(mpi::MPIComm &c, const numa::Numa &n, VerifType &t) { return new C(c, n, t, 0, grid::CELL_CENTERED); }
unsigned int verif_info(const grid::Container &c, double *x) { x[0] = c.getMin(0); x[1] = c.getMax(0); return c.getDimensions(); }

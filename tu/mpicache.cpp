// Directory of cached copies (both instantiations used by the library).
#include <vector>
#include <limits>
#include <cstdlib>
#include <algorithm>
#include <string>
#include <unordered_map>
#define private public
#define protected public
#include "mpi/mpicomm.h"
#include "numa/numacomm.h"
#include "transfer/mpicache.h"
struct VerifAlloc {
	template<typename T> static asagi::Grid::Error allocate(size_t size, T* &ptr);
	template<typename T> static void free(T *ptr);
};
template class transfer::MPICache<VerifAlloc, true>;
template class transfer::MPICache<VerifAlloc, false>;

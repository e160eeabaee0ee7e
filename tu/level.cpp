// Grid levels, for any element type (the type's operations are contracts).
#include <string>
#include <vector>
#include <limits>
#include <mutex>
#include <map>
#include <algorithm>
#include <unordered_map>
#include <cmath>
#include <cstring>
#define private public
#define protected public
#include "grid/level/blocked.h"
#include "grid/level/full.h"
struct VerifType {
	asagi::Grid::Error check(io::NetCdfReader&);
	unsigned int size() const;
	void load(io::NetCdfReader&, const size_t*, const size_t*, unsigned char*) const;
	void convert(const unsigned char*, void*) const;
	unsigned long x;
};
struct VerifAlloc {
	template<typename T> static asagi::Grid::Error allocate(size_t size, T* &ptr);
	template<typename T> static void free(T *ptr);
};
typedef grid::level::Blocked<VerifType> B;
typedef grid::level::Full<VerifType, VerifAlloc> F;
template class grid::level::Level<VerifType>;
template class grid::level::Blocked<VerifType>;
template class grid::level::Full<VerifType, VerifAlloc>;
template void grid::level::Full<VerifType, VerifAlloc>::getAt<void>(void*, const double*);

// Lemma functions: they only call the real functions; their contracts relate the results.
unsigned long lemmaBlock(B* b, unsigned long id, int* rank, unsigned int* domain, unsigned long* node, unsigned long* off) {
	*rank = b->blockRank(id);
	*domain = b->blockDomain(id);
	*node = b->blockNodeOffset(id);
	*off = b->blockOffset(id);
	return b->local2global(*off);
}
unsigned long lemmaOwner(B* b, unsigned long local, int* rank, unsigned int* domain, unsigned long* node) {
	unsigned long id = b->local2global(local);
	*rank = b->blockRank(id);
	*domain = b->blockDomain(id);
	*node = b->blockNodeOffset(id);
	return b->blockOffset(id);
}
void lemmaPosition(B* b, const size_t* index, size_t* pos) { b->calcBlockPosition(b->blockByCoords(index), pos); }
unsigned long lemmaById(B* b, unsigned long id, size_t* pos) {
	b->calcBlockPosition(id, pos);
	for (unsigned int i = 0; i < b->dimensions(); i++)
		pos[i] *= b->blockSize(i);
	return b->blockByCoords(pos);
}
unsigned long lemmaOffset(B* b, const size_t* index1, const size_t* index2, unsigned long* off2) {
	*off2 = b->calcOffsetInBlock(index2);
	return b->calcOffsetInBlock(index1);
}

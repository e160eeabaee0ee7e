// Directory of cached copies: every short history of additions and removals
// against an oracle; initialisation by the masters of several domains.
#include "vnuma.h"
#include <algorithm>
#include "mpi/mpicomm.h"
#include "allocator/default.h"
#include "transfer/mpicache.h"

static std::map<void*, size_t> live;
struct CountAlloc {
	static size_t last; static int allocs, frees;
	template<typename T> static asagi::Grid::Error allocate(size_t size, T*& p) { p = new T[size]; for (size_t i = 0; i < size; i++) p[i] = 4711; last = size; allocs++; return asagi::Grid::SUCCESS; }
	template<typename T> static void free(T* p) { frees++; delete [] p; }
};
size_t CountAlloc::last; int CountAlloc::allocs, CountAlloc::frees;

template<bool lock>
struct Dir : public transfer::MPICache<CountAlloc, lock> {
	typedef transfer::MPICache<CountAlloc, lock> B;
	using B::init;
	long fetchBlockInfo(const long* e) { return B::fetchBlockInfo(e); }
	void updateBlockInfo(long* e, unsigned long x) { B::updateBlockInfo(e, x); }
	 using B::fetchAndUpdateBlockInfo; using B::deleteBlockInfo;
	using B::dictionary; using B::totalDictEntrySize; using B::dictEntrySize; using B::rankCacheSize;
};

static void compare(const long* e, const std::vector<long>& o, long guard) {
	for (size_t i = 0; i < 4; i++)
		VF_PROP("C10", e[i] == (i < o.size() ? o[i] : -1), "position %zu of the entry is %ld, expected %ld (newest first)", i, e[i], i < o.size() ? o[i] : -1);
	VF_PROP("C10", e[4] == guard, "the word behind the entry was overwritten");
}

template<bool lock>
static void history(const std::vector<int>& ops) {
	vf::begin("entry:");
	Dir<lock> d;
	long e[5] = { -1, -1, -1, -1, 99 };
	std::vector<long> o;
	for (int op : ops) {
		long x = op / 4; // copy number
		long r = 0;
		switch (op % 4) {
		case 0: vf::step(" add(%ld)", x); d.updateBlockInfo(e, x); o.insert(o.begin(), x); break;
		case 1: vf::step(" fetch+add(%ld)", x); r = d.fetchAndUpdateBlockInfo(e, x); break;
		case 2: vf::step(" remove(%ld)", x); d.deleteBlockInfo(e, x); { auto it = std::find(o.begin(), o.end(), x); if (it != o.end()) o.erase(it); } break;
		case 3: vf::step(" fetch"); r = d.fetchBlockInfo(e); break;
		}
		if (op % 2) {
			VF_PROP("C10", (r == -1) == o.empty(), "lookup returns %ld although %s listed", r, o.empty() ? "nothing is" : "a copy is");
			VF_PROP("C10", r == -1 || std::find(o.begin(), o.end(), r) != o.end(), "lookup returns %ld, which is not listed", r);
		}
		if (op % 4 == 1) o.insert(o.begin(), x);
		if (o.size() > 4) o.resize(4);
		compare(e, o, 99);
	}
	vf::done(ops.size() > 1);
}

template<bool lock>
static void setup(unsigned threads, unsigned ndom, unsigned cacheSize, unsigned long blocks) {
	vf::begin("init: threads=%u domains=%u cache=%u blocks=%lu lock=%d", threads, ndom, cacheSize, blocks, lock);
	numa::Numa n; mpi::MPIComm comm;
	std::vector<int> nodes;
	for (unsigned t = 0; t < threads; t++) nodes.push_back(t % ndom);
	std::vector<Dir<lock>*> d(ndom);
	CountAlloc::allocs = CountAlloc::frees = 0;
	unsigned finished = 0;
	vn::threads(n, nodes, [&](unsigned t, bool master) {
		if (!master) return;
		numa::NumaComm* c = n.createComm();
		unsigned me = c->domainId();
		d[me] = new Dir<lock>();
		d[me]->init(cacheSize, blocks, comm, *c);
		// must not disturb what a faster domain did already
		for (unsigned long b = 0; b < blocks; b++) {
			long* e = d[me]->dictionary(blocks * me + b);
			for (unsigned i = 0; i < 4 + lock; i++) VF_PROP("C10", e[i] == -1, "entry of block %lu of domain %u is not empty after init", b, me);
			d[me]->updateBlockInfo(e, 100 * me + b);
		}
		numa::NumaComm* c2 = n.createComm(); // all masters
		finished++;
		for (unsigned k = 0; k < ndom; k++)
			for (unsigned long b = 0; b < blocks; b++) {
				const long* e = d[me]->dictionary(blocks * k + b);
				VF_PROP("C10", e[0] == (long)(100 * k + b) && e[1] == -1, "domain %u sees entry [%ld %ld ..] of block %lu of domain %u", me, e[0], e[1], b, k);
			}
		VF_PROP("C10", d[me]->rankCacheSize() == (unsigned long)cacheSize * ndom, "cache size of the process is %lu", d[me]->rankCacheSize());
		if (me == 0) { delete c; delete c2; }
	});
	VF_PROP("C10", finished == ndom, "not all domains finished");
	for (auto x : d) delete x;
	VF_PROP("C10", CountAlloc::allocs == 1 && CountAlloc::frees == 1, "%d allocations, %d frees", CountAlloc::allocs, CountAlloc::frees);
	VF_PROP("C10", CountAlloc::last == blocks * (4 + lock) * ndom, "directory of %zu words", CountAlloc::last);
	vf::done();
}

int main(int argc, char** argv) {
	vf::init(argc, argv);
	vf::Rng r(vf::seed);
	const int ids = 3;
	for (unsigned len = 1; len <= (vf::thorough ? 7u : 5u); len++) {
		unsigned long total = 1, base = ids * 4;
		for (unsigned i = 0; i < len; i++) total *= base;
		for (unsigned long c = 0; c < total && vf::timeLeft(0.4); c++) {
			std::vector<int> ops; unsigned long x = c;
			for (unsigned i = 0; i < len; i++) { ops.push_back(x % base); x /= base; }
			if (c & 1) history<true>(ops); else history<false>(ops);
		}
	}
	for (unsigned it = 0; it < 20000 && vf::timeLeft(0.7); it++) {
		std::vector<int> ops;
		for (unsigned i = 0; i < 30; i++) ops.push_back(4 * r.below(7) + r.below(4));
		if (it & 1) history<true>(ops); else history<false>(ops);
	}
	vs::maxPreempt = 1000;
	for (unsigned it = 0; it < 400 && vf::timeLeft(); it++) {
		vf::Rng q(vf::seed * 31 + it);
		vs::rng = &q; vs::choice.clear(); vs::width.clear();
		unsigned nd = 1 + q.below(3);
		unsigned th = nd + q.below(2), cs = 1 + q.below(4); unsigned long bl = q.below(5);
		if (it & 1) setup<true>(th, nd, cs, bl); else setup<false>(th, nd, cs, bl);
	}
	return vf::finish();
}

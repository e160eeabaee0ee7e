// Block cache: directory and clock against an oracle, slot manager under every schedule.
#include <pthread.h>
#include "vcommon.h"
#include "vsched.h"
#include "vsched_impl.h"
#include <new>
static bool poison = false;
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (poison) memset(p, 0xA5, n); return p; }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (poison) memset(p, 0xA5, n); return p; }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#include "cache/cachemanager.h"

/** The documented behaviour, written down naively. */
struct Oracle {
	unsigned long n, hand, clear;
	std::vector<bool> used;
	std::vector<long> blk;
	Oracle(unsigned long size, long spread) : n(size), hand(size - 1), used(size, false), blk(size, -1) {
		clear = spread < 0 ? size / 2 : (unsigned long)spread < size ? spread : size - 1;
	}
	long find(long b) const { for (unsigned long i = 0; i < n; i++) if (blk[i] == b) return i; return -1; }
	unsigned long victim() {
		for (unsigned long s = 0;; s++) {
			VF_CHECK(s <= n + 1, "oracle: no victim");
			used[(clear + s) % n] = false;
			unsigned long c = (hand + 1 + s) % n;
			if (!used[c]) { clear = (clear + s + 1) % n; hand = c; used[c] = true; return c; }
		}
	}
};

struct Op { int kind; unsigned long b; };

static void directory(unsigned long n, long spread, const std::vector<Op>& ops, bool init_known) {
	vf::begin("directory slots=%lu hand-spread=%ld:", n, spread);
	poison = true;
	cache::CacheList* l = new cache::CacheList();
	l->init(n, spread);
	poison = false;
	Oracle o(n, spread);
	for (const Op& op : ops) {
		unsigned long ix = 12345;
		long at = o.find(op.b);
		vf::step(" %s(%lu)", op.kind == 0 ? "access" : op.kind == 1 ? "peek" : "insert-new", op.b);
		bool found = l->getIndex(op.b, ix, op.kind != 1);
		VF_PROP("C07", found == (at >= 0), "block %lu %s although it is %s", op.b, found ? "is reported as cached" : "is reported as missing", at >= 0 ? "cached" : "not cached");
		if (found != (at >= 0)) { delete l; return; }
		if (found) {
			VF_PROP("C07", ix == (unsigned long)at, "block %lu is reported in slot %lu, but slot %ld holds it", op.b, ix, at);
			if (op.kind != 1) o.used[at] = true;
		} else if (op.kind != 1) {
			long old = l->getFreeIndex(op.b, ix);
			unsigned long v = o.victim();
			VF_PROP("C07,C08", ix < n, "slot %lu outside of the cache", ix);
			if (ix >= n) { delete l; return; }
			VF_PROP("C08", ix == v, "slot %lu is evicted, the second-chance clock selects slot %lu", ix, v);
			v = ix;
			VF_PROP("C07", old == o.blk[v], "block %ld is reported as evicted, slot %lu held %ld", old, v, o.blk[v]);
			o.blk[v] = op.b;
		}
	}
	// every block id: exactly the cached ones are found
	for (unsigned long b = 0; b < 3 * n + 3; b++) {
		unsigned long ix;
		bool f = l->getIndex(b, ix, false);
		VF_PROP("C07", f == (o.find(b) >= 0), "at the end block %lu %s", b, f ? "is still reported as cached" : "is not found any more");
		VF_PROP("C07", !f || ix == (unsigned long)o.find(b), "at the end block %lu is reported in the wrong slot", b);
	}
	delete l;
	vf::done(ops.size() > 1);
}

static void manager(unsigned long n, const std::vector<std::vector<Op> >& prog, long spread) {
	cache::CacheManager* m = new cache::CacheManager();
	std::vector<unsigned char> mem(n * 8, 0x55);
	m->init(mem.data(), n, 8, spread);
	std::vector<std::function<void()> > fns;
	for (size_t t = 0; t < prog.size(); t++) fns.push_back([&, t]() {
		for (const Op& op : prog[t]) {
			unsigned long off = 999;
			unsigned char* d = 0;
			const unsigned char* cd = 0;
			if (op.kind == 0) {
				long old = m->get(op.b, off, d);
				VF_PROP("C07,C09", off < n && d == mem.data() + off * 8, "thread %zu: wrong slot address for block %lu", t, op.b);
				if (old != (long)op.b) {
					vs::yield(); memset(d, (int)op.b + 1, 4); vs::yield(); memset(d + 4, (int)op.b + 1, 4);
				}
				for (int k = 0; k < 2; k++) {
					for (int i = 0; i < 8; i++) VF_PROP("C07,C09", d[i] == (unsigned char)(op.b + 1), "thread %zu reads block %lu and gets data of block %d", t, op.b, d[i] - 1);
					vs::yield();
				}
				m->unlock(off);
			} else if (m->tryGet(op.b, off, cd)) {
				VF_PROP("C07,C09", off < n && cd == mem.data() + off * 8, "thread %zu: wrong slot address for block %lu", t, op.b);
				for (int k = 0; k < 2; k++) {
					for (int i = 0; i < 8; i++) VF_PROP("C07,C09", cd[i] == (unsigned char)(op.b + 1), "thread %zu copies block %lu and gets data of block %d", t, op.b, cd[i] - 1);
					vs::yield();
				}
				m->unlock(off);
			}
		}
	});
	vs::run(fns);
	for (auto& l : vs::locks) VF_PROP("C09", l.second.owner == -1, "a lock is still held after all threads finished");
	delete m;
	vf::done();
}

static void show(const std::vector<std::vector<Op> >& p) {
	for (size_t t = 0; t < p.size(); t++) { vf::step(" thread%zu[", t); for (const Op& o : p[t]) vf::step(" %s(%lu)", o.kind ? "tryGet" : "get", o.b); vf::step(" ]"); }
}

int main(int argc, char** argv) {
	vf::init(argc, argv);
	vf::Rng r(vf::seed);
	if (vf::about("C07,C08")) {
		unsigned long maxn = vf::thorough ? 4 : 3;
		for (unsigned long n = 1; n <= maxn; n++)
			for (long s = -1; s <= (long)n + 1; s++) {
				unsigned nb = n + 1, kinds = 2, depth = vf::thorough ? 6 : 5;
				unsigned long total = 1;
				for (unsigned i = 0; i < depth; i++) total *= nb * kinds;
				for (unsigned long c = 0; c < total && vf::timeLeft(0.3); c++) {
					std::vector<Op> ops; unsigned long x = c;
					for (unsigned i = 0; i < depth; i++) { ops.push_back(Op{ (int)(x % kinds), x / kinds % nb }); x /= kinds * nb; }
					directory(n, s, ops, true);
				}
			}
		for (unsigned long it = 0; it < (vf::thorough ? 200000u : 3000u) && vf::timeLeft(0.5); it++) {
			unsigned long n = 1 + r.below(12);
			long s = r.range(-1, n + 2);
			std::vector<Op> ops;
			for (unsigned i = 0; i < 60; i++) ops.push_back(Op{ r.below(4) == 0, r.below(n + 1 + r.below(n + 2)) });
			directory(n, s, ops, true);
		}
		// large block ids
		unsigned long big[] = { (1ul << 32), (1ul << 32) + 1, (1ul << 62), (1ul << 63) - 1, 0, 1 };
		for (unsigned long n = 1; n <= 5; n++) {
			vf::begin("directory with large block ids, slots=%lu", n);
			cache::CacheList l; l.init(n);
			Oracle o(n, -1);
			for (int k = 0; k < 40; k++) {
				unsigned long b = big[r.below(6)], ix;
				vf::step(" %lu", b);
				bool f = l.getIndex(b, ix);
				VF_PROP("C07", f == (o.find(b) >= 0), "wrong lookup of block %lu", b);
				if (f) { VF_PROP("C07", (long)ix == o.find(b), "wrong slot"); o.used[ix] = true; }
				else {
					long old = l.getFreeIndex(b, ix); unsigned long v = o.victim();
					VF_PROP("C08", ix == v, "wrong eviction: slot %lu instead of %lu", ix, v);
					v = ix;
					VF_PROP("C07", ix < n && old == o.blk[v], "the evicted block is reported as %ld", old);
					if (ix >= n) break;
					o.blk[v] = b;
				}
			}
			vf::done();
		}
	}
	if (vf::about("C07,C09")) {
		std::vector<std::vector<std::vector<Op> > > progs = {
			{ { {0, 0} }, { {0, 1} } }, { { {0, 0}, {0, 1} }, { {0, 1}, {0, 0} } }, { { {0, 0} }, { {0, 0} } },
			{ { {0, 0}, {0, 1} }, { {1, 0}, {1, 1} } }, { { {0, 0} }, { {1, 0} }, { {0, 1} } },
			{ { {0, 0}, {0, 1}, {0, 2} }, { {0, 2}, {0, 0} } } };
		for (unsigned long n = 1; n <= 2; n++)
			for (auto& p : progs) {
				vs::choice.clear(); vs::width.clear(); vs::rng = 0; vs::maxPreempt = vf::thorough ? 4 : 2;
				unsigned long cnt = 0, lim = vf::thorough ? 60000 : 4000;
				do {
					vf::begin("slots=%lu", n); show(p);
					manager(n, p, -1);
				} while (vs::nextSchedule() && ++cnt < lim && vf::timeLeft(0.85));
			}
		vs::maxPreempt = 1000;
		for (unsigned it = 0; it < (vf::thorough ? 40000u : 1500u) && vf::timeLeft(); it++) {
			vf::Rng q(vf::seed * 7919 + it);
			vs::rng = &q; vs::choice.clear(); vs::width.clear();
			unsigned long n = 1 + q.below(3);
			std::vector<std::vector<Op> > p(2 + q.below(2));
			for (auto& t : p) for (unsigned k = 0; k < 3; k++) t.push_back(Op{ q.below(3) == 0, q.below(n + 2) });
			vf::begin("slots=%lu", n); show(p);
			manager(n, p, q.range(-1, n));
		}
	}
	return vf::finish();
}

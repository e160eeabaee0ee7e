// Random grids: files, parameters and lookups through the public interface,
// compared with an oracle that knows the contents of the files.
#ifndef VERIF_GRID_H
#define VERIF_GRID_H
#include <limits>
#include <algorithm>
#include <pthread.h>
#include "vcommon.h"
#include "vsched.h"
#include "vsched_impl.h"
#include "vnc.h"
#include "asagi.h"

namespace vg {
typedef asagi::Grid G;
static const double INF = std::numeric_limits<double>::infinity();

struct Dim { size_t n; bool coord; double off, sp; int block; };   // file order; block: requested block size

struct LevelSpec {
	std::string file, var;
	std::vector<Dim> dims;          // file order (user dimension k = dims[nd-1-k])
	nc::Kind kind; size_t elemSize; // in the file
	unsigned cacheSize; int spread;
	size_t points() const { size_t p = 1; for (auto& d : dims) p *= d.n; return p; }
	unsigned nd() const { return dims.size(); }
};

enum Flavour { BASIC, ARRAY, STRUCT };
struct TypeSpec { Flavour flavour; G::Type type; unsigned count; std::vector<unsigned> blockLength; std::vector<unsigned long> displ; std::vector<G::Type> types; size_t size; };

inline size_t tsize(G::Type t) { return t == G::BYTE ? 1 : t == G::INT || t == G::FLOAT ? 4 : 8; }
inline nc::Kind tkind(G::Type t) { return t == G::BYTE ? nc::UCHAR : t == G::INT ? nc::INT : t == G::LONG ? nc::LONG : t == G::FLOAT ? nc::FLOAT : nc::DOUBLE; }

inline void putElem(unsigned char* p, nc::Kind k, vf::Rng& r, bool small) {
	uint64_t x = r.next();
	switch (k) {
	case nc::UCHAR: *p = small ? x % 200 : x; break;
	case nc::INT: { int v = small ? x % 200 : (int)x; memcpy(p, &v, 4); break; }
	case nc::LONG: { long v = small ? x % 200 : (long)x >> (x & 31); memcpy(p, &v, 8); break; }
	case nc::FLOAT: { float v = (x % 2000) * 0.1f; memcpy(p, &v, 4); break; }
	default: { double v = (x % 20000) * 0.01; memcpy(p, &v, 8); break; }
	}
}

inline TypeSpec randomType(vf::Rng& r) {
	TypeSpec t;
	t.flavour = r.below(3) ? (r.flip() ? BASIC : ARRAY) : STRUCT;
	if (r.flip()) t.flavour = BASIC;
	t.type = (G::Type)r.below(5);
	t.count = 1; t.size = tsize(t.type);
	if (t.flavour == ARRAY) { t.count = 1 + r.below(4); t.size *= t.count; }
	if (t.flavour == STRUCT) {
		t.count = 1 + r.below(3); size_t off = 0, al = 1;
		for (unsigned i = 0; i < t.count; i++) {
			G::Type x = i ? (G::Type)r.below(5) : t.type;
			unsigned bl = 1 + r.below(2);
			al = std::max(al, tsize(x));
			off = (off + tsize(x) - 1) / tsize(x) * tsize(x);
			t.types.push_back(x); t.blockLength.push_back(bl); t.displ.push_back(off);
			off += bl * tsize(x);
		}
		t.size = (off + al - 1) / al * al; // laid out like a C struct
	}
	return t;
}

/** Adds a file with a variable of the given geometry and type. */
inline void makeFile(vf::Rng& r, const LevelSpec& l, const TypeSpec& t) {
	nc::File f;
	unsigned nd = l.nd();
	if (r.flip()) f.dims.push_back(std::make_pair(std::string("unused"), (size_t)(1 + r.below(3))));
	size_t d0 = f.dims.size();
	for (unsigned i = 0; i < nd; i++) f.dims.push_back(std::make_pair(std::string(1, "xyztuv"[i]) + "dim", l.dims[i].n));
	nc::Var v; v.name = l.var;
	for (unsigned i = 0; i < nd; i++) v.dims.push_back(d0 + i);
	v.kind = l.kind; v.size = l.elemSize;
	v.data.resize(l.points() * l.elemSize);
	bool same = t.flavour == BASIC && l.kind == tkind(t.type);
	for (size_t i = 0; i < l.points(); i++) {
		unsigned char* p = &v.data[i * v.size];
		if (l.kind == nc::BYTES) {
			for (size_t k = 0; k < v.size; k++) p[k] = r.next();
			unsigned n = t.flavour == ARRAY ? t.count : 1;
			for (unsigned k = 0; k < n && (k + 1) * tsize(t.type) <= v.size; k++) putElem(p + k * tsize(t.type), tkind(t.type), r, false);
		} else putElem(p, l.kind, r, !same);
	}
	std::vector<nc::Var> coords;
	for (unsigned i = 0; i < nd; i++) if (l.dims[i].coord) {
		nc::Var c; c.name = f.dims[d0 + i].first; c.dims.push_back(d0 + i); c.kind = nc::DOUBLE; c.size = 8; c.data.resize(8 * l.dims[i].n);
		for (size_t k = 0; k < l.dims[i].n; k++) { double x = l.dims[i].off + l.dims[i].sp * k; memcpy(&c.data[8 * k], &x, 8); }
		coords.push_back(c);
	}
	nc::Var other; other.name = "other"; other.dims = v.dims; other.kind = nc::INT; other.size = 4; other.data.assign(4 * l.points(), 0xee);
	for (auto& c : coords) f.vars.push_back(c);
	if (r.flip()) f.vars.push_back(other);
	f.vars.push_back(v);
	nc::files[l.file] = f;
}

inline LevelSpec randomLevel(vf::Rng& r, const TypeSpec& t, unsigned nd, unsigned idx) {
	LevelSpec l;
	l.file = "file" + std::to_string(idx) + ".nc";
	const char* vars[] = { "z", "Height-1", "my_var", "data" };
	l.var = vars[r.below(4)];
	static const double offs[] = { 0, 1, -5.5, 1000, 0.3, -2e4 }, sps[] = { 1, 0.5, 0.1, 3, -1, -0.25, 1e-3, 250, 1. / 3 };
	size_t lim = nd == 1 ? 12 : nd == 2 ? 8 : nd == 3 ? 5 : 4;
	for (unsigned i = 0; i < nd; i++) {
		Dim d;
		d.n = 1 + r.below(lim);
		if (r.below(5) == 0) d.n = 1;
		if (nd <= 2 && r.below(12) == 0) d.n = 60 + r.below(80);
		d.coord = r.below(4) != 0;
		d.off = d.coord ? offs[r.below(6)] : 0; d.sp = d.coord ? sps[r.below(9)] : 1;
		unsigned b = r.below(8);
		d.block = b == 0 ? 0 : b == 1 ? -(int)(1 + r.below(3)) : b == 2 ? (int)(d.n + r.below(4)) : 1 + (int)r.below(4);
		if (d.n > 16 && b > 2 && r.flip()) d.block = 1 + r.below(d.n);
		l.dims.push_back(d);
	}
	if (t.flavour == BASIC) { l.kind = r.below(3) ? tkind(t.type) : (nc::Kind)r.below(5); l.elemSize = nc::kindSize(l.kind); }
	else { l.kind = nc::BYTES; l.elemSize = t.size; }
	l.cacheSize = 1 + r.below(6);
	if (r.below(4) == 0) l.cacheSize = 20 + r.below(200);
	l.spread = r.below(3) ? -1 : (int)r.below(8);
	return l;
}

/** Expected block size in a dimension of the file (user dimension nd-1-i). */
inline size_t blockSize(const LevelSpec& l, unsigned i, int timeDim) {
	const Dim& d = l.dims[i];
	unsigned user = l.nd() - 1 - i;
	size_t b = d.block == 0 ? ((int)user == timeDim && timeDim < (int)l.nd() ? 1 : 64) : d.block < 0 ? d.n : d.block;
	return std::min(b, d.n);
}
inline size_t blockCount(const LevelSpec& l, int timeDim) {
	size_t p = 1;
	for (unsigned i = 0; i < l.nd(); i++) { size_t b = blockSize(l, i, timeDim); p *= (l.dims[i].n + b - 1) / b; }
	return p;
}

/** Grid points of a dimension a coordinate may select (the nearest ones, up to rounding). */
inline std::vector<size_t> nearest(const Dim& d, double x) {
	std::vector<size_t> c;
	if (d.n == 1) { c.push_back(0); return c; }
	if (std::isnan(x)) { for (size_t i = 0; i < d.n; i++) c.push_back(i); return c; }
	if (std::isinf(x)) { c.push_back((x > 0) == (d.sp > 0) ? d.n - 1 : 0); return c; }
	long double best = -1;
	for (int pass = 0; pass < 2; pass++)
		for (size_t i = 0; i < d.n; i++) {
			long double q = fabsl((long double)x - ((long double)d.off + (long double)d.sp * i));
			if (!pass) { if (best < 0 || q < best) best = q; }
			else if (q <= best * (1 + 1e-12L) + fabsl(d.sp) * 1e-6L + fabsl(d.off) * 1e-12L) c.push_back(i);
		}
	return c;
}

inline double randomCoord(vf::Rng& r, const Dim& d) {
	switch (r.below(16)) {
	case 0: return INF;
	case 1: return -INF;
	case 2: return std::numeric_limits<double>::quiet_NaN();
	case 3: return (r.flip() ? 1 : -1) * 1e300;
	case 4: return (r.flip() ? 1 : -1) * 1.7e308;
	case 5: return d.off + d.sp * ((double)r.range(-3, (long)d.n + 3));
	case 6: return d.off + d.sp * (r.range(-3, (long)d.n + 3) + 0.5);
	case 7: return d.off + d.sp * (r.range(0, (long)d.n) + (r.flip() ? 0.499 : 0.501));
	case 8: return (r.unit() - 0.5) * 1e20;
	default: return d.off + d.sp * (r.unit() * (d.n + 1) - 1);
	}
}

/** All file positions (linear) the coordinates may select. */
inline std::vector<size_t> candidates(const LevelSpec& l, const double* pos) {
	std::vector<size_t> c(1, 0);
	for (unsigned i = 0; i < l.nd(); i++) {
		std::vector<size_t> n = nearest(l.dims[i], pos[l.nd() - 1 - i]), c2;
		for (size_t a : c) for (size_t b : n) c2.push_back(a * l.dims[i].n + b);
		c.swap(c2);
		if (c.size() > 100000) return c;
	}
	return c;
}
}
#endif

// The whole library (without MPI) through its C++, C and Fortran interfaces,
// with simulated threads and NUMA domains and an in-memory netCDF library.
#include "vgrid.h"
#include "asagi_f90.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
using namespace vg;

/** One of the three interfaces. */
struct Api {
	int kind; G* g; int id; // 0 C++, 1 C, 2 Fortran
	void create(int k, TypeSpec& t) {
		kind = k; g = 0; id = -1;
		unsigned* bl = t.blockLength.data(); unsigned long* dp = t.displ.data(); G::Type* ty = t.types.data();
		if (k == 0) g = t.flavour == BASIC ? G::create(t.type) : t.flavour == ARRAY ? G::createArray(t.type) : G::createStruct(t.count, bl, dp, ty);
		else if (k == 1) g = t.flavour == BASIC ? asagi_grid_create(t.type) : t.flavour == ARRAY ? asagi_grid_create_array(t.type) : asagi_grid_create_struct(t.count, bl, dp, ty);
		else id = t.flavour == BASIC ? f90asagi_grid_create(t.type) : t.flavour == ARRAY ? f90asagi_grid_create_array(t.type) : f90asagi_grid_create_struct(t.count, (int*)bl, (long*)dp, ty);
	}
	void threads(unsigned n) { if (kind == 0) g->setThreads(n); else if (kind == 1) asagi_grid_set_threads(g, n); else f90asagi_grid_set_threads(id, n); }
	void param(const std::string& n, const std::string& v, unsigned l) {
		vf::step(" %s=%s@%u", n.c_str(), v.c_str(), l);
		if (kind == 0) { if (l) g->setParam(n.c_str(), v.c_str(), l); else g->setParam(n.c_str(), v.c_str()); }
		else if (kind == 1) asagi_grid_set_param(g, n.c_str(), v.c_str(), l);
		else f90asagi_grid_set_param(id, n.c_str(), v.c_str(), l);
	}
	G::Error open(const std::string& f, unsigned l) { return kind == 0 ? l ? g->open(f.c_str(), l) : g->open(f.c_str()) : kind == 1 ? asagi_grid_open(g, f.c_str(), l) : f90asagi_grid_open(id, f.c_str(), l); }
	unsigned dims() { return kind == 0 ? g->getDimensions() : kind == 1 ? asagi_grid_dimensions(g) : f90asagi_grid_dimensions(id); }
	double min(unsigned n) { return kind == 0 ? g->getMin(n) : kind == 1 ? asagi_grid_min(g, n) : f90asagi_grid_min(id, n); }
	double max(unsigned n) { return kind == 0 ? g->getMax(n) : kind == 1 ? asagi_grid_max(g, n) : f90asagi_grid_max(id, n); }
	double delta(unsigned n, unsigned l) { return kind == 0 ? g->getDelta(n, l) : kind == 1 ? asagi_grid_delta(g, n, l) : f90asagi_grid_delta(id, n, l); }
	unsigned varSize() { return kind == 0 ? g->getVarSize() : kind == 1 ? asagi_grid_var_size(g) : f90asagi_grid_var_size(id); }
	unsigned char byte(const double* p, unsigned l) { return kind == 0 ? g->getByte(p, l) : kind == 1 ? asagi_grid_get_byte(g, p, l) : f90asagi_grid_get_byte(id, (double*)p, l); }
	int i32(const double* p, unsigned l) { return kind == 0 ? g->getInt(p, l) : kind == 1 ? asagi_grid_get_int(g, p, l) : f90asagi_grid_get_int(id, (double*)p, l); }
	long i64(const double* p, unsigned l) { return kind == 0 ? g->getLong(p, l) : kind == 1 ? asagi_grid_get_long(g, p, l) : f90asagi_grid_get_long(id, (double*)p, l); }
	float f32(const double* p, unsigned l) { return kind == 0 ? g->getFloat(p, l) : kind == 1 ? asagi_grid_get_float(g, p, l) : f90asagi_grid_get_float(id, (double*)p, l); }
	double f64(const double* p, unsigned l) { return kind == 0 ? g->getDouble(p, l) : kind == 1 ? asagi_grid_get_double(g, p, l) : f90asagi_grid_get_double(id, (double*)p, l); }
	void buf(void* b, const double* p, unsigned l) { if (kind == 0) g->getBuf(b, p, l); else if (kind == 1) asagi_grid_get_buf(g, b, p, l); else f90asagi_grid_get_buf(id, b, (double*)p, l); }
	unsigned long counter(const char* n, unsigned l) { return g ? g->getCounter(n, l) : 0; }
	void close() { if (kind == 0) G::close(g); else if (kind == 1) asagi_grid_close(g); else f90asagi_grid_close(id); }
};

static const char* ALL = "C01 C02 C03 C05 C06 C11 C12 C13 C14 C15 C16 C17 C23 C24 C26";
static std::string mangle(vf::Rng& r, std::string s) { for (char& c : s) { if (c == '_' || c == '-') c = r.flip() ? '-' : '_'; else c = r.flip() ? toupper(c) : tolower(c); } return s; }
template<class A, class B> static B conv(A a) { return (B)a; }

/** Is the value read the value of the file position? */
template<class T, class B> static bool sameAs(const nc::Var& v, bool basic, size_t lin, B got) {
	T t; if (basic) t = nc::elem<T>(v, lin); else memcpy(&t, &v.data[lin * v.size], sizeof(T));
	B b = (B)t; return memcmp(&b, &got, sizeof(B)) == 0;
}
template<class B> static bool same(const TypeSpec& t, const nc::Var& v, size_t lin, B got) {
	bool b = t.flavour == BASIC;
	switch (t.type) {
	case G::BYTE: return sameAs<unsigned char, B>(v, b, lin, got);
	case G::INT: return sameAs<int, B>(v, b, lin, got);
	case G::LONG: return sameAs<long, B>(v, b, lin, got);
	case G::FLOAT: return sameAs<float, B>(v, b, lin, got);
	default: return sameAs<double, B>(v, b, lin, got);
	}
}
static std::vector<unsigned char> stored(const TypeSpec& t, const nc::Var& v, size_t lin) {
	std::vector<unsigned char> b(t.size);
	if (t.flavour != BASIC) { memcpy(b.data(), &v.data[lin * v.size], t.size); return b; }
	switch (t.type) {
	case G::BYTE: { unsigned char x = nc::elem<unsigned char>(v, lin); memcpy(b.data(), &x, 1); break; }
	case G::INT: { int x = nc::elem<int>(v, lin); memcpy(b.data(), &x, 4); break; }
	case G::LONG: { long x = nc::elem<long>(v, lin); memcpy(b.data(), &x, 8); break; }
	case G::FLOAT: { float x = nc::elem<float>(v, lin); memcpy(b.data(), &x, 4); break; }
	default: { double x = nc::elem<double>(v, lin); memcpy(b.data(), &x, 8); break; }
	}
	return b;
}

struct Case {
	vf::Rng r;
	Api a; TypeSpec t;
	std::vector<LevelSpec> L; std::vector<bool> used;
	std::string gridType; int numa; bool vertex; int timeDim; unsigned nThreads, D;
	std::vector<int> nodes;
	std::vector<unsigned long> lookups, readsAtOpen;
	bool sweep;
	const char* TAG;
	explicit Case(uint64_t s) : r(s) {}

	const nc::Var& var(const LevelSpec& l) { for (auto& v : nc::files[l.file].vars) if (v.name == l.var) return v; abort(); }

	void one(unsigned lv, const double* pos, bool exact) {
		const LevelSpec& l = L[lv];
		const nc::Var& v = var(l);
		std::vector<size_t> c = candidates(l, pos);
		if (c.size() > 4096) return;
		nc::File& f = nc::files[l.file];
		lookups[lv]++;
		unsigned long v0 = f.values;
		unsigned g = r.below(6);
		bool ok = false;
		char txt[200] = "";
		if (nThreads == 1) { vf::step(" get%u@%u(", g, lv); for (unsigned i = 0; i < l.nd(); i++) vf::step("%s%.17g", i ? "," : "", pos[i]); vf::step(")"); }
		switch (g) {
		case 0: { unsigned char x = a.byte(pos, lv); for (size_t k : c) ok |= same(t, v, k, x); snprintf(txt, 200, "%u", x); break; }
		case 1: { int x = a.i32(pos, lv); for (size_t k : c) ok |= same(t, v, k, x); snprintf(txt, 200, "%d", x); break; }
		case 2: { long x = a.i64(pos, lv); for (size_t k : c) ok |= same(t, v, k, x); snprintf(txt, 200, "%ld", x); break; }
		case 3: { float x = a.f32(pos, lv); for (size_t k : c) ok |= same(t, v, k, x); snprintf(txt, 200, "%g", x); break; }
		case 4: { double x = a.f64(pos, lv); for (size_t k : c) ok |= same(t, v, k, x); snprintf(txt, 200, "%g", x); break; }
		default: {
			std::vector<unsigned char> b(t.size + 16, 0xa5);
			a.buf(b.data(), pos, lv);
			for (size_t k : c) { std::vector<unsigned char> e = stored(t, v, k); ok |= memcmp(e.data(), b.data(), t.size) == 0; }
			for (unsigned i = 0; i < 16; i++) VF_PROP("C13", b[t.size + i] == 0xa5, "getBuf writes more than the %zu bytes of a variable", t.size);
			for (unsigned i = 0; i < t.size && i < 16; i++) sprintf(txt + 3 * i, "%02x ", b[i]);
		} }
		if (!ok) {
			char p[400] = ""; for (unsigned i = 0; i < l.nd(); i++) sprintf(p + strlen(p), " %.17g", pos[i]);
			VF_PROP(TAG, false, "lookup %u at level %u, coordinates%s: read %s, which is not the value of the file at that grid point (position %zu)", g, lv, p, txt, c[0]);
		}
		if (gridType == "PASS_THROUGH" && nThreads == 1) VF_PROP("C26 C24", f.values - v0 == 1, "a lookup in a pass-through grid reads %lu values", f.values - v0);
		if (gridType == "FULL") VF_PROP("C05 C06 C24", f.values == v0, "a lookup in a full grid reads the file");
	}

	void lookup(unsigned th) {
		unsigned lv = r.below(L.size());
		while (!used[lv]) lv = (lv + 1) % L.size();
		double pos[4];
		for (unsigned i = 0; i < L[lv].nd(); i++) pos[L[lv].nd() - 1 - i] = randomCoord(r, L[lv].dims[i]);
		one(lv, pos, false);
	}
	void sweepAll(unsigned lv) {
		LevelSpec& l = L[lv];
		for (size_t k = 0; k < l.points(); k++) {
			double pos[4]; size_t x = k;
			for (unsigned i = l.nd(); i-- > 0;) { pos[l.nd() - 1 - i] = l.dims[i].off + l.dims[i].sp * (x % l.dims[i].n); x /= l.dims[i].n; }
			one(lv, pos, true);
		}
	}

	void run() {
		nc::reset();
		t = randomType(r);
		unsigned nl = r.flip() ? 1 : 1 + r.below(3);
		unsigned nd = 1 + r.below(4);
		nThreads = r.flip() ? 1 : 1 + r.below(4);
		unsigned nn = 1 + r.below(3);
		for (unsigned i = 0; i < nThreads; i++) nodes.push_back(r.below(nn) * 3 + 1);
		gridType = r.below(3) == 0 ? "FULL" : r.below(2) ? "CACHE" : "PASS_THROUGH";
		numa = r.below(4); // 0 default, 1 ON, 2 OFF, 3 CACHE
		D = numa == 2 ? 1 : std::set<int>(nodes.begin(), nodes.end()).size();
		vertex = r.flip();
		timeDim = r.flip() ? -1 : (int)r.below(6) - 1;
		sweep = r.below(5) == 0;
		used.assign(nl, false);
		TAG = "C01 C02 C03 C05 C06 C11 C12 C13 C15 C16 C17 C19 C23 C24 C26";
		for (unsigned i = 0; i < nl; i++) L.push_back(randomLevel(r, t, r.below(4) ? nd : 1 + r.below(4), i));
		lookups.assign(nl, 0); readsAtOpen.assign(nl, 0);
		const char* ifc[] = { "C++", "C", "Fortran" };
		int api = r.below(3);
		static const char* TN[] = { "byte", "int", "long", "float", "double" };
		static const char* FN[] = { "", "array of ", "struct of " };
		vf::begin("grid of %s%s (%zu bytes) interface %s, threads on nodes", FN[t.flavour], TN[t.type], t.size, ifc[api]);
		for (int n : nodes) vf::step(" %d", n);
		for (auto& l : L) {
			vf::step("; %s var %s kind %d:", l.file.c_str(), l.var.c_str(), l.kind);
			for (auto& d : l.dims) vf::step(" %zu%s off %g sp %g block %d,", d.n, d.coord ? "" : " (no coordinates)", d.off, d.sp, d.block);
		}
		for (auto& l : L) makeFile(r, l, t);
		a.create(api, t);
		if (nThreads != 1 || r.flip()) a.threads(nThreads);
		params();
		// levels are opened in some order, possibly not all of them
		std::vector<unsigned> order;
		for (unsigned i = 0; i < nl; i++) order.push_back(i);
		for (unsigned i = nl; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
		if (order[0] != 0 && r.flip()) { order.erase(std::find(order.begin(), order.end(), 0u)); order.insert(order.begin(), 0); }
		if (order.size() > 1 && order.back() != 0 && r.below(3) == 0) order.pop_back();
		vf::step(" order"); for (unsigned o : order) { vf::step(" %u", o); used[o] = true; }
		unsigned per = sweep ? 0 : 2 + r.below(12);
		std::vector<std::function<void()> > fns;
		unsigned opened = 0;
		for (unsigned th = 0; th < nThreads; th++) fns.push_back([this, th, &order, per, &opened]() {
			vs::cos[vs::cur]->cpu = th;
			unsigned step = 0;
			for (unsigned o : order) {
				G::Error e = a.open(L[o].file, o);
				VF_PROP("C14 C23", e == G::SUCCESS, "open of level %u returns error %d", o, e);
				step++;
				opened = std::max(opened, step);
				// look up values of an earlier level between the openings
				if (!sweep && used[0] && r.below(3) == 0) { for (unsigned k = 0; k < step; k++) { double pos[4]; LevelSpec& l = L[order[k]]; for (unsigned i = 0; i < l.nd(); i++) pos[l.nd() - 1 - i] = randomCoord(r, l.dims[i]); one(order[k], pos, false); } }
			}
			if (sweep) for (unsigned o : order) sweepAll(o);
			for (unsigned k = 0; k < per; k++) lookup(th);
		});
		vs::nodeOfThread = [this](int c) { return nodes[c]; };
		vs::rng = &r; vs::choice.clear(); vs::width.clear();
		vs::maxPreempt = r.below(3) == 0 ? 0 : 1000;
		vs::run(fns);
		check(order);
		a.close();
		VF_PROP("C14 C23", nc::handles.empty() && nc::opens == nc::closes, "%lu files opened, %lu closed", nc::opens, nc::closes);
		vf::done();
	}

	void params() {
		struct P { std::string n, v; unsigned l; };
		std::vector<P> p;
		if (gridType != "FULL" || r.flip()) p.push_back({ mangle(r, "GRID"), r.below(8) || gridType != "FULL" ? mangle(r, gridType) : "whatever", 0 });
		static const char* NC[] = { "", "ON", "OFF", "CACHE" };
		if (numa) p.push_back({ mangle(r, "NUMA_COMMUNICATION"), mangle(r, NC[numa]), 0 });
		if (vertex || r.flip()) p.push_back({ mangle(r, "VALUE_POSITION"), vertex ? mangle(r, "VERTEX_CENTERED") : r.below(4) ? mangle(r, "CELL_CENTERED") : "nowhere", 0 });
		if (timeDim != -1 || r.flip()) p.push_back({ mangle(r, "TIME_DIMENSION"), std::to_string(timeDim), 0 });
		for (unsigned lv = 0; lv < L.size(); lv++) {
			LevelSpec& l = L[lv];
			if (l.var != "z" || r.flip()) p.push_back({ mangle(r, "VARIABLE"), l.var, lv });
			for (unsigned i = 0; i < l.nd(); i++) if (l.dims[i].block || r.flip()) p.push_back({ mangle(r, "BLOCK_SIZE_") + std::to_string(l.nd() - 1 - i), std::to_string(l.dims[i].block), lv });
			if (r.below(4) == 0) { if (sweep) l.cacheSize = 5000; else l.cacheSize = 128; }
			if (sweep) l.cacheSize = std::max<size_t>(l.cacheSize, 1 + blockCount(l, timeDim));
			if (l.cacheSize != 128 || r.flip()) p.push_back({ mangle(r, "CACHE_SIZE"), std::to_string(l.cacheSize), lv });
			if (l.spread != -1 || r.flip()) p.push_back({ mangle(r, "CACHE_HAND_SPREAD"), std::to_string(l.spread), lv });
		}
		for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[r.below(i)]);
		for (auto& x : p) { // overwritten values do not count
			if (r.below(6) == 0) a.param(mangle(r, x.n), "7", x.l);
			a.param(x.n, x.v, x.l);
		}
	}

	void check(const std::vector<unsigned>& order) {
		unsigned n = L[0].nd();
		if (used[0]) {
			VF_PROP("C02 C16 C23", a.dims() == n, "%u dimensions reported", a.dims());
			for (unsigned k = 0; k < n; k++) {
				const Dim& d = L[0].dims[n - 1 - k];
				double lo = a.min(k), hi = a.max(k);
				if (d.n == 1) VF_PROP("C02 C16 C23", lo == -INF && hi == INF, "dimension %u with one grid point has the range %g..%g", k, lo, hi);
				else {
					long double c0 = d.off, c1 = d.off + d.sp * (d.n - 1), l = std::min(c0, c1), h = std::max(c0, c1), half = vertex ? 0 : fabsl(d.sp) / 2;
					long double tol = fabsl(d.sp) * 2e-9L + (fabsl(l) + fabsl(h)) * 1e-14L;
					VF_PROP("C02 C16 C23 C24", lo <= hi && fabsl(lo - (l - half)) <= tol && fabsl(hi - (h + half)) <= tol, "dimension %u has the range %.12g..%.12g, expected %.12Lg..%.12Lg", k, lo, hi, l - half, h + half);
					// "almost" half a cell: both ends still belong to the grid
					if (!vertex) VF_PROP("C02", lo > (double)(l - half) - fabs(d.sp) * 1e-12 - fabs((double)l) * 1e-15 && hi < (double)(h + half) + fabs(d.sp) * 1e-12 + fabs((double)h) * 1e-15, "the range of dimension %u exceeds the cells", k);
				}
			}
		}
		VF_PROP("C13 C16", a.varSize() == t.size, "variable size %u, expected %zu", a.varSize(), t.size);
		for (unsigned lv : order) {
			LevelSpec& l = L[lv];
			for (unsigned k = 0; k < l.nd(); k++) {
				const Dim& d = l.dims[l.nd() - 1 - k];
				double x = a.delta(k, lv), e = d.n == 1 ? INF : fabs(d.sp);
				VF_PROP("C02 C16 C23", x == e || fabs(x - e) <= e * 1e-9 + fabs(d.off) * 1e-13, "spacing of dimension %u at level %u is %g, expected %g", k, lv, x, e);
			}
			nc::File& f = nc::files[l.file];
			size_t nb = blockCount(l, timeDim);
			unsigned long masters = D;
			VF_PROP("C14 C17 C23", f.opens == masters, "the file of level %u was opened %lu times by %lu domains", lv, f.opens, masters);
			if (gridType == "FULL") {
				VF_PROP("C04 C05", f.values == l.points(), "%lu values of level %u read, the grid has %zu", f.values, lv, l.points());
				VF_PROP("C03 C04 C05 C24", f.reads == nb, "level %u: %lu blocks read, expected %zu", lv, f.reads, nb);
				VF_PROP("C05 C23 C24", f.openNow == 0, "the file of a full grid is still open");
			}
			if (a.kind == 2) continue;
			unsigned long acc = a.counter("accesses", lv), nt = a.counter("numa_transfers", lv), mt = a.counter("mpi_transfers", lv), fl = a.counter("file_loads", lv);
			VF_PROP("C15 C23", acc == lookups[lv], "level %u: accesses is %lu after %lu lookups", lv, acc, lookups[lv]);
			VF_PROP("C15", mt == 0, "mpi_transfers is %lu without MPI", mt);
			VF_PROP("C15 C23", fl == (gridType == "FULL" ? 0 : f.reads), "level %u: file_loads is %lu, %lu blocks were read", lv, fl, f.reads);
			VF_PROP("C15", a.counter("local_hits", lv) == acc - nt - mt - fl, "local_hits is %lu of %lu accesses, %lu domain transfers, %lu loads", a.counter("local_hits", lv), acc, nt, fl);
			VF_PROP("C15", a.counter("node_hits", lv) == acc - mt - fl, "node_hits is %lu", a.counter("node_hits", lv));
			VF_PROP("C15", a.counter("local_misses", lv) == nt + mt + fl, "local_misses is %lu", a.counter("local_misses", lv));
			VF_PROP("C15", a.counter("Accesses", lv) == 0 && a.counter("", lv) == 0 && a.counter("file_load", lv) == 0 && a.counter("hits", lv) == 0 && a.counter("accesses ", lv) == 0, "an unknown counter is not 0");
			if (D == 1 || gridType == "PASS_THROUGH") VF_PROP("C15 C24", nt == 0, "%lu domain transfers with one domain", nt);
			if (gridType == "PASS_THROUGH") VF_PROP("C26 C15 C24", fl == acc && f.values == acc, "pass-through: %lu loads, %lu values for %lu lookups", fl, f.values, acc);
			if (sweep && gridType == "FULL") VF_PROP("C06 C15 C24", nt == (D - 1) * nb, "every domain read all %zu blocks: %lu domain transfers, expected %zu", nb, nt, (D - 1) * nb);
			if (sweep && gridType == "CACHE") {
				VF_PROP("C03 C15 C07 C24", fl + nt == D * nb, "every domain read all %zu blocks: %lu loads and %lu domain transfers", nb, fl, nt);
				if (vs::maxPreempt == 0) VF_PROP("C11 C24 C15", fl >= nb && (D == 1 || nt > 0), "%lu loads and %lu domain transfers of %zu blocks by %u domains", fl, nt, nb, D);
			}
		}
	}
};

/** Errors of open. */
static void errors(uint64_t seed) {
	vf::Rng r(seed);
	nc::reset();
	TypeSpec t = randomType(r);
	unsigned what = r.below(5);
	if (what >= 3 && t.flavour == BASIC) t.flavour = ARRAY, t.count = 1;
	unsigned nThreads = 1 + r.below(3);
	std::vector<int> nodes;
	for (unsigned i = 0; i < nThreads; i++) nodes.push_back(r.below(2));
	static const char* W[] = { "no file", "no variable", "too many dimensions", "size not a multiple", "another size at level 1" };
	if (what == 3 && (t.flavour != ARRAY || tsize(t.type) == 1)) { t.flavour = ARRAY; t.type = G::INT; t.count = 2; t.size = 8; }
	unsigned nd = 1 + r.below(4);
	LevelSpec l = randomLevel(r, t, nd, 0), l2 = randomLevel(r, t, nd, 1);
	l.var = l2.var = "z";
	static const char* GT[] = { "FULL", "CACHE", "PASS-THROUGH" };
	unsigned gt = r.below(3), api = r.below(3);
	vf::begin("open with error: %s, flavour %d type %d size %zu, grid %s, %u threads, interface %u", W[what], t.flavour, t.type, t.size, GT[gt], nThreads, api);
	G::Error expect0 = G::SUCCESS, expect1 = G::SUCCESS;
	TypeSpec ft = t;
	if (what == 1) { l.var = "y"; expect0 = G::VAR_NOT_FOUND; }
	if (what == 2) { while (l.dims.size() < 5 + r.below(2)) { Dim d = { 1 + r.below(2), false, 0, 1, 0 }; l.dims.push_back(d); } expect0 = G::UNSUPPORTED_DIMENSIONS; }
	if (what == 3) { l.kind = nc::BYTES; l.elemSize = t.size + 1 + r.below(tsize(t.type) - 1); expect0 = G::INVALID_VAR_SIZE; }
	if (what == 4) { l2.elemSize = t.size + tsize(t.type) * (1 + r.below(2)); if (r.flip() && t.size > tsize(t.type)) l2.elemSize = tsize(t.type); expect1 = G::WRONG_SIZE; if (l2.elemSize == t.size) l2.elemSize += tsize(t.type); }
	makeFile(r, l, t);
	makeFile(r, l2, t);
	if (what == 0) { nc::files.erase(l.file); expect0 = G::NOT_OPEN; }
	Api a; a.create(api, t); a.threads(nThreads); a.param("GRID", GT[gt], 0);
	if (what == 1 && r.flip()) { a.param("VARIABLE", "yy", 0); }
	std::vector<std::function<void()> > fns;
	unsigned good = 0;
	for (unsigned th = 0; th < nThreads; th++) fns.push_back([&, th]() {
		G::Error e = a.open(l.file, 0);
		VF_PROP("C14 C13 C16", e == expect0, "open returns %d, expected %d", e, expect0);
		if (what >= 4 || (what == 0 && seed % 3 == 0)) {
			if (what == 4) { e = a.open(l2.file, 1); VF_PROP("C14 C13 C16", e == expect1, "open of level 1 returns %d, expected %d", e, expect1); }
			else { e = a.open(l2.file, 1); VF_PROP("C14 C16 C23", e == G::SUCCESS, "open of level 1 after a failed level 0 returns %d", e); }
		}
		good++;
	});
	vs::nodeOfThread = [&](int c) { return nodes[c]; };
	vs::rng = &r; vs::choice.clear(); vs::width.clear(); vs::maxPreempt = 1000;
	vs::run(fns);
	if (what == 4) VF_PROP("C13", a.varSize() == t.size, "the variable size changed to %u", a.varSize());
	a.close();
	VF_PROP("C14", nc::handles.empty() && nc::opens == nc::closes, "%lu files opened, %lu closed", nc::opens, nc::closes);
	vf::done();
}

/** Fortran handles: many threads create, use and close grids. */
static void handles(uint64_t seed) {
	vf::Rng r(seed);
	nc::reset();
	vf::begin("Fortran handles of several threads");
	LevelSpec l[5]; TypeSpec t; t.flavour = BASIC; t.type = G::INT; t.count = 1; t.size = 4;
	for (unsigned i = 0; i < 5; i++) {
		l[i].file = "h" + std::to_string(i); l[i].var = "z"; l[i].kind = nc::INT; l[i].elemSize = 4; l[i].cacheSize = 1; l[i].spread = -1;
		Dim d = { 1, true, 0, 1, 0 }; d.n = i + 1; l[i].dims.push_back(d);
		makeFile(r, l[i], t);
		nc::Var* v = 0; for (auto& x : nc::files[l[i].file].vars) if (x.name == "z") v = &x;
		for (size_t k = 0; k <= i; k++) { int x = 1000 * i + k; memcpy(&v->data[4 * k], &x, 4); }
	}
	unsigned nT = 2 + r.below(2);
	std::vector<std::function<void()> > fns;
	std::map<int, int> live; // handle -> file
	for (unsigned th = 0; th < nT; th++) fns.push_back([&, th]() {
		std::vector<int> mine;
		for (unsigned k = 0; k < 6; k++) {
			unsigned op = r.below(4);
			if (mine.empty() || op == 0) {
				int h = f90asagi_grid_create(G::INT);
				VF_PROP("C16", !live.count(h), "handle %d names two live grids", h);
				unsigned fi = r.below(5);
				live[h] = fi; mine.push_back(h);
				vf::step(" T%u:create=%d(file %u)", th, h, fi);
				VF_PROP("C16", f90asagi_grid_open(h, l[fi].file.c_str(), 0) == G::SUCCESS, "open of handle %d fails", h);
			} else if (op == 1) {
				unsigned i = r.below(mine.size()); int h = mine[i];
				vf::step(" T%u:close=%d", th, h);
				live.erase(h); mine.erase(mine.begin() + i);
				f90asagi_grid_close(h);
			} else {
				int h = mine[r.below(mine.size())]; int fi = live[h];
				double pos[1] = { (double)fi };
				vf::step(" T%u:get(%d)", th, h);
				int x = f90asagi_grid_get_int(h, pos, 0);
				VF_PROP("C16", x == 1001 * fi, "handle %d returns %d, expected %d", h, x, 1001 * fi);
				vs::yield();
			}
		}
		for (int h : mine) { live.erase(h); f90asagi_grid_close(h); }
	});
	vs::nodeOfThread = [&](int) { return 0; };
	vs::rng = &r; vs::choice.clear(); vs::width.clear(); vs::maxPreempt = 1000;
	vs::run(fns);
	VF_PROP("C14 C16", nc::opens == nc::closes, "files leaked");
	vf::done();
}

/** Memory of all domains that is only counted. */
static size_t counted; static char* base = (char*)0x100000;
struct Counted {
	template<typename T> static G::Error allocate(size_t n, T* &p) { counted = n; p = (T*)base; return G::SUCCESS; }
	template<typename T> static void free(T*) { }
};

/** Identities of threads and domains, memory that domains share. */
static void domains(uint64_t seed) {
	vf::Rng r(seed);
	unsigned T = r.below(8) == 0 ? 257 + r.below(64) : 1 + r.below(6), N = T > 256 ? T : 1 + r.below(T);
	std::vector<int> node(T); for (unsigned i = 0; i < T; i++) node[i] = T > 256 ? i * 3 : r.below(N);
	bool detect = T > 256 || r.below(4) != 0;
	unsigned long size; switch (r.below(4)) { case 0: size = 1 + r.below(100); break; case 1: size = (1ul << 32) - 1 + r.below(3); break; case 2: size = 1ul << r.below(40); break; default: size = (r.next() & ((1ul << 38) - 1)) + 1; }
	vf::begin("%u threads%s, %lu bytes per domain, nodes", T, detect ? "" : " (one domain)", size);
	for (unsigned i = 0; i < T && i < 20; i++) vf::step(" %d", node[i]);
	numa::Numa n; n.setThreads(T);
	vs::nodeOfThread = [&](int cpu) { return node[cpu]; };
	std::map<unsigned, unsigned> tid; std::map<unsigned, int> nodeOf; std::map<int, unsigned> domOf; std::map<unsigned, unsigned> masters;
	unsigned here = 0; numa::NumaComm* shared = 0;
	std::vector<std::function<void()> > fns;
	for (unsigned t = 0; t < T; t++) fns.push_back([&, t]() {
		bool m = false, m2 = false;
		VF_PROP("C17", n.registerThread(m, detect) == G::SUCCESS, "registration fails");
		unsigned id = n.threadId(), d = n.domainId(); int at = detect ? node[t] : 0;
		VF_PROP("C17", n.registerThread(m2, detect) == G::SUCCESS && m2 == m && n.threadId() == id && n.domainId() == d, "a thread that registers again becomes another one");
		VF_PROP("C17", id < T && !tid.count(id), "thread %u of %u is not the only one with this number", id, T);
		tid[id] = t;
		VF_PROP("C17", !nodeOf.count(d) || nodeOf[d] == at, "domain %u consists of nodes %d and %d", d, nodeOf[d], at);
		VF_PROP("C17", !domOf.count(at) || domOf[at] == d, "node %d has the domains %u and %u", at, domOf[at], d);
		nodeOf[d] = at; domOf[at] = d; masters[d] += m;
		here++;
		while (here < T) vs::block([&]() { return here >= T; });
		VF_PROP("C17", n.totalDomains() == nodeOf.size() && d < nodeOf.size() && n.totalThreads() == T, "%u domains and %u threads instead of %zu and %u", n.totalDomains(), n.totalThreads(), nodeOf.size(), T);
		VF_PROP("C17", masters[d] == 1, "domain %u has %u masters", d, masters[d]);
		if (m && T < 20) {
			numa::NumaComm* c = n.createComm();
			for (int k = 0; k < 2; k++) {
				unsigned char* p = 0;
				VF_PROP("C19", c->allocate<Counted>(size, p) == G::SUCCESS, "allocation fails");
				VF_PROP("C19", counted == size * nodeOf.size(), "%zu bytes are allocated for %zu domains", counted, nodeOf.size());
				VF_PROP("C19", (char*)p == base + size * d, "domain %u gets the memory at %ld", d, (long)((char*)p - base));
			}
			if (d == 0) shared = c;
		}
	});
	vs::rng = &r; vs::choice.clear(); vs::width.clear(); vs::maxPreempt = 1000;
	vs::run(fns);
	delete shared;
	vf::done(nodeOf.size() > 1);
}

int main(int argc, char** argv) {
	vf::init(argc, argv);
	for (uint64_t i = 0; vf::timeLeft(0.9) && (vf::thorough || i < 6000); i++) {
		uint64_t s = vf::seed * 1000003 + i;
		if (i % 5 == 4) { if (vf::want("errors")) errors(s); }
		else if (i % 11 == 3) { if (vf::want("domains")) domains(s); }
		else if (i % 37 == 5) { if (vf::want("handles")) handles(s); }
		else if (vf::want("grid")) { Case c(s); c.run(); }
	}
	return vf::finish();
}

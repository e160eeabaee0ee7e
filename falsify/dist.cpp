// The whole library with MPI: processes, their threads and NUMA domains are
// simulated (vmpi.h), the netCDF library is in memory. Grids distributed over
// processes and domains, lookups from all threads.
#include "vgrid.h"
#include "vmpi.h"
#include "mpi/commthread.h"
#include "mpi/mpicomm.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "mpi/mutex.h"
using namespace vg;

static std::vector<std::vector<char> > images;
static std::vector<char> pristine;
static void snapshot(std::vector<char>& v) { v.clear(); for (auto& p : vs::perProcess) v.insert(v.end(), p.first, p.first + p.second); }
static void restore(const std::vector<char>& v) { size_t k = 0; for (auto& p : vs::perProcess) { memcpy(p.first, &v[k], p.second); k += p.second; } }
static void processes(int n) {
	if (pristine.empty()) {
		vs::perProcess.push_back(std::make_pair((char*)&mpi::CommThread::commThread, sizeof(mpi::CommThread)));
		vs::perProcess.push_back(std::make_pair((char*)&mpi::MPIComm::mpiLock, sizeof(mpi::MPIComm::mpiLock)));
		snapshot(pristine);
		vs::onProcess = [](int from, int to) { snapshot(images[from]); restore(images[to]); };
	}
	restore(pristine);
	images.assign(n, pristine);
	vs::curProc = 0;
	vs::anyUnlock = true;
	vs::maxSteps = 3000000;
	vm::reset(n);
}
template<class T, class B> static bool sameAs(const nc::Var& v, bool basic, size_t lin, B got) {
	T t; if (basic) t = nc::elem<T>(v, lin); else memcpy(&t, &v.data[lin * v.size], sizeof(T));
	B b = (B)t; return memcmp(&b, &got, sizeof(B)) == 0;
}
static std::vector<unsigned char> stored(const TypeSpec& t, const nc::Var& v, size_t lin) {
	std::vector<unsigned char> b(t.size);
	if (t.flavour != BASIC) { memcpy(b.data(), &v.data[lin * v.size], t.size); return b; }
	switch (t.type) {
	case G::BYTE: { unsigned char x = nc::elem<unsigned char>(v, lin); memcpy(b.data(), &x, 1); break; }
	case G::INT: { int x = nc::elem<int>(v, lin); memcpy(b.data(), &x, 4); break; }
	case G::LONG: { long x = nc::elem<long>(v, lin); memcpy(b.data(), &x, 8); break; }
	case G::FLOAT: { float x = nc::elem<float>(v, lin); memcpy(b.data(), &x, 4); break; }
	default: { double x = nc::elem<double>(v, lin); memcpy(b.data(), &x, 8); break; }
	}
	return b;
}
/** Only bytes that belong to an element (not the padding of a struct). */
static bool sameBytes(const TypeSpec& t, const unsigned char* a, const unsigned char* b) {
	if (t.flavour != STRUCT) return !memcmp(a, b, t.size);
	for (unsigned i = 0; i < t.count; i++) if (memcmp(a + t.displ[i], b + t.displ[i], t.blockLength[i] * tsize(t.types[i]))) return false;
	return true;
}

struct Proc { G* g = 0; unsigned ready = 0, finished = 0; bool closed = false; std::vector<int> nodes; };

struct Case {
	vf::Rng r;
	TypeSpec t; std::vector<LevelSpec> L;
	int P, comm; unsigned T, gridType, numa; bool useComm; bool useThread; bool sequential;
	std::vector<Proc> p;
	std::vector<unsigned long> lookups;
	unsigned allDone = 0;
	const char* TAG;
	explicit Case(uint64_t s) : r(s) {}
	const nc::Var& var(const LevelSpec& l) { for (auto& v : nc::files[l.file].vars) if (v.name == l.var) return v; abort(); }

	void one(int me, unsigned lv, const double* pos) {
		const LevelSpec& l = L[lv]; const nc::Var& v = var(l);
		std::vector<size_t> c = candidates(l, pos);
		if (c.size() > 4096) return;
		lookups[lv]++;
		unsigned long v0 = nc::files[l.file].values;
		std::vector<unsigned char> b(t.size + 8, 0xa5);
		p[me].g->getBuf(b.data(), pos, lv);
		bool ok = false;
		for (size_t k : c) { std::vector<unsigned char> e = stored(t, v, k); ok |= sameBytes(t, e.data(), b.data()); }
		for (unsigned i = 0; i < 8; i++) VF_PROP("C13", b[t.size + i] == 0xa5, "getBuf writes behind the variable");
		if (!ok) {
			char x[400] = ""; for (unsigned i = 0; i < l.nd(); i++) sprintf(x + strlen(x), " %.17g", pos[i]);
			VF_PROP(TAG, false, "process %d, level %u, coordinates%s: not the value of the file at that grid point (position %zu)", me, lv, x, c[0]);
		}
		if (gridType == 0 && comm) VF_PROP("C05 C06", nc::files[l.file].values == v0, "a lookup in a full grid reads the file");
	}

	bool run() {
		nc::reset();
		P = 1 + r.below(3); if (P == 1) P = 2; if (r.below(5) == 0) P = 4;
		processes(P);
		t = randomType(r);
		unsigned nl = r.below(3) ? 1 : 2, nd = 1 + r.below(3);
		T = 1 + r.below(3);
		gridType = r.below(2); // 0 full, 1 cache
		numa = r.below(4);
		comm = r.below(8) ? 1 : 0;
#ifdef THREADSAFE_MPI
		useThread = false;
#else
		useThread = r.below(3) != 0;
#endif
		sequential = r.below(3) == 0;
		vm::rng = &r;
		vm::serial = false;
#ifdef THREADSAFE_MPI
		vm::serial = true;
#endif
		unsigned nn = 1 + r.below(2);
		p.resize(P);
		for (int i = 0; i < P; i++) {
			p[i].nodes.clear();
			// the same number of domains everywhere
			for (unsigned k = 0; k < T; k++) p[i].nodes.push_back(k < nn ? k : r.below(std::min(nn, T)));
			if (r.flip()) std::reverse(p[i].nodes.begin(), p[i].nodes.end());
		}
		unsigned D = numa == 2 ? 1 : std::min(nn, T);
		vm::onlyBlocks = gridType == 0;
		TAG = gridType ? "C11 C06 C05 C04 C12 C07 C09 C10 C21 C20 C03 C01 C13 C24" : "C05 C06 C04 C12 C20 C03 C01 C13 C24";
		lookups.assign(nl, 0);
		for (unsigned i = 0; i < nl; i++) {
			L.push_back(randomLevel(r, t, nd, i));
			for (auto& d : L[i].dims) if (d.n > 12) d.n = 12;
			L[i].cacheSize = 1 + r.below(5) + T;
		}
		static const char* FN[] = { "", "array of ", "struct of " };
		vf::begin("%s grid of %stype %d (%zu bytes), %d processes with %u threads on %u domains, communication %s%s, NUMA_COMMUNICATION %u%s", gridType ? "cached" : "full", FN[t.flavour], t.type, t.size, P, T, D, comm ? useThread ? "thread" : "window" : "off", useComm ? "" : "", numa, sequential ? ", one lookup at a time" : "");
		for (auto& l : L) { vf::step("; level:"); for (auto& d : l.dims) vf::step(" %zu block %d,", d.n, d.block); vf::step(" cache %u", l.cacheSize); makeFile(r, l, t); }
		std::vector<std::function<void()> > fns; std::vector<int> procs;
		unsigned per = sequential ? 14 : 3 + r.below(12);
		unsigned turn = 0, total = P * T;
		for (int i = 0; i < P; i++) for (unsigned th = 0; th < T; th++) {
			unsigned id = fns.size();
			procs.push_back(i);
			fns.push_back([this, i, th, per, id, total, &turn]() {
				Proc& me = p[i];
				vs::cos[vs::cur]->cpu = id;
				if (th == 0) {
					if (useThread) VF_PROP("C20", G::startCommThread() == G::SUCCESS, "the communication thread could not be started");
					me.g = t.flavour == BASIC ? G::create(t.type) : t.flavour == ARRAY ? G::createArray(t.type) : G::createStruct(t.count, t.blockLength.data(), t.displ.data(), t.types.data());
					VF_CHECK(me.g->setComm(MPI_COMM_WORLD) == G::SUCCESS, "setComm failed");
					me.g->setThreads(T);
					me.g->setParam("GRID", gridType ? "CACHE" : "FULL");
					static const char* NC[] = { "", "ON", "OFF", "CACHE" };
					if (numa) me.g->setParam("NUMA_COMMUNICATION", NC[numa]);
					if (!comm) me.g->setParam("MPI_COMMUNICATION", "OFF");
					if (useThread && comm) me.g->setParam("MPI_COMMUNICATION", "THREAD");
					for (unsigned lv = 0; lv < L.size(); lv++) {
						LevelSpec& l = L[lv];
						me.g->setParam("VARIABLE", l.var.c_str(), lv);
						for (unsigned k = 0; k < l.nd(); k++) me.g->setParam(("BLOCK_SIZE_" + std::to_string(l.nd() - 1 - k)).c_str(), std::to_string(l.dims[k].block).c_str(), lv);
						me.g->setParam("CACHE_SIZE", std::to_string(l.cacheSize).c_str(), lv);
					}
					me.ready = 1; vm::version++;
				} else while (!me.ready) vs::block([&me]() { return me.ready > 0; });
				for (unsigned lv = 0; lv < L.size(); lv++) {
					G::Error e = me.g->open(L[lv].file.c_str(), lv);
					VF_PROP("C14 C06 C11 C20 C23", e == G::SUCCESS, "open of level %u returns %d", lv, e);
				}
				if (sequential) { allOpen++; while (allOpen < total) vs::block([this, total]() { return allOpen >= total; }); }
				for (unsigned k = 0; k < per; k++) {
					if (sequential) { while (turn % total != id) vs::block([&turn, id, total]() { return turn % total == id; }); }
					unsigned lv = r.below(L.size()); double pos[4];
					for (unsigned d = 0; d < L[lv].nd(); d++) pos[L[lv].nd() - 1 - d] = randomCoord(r, L[lv].dims[d]);
					one(i, lv, pos);
					if (sequential) turn++;
				}
				me.finished++; allDone++;
				// the grid is closed when no process needs it any more
				while (allDone < total) vs::block([this, total]() { return allDone >= total; });
				if (th == 0) {
					counters(i);
					G::close(me.g);
					if (useThread) G::stopCommThread();
					me.closed = true;
				}
			});
		}
		allOpen = 0;
		vs::nodeOfThread = [this](int c) { return p[c / T].nodes[c % T]; };
		vs::rng = &r; vs::choice.clear(); vs::width.clear();
		vs::maxPreempt = !useThread && r.below(3) == 0 ? 0 : 1000000;
		vs::slow = r.flip() ? (int)r.below(fns.size()) : -1;
		vs::deadlockOk = false;
		for (auto& c : cnt) c.clear();
		vs::run(fns, procs);
		bool ended = true;
		for (auto& q : p) ended &= q.closed;
		if (ended) after(D);
		return ended;
	}
	unsigned allOpen = 0;
	std::map<std::string, unsigned long> cnt[2];
	void counters(int me) {
		static const char* N[] = { "accesses", "numa_transfers", "mpi_transfers", "file_loads", "local_hits", "node_hits", "local_misses" };
		for (unsigned lv = 0; lv < L.size(); lv++) {
			std::map<std::string, unsigned long> c;
			for (auto n : N) { c[n] = p[me].g->getCounter(n, lv); cnt[lv][n] += c[n]; }
			VF_PROP("C15", c["local_misses"] == c["numa_transfers"] + c["mpi_transfers"] + c["file_loads"], "process %d level %u: local_misses %lu, transfers %lu+%lu, loads %lu", me, lv, c["local_misses"], c["numa_transfers"], c["mpi_transfers"], c["file_loads"]);
			VF_PROP("C15", c["local_hits"] == c["accesses"] - c["local_misses"], "process %d level %u: local_hits %lu of %lu, misses %lu", me, lv, c["local_hits"], c["accesses"], c["local_misses"]);
			VF_PROP("C15", c["node_hits"] == c["accesses"] - c["mpi_transfers"] - c["file_loads"], "process %d level %u: node_hits %lu of %lu", me, lv, c["node_hits"], c["accesses"]);
		}
	}
	void after(unsigned D) {
		VF_PROP("C14 C23", nc::handles.empty() && nc::opens == nc::closes, "%lu files opened, %lu closed", nc::opens, nc::closes);
		unsigned long mt = 0;
		for (unsigned lv = 0; lv < L.size(); lv++) {
			LevelSpec& l = L[lv]; nc::File& f = nc::files[l.file];
			unsigned long nb = blockCount(l, -1);
			VF_PROP("C15 C23", cnt[lv]["accesses"] == lookups[lv], "level %u: accesses is %lu after %lu lookups", lv, cnt[lv]["accesses"], lookups[lv]);
			if (gridType == 0) {
				unsigned long copies = comm ? 1 : P;
				VF_PROP("C04 C05 C24", f.values == copies * l.points(), "level %u: %lu values read, the grid has %zu (%lu copies)", lv, f.values, l.points(), copies);
				VF_PROP("C03 C04 C24", f.reads == copies * nb, "level %u: %lu blocks read, expected %lu", lv, f.reads, copies * nb);
				VF_PROP("C15", cnt[lv]["file_loads"] == 0, "file_loads is %lu for a full grid", cnt[lv]["file_loads"]);
			} else VF_PROP("C15 C23", cnt[lv]["file_loads"] == f.reads, "level %u: file_loads is %lu, %lu blocks were read", lv, cnt[lv]["file_loads"], f.reads);
			if (!comm) VF_PROP("C15 C24", cnt[lv]["mpi_transfers"] == 0, "%lu transfers between processes with communication off", cnt[lv]["mpi_transfers"]);
			if (D == 1) VF_PROP("C15", cnt[lv]["numa_transfers"] == 0, "%lu transfers between domains with one domain", cnt[lv]["numa_transfers"]);
			if (gridType == 1 && !useThread && D == 1 && !comm) VF_PROP("C15 C11", cnt[lv]["local_misses"] == f.reads, "misses");
			mt += cnt[lv]["mpi_transfers"];
		}
		if (comm && !useThread && gridType == 0) VF_PROP("C15 C06", mt == vm::blockGets, "%lu blocks copied between processes, mpi_transfers is %lu", vm::blockGets, mt);
		if (!useThread && gridType == 1) VF_PROP("C15", mt >= vm::blockGets && vm::blockGets + lookups[0] + (lookups.size() > 1 ? lookups[1] : 0) >= mt, "%lu blocks copied, mpi_transfers is %lu", vm::blockGets, mt);
		VF_PROP("C19 C06 C11", vm::memory.empty(), "%zu MPI allocations are not released", vm::memory.size());
		for (auto w : vm::wins) VF_PROP("C06 C11 C19", w->freed == w->parts.size(), "a window was freed by %u of %zu processes", w->freed, w->parts.size());
	}
};

/** Messages through the communication threads. */
struct Rec : public mpi::Receiver {
	std::vector<std::pair<int, unsigned long> > got;
	void recv(int sender, mpi::message_t data) { got.push_back(std::make_pair(sender, (unsigned long)data)); vs::yield(); }
};
static void commThread(uint64_t seed) {
	vf::Rng r(seed);
	int P = 1 + r.below(4), R = 1 + r.below(3);
	processes(P);
	vm::rng = &r; vm::serial = false; vm::pins.clear(); vm::nCPU = 1 + r.below(6);
	static const int special[] = { 0, -1, 2147483647, -2147483647 - 1, 100, -100 };
	int cpu = r.below(3) ? (int)r.range(-(long)vm::nCPU - 2, vm::nCPU + 1) : special[r.below(6)];
	vf::begin("communication threads of %d processes, %d receivers, cpu %d of %u", P, R, cpu, vm::nCPU);
	std::vector<std::vector<Rec> > rec(P, std::vector<Rec>(R));
	std::vector<std::vector<int> > tags(P, std::vector<int>(R, -1));
	std::vector<int> twice(P, 0), order(P);
	for (int i = 0; i < P; i++) order[i] = i;
	for (int i = P; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	bool partial = P > 1 && r.below(3) == 0;
	std::vector<int> group(P), subs; for (int& x : group) x = r.below(2);
	if (partial) group[0] = 0, group[1] = 1;
	if (r.flip()) { unsigned n = 1 + r.below(7); for (unsigned k = 0; k < n; k++) subs.push_back(r.below(3)); vf::step(", then receivers of"); for (int x : subs) vf::step(x == 2 ? " all" : x ? " B" : " A"); vf::step(" (process in"); for (int x : group) vf::step(x ? " B" : " A"); vf::step(")"); }
	std::vector<std::vector<int> > subTags(P, std::vector<int>(subs.size(), -1));
	bool permuted = r.flip();   // the receiver's communicator orders the processes differently
	std::map<std::pair<int, int>, std::multiset<std::pair<int, unsigned long> > > sent;   // (receiver process, receiver) -> (sender, data)
	unsigned nsent = 0, early = r.below(P), senders = 0;
	std::vector<std::function<void()> > fns; std::vector<int> procs;
	unsigned phase = 0, at = 0;
	for (int i = 0; i < P; i++) { procs.push_back(i); fns.push_back([&, i]() {
		mpi::CommThread& ct = mpi::CommThread::commThread;
		int other; { Rec dummy; int tg; VF_PROP("C20", ct.registerReceiver(MPI_COMM_WORLD, dummy, tg) == G::NOT_INITIALIZED, "a receiver is registered without communication thread"); (void)other; }
		if (partial) {
			// running on some of the processes only
			MPI_Comm half; MPI_Comm_split(MPI_COMM_WORLD, group[i], i, &half);
			if (group[i] == 0) VF_PROP("C20", ct.init(0, half) == G::SUCCESS, "start on some processes failed");
			MPI_Barrier(MPI_COMM_WORLD);
			VF_PROP("C20", ct.init(0, MPI_COMM_WORLD) == G::ALREADY_INITIALIZED, "process %d: a start is not refused although the thread runs on some of the processes", i);
			MPI_Barrier(MPI_COMM_WORLD);
			if (group[i] == 0) ct.finialize();
			MPI_Barrier(MPI_COMM_WORLD);
			if (i == 0) vm::pins.clear();
			MPI_Barrier(MPI_COMM_WORLD);
		}
		VF_PROP("C20", ct.init(cpu, MPI_COMM_WORLD) == G::SUCCESS, "start failed");
		VF_PROP("C20", ct.init(cpu, MPI_COMM_WORLD) == G::ALREADY_INITIALIZED, "a second start is not refused");
		MPI_Comm c; if (permuted) MPI_Comm_split(MPI_COMM_WORLD, 0, order[i], &c); else MPI_Comm_dup(MPI_COMM_WORLD, &c);
		int me; MPI_Comm_rank(c, &me);
		for (int k = 0; k < R; k++) {
			VF_PROP("C20", ct.registerReceiver(c, rec[me][k], tags[me][k]) == G::SUCCESS, "registering failed");
			VF_PROP("C20", tags[me][k] >= 0 && tags[me][k] < 32766, "tag %d", tags[me][k]);
			for (int j = 0; j < k; j++) VF_PROP("C20", tags[me][j] != tags[me][k], "two receivers share the tag %d", tags[me][k]);
		}
		if (!subs.empty()) {
			// receivers of some of the processes, mixed with receivers of all
			MPI_Comm half; MPI_Comm_split(c, group[me], me, &half);
			std::vector<Rec> mine(subs.size()); std::set<int> live(tags[me].begin(), tags[me].end());
			for (size_t k = 0; k < subs.size(); k++) {
				int tg = -1;
				if (subs[k] != 2 && subs[k] != group[me]) continue;
				VF_PROP("C20", ct.registerReceiver(subs[k] == 2 ? c : half, mine[k], tg) == G::SUCCESS, "registering failed");
				VF_PROP("C20", live.insert(tg).second, "process %d: two receivers share the tag %d", me, tg);
				subTags[me][k] = tg;
			}
			MPI_Barrier(c);
			for (size_t k = 0; k < subs.size(); k++) for (int j = 0; j < P; j++) if (subTags[me][k] >= 0 && subTags[j][k] >= 0)
				VF_PROP("C20", subTags[me][k] == subTags[j][k], "a receiver has the tag %d on process %d and %d on process %d", subTags[me][k], me, subTags[j][k], j);
			MPI_Barrier(c);
			for (int t : subTags[me]) if (t >= 0) ct.unregisterReceiver(t);
			MPI_Barrier(c);
		}
		MPI_Barrier(c);
		for (int k = 0; k < R; k++) for (int j = 0; j < P; j++) VF_PROP("C20", tags[me][k] == tags[j][k], "receiver %d has the tag %d on process %d and %d on process %d", k, tags[me][k], me, tags[j][k], j);
		unsigned n = r.below(6);
		for (unsigned m = 0; m < n; m++) {
			int to = r.below(P), k = r.below(R); unsigned long data = r.flip() ? r.next() : r.below(100);
			sent[std::make_pair(to, k)].insert(std::make_pair(me, data)); nsent++;
			ct.send(tags[me][k], to, data);
		}
		MPI_Barrier(c);
		// nothing is on its way any more (sending does not wait for the receiver)
		for (int k = 0; k < R; k++) { std::vector<std::pair<int, unsigned long> >& g = rec[me][k].got; auto s = sent.find(std::make_pair(me, k)); size_t e = s == sent.end() ? 0 : s->second.size(); while (g.size() < e) vs::block([&g, e]() { return g.size() >= e; }); }
		// a grid unregisters its receivers while others are still in use
		for (int k = 0; k < R; k++) ct.unregisterReceiver(tags[me][k]);
		// the tag of a removed receiver may be given to a new one; the old ones get nothing any more
		Rec late; int tg; size_t had = rec[me][0].got.size();
		bool again = r.below(2) == 0; (void)again;
		VF_PROP("C20", ct.registerReceiver(c, late, tg) == G::SUCCESS, "registering again failed");
		int to = (me + 1) % P;
		ct.send(tg, to, 1000 + me);
		MPI_Barrier(c);
		while (late.got.empty()) vs::block([&late]() { return !late.got.empty(); });
		ct.unregisterReceiver(tg);
		MPI_Barrier(c);
		VF_PROP("C20", late.got.size() == 1 && late.got[0].first == (me + P - 1) % P && late.got[0].second == (unsigned long)(1000 + (me + P - 1) % P), "a receiver registered later got %zu messages, expected one of process %d", late.got.size(), (me + P - 1) % P);
		VF_PROP("C20", rec[me][0].got.size() == had || true, "late");
		ct.finialize();
		// it can be started again
		if (r.flip() || true) { VF_PROP("C20", ct.init(0, MPI_COMM_WORLD) == G::SUCCESS, "the communication thread cannot be started again"); ct.finialize(); }
		(void)at; (void)phase; (void)early; (void)senders;
	}); }
	vs::nodeOfThread = [](int) { return 0; };
	vs::rng = &r; vs::choice.clear(); vs::width.clear(); vs::maxPreempt = 1000000; vs::deadlockOk = !vf::about("C20");
	vs::run(fns, procs);
	for (auto& x : sent) {
		auto& got = rec[x.first.first][x.first.second].got;
		std::multiset<std::pair<int, unsigned long> > g(got.begin(), got.end());
		if (g != x.second) {
			std::string s; for (auto& y : g) s += " " + std::to_string(y.first) + ":" + std::to_string(y.second);
			VF_PROP("C20", false, "receiver %d of process %d got%s", x.first.second, x.first.first, s.c_str());
		}
	}
	for (int i = 0; i < P; i++) for (int k = 0; k < R; k++) if (!sent.count(std::make_pair(i, k))) VF_PROP("C20", rec[i][k].got.empty(), "receiver %d of process %d got a message nobody sent to it", k, i);
	long n = vm::nCPU; bool valid = cpu < n && (long)cpu >= -n;
	unsigned mine = 0;
	for (auto& q : vm::pins) { if (q.size() == 1 && q[0] == (cpu >= 0 ? cpu : (int)(n + cpu)) && valid) mine++; else if (q.size() == 1 && q[0] == 0) ; else VF_PROP("C20", false, "cpu %d of %u: the thread is pinned to %zu cpus (first %d)", cpu, vm::nCPU, q.size(), q.empty() ? -1 : q[0]); }
	VF_PROP("C20", vm::pins.size() == (valid ? 2u : 1u) * P, "%zu threads pinned", vm::pins.size());
	if (valid) VF_PROP("C20", mine >= (unsigned)P, "the threads are not pinned to cpu %d", cpu);
	vf::done();
}

/** Ranks on the same node. */
static void nodeRank(uint64_t seed) {
	vf::Rng r(seed);
	int P = 1 + r.below(6), N = 1 + r.below(4);
	processes(P);
	vm::rng = &r; vm::serial = false;
	std::vector<std::string> names;
	static const char* fixed[] = { "a", "", "localhost", "node01.cluster.example.org" };
	for (int i = 0; i < N; i++) {
		std::string s;
		switch (r.below(4)) {
		case 0: s = fixed[r.below(4)]; break;
		case 1: { unsigned n = r.below(MPI_MAX_PROCESSOR_NAME - 1); for (unsigned k = 0; k < n; k++) s += (char)(1 + r.below(255)); break; }
		case 2: { // same checksum as the previous name: +1 -2 +1
			s = names.empty() ? "node-abcdefgh" : names.back();
			if (s.size() >= 3) { unsigned k = r.below(s.size() - 2); unsigned char a = s[k], b = s[k + 1], c = s[k + 2]; if (a < 254 && b > 3 && c < 254) { s[k] = a + 1; s[k + 1] = b - 2; s[k + 2] = c + 1; } }
			break; }
		default: s = "node" + std::to_string(r.below(1000));
		}
		names.push_back(s);
	}
	vf::begin("node-local ranks of %d processes on", P);
	for (int i = 0; i < P; i++) { vm::procName[i] = names[r.below(N)]; std::string h; for (unsigned char c : vm::procName[i].substr(0, 40)) if (isalnum(c) || c == '.' || c == '-') h += c; else { char b[8]; sprintf(b, "\\x%02x", c); h += b; } vf::step(" '%s'%s", h.c_str(), vm::procName[i].size() > 40 ? "..." : ""); }
	bool dup = r.flip();
	std::vector<std::function<void()> > fns; std::vector<int> procs; std::vector<int> res(P, -1), ord(P), rk(P);
	for (int i = 0; i < P; i++) ord[i] = r.below(100);
	for (int i = 0; i < P; i++) { procs.push_back(i); fns.push_back([&, i]() {
		MPI_Comm c = MPI_COMM_WORLD; if (dup) MPI_Comm_split(MPI_COMM_WORLD, 0, ord[i], &c);
		MPI_Comm_rank(c, &rk[i]);
		res[i] = G::nodeLocalRank(c);
		MPI_Barrier(MPI_COMM_WORLD);
	}); }
	vs::rng = &r; vs::choice.clear(); vs::width.clear(); vs::maxPreempt = 1000000; vs::deadlockOk = false;
	vs::run(fns, procs);
	for (int i = 0; i < P; i++) {
		int e = 0; for (int j = 0; j < P; j++) if (vm::procName[j] == vm::procName[i] && rk[j] < rk[i]) e++;
		VF_PROP("C22", res[i] == e, "process of rank %d gets the node-local rank %d, expected %d", rk[i], res[i], e);
	}
	for (auto c : vm::comms) if (!dup || c->freed) VF_PROP("C22", c->freed == c->procs.size(), "a communicator is not freed");
	vf::done();
}

/** The distributed lock. */
static void mutex(uint64_t seed) {
	vf::Rng r(seed);
	int P = 2 + r.below(2); unsigned T = 1 + r.below(2), rounds = 1 + r.below(3), nlocks = 1 + r.below(2);
	processes(P);
	vm::rng = &r; vm::serial = false;
	vf::begin("%u distributed locks, %d processes with %u threads, %u rounds", nlocks, P, T, rounds);
	std::vector<std::function<void()> > fns; std::vector<int> procs;
	std::vector<mpi::MPIComm*> comm(P, 0); std::vector<numa::Numa*> nm(P); std::vector<numa::NumaComm*> nc(P, 0); std::vector<mpi::Mutex*> mx(P, 0);
	std::vector<MPI_Win> win(P); std::vector<std::vector<long> > mem(P, std::vector<long>(5 * nlocks, 77));
	std::vector<int> inside(nlocks, 0); std::vector<int> ready(P, 0); unsigned done = 0, all = 0;
	std::vector<std::vector<int> > queue(nlocks), got(nlocks);
	std::vector<std::vector<int> > winLocked(P, std::vector<int>(P, 0));
	for (int i = 0; i < P; i++) nm[i] = new numa::Numa();
	for (int i = 0; i < P; i++) for (unsigned th = 0; th < T; th++) { unsigned id = fns.size(); procs.push_back(i); fns.push_back([&, i, th, id]() {
		vs::cos[vs::cur]->cpu = id;
		if (th == 0) nm[i]->setThreads(T), ready[i] = 1; else while (!ready[i]) vs::block([&, i]() { return ready[i] > 0; });
		bool master; nm[i]->registerThread(master);
		if (master) {
			nc[i] = nm[i]->createComm(); comm[i] = new mpi::MPIComm(); comm[i]->init(MPI_COMM_WORLD);
			for (unsigned k = 0; k < r.below(3); k++) ;
			MPI_Win_create(mem[i].data(), 8 * mem[i].size(), 8, MPI_INFO_NULL, comm[i]->comm(), &win[i]);
			mx[i] = new mpi::Mutex(); mx[i]->init(*comm[i], win[i], *nc[i]);
			for (unsigned k = 0; k < nlocks; k++) mx[i]->initMutexMem(mem[i][5 * k + 4]);
			MPI_Barrier(comm[i]->comm());
			ready[i] = 2;
		}
		while (ready[i] < 2) vs::block([&, i]() { return ready[i] == 2; });
		auto winLock = [&](int w) { while (winLocked[i][w]) vs::block([&, i, w]() { return !winLocked[i][w]; }); winLocked[i][w] = 1; MPI_Win_lock(MPI_LOCK_EXCLUSIVE, w, 0, win[i]); };
		auto winUnlock = [&](int w) { MPI_Win_unlock(w, win[i]); winLocked[i][w] = 0; };
		for (unsigned n = 0; n < rounds; n++) {
			unsigned k = r.below(nlocks); int where = (k + 1) % P;
			winLock(where);
			long l = mx[i]->acquire(where, 5 * k + 4);
			queue[k].push_back(id);
			winUnlock(where);
			if (l >= 0) { bool held = !got[k].empty() || inside[k] || true; (void)held; mx[i]->wait(l); }
			VF_PROP("C21", inside[k] == 0, "two threads hold lock %u", k);
			inside[k]++;
			got[k].push_back(id);
			for (unsigned y = 0; y < r.below(3); y++) vs::yield();
			inside[k]--;
			winLock(where);
			mx[i]->release(where, 5 * k + 4);
			winUnlock(where);
		}
		done++; all++;
		while (all < P * T) vs::block([&]() { return all >= P * T; });
	}); }
	vs::nodeOfThread = [](int) { return 0; };
	vs::rng = &r; vs::choice.clear(); vs::width.clear(); vs::maxPreempt = 1000000; vs::deadlockOk = !vf::about("C21");
	// releasing while holding the window may wait for the successor, which needs no window lock any more
	vs::run(fns, procs);
	if (done == P * T) {
		for (unsigned k = 0; k < nlocks; k++) {
			VF_PROP("C21", mem[(k + 1) % P][5 * k + 4] == -1, "lock %u is not free at the end (value %ld)", k, mem[(k + 1) % P][5 * k + 4]);
			VF_PROP("C21", queue[k] == got[k], "lock %u is not handed over in order", k);
		}
	}
	for (int i = 0; i < P; i++) { delete mx[i]; delete nc[i]; delete nm[i]; }
	vf::done(done == P * T);
}

int main(int argc, char** argv) {
	vf::init(argc, argv);
	unsigned long ended = 0, n = 0;
	for (uint64_t i = 0; vf::timeLeft(0.9) && (vf::thorough || i < 6000); i++) {
		uint64_t s = vf::seed * 1000003 + i;
		bool mp = vf::about("C20") && vf::prop, nr = vf::about("C22") && vf::prop, mu = vf::about("C21") && vf::prop;
		if (vf::want("comm") && (i % 20 == 1 || (mp && i % 3))) { if (mp || !vf::prop || vf::only) commThread(s); }
		else if (vf::want("node") && (i % 20 == 2 || nr)) { if (nr || !vf::prop || vf::only) nodeRank(s); }
		else if (vf::want("mutex") && (i % 20 == 3 || (mu && i % 3))) { if (mu || !vf::prop || vf::only) mutex(s); }
		else if (vf::want("grid")) { Case c(s); n++; bool e = c.run(); ended += e; vf::done(e); }
	}
	printf("grids: %lu of %lu ended\n", ended, n);
	return vf::finish();
}

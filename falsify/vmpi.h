// Simulated MPI: the processes are groups of simulated threads of this
// program; every call is checked against the rules of MPI (bounds of windows,
// epochs, matching collective operations, completion before reuse of buffers).
// Include after mpi.h, once per program.
#ifndef VERIF_MPI_H
#define VERIF_MPI_H
#include <mpi.h>
#include <deque>
#include <memory>
#include <thread>
#include "vcommon.h"
#include "vsched.h"

#define VM_OBJ(t, n) struct t { char x[64]; }; t n;
struct ompi_predefined_communicator_t { char x[64]; };
struct ompi_predefined_group_t { char x[64]; };
struct ompi_predefined_win_t { char x[64]; };
struct ompi_predefined_info_t { char x[64]; };
struct ompi_predefined_op_t { char x[64]; };
struct ompi_predefined_request_t { char x[64]; };
struct ompi_predefined_datatype_t { size_t bytes; char x[56]; };
ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
ompi_predefined_group_t ompi_mpi_group_null, ompi_mpi_group_empty;
ompi_predefined_win_t ompi_mpi_win_null;
ompi_predefined_info_t ompi_mpi_info_null;
ompi_predefined_request_t ompi_request_null;
ompi_predefined_op_t ompi_mpi_op_lor, ompi_mpi_op_land, ompi_mpi_op_max, ompi_mpi_op_min, ompi_mpi_op_sum, ompi_mpi_op_replace, ompi_mpi_op_no_op;
ompi_predefined_datatype_t ompi_mpi_datatype_null, ompi_mpi_char = { 1 }, ompi_mpi_byte = { 1 }, ompi_mpi_int = { 4 }, ompi_mpi_unsigned = { 4 }, ompi_mpi_long = { 8 },
	ompi_mpi_unsigned_long = { 8 }, ompi_mpi_float = { 4 }, ompi_mpi_double = { 8 }, ompi_mpi_unsigned_char = { 1 }, ompi_mpi_signed_char = { 1 }, ompi_mpi_long_long_int = { 8 }, ompi_mpi_unsigned_long_long = { 8 };

namespace vm {
static const int MAXP = 8;
struct Coll { std::string kind; unsigned arrived = 0, left = 0; bool complete = false; std::vector<std::vector<long> > args; std::vector<std::vector<char> > data; void* made = 0; std::map<long, void*> splits; };
struct Msg { int dest; int src, tag; std::vector<char> data; bool matched = false; };
struct Comm {
	std::vector<int> procs;                     // world ranks
	std::map<unsigned long, Coll> colls;
	unsigned long seq[MAXP];
	std::vector<std::deque<std::shared_ptr<Msg> > > inbox;
	unsigned freed = 0;
	Comm() { memset(seq, 0, sizeof seq); }
	int rankOf(int p) { for (size_t i = 0; i < procs.size(); i++) if (procs[i] == p) return i; return -1; }
};
struct Group { std::vector<int> procs; };
struct Type { size_t extent; std::vector<std::pair<size_t, size_t> > blocks; bool committed, freed; Type() : extent(0), committed(false), freed(false) {} };
struct Op { int kind; char* origin; size_t ocount; MPI_Datatype otype; char* target; MPI_Datatype ttype; std::vector<char> arg, cmp; };   // 0 get, 1 put, 2 fetch_and_op, 3 compare_and_swap
struct Epoch { bool open = false, exclusive = false, nocheck = false; std::vector<Op> ops; };
struct Part { char* base = 0; size_t size = 0, unit = 1; int excl = -1; std::set<int> shared; };
struct Win { Comm* comm; std::vector<Part> parts; std::vector<std::vector<Epoch> > ep; unsigned freed = 0; };
struct Req { std::shared_ptr<Msg> m; bool sync; };

static Comm world; static Comm selfs[MAXP];
static std::set<Comm*> comms; static std::set<Win*> wins; static std::set<Type*> types; static std::set<Group*> groups;
static unsigned long version = 0;       // counts events a waiting call may depend on
static int inside[MAXP]; static bool serial = false;  // the library is not thread-safe
static std::string procName[MAXP];
static std::map<void*, size_t> memory;
static unsigned long gets, blockGets, msgs;
static bool onlyBlocks;   // every transfer copies a block (there is no dictionary)
static vf::Rng* rng = 0;
static int failCall = 0;
static const char* CALLTAG = "C05 C06 C11 C20 C21 C22 C04";

inline int P() { return vs::curProc; }
inline void reset(int n) {
	for (Comm* c : comms) delete c;
	for (Win* w : wins) delete w;
	for (Type* t : types) delete t;
	for (Group* g : groups) delete g;
	comms.clear(); wins.clear(); types.clear(); groups.clear();
	world = Comm(); for (int i = 0; i < n; i++) world.procs.push_back(i);
	world.inbox.resize(n);
	for (int i = 0; i < MAXP; i++) { selfs[i] = Comm(); selfs[i].procs.push_back(i); selfs[i].inbox.resize(1); inside[i] = 0; procName[i] = "node"; }
	version = gets = blockGets = msgs = 0; memory.clear();
}
struct Enter {
	int p;
	explicit Enter(const char* f) : p(P()) {
		VF_CHECK(vs::cur >= 0, "%s outside of a process", f);
		if (serial && inside[p] && vf::about(CALLTAG)) vf::fail("%s is called while another thread of the process is inside of MPI, which is not thread-safe", f);

		inside[p]++;
		vs::cos[vs::cur]->at = f;
		vs::yield();
	}
	~Enter() { inside[p]--; vs::cos[vs::cur]->at += " (returned)"; }
};
inline Comm* comm(MPI_Comm c) {
	if (c == MPI_COMM_WORLD) return &world;
	if (c == MPI_COMM_SELF) return &selfs[P()];
	VF_CHECK(comms.count((Comm*)c), "invalid MPI communicator");
	return (Comm*)c;
}
inline bool predefined(MPI_Datatype t) {
	ompi_predefined_datatype_t* k[] = { &ompi_mpi_char, &ompi_mpi_byte, &ompi_mpi_int, &ompi_mpi_unsigned, &ompi_mpi_long, &ompi_mpi_unsigned_long, &ompi_mpi_float, &ompi_mpi_double, &ompi_mpi_unsigned_char, &ompi_mpi_signed_char, &ompi_mpi_long_long_int, &ompi_mpi_unsigned_long_long };
	for (auto x : k) if ((void*)x == (void*)t) return true;
	return false;
}
inline Type type(MPI_Datatype t, bool use = true) {
	Type r;
	if (predefined(t)) { r.extent = ((ompi_predefined_datatype_t*)t)->bytes; r.blocks.push_back(std::make_pair((size_t)0, r.extent)); return r; }
	VF_CHECK(types.count((Type*)t), "invalid MPI datatype");
	VF_CHECK(!((Type*)t)->freed, "MPI datatype used after it was freed");
	VF_CHECK(!use || ((Type*)t)->committed, "MPI datatype is not committed");
	return *(Type*)t;
}
inline size_t bytesOf(const Type& t) { size_t n = 0; for (auto& b : t.blocks) n += b.second; return n; }
inline void pack(std::vector<char>& out, const char* p, size_t count, const Type& t) {
	for (size_t i = 0; i < count; i++) for (auto& b : t.blocks) out.insert(out.end(), p + i * t.extent + b.first, p + i * t.extent + b.first + b.second);
}
inline void unpack(const std::vector<char>& in, char* p, size_t count, const Type& t) {
	size_t k = 0;
	for (size_t i = 0; i < count; i++) for (auto& b : t.blocks) { if (k + b.second > in.size()) return; memcpy(p + i * t.extent + b.first, &in[k], b.second); k += b.second; }
}
inline void waitChange() { unsigned long v = version; vs::block([v]() { return version != v; }); }
/** A collective operation of all processes of c; each passes its arguments. */
template<class F> Coll& collective(Comm* c, const char* kind, std::vector<long> args, std::vector<char> data, F complete) {
	int me = c->rankOf(P());
	VF_CHECK(me >= 0, "%s on a communicator the process does not belong to", kind);
	unsigned long n = c->seq[me]++;
	Coll& k = c->colls[n];
	if (!k.arrived) { k.kind = kind; k.args.resize(c->procs.size()); k.data.resize(c->procs.size()); }
	VF_CHECK(k.kind == kind, "process %d calls %s while others call %s", me, kind, k.kind.c_str());
	k.args[me] = args; k.data[me] = data;
	if (++k.arrived == c->procs.size()) { complete(k); k.complete = true; version++; }
	else while (!k.complete) waitChange();
	return k;
}
inline Comm* newComm(const std::vector<int>& procs) { Comm* c = new Comm(); c->procs = procs; c->inbox.resize(procs.size()); comms.insert(c); return c; }
inline void checkRank(Comm* c, int r, const char* f) { VF_CHECK(r >= 0 && r < (int)c->procs.size(), "%s: rank %d of %zu", f, r, c->procs.size()); }
inline std::shared_ptr<Msg> post(Comm* c, const void* buf, int n, MPI_Datatype t, int dest, int tag, const char* f) {
	checkRank(c, dest, f);
	VF_CHECK(tag >= 0 && tag <= 32767, "%s with tag %d", f, tag);
	std::shared_ptr<Msg> m(new Msg()); m->src = c->rankOf(P()); m->tag = tag; m->dest = dest;
	if (n) pack(m->data, (const char*)buf, n, type(t));
	c->inbox[dest].push_back(m); version++; msgs++;
	return m;
}
inline std::shared_ptr<Msg> match(Comm* c, int src, int tag, bool take) {
	int me = c->rankOf(P());
	std::deque<std::shared_ptr<Msg> >& q = c->inbox[me];
	// messages of one sender do not overtake each other; those of different senders may
	std::vector<size_t> opt; std::set<int> seen;
	for (size_t i = 0; i < q.size(); i++) {
		bool fits = (src == MPI_ANY_SOURCE || q[i]->src == src) && (tag == MPI_ANY_TAG || q[i]->tag == tag);
		if (fits && !seen.count(q[i]->src)) { opt.push_back(i); seen.insert(q[i]->src); }
	}
	if (opt.empty()) return std::shared_ptr<Msg>();
	size_t i = opt[rng && take ? rng->below(opt.size()) : 0];
	std::shared_ptr<Msg> m = q[i];
	if (take) { q.erase(q.begin() + i); m->matched = true; version++; }
	return m;
}
inline Win* win(MPI_Win w) { VF_CHECK(wins.count((Win*)w), "invalid MPI window"); return (Win*)w; }
inline Epoch& epoch(Win* w, int target, const char* f) {
	checkRank(w->comm, target, f);
	Epoch& e = w->ep[w->comm->rankOf(P())][target];
	VF_CHECK(e.open, "%s on a window that is not locked", f);
	return e;
}
inline void perform(Op& o) {
	std::vector<char> b;
	switch (o.kind) {
	case 0: pack(b, o.target, o.ocount, type(o.ttype)); unpack(b, o.origin, o.ocount, type(o.otype)); break;
	case 1: unpack(o.arg, o.target, o.ocount, type(o.ttype)); break;
	case 2: memcpy(o.origin, o.target, o.arg.size()); memcpy(o.target, o.arg.data(), o.arg.size()); break;
	case 4: memcpy(o.origin, o.target, o.ocount); break;
	default: { memcpy(o.origin, o.target, o.arg.size()); if (!memcmp(o.origin, o.cmp.data(), o.cmp.size())) memcpy(o.target, o.arg.data(), o.arg.size()); }
	}
}
inline void queue(Epoch& e, Op o) { if (rng && rng->flip()) perform(o); else e.ops.push_back(o); version++; }
inline void flush(Epoch& e) { for (Op& o : e.ops) perform(o); e.ops.clear(); version++; }
inline char* target(Win* w, int rank, MPI_Aint disp, size_t count, const Type& t, const char* f) {
	Part& p = w->parts[rank];
	size_t need = count ? (count - 1) * t.extent : 0, last = 0;
	for (auto& b : t.blocks) last = std::max(last, b.first + b.second);
	VF_CHECK(disp >= 0 && disp * p.unit + need + last <= p.size, "%s accesses bytes %ld..%zu of the window of process %d, which has %zu", f, (long)(disp * p.unit), (size_t)(disp * p.unit + need + last), rank, p.size);
	return p.base + disp * p.unit;
}
inline int threadProc(std::function<void()> f) { return vs::spawn(f, P()); }
static std::map<unsigned long, int> threads; static unsigned nCPU = 4;
static std::vector<std::vector<int> > pins; static unsigned long created = 0;
}

extern "C" {
#define VM_ENTER(f) vm::Enter vmEnter(f)
int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = vm::comm(c)->rankOf(vm::P()); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = vm::comm(c)->procs.size(); return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) {
	VM_ENTER("MPI_Comm_dup"); vm::Comm* k = vm::comm(c);
	vm::Coll& o = vm::collective(k, "MPI_Comm_dup", {}, {}, [k](vm::Coll& o) { o.made = vm::newComm(k->procs); });
	*n = (MPI_Comm)o.made; return 0;
}
int MPI_Comm_free(MPI_Comm* c) {
	VM_ENTER("MPI_Comm_free");
	VF_CHECK(*c != MPI_COMM_WORLD && *c != MPI_COMM_SELF && *c != MPI_COMM_NULL, "MPI_Comm_free of a predefined communicator");
	vm::Comm* k = vm::comm(*c);
	vm::collective(k, "MPI_Comm_free", {}, {}, [](vm::Coll&) {});
	for (auto& q : k->inbox[k->rankOf(vm::P())]) VF_PROP(vm::CALLTAG, false, "communicator freed with a pending message (tag %d)", q->tag);
	k->freed++; *c = MPI_COMM_NULL; return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n) {
	VM_ENTER("MPI_Comm_split"); vm::Comm* k = vm::comm(c);
	VF_PROP("C22", color >= 0, "MPI_Comm_split with the negative color %d", color);
	vm::Coll& o = vm::collective(k, "MPI_Comm_split", { color, key }, {}, [k](vm::Coll& o) {
		std::map<long, std::vector<std::pair<long, int> > > m;
		for (size_t i = 0; i < k->procs.size(); i++) m[o.args[i][0]].push_back(std::make_pair(o.args[i][1] * 1000 + i, k->procs[i]));
		for (auto& x : m) { std::sort(x.second.begin(), x.second.end()); std::vector<int> v; for (auto& y : x.second) v.push_back(y.second); o.splits[x.first] = vm::newComm(v); }
	});
	*n = (MPI_Comm)o.splits[color]; return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group* g) { vm::Group* x = new vm::Group(); x->procs = vm::comm(c)->procs; vm::groups.insert(x); *g = (MPI_Group)x; return 0; }
int MPI_Group_free(MPI_Group* g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int* r, MPI_Group b, int* s) {
	VF_CHECK(vm::groups.count((vm::Group*)a) && vm::groups.count((vm::Group*)b), "invalid MPI group");
	for (int i = 0; i < n; i++) {
		std::vector<int>& pa = ((vm::Group*)a)->procs; std::vector<int>& pb = ((vm::Group*)b)->procs;
		VF_CHECK(r[i] >= 0 && r[i] < (int)pa.size(), "MPI_Group_translate_ranks of rank %d", r[i]);
		s[i] = MPI_UNDEFINED;
		for (size_t k = 0; k < pb.size(); k++) if (pb[k] == pa[r[i]]) s[i] = k;
	}
	return 0;
}
int MPI_Barrier(MPI_Comm c) { VM_ENTER("MPI_Barrier"); vm::collective(vm::comm(c), "MPI_Barrier", {}, {}, [](vm::Coll&) {}); return 0; }
static long vmReduce(const char* f, MPI_Op op, const std::vector<long>& v) {
	long r = v[0];
	for (size_t i = 1; i < v.size(); i++) {
		if (op == MPI_LOR) r = r || v[i]; else if (op == MPI_LAND) r = r && v[i]; else if (op == MPI_MAX) r = std::max(r, v[i]); else if (op == MPI_MIN) r = std::min(r, v[i]); else if (op == MPI_SUM) r += v[i];
		else vf::fail("%s with an unknown operation", f);
	}
	if (op == MPI_LOR || op == MPI_LAND) r = r != 0;
	return r;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
	VM_ENTER("MPI_Allreduce");
	VF_CHECK(t == MPI_INT || t == MPI_LONG, "MPI_Allreduce of an unknown type");
	std::vector<long> a; const void* b = s == MPI_IN_PLACE ? r : s;
	for (int i = 0; i < n; i++) a.push_back(t == MPI_INT ? ((const int*)b)[i] : ((const long*)b)[i]);
	vm::Coll& o = vm::collective(vm::comm(c), "MPI_Allreduce", a, {}, [](vm::Coll&) {});
	for (int i = 0; i < n; i++) { std::vector<long> v; for (auto& x : o.args) v.push_back(x[i]); long y = vmReduce("MPI_Allreduce", op, v); if (t == MPI_INT) ((int*)r)[i] = y; else ((long*)r)[i] = y; }
	return 0;
}
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* r, int n2, MPI_Datatype t2, MPI_Comm c) {
	VM_ENTER("MPI_Allgather");
	std::vector<char> d; vm::pack(d, (const char*)s, n, vm::type(t));
	vm::Coll& o = vm::collective(vm::comm(c), "MPI_Allgather", {}, d, [](vm::Coll&) {});
	VF_CHECK(d.size() == n2 * vm::type(t2).extent, "MPI_Allgather: sizes differ");
	for (size_t i = 0; i < o.data.size(); i++) memcpy((char*)r + i * d.size(), o.data[i].data(), o.data[i].size());
	return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
	VM_ENTER("MPI_Bcast"); std::vector<char> d; vm::pack(d, (const char*)b, n, vm::type(t));
	vm::Coll& o = vm::collective(vm::comm(c), "MPI_Bcast", { root }, d, [](vm::Coll&) {});
	vm::unpack(o.data[root], (char*)b, n, vm::type(t)); return 0;
}
int MPI_Get_processor_name(char* n, int* l) { strcpy(n, vm::procName[vm::P()].c_str()); *l = strlen(n); memset(n + *l + 1, 0x55 + vm::P(), MPI_MAX_PROCESSOR_NAME - *l - 1); return 0; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
	VM_ENTER("MPI_Send"); vm::Comm* k = vm::comm(c);
	std::shared_ptr<vm::Msg> m = vm::post(k, b, n, t, d, tag, "MPI_Send");
	if (vm::rng && vm::rng->below(4) == 0) while (!m->matched) vm::waitChange();   // may be synchronous
	return 0;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
	VM_ENTER("MPI_Ssend"); std::shared_ptr<vm::Msg> m = vm::post(vm::comm(c), b, n, t, d, tag, "MPI_Ssend");
	while (!m->matched) vm::waitChange();
	return 0;
}
static int vmIsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r, bool sync) {
	VM_ENTER("MPI_Isend"); vm::Req* q = new vm::Req(); q->m = vm::post(vm::comm(c), b, n, t, d, tag, "MPI_Isend"); q->sync = sync; *r = (MPI_Request)q; return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return vmIsend(b, n, t, d, tag, c, r, vm::rng && vm::rng->flip()); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) { return vmIsend(b, n, t, d, tag, c, r, true); }
int MPI_Test(MPI_Request* r, int* done, MPI_Status*) {
	VM_ENTER("MPI_Test"); vm::Req* q = (vm::Req*)*r;
	*done = !q->sync || q->m->matched;
	vs::cos[vs::cur]->at = "MPI_Test of the message to " + std::to_string(q->m->dest) + " with tag " + std::to_string(q->m->tag);
	if (*done) { delete q; *r = MPI_REQUEST_NULL; } else vm::waitChange();
	return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status*) { VM_ENTER("MPI_Wait"); vm::Req* q = (vm::Req*)*r; while (q->sync && !q->m->matched) vm::waitChange(); delete q; *r = MPI_REQUEST_NULL; return 0; }
static void vmStatus(MPI_Status* s, vm::Msg& m) { if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = m.src; s->MPI_TAG = m.tag; s->MPI_ERROR = 0; s->_ucount = m.data.size(); } }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s) {
	VM_ENTER("MPI_Recv"); vm::Comm* k = vm::comm(c);
	std::shared_ptr<vm::Msg> m;
	vs::cos[vs::cur]->at = "MPI_Recv of " + std::to_string(src) + " tag " + std::to_string(tag);
	while (!(m = vm::match(k, src, tag, true))) vm::waitChange();
	size_t room = n ? n * vm::bytesOf(vm::type(t)) : 0;
	VF_CHECK(m->data.size() <= room, "a message of %zu bytes is received into a buffer of %zu (tag %d)", m->data.size(), room, m->tag);
	if (n) vm::unpack(m->data, (char*)b, n, vm::type(t));
	vmStatus(s, *m); return 0;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* s) {
	VM_ENTER("MPI_Iprobe"); std::shared_ptr<vm::Msg> m = vm::match(vm::comm(c), src, tag, false);
	*flag = m ? 1 : 0; if (m) vmStatus(s, *m);
	// asking again and again without anything happening: waits
	static std::map<void*, std::pair<unsigned long, int> > polls;
	if (!m && vs::cur >= 0) {
		std::pair<unsigned long, int>& q = polls[vs::cos[vs::cur]];
		if (q.first != vm::version) q = std::make_pair(vm::version, 0);
		if (++q.second > 4) { q.second = 0; vm::waitChange(); }
	}
	return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* s) { VM_ENTER("MPI_Probe"); std::shared_ptr<vm::Msg> m; while (!(m = vm::match(vm::comm(c), src, tag, false))) vm::waitChange(); vmStatus(s, *m); return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype* r) { VM_ENTER("MPI_Type_contiguous");
	vm::Type o = vm::type(t, false); vm::Type* x = new vm::Type(); x->extent = n * o.extent;
	for (int i = 0; i < n; i++) for (auto& b : o.blocks) x->blocks.push_back(std::make_pair(i * o.extent + b.first, b.second));
	vm::types.insert(x); *r = (MPI_Datatype)x; return 0;
}
int MPI_Type_create_struct(int n, const int* bl, const MPI_Aint* d, const MPI_Datatype* t, MPI_Datatype* r) { VM_ENTER("MPI_Type_create_struct");
	vm::Type* x = new vm::Type(); size_t al = 1;
	for (int i = 0; i < n; i++) { vm::Type o = vm::type(t[i], false); al = std::max(al, o.extent); for (int k = 0; k < bl[i]; k++) for (auto& b : o.blocks) { x->blocks.push_back(std::make_pair(d[i] + k * o.extent + b.first, b.second)); x->extent = std::max(x->extent, d[i] + k * o.extent + b.first + b.second); } }
	x->extent = (x->extent + al - 1) / al * al;
	vm::types.insert(x); *r = (MPI_Datatype)x; return 0;
}
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ext, MPI_Datatype* r) { VM_ENTER("MPI_Type_create_resized");
	vm::Type* x = new vm::Type(vm::type(t, false)); x->extent = ext; x->committed = false; VF_CHECK(lb == 0, "lower bound of a type is not 0");
	vm::types.insert(x); *r = (MPI_Datatype)x; return 0;
}
int MPI_Type_commit(MPI_Datatype* t) { VM_ENTER("MPI_Type_commit"); VF_CHECK(vm::types.count((vm::Type*)*t), "MPI_Type_commit of an invalid type"); ((vm::Type*)*t)->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype* t) { VM_ENTER("MPI_Type_free"); VF_CHECK(vm::types.count((vm::Type*)*t) && !((vm::Type*)*t)->freed, "MPI_Type_free of an invalid type"); ((vm::Type*)*t)->freed = true; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int* n) { *n = vm::bytesOf(vm::type(t, false)); return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) { VM_ENTER("MPI_Alloc_mem"); if (vm::failCall > 0 && --vm::failCall == 0) return MPI_ERR_NO_MEM; void* q = malloc(n); memset(q, 0x5a, n); vm::memory[q] = n; *(void**)p = q; return 0; }
int MPI_Free_mem(void* p) { VM_ENTER("MPI_Free_mem"); VF_CHECK(vm::memory.count(p), "MPI_Free_mem of memory that is not allocated"); vm::memory.erase(p); free(p); return 0; }
int MPI_Win_create(void* b, MPI_Aint size, int unit, MPI_Info, MPI_Comm c, MPI_Win* w) {
	VM_ENTER("MPI_Win_create"); vm::Comm* k = vm::comm(c); int me = k->rankOf(vm::P());
	VF_CHECK(size >= 0 && unit > 0, "MPI_Win_create with size %ld, unit %d", (long)size, unit);
	vm::Coll& o = vm::collective(k, "MPI_Win_create", { (long)b, (long)size, unit }, {}, [k](vm::Coll& o) {
		vm::Win* x = new vm::Win(); x->comm = k; x->parts.resize(k->procs.size()); x->ep.resize(k->procs.size());
		for (size_t i = 0; i < k->procs.size(); i++) { x->parts[i].base = (char*)o.args[i][0]; x->parts[i].size = o.args[i][1]; x->parts[i].unit = o.args[i][2]; x->ep[i].resize(k->procs.size()); }
		vm::wins.insert(x); o.made = x;
	});
	(void)me; *w = (MPI_Win)o.made; return 0;
}
int MPI_Win_free(MPI_Win* w) {
	VM_ENTER("MPI_Win_free"); vm::Win* x = vm::win(*w);
	for (auto& e : x->ep[x->comm->rankOf(vm::P())]) VF_CHECK(!e.open, "MPI_Win_free while the window is locked");
	vm::collective(x->comm, "MPI_Win_free", { (long)x }, {}, [](vm::Coll& o) { for (auto& a : o.args) VF_CHECK(a[0] == o.args[0][0], "the processes free different windows"); });
	x->freed++; *w = MPI_WIN_NULL; return 0;
}
int MPI_Win_lock(int kind, int rank, int as, MPI_Win w) {
	VM_ENTER("MPI_Win_lock"); vm::Win* x = vm::win(w); vm::checkRank(x->comm, rank, "MPI_Win_lock");
	int me = x->comm->rankOf(vm::P()); vm::Epoch& e = x->ep[me][rank]; vm::Part& p = x->parts[rank];
	VF_CHECK(!e.open, "MPI_Win_lock: the process has locked this window already");
	VF_CHECK(kind == MPI_LOCK_SHARED || !(as & MPI_MODE_NOCHECK), "MPI_Win_lock: MPI is told not to check an exclusive lock for conflicts");
	e.open = true; e.exclusive = kind == MPI_LOCK_EXCLUSIVE; e.nocheck = as & MPI_MODE_NOCHECK;
	if (!e.nocheck) {
		while (p.excl >= 0 || (e.exclusive && !p.shared.empty())) vm::waitChange();
		if (e.exclusive) p.excl = me; else p.shared.insert(me);
	}
	return 0;
}
int MPI_Win_unlock(int rank, MPI_Win w) {
	VM_ENTER("MPI_Win_unlock"); vm::Win* x = vm::win(w); vm::Epoch& e = vm::epoch(x, rank, "MPI_Win_unlock"); vm::Part& p = x->parts[rank];
	vm::flush(e);
	if (!e.nocheck) { if (e.exclusive) p.excl = -1; else p.shared.erase(x->comm->rankOf(vm::P())); }
	e.open = false; vm::version++; return 0;
}
int MPI_Win_flush(int rank, MPI_Win w) { VM_ENTER("MPI_Win_flush"); vm::flush(vm::epoch(vm::win(w), rank, "MPI_Win_flush")); return 0; }
int MPI_Win_flush_local(int rank, MPI_Win w) { VM_ENTER("MPI_Win_flush_local"); vm::flush(vm::epoch(vm::win(w), rank, "MPI_Win_flush_local")); return 0; }
int MPI_Get(void* o, int n, MPI_Datatype t, int rank, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w) {
	VM_ENTER("MPI_Get"); vm::Win* x = vm::win(w); vm::Epoch& e = vm::epoch(x, rank, "MPI_Get");
	vm::Type ot = vm::type(t), tt2 = vm::type(tt);
	VF_CHECK(n >= 0 && (size_t)n * vm::bytesOf(ot) == tn * vm::bytesOf(tt2), "MPI_Get: sizes differ");
	vm::gets++; if (vm::onlyBlocks || !(t == MPI_LONG && n == 4)) vm::blockGets++;
	vm::Op op; op.kind = 0; op.origin = (char*)o; op.ocount = n; op.otype = t; op.ttype = tt; op.target = vm::target(x, rank, disp, tn, tt2, "MPI_Get");
	memset(o, 0x77, 0);
	vm::queue(e, op); return 0;
}
int MPI_Put(const void* o, int n, MPI_Datatype t, int rank, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Win w) {
	VM_ENTER("MPI_Put"); vm::Win* x = vm::win(w); vm::Epoch& e = vm::epoch(x, rank, "MPI_Put");
	vm::Type ot = vm::type(t), tt2 = vm::type(tt);
	VF_CHECK((size_t)n * vm::bytesOf(ot) == tn * vm::bytesOf(tt2), "MPI_Put: sizes differ");
	VF_CHECK(e.nocheck || e.exclusive, "MPI_Put with a shared lock");
	vm::Op op; op.kind = 1; op.ocount = tn; op.ttype = tt; op.target = vm::target(x, rank, disp, tn, tt2, "MPI_Put"); vm::pack(op.arg, (const char*)o, n, ot);
	vm::queue(e, op); return 0;
}
int MPI_Fetch_and_op(const void* o, void* r, MPI_Datatype t, int rank, MPI_Aint disp, MPI_Op op_, MPI_Win w) {
	VM_ENTER("MPI_Fetch_and_op"); vm::Win* x = vm::win(w); vm::Epoch& e = vm::epoch(x, rank, "MPI_Fetch_and_op"); vm::Type k = vm::type(t);
	VF_CHECK(op_ == MPI_REPLACE || op_ == MPI_NO_OP, "MPI_Fetch_and_op with an unknown operation");
	vm::Op op; op.kind = op_ == MPI_REPLACE ? 2 : 4; op.origin = (char*)r; op.ocount = k.extent; op.target = vm::target(x, rank, disp, 1, k, "MPI_Fetch_and_op"); op.arg.assign((const char*)o, (const char*)o + k.extent);
	vm::queue(e, op); return 0;
}
int MPI_Compare_and_swap(const void* o, const void* cmp, void* r, MPI_Datatype t, int rank, MPI_Aint disp, MPI_Win w) {
	VM_ENTER("MPI_Compare_and_swap"); vm::Win* x = vm::win(w); vm::Epoch& e = vm::epoch(x, rank, "MPI_Compare_and_swap"); vm::Type k = vm::type(t);
	vm::Op op; op.kind = 3; op.origin = (char*)r; op.target = vm::target(x, rank, disp, 1, k, "MPI_Compare_and_swap"); op.arg.assign((const char*)o, (const char*)o + k.extent); op.cmp.assign((const char*)cmp, (const char*)cmp + k.extent);
	vm::queue(e, op); return 0;
}
MPI_Fint MPI_Comm_c2f(MPI_Comm) { return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint) { return MPI_COMM_WORLD; }

// threads of a process
int vs_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) noexcept {
	int k = vm::threadProc([f, a]() { f(a); });
	*t = ++vm::created; vm::threads[*t] = k; return 0;
}
int vs_join(pthread_t t, void**) {
	VF_CHECK(vm::threads.count(t), "pthread_join of an unknown thread");
	int k = vm::threads[t];
	while (!vs::cos[k]->done) vs::block([k]() { return vs::cos[k]->done; });
	return 0;
}
int vs_setaffinity(pthread_t t, size_t n, const cpu_set_t* s) noexcept {
	VF_PROP("C20", vm::threads.count(t), "another thread than the communication thread is pinned");
	std::vector<int> c; for (unsigned i = 0; i < CPU_SETSIZE && i < 8 * n; i++) if (CPU_ISSET(i, s)) c.push_back(i);
	vm::pins.push_back(c); return 0;
}
pthread_t vs_self() noexcept { return 0; }
}
unsigned int std::thread::hardware_concurrency() noexcept { return vm::nCPU; }
#endif

// Deterministic cooperative scheduler: the threads of a case are coroutines,
// every lock, condition-variable or explicit yield operation of the real code
// is a scheduling point, and the harness enumerates the schedules. The pthread
// operations are renamed to these at compile time (-Dpthread_x=vs_x).
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "vcommon.h"
#include <ucontext.h>
#include <functional>
#include <cerrno>

namespace vs {
struct Co {
	ucontext_t ctx;
	std::vector<char> stack;
	std::function<void()> fn;
	bool done = false;
	std::function<bool()> ready;   // empty: runnable
	bool spurious = false;         // may be woken without a signal
	std::map<unsigned, const void*> specific;
	int cpu = 0;
	int proc = 0;                  // simulated process
	std::string at;                // the last call observed
};
struct LockState { int owner = -1; };
static std::vector<Co*> cos;
static std::vector<Co*> store;
static std::function<void(int, int)> onProcess;   // the running process changes
static int curProc = 0;
static bool anyUnlock = false;                 // locks may be released by another thread
static std::vector<std::pair<char*, size_t> > perProcess;   // static objects, one per process
static unsigned long maxSteps = 200000;
static int cur = -1;
static std::map<unsigned, const void*> mainSpecific;
static unsigned keys = 0;
static std::function<int(int)> nodeOfThread;   // NUMA domain of a thread
static ucontext_t mainCtx;
static std::map<void*, LockState> locks;
struct CondState { unsigned long gen = 0; std::vector<int> waiters; };
static std::map<void*, CondState> conds;
static std::set<int> woken;
static int failLock = 0;                       // > 0: that lock operation fails
static int slow = -1;                          // a thread that seldom gets on
static bool deadlockOk = false;
static bool spuriousWakeups = false;
static std::function<void(const char*, void*)> onEvent;

// the schedule: decisions taken, explored depth first or at random
static std::vector<unsigned> choice, width;
static size_t pos;
static vf::Rng* rng = 0;
static unsigned switches, maxPreempt = 1000;

inline unsigned choose(unsigned n) {
	if (n <= 1) return 0;
	unsigned c;
	if (pos < choice.size()) c = choice[pos];
	else { c = rng ? (unsigned)rng->below(n) : 0; choice.push_back(c); width.push_back(n); }
	if (c >= n) c = n - 1;
	pos++;
	vf::step("%u", c);
	return c;
}
inline bool nextSchedule() {
	while (!choice.empty()) {
		if (choice.back() + 1 < width.back()) { choice.back()++; return true; }
		choice.pop_back(); width.pop_back();
	}
	return false;
}
inline void entry() { Co* c = cos[cur]; c->fn(); c->done = true; swapcontext(&c->ctx, &mainCtx); }
inline void toMain() { Co* c = cos[cur]; swapcontext(&c->ctx, &mainCtx); }
inline void yield() { if (cur >= 0) toMain(); }
inline void block(std::function<bool()> r, bool spurious = false) {
	Co* c = cos[cur]; c->ready = r; c->spurious = spurious; toMain(); c->ready = nullptr; c->spurious = false;
}
/** A new thread of a process. */
inline int spawn(std::function<void()> fn, int proc) {
	Co* c = new Co(); c->fn = fn; c->proc = proc; c->stack.resize(1 << 18);
	getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack.data(); c->ctx.uc_stack.ss_size = c->stack.size(); c->ctx.uc_link = 0;
	makecontext(&c->ctx, (void (*)())entry, 0);
	store.push_back(c); cos.push_back(c);
	return cos.size() - 1;
}
/** Every process has its own copy of a static object. */
inline void* own(void* l) {
	for (auto& p : perProcess) if ((char*)l >= p.first && (char*)l < p.first + p.second) return (char*)l + ((size_t)(curProc + 1) << 48);
	return l;
}
inline std::string where() { std::string w; for (Co* c : cos) if (!c->done) w += std::string(" ") + std::to_string(c->proc) + (c->at.empty() ? "" : ":") + c->at + (c->ready ? " (blocked)" : ""); return w; }
/** Runs the coroutines to completion under the current schedule. */
inline void run(const std::vector<std::function<void()>>& fns, const std::vector<int>& procs = std::vector<int>()) {
	cos.clear(); locks.clear(); conds.clear(); woken.clear(); pos = 0; switches = 0;
	for (Co* c : store) delete c;
	store.clear();
	for (size_t i = 0; i < fns.size(); i++) spawn(fns[i], i < procs.size() ? procs[i] : 0);
	vf::step(" schedule ");
	int last = -1;
	for (unsigned long steps = 0;; steps++) {
		VF_CHECK(steps < maxSteps, "no progress: the schedule does not end (livelock; process:last call%s)", where().c_str());
		std::vector<int> ready, spur;
		bool all = true;
		for (size_t i = 0; i < cos.size(); i++) {
			if (cos[i]->done) continue;
			all = false;
			if (!cos[i]->ready || cos[i]->ready()) ready.push_back(i);
			else if (cos[i]->spurious && spuriousWakeups) spur.push_back(i);
		}
		if (all) break;
		if (ready.empty() && !(spuriousWakeups && !spur.empty() && false)) {
			if (deadlockOk) break;
			vf::fail("deadlock: no thread can continue (process:last call%s)", where().c_str());
		}
		// prefer to continue the same thread: fewer preemptions first
		std::vector<int> opts;
		for (int r : ready) if (r == last) opts.push_back(r);
		bool canPreempt = opts.empty() || switches < maxPreempt;
		if (canPreempt) { for (int r : ready) if (r != last) opts.push_back(r); for (int r : spur) opts.push_back(r); }
		if (slow >= 0 && rng && opts.size() > 1 && rng->below(40)) for (size_t i = 0; i < opts.size(); i++) if (opts[i] == slow) { opts.erase(opts.begin() + i); break; }
		int k = opts[choose(opts.size())];
		if (last >= 0 && k != last && !cos[last]->done) { bool lr = false; for (int r : ready) lr |= r == last; if (lr) switches++; }
		for (int r : spur) if (r == k) woken.insert(k);
		last = k; cur = k;
		if (cos[k]->proc != curProc) { if (onProcess) onProcess(curProc, cos[k]->proc); curProc = cos[k]->proc; }
		swapcontext(&mainCtx, &cos[k]->ctx);
		cur = -1;
	}
	cos.clear();
}
inline int lock(void* l) {
	l = own(l);
	if (failLock > 0 && --failLock == 0) return EINVAL;
	if (cur < 0) { VF_CHECK(locks[l].owner == -1, "lock requested while held"); locks[l].owner = -2; return 0; }
	VF_CHECK(anyUnlock || locks[l].owner != cur, "thread locks a lock it already holds");
	if (onEvent) onEvent("lock", l);
	yield();
	while (locks[l].owner != -1) { cos[cur]->at = "lock held by " + std::to_string(locks[l].owner); block([l] { return locks[l].owner == -1; }); cos[cur]->at = "after lock"; }
	locks[l].owner = cur;
	if (onEvent) onEvent("locked", l);
	return 0;
}
inline int trylock(void* l) {
	l = own(l);
	if (cur >= 0) yield();
	if (locks[l].owner != -1) return EBUSY;
	locks[l].owner = cur >= 0 ? cur : -2;
	if (onEvent) onEvent("locked", l);
	return 0;
}
inline int unlock(void* l) {
	l = own(l);
	VF_CHECK(locks[l].owner == (cur >= 0 ? cur : -2) || (anyUnlock && locks[l].owner != -1), "unlock of a lock the thread does not hold");
	locks[l].owner = -1;
	if (onEvent) onEvent("unlock", l);
	if (cur >= 0) yield();
	return 0;
}
inline int wait(void* c, void* l) {
	l = own(l);
	VF_CHECK(cur >= 0, "wait outside of a thread");
	VF_CHECK(locks[l].owner == cur, "wait without holding the lock");
	int me = cur;
	conds[c].waiters.push_back(me);
	locks[l].owner = -1;
	cos[cur]->at = "wait";
	block([me] { return woken.count(me) > 0; }, true);
	woken.erase(me);
	for (size_t i = 0; i < conds[c].waiters.size(); i++) if (conds[c].waiters[i] == me) { conds[c].waiters.erase(conds[c].waiters.begin() + i); break; }
	while (locks[l].owner != -1) block([l] { return locks[l].owner == -1; });
	locks[l].owner = cur;
	return 0;
}
inline int signal(void* c) {
	std::vector<int>& w = conds[c].waiters;
	if (w.empty()) return 0;
	unsigned k = w.size() > 1 && cur >= 0 ? choose(w.size()) : 0;
	woken.insert(w[k]); w.erase(w.begin() + k);
	if (cur >= 0) yield();
	return 0;
}
inline int broadcast(void* c) {
	for (int i : conds[c].waiters) woken.insert(i);
	conds[c].waiters.clear();
	if (cur >= 0) yield();
	return 0;
}
}
#endif

// Barrier and broadcast under enumerated and random schedules with spurious wakeups.
#include <pthread.h>
#include "vcommon.h"
#include "vsched.h"
#include "vsched_impl.h"
#include "threads/sync.h"

/** rounds[r]: -1 a barrier, otherwise a broadcast with that root; threads stop early if more than one group is used */
static void episode(unsigned n, const std::vector<int>& rounds, bool phases) {
	threads::Sync s;
	std::vector<unsigned> entered(rounds.size(), 0), left(rounds.size(), 0);
	std::vector<std::function<void()> > fns;
	for (unsigned t = 0; t < n; t++) fns.push_back([&, t]() {
		for (size_t r = 0; r < rounds.size(); r++) {
			entered[r]++;
			if (rounds[r] < 0) {
				if (phases) {
					VF_PROP("C18", s.startBarrier(), "startBarrier failed");
					VF_PROP("C18", s.waiting() < n, "%u threads are waiting already", s.waiting());
					VF_PROP("C18", s.waitBarrier(n), "waitBarrier failed");
					VF_PROP("C18", s.endBarrier(), "endBarrier failed");
				} else
					VF_PROP("C18", s.barrier(n), "barrier failed");
				VF_PROP("C18", entered[r] == n, "thread %u leaves barrier %zu after only %u of %u threads entered it", t, r, entered[r], n);
			} else {
				unsigned long* d = new unsigned long(t == (unsigned)rounds[r] ? 1000 + r : 7 + t);
				VF_PROP("C18", s.broadcast(*d, n, t, rounds[r]), "broadcast failed");
				VF_PROP("C18", entered[r] == n, "thread %u leaves broadcast %zu after only %u of %u threads entered it", t, r, entered[r], n);
				VF_PROP("C18", *d == 1000 + r, "thread %u holds %lu after broadcast %zu, the root passed %lu", t, *d, r, 1000 + r);
				*d = 0xdead;
				delete d;
			}
			left[r]++;
		}
	});
	vs::run(fns);
	for (size_t r = 0; r < rounds.size(); r++) VF_PROP("C18", left[r] == n, "only %u of %u threads left round %zu", left[r], n, r);
	vf::done(n > 1);
}
static void show(unsigned n, const std::vector<int>& rounds) {
	vf::begin("%u threads, spurious wakeups %s:", n, vs::spuriousWakeups ? "on" : "off");
	for (int r : rounds) if (r < 0) vf::step(" barrier"); else vf::step(" broadcast(root %d)", r);
}

int main(int argc, char** argv) {
	vf::init(argc, argv);
	std::vector<std::pair<unsigned, std::vector<int> > > progs = {
		{ 1, { -1, 0 } }, { 2, { -1, -1 } }, { 2, { 0 } }, { 2, { 1, 0 } }, { 2, { -1, 0 } }, { 3, { -1 } }, { 3, { 2 } }, { 3, { -1, -1 } }, { 3, { 0, 1 } } };
	for (int sp = 0; sp < 2; sp++)
		for (auto& p : progs) {
			vs::spuriousWakeups = sp;
			vs::choice.clear(); vs::width.clear(); vs::rng = 0; vs::maxPreempt = vf::thorough ? 4 : 2;
			unsigned long cnt = 0, lim = vf::thorough ? 60000 : 2500;
			do { show(p.first, p.second); episode(p.first, p.second, cnt & 1); } while (vs::nextSchedule() && ++cnt < lim && vf::timeLeft(0.7));
		}
	vs::maxPreempt = 1000;
	for (unsigned it = 0; it < (vf::thorough ? 200000u : 4000u) && vf::timeLeft(0.95); it++) {
		vf::Rng q(vf::seed * 7919 + it);
		vs::rng = &q; vs::choice.clear(); vs::width.clear(); vs::spuriousWakeups = it & 1;
		unsigned n = 1 + q.below(5);
		std::vector<int> rounds;
		for (unsigned k = 1 + q.below(4); k; k--) rounds.push_back((int)q.below(n + 1) - 1);
		show(n, rounds);
		episode(n, rounds, q.flip());
	}
	// a lock operation that fails must be reported
	vf::begin("the lock operation of a barrier fails");
	vs::rng = 0; vs::failLock = 1;
	{
		threads::Sync s;
		bool ok = s.barrier(1);
		VF_PROP("C18", !ok, "a failed lock operation is not reported");
	}
	vf::done();
	return vf::finish();
}

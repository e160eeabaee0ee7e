// One-time initialisation under enumerated and random schedules.
#include <pthread.h>
#include "vcommon.h"
#include "vsched.h"
#include "vsched_impl.h"
#include "threads/once.h"

struct Obj {
	unsigned begun, done;
	Obj() : begun(0), done(0) {}
	void init() { begun++; vs::yield(); vs::yield(); done++; }
};

static void episode(unsigned n, unsigned times) {
	threads::Once once;
	Obj o;
	unsigned returned = 0;
	std::vector<std::function<void()> > fns;
	for (unsigned t = 0; t < n; t++) fns.push_back([&, t]() {
		for (unsigned k = 0; k < times; k++) {
			once.saveExec(o, &Obj::init);
			VF_PROP("C25", o.done >= 1, "request %u of thread %u returns before the initialisation completed", k, t);
			returned++;
			vs::yield();
		}
	});
	vs::run(fns);
	VF_PROP("C25", o.begun == 1 && o.done == 1, "the initialisation ran %u times", o.begun);
	VF_PROP("C25", returned == n * times, "only %u of %u requests returned", returned, n * times);
	vf::done(n > 1);
}

int main(int argc, char** argv) {
	vf::init(argc, argv);
	for (unsigned n = 1; n <= 3; n++)
		for (unsigned times = 1; times <= 2; times++) {
			vs::choice.clear(); vs::width.clear(); vs::rng = 0; vs::maxPreempt = vf::thorough ? 4 : 2;
			unsigned long cnt = 0, lim = vf::thorough ? 60000 : 2500;
			do { vf::begin("%u threads, %u requests each", n, times); episode(n, times); } while (vs::nextSchedule() && ++cnt < lim && vf::timeLeft(0.7));
		}
	vs::maxPreempt = 1000;
	for (unsigned it = 0; it < (vf::thorough ? 200000u : 3000u) && vf::timeLeft(0.95); it++) {
		vf::Rng q(vf::seed * 7919 + it);
		vs::rng = &q; vs::choice.clear(); vs::width.clear();
		unsigned n = 1 + q.below(5), times = 1 + q.below(2);
		vf::begin("%u threads, %u requests each", n, times);
		episode(n, times);
	}
	return vf::finish();
}

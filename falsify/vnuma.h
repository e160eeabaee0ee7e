// A process with several threads on several NUMA domains (simulated threads, real numa::Numa).
#ifndef VERIF_NUMA_H
#define VERIF_NUMA_H
#include <pthread.h>
#include "vcommon.h"
#include "vsched.h"
#include "vsched_impl.h"
#include "numa/numa.h"
#include "numa/numacomm.h"

namespace vn {
/** Runs fn(thread) in every thread after all threads registered. */
inline void threads(numa::Numa& n, const std::vector<int>& nodes, std::function<void(unsigned, bool)> fn) {
	n.setThreads(nodes.size());
	vs::nodeOfThread = [nodes](int cpu) { return nodes[cpu]; };
	std::vector<std::function<void()> > fns;
	for (unsigned t = 0; t < nodes.size(); t++) fns.push_back([&, t]() {
		bool master = false;
		VF_CHECK(n.registerThread(master) == asagi::Grid::SUCCESS, "registerThread failed");
		fn(t, master);
	});
	vs::run(fns);
}
}
#endif

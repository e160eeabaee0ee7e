#include <map>
#include <vector>
#include <mutex>
#include <sched.h>
#define private public
#define protected public
#include "numa/numa.cpp"
#include "threads/once.h"
#include "allocator/default.h"
#include "allocator/mpialloc.h"
struct verif_obj { int x; void init(); };
asagi::Grid::Error verif_numa(numa::Numa &n, numa::NumaComm &c, unsigned char *&p, verif_obj &o, threads::Once &once)
{
	n.totalThreads(); n.totalDomains(); n.threadId(); n.domainId(); n.setThreads(3); n.barrier();
	int i = 0; n.broadcast(i); n.createComm();
	c.totalThreads(); c.totalDomains(); c.threadId(); c.domainId(); c.copy();
	unsigned long l = 0; c.broadcast(l);
	once.saveExec(o, &verif_obj::init);
	c.allocate<allocator::Default>(3, p); c.free<allocator::Default>(p);
	long *q; c.allocate<allocator::MPIAlloc>(3, q); c.free<allocator::MPIAlloc>(q);
	c.free<allocator::MPIAlloc>(p);
	return c.allocate<allocator::MPIAlloc>(3, p);
}
void verif_life() { threads::Once o; numa::Numa n; numa::NumaComm c(n); }

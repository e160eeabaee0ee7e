// Transfer of blocks between NUMA domains and processes.
#include <vector>
#include <map>
#include <limits>
#include <mutex>
#include <thread>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <string>
#include <unordered_map>
#define private public
#define protected public
#include "utils/logger.h"
#include "mpi/mpicomm.h"
#include "numa/numacomm.h"
#include "cache/cachemanager.h"
#include "types/type.h"
#include "transfer/mpino.h"
#include "transfer/numano.h"
#include "transfer/numafull.h"
#include "transfer/numacache.h"
#include "transfer/numafullcache.h"
#include "transfer/mpiwinfull.h"
#include "transfer/mpithreadfull.h"
#include "transfer/mpiwincache.h"
#include "transfer/mpithreadcache.h"
template<class N> static void full(N &n, unsigned char *p, types::Type &t, mpi::MPIComm &c, numa::NumaComm &m, cache::CacheManager &k)
{ n.init(p, 1, 2, t, c, m, k); n.transfer(1, 1, 1, 1, p); }
template<class N> static void mfull(N &n, unsigned char *p, types::Type &t, mpi::MPIComm &c, numa::NumaComm &m)
{ n.init(p, 1, 2, t, c, m); n.transfer(1, 1, p); }
template<class N> static void mcache(N &n, unsigned char *p, types::Type &t, mpi::MPIComm &c, numa::NumaComm &m, cache::CacheManager &k)
{ bool r; n.init(p, 1, k, 1, 2, t, c, m); n.startTransfer(1, 1, 1, 1); n.transfer(1, 1, p, r); n.endTransfer(1, 1, 1, 1); n.addBlock(1, 1, 1, 1); n.deleteBlock(1, 1, 1, 1); }
void verif_transfer(unsigned char *p, types::Type &t, mpi::MPIComm &c, numa::NumaComm &m, cache::CacheManager &k)
{
	transfer::NumaNo a; full(a, p, t, c, m, k); a.init(1, t, m, k); a.transfer(1, p);
	transfer::NumaFull b; full(b, p, t, c, m, k);
	transfer::NumaCache d; d.init(1, t, m, k); d.transfer(1, p);
	transfer::NumaFullCache e; full(e, p, t, c, m, k);
	transfer::MPINo f; mfull(f, p, t, c, m); mcache(f, p, t, c, m, k);
	transfer::MPIWinFull g; mfull(g, p, t, c, m);
	transfer::MPIThreadFull h; mfull(h, p, t, c, m);
	transfer::MPIWinCache i; mcache(i, p, t, c, m, k);
	transfer::MPIThreadCache j; mcache(j, p, t, c, m, k);
}

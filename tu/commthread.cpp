// The communication thread.
#include <vector>
#include <map>
#include <limits>
#include <mutex>
#include <thread>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <string>
#include <unordered_map>
#define private public
#define protected public
#include "utils/logger.h"
#include "mpi/commthread.h"
#include "mpi/mpicomm.h"
#include "mpi/commthread.cpp"
void verif_commthread(mpi::CommThread &c, MPI_Comm comm, mpi::Receiver &r, int &tag, mpi::MPIComm &m)
{
	c.init(1, comm);
	c.registerReceiver(comm, r, tag);
	c.send(1, 2, 3);
	c.unregisterReceiver(1);
	c.finialize();
	m.reserveTags(3);
}
void verif_life(MPI_Comm c) { mpi::MPIComm m; m.init(c); m.barrier(); }

#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})

NOBUILD = 'The sources involved are not even compiled by the stable tests (the grid tests need MPI launches and NetCDF files and are not among them); '
p('C01', 'A coordinate selects the nearest grid point, clamped to the grid',
  'For every coordinate vector and every grid geometry (offset, positive or negative spacing, size-1 dimensions), a lookup reads the grid point whose coordinate is nearest in each dimension, where the first user coordinate belongs to the fastest varying (last) dimension of the file. A coordinate outside of the grid, infinite or NaN is clamped to a grid point of that dimension; no coordinate ever makes the library access data outside of the grid.',
  ['inputs', 'configurations'], 'all double coordinates including infinities and NaN, all offsets/spacings/sizes, 1 to 4 dimensions',
  NOBUILD + 'a test can only sample a few coordinates of one file.',
  ['grid/level/level.h'], [('rounding, clamping and dimension reversal', 'grid/level/level.h: pos2index'), ('inverse spacing', 'grid/level/level.h: getInvScaling')],
  ['asagi::Grid::getFloat and the other getters'])
p('C02', 'Reported minimum, maximum and spacing describe the file',
  'After a successful open the reported minimum and maximum of each dimension are the smallest and largest coordinate of the file, extended by (almost) half a cell on both ends exactly when values are cell centered, and minimum <= maximum also for descending coordinates; the reported spacing is the absolute distance of neighbouring grid points. A dimension with a single grid point is unbounded: minimum -infinity, maximum +infinity, infinite spacing; a dimension without coordinate variable has offset 0 and spacing 1.',
  ['inputs', 'configurations'], 'all coordinate variables (ascending, descending, missing, single point), both value positions, 1 to 4 dimensions, every level',
  NOBUILD + 'they use one fixed grid file with ascending coordinates.',
  ['grid/level/level.h', 'io/netcdfreader.h', 'io/netcdfreader.cpp', 'grid/simplecontainer.h'],
  [('range computation', 'grid/level/level.h: open'), ('offset and spacing from the file', 'io/netcdfreader.h: getOffset, getScaling'), ('range of the grid is the range of level 0', 'grid/simplecontainer.h: init')],
  ['asagi::Grid::getMin', 'asagi::Grid::getMax', 'asagi::Grid::getDelta'])
p('C03', 'Block sizes follow the block size and time dimension parameters',
  'For every block size request the block size used in a dimension is the requested one, the whole dimension if the request is negative, 1 in the time dimension and 64 in any other dimension if nothing (0) is requested, and never more than the dimension has grid points; an invalid time dimension is ignored. The blocks then cover the grid: the number of blocks per dimension is the quotient rounded up, and the total counts are the products over all dimensions.',
  ['inputs', 'configurations'], 'all block size requests, grid sizes, time dimension settings, 1 to 4 dimensions',
  NOBUILD + 'they sample a handful of block size settings on one file.',
  ['grid/level/blocked.h'], [('block geometry', 'grid/level/blocked.h: open')], ['file_loads counter', 'memory used'])
p('C04', 'Every grid cell has exactly one place in the distributed blocks',
  'For every grid geometry and every number of processes and NUMA domains, the map from grid cells to (process, NUMA domain, block slot, offset in block) is one-to-one and stays within the allocated memory of its owner, and every block is owned by exactly one process and domain which loads exactly the cells of that block. Both distributions (contiguous and round robin) fulfil this, and the position of a block in its process\' memory and directory is consistent with the owner\'s own numbering.',
  ['inputs', 'configurations'], 'all grid sizes, block sizes, process counts, domain counts, both distributions',
  NOBUILD + 'the one-to-one correspondence quantifies over all cells and configurations.',
  ['grid/level/blocked.h', 'grid/level/full.h'], [('block numbering', 'grid/level/blocked.h: blockByCoords, calcBlockPosition, calcOffsetInBlock'), ('ownership', 'grid/level/blocked.h: blockRank, blockDomain, blockOffset, blockNodeOffset, local2global, localBlockCount, nodeBlockCount')],
  ['values returned by the getters'])
p('C05', 'A full grid returns the value stored in the file',
  'For every grid file, block size and coordinate, a lookup in a fully stored grid returns the file\'s value at the grid point selected by the coordinate, also for grids whose size is not a multiple of the block size. Loading never writes outside of the memory allocated for the blocks.',
  ['inputs', 'configurations'], 'all geometries and coordinates, 1 to 4 dimensions, all element types',
  NOBUILD + 'the claim ranges over all cells of all grids.',
  ['grid/level/full.h', 'grid/level/blocked.h', 'io/netcdfreader.h'], [('load loop', 'grid/level/full.h: open'), ('lookup', 'grid/level/full.h: getAt')], ['asagi::Grid getters'])
p('C06', 'Values owned by other processes or domains are fetched from the right place',
  'In a fully stored grid distributed over processes and NUMA domains, a lookup of a cell owned elsewhere copies exactly the block that contains the cell out of the memory of its owner, through the cache of the calling domain, and returns the same value a lookup at the owner would return. Transfers copy exactly one block and never touch memory of other blocks.',
  ['inputs', 'configurations', 'histories'], 'all cells, process and domain counts, transfer mechanisms (same process, MPI window, communication thread) and access histories',
  NOBUILD + 'multi-process placements are not exercised by the stable tests at all.',
  ['grid/level/fulldist.h', 'transfer/numafull.h', 'transfer/numafullcache.h', 'transfer/mpiwinfull.h', 'transfer/mpithreadfull.h'],
  [('remote lookup', 'grid/level/fulldist.h: getAt'), ('same-process copy', 'transfer/numafull.h: transfer'), ('window transfer', 'transfer/mpiwinfull.h: transfer'), ('communication thread transfer', 'transfer/mpithreadfull.h: transfer')], ['asagi::Grid getters on every process'])
p('C07', 'The block cache never confuses blocks',
  'After every sequence of lookups, a block is reported as cached exactly when it was inserted and not evicted since, in exactly one slot, and that slot is not shared with another block; inserting a block reports the block it evicts. All slots are empty initially, and the memory handed out for a slot is that slot of the cache memory.',
  ['histories', 'inputs'], 'all lookup sequences, all cache sizes, all block numbers',
  'No unit test covers the cache; the claim ranges over all access histories.',
  ['cache/cachelist.h', 'cache/cachemanager.h'], [('directory', 'cache/cachelist.h: getIndex, getFreeIndex, init'), ('slots', 'cache/cachemanager.h: get, tryGet, init')], ['values returned by the getters of a cached grid', 'file_loads counter'])
p('C08', 'Cache replacement is a second-chance clock that always finds a victim',
  'For every access history, cache size and hand spread the evicted slot is the first one, in clock order after the last victim, whose use mark is clear, where the leading hand clears the marks it passes and both hands move together; using a slot sets its mark and nothing else does. The search always ends with a slot of the cache, also if the spread is larger than the cache.',
  ['histories', 'configurations'], 'all access histories, all cache sizes >= 1, all hand spreads',
  'No unit test covers the replacement clock.',
  ['cache/lru.h', 'cache/cachelist.h'], [('victim search', 'cache/lru.h: getFree'), ('initial hand positions', 'cache/lru.h: init'), ('use marks', 'cache/lru.h: access')], ['evictions seen through the file_loads counter'])
p('C09', 'Concurrent lookups in a cache see complete blocks of the right block',
  'With any number of threads and any schedule, a thread that obtained a cached block has exclusive use of its slot until it releases it: it never sees data of another block or a partly loaded block, and the slot is not reused meanwhile. Every lookup releases exactly the locks it took, a failed attempt to find a block holds nothing afterwards.',
  ['schedules', 'histories'], 'all interleavings of lookups, fills and releases by any number of threads',
  'Races show up under specific interleavings only; no test runs the cache with threads.',
  ['cache/cachemanager.h'], [('slot locks taken before the directory lock is released', 'cache/cachemanager.h: get, tryGet, unlock')], ['values returned by the getters with several threads'])
p('C10', 'The directory of cached copies lists the newest copies of each block',
  'For every history of additions and removals, the directory entry of a block lists at most the four most recently added copies, newest first and without gaps; looking a block up returns one of the listed copies, or nothing exactly when none is listed. Removing a copy removes exactly that copy if it is listed and otherwise changes nothing.',
  ['histories', 'inputs'], 'all histories of additions, removals and lookups',
  NOBUILD + 'the directory is only used by multi-process caches.',
  ['transfer/mpicache.h'], [('entry operations', 'transfer/mpicache.h: fetchBlockInfo, updateBlockInfo, fetchAndUpdateBlockInfo, deleteBlockInfo')], ['mpi_transfers counter'])
p('C11', 'A distributed cache returns the same values as the file',
  'In a cached grid shared by processes or domains, a missing block is taken from another cache only if that cache holds this block at the time of the copy, and otherwise loaded from the file; in every case the value returned is the file\'s value. The copies announced to and removed from the block\'s directory are exactly those the cache holds, and requests between processes identify block, process and slot without loss.',
  ['inputs', 'histories', 'configurations'], 'all lookup histories, process/domain counts, cache sizes',
  NOBUILD + 'multi-process caches are not exercised by the stable tests.',
  ['grid/level/cachedist.h', 'grid/level/cache.h', 'transfer/numacache.h', 'transfer/mpithreadcache.h', 'transfer/mpiwincache.h'],
  [('miss handling', 'grid/level/cachedist.h: getAt'), ('cross-domain copy', 'transfer/numacache.h: transfer'), ('messages', 'transfer/mpithreadcache.h: addBlock, deleteBlock, recv'), ('window directory', 'transfer/mpiwincache.h: startTransfer, transfer, endTransfer')], ['asagi::Grid getters', 'counters'])
p('C12', 'Reading a block places every value at its position in the block',
  'Reading any block of any variable delivers each file value of the block at its row-major position within a full-size block, for boundary blocks as well as inner ones and for 1 to 4 dimensions, element type conversion included, and reads nothing beyond the variable\'s extent. No memory outside of the block is written.',
  ['inputs'], 'all block offsets/sizes/variable extents/element sizes, 1 to 4 dimensions',
  NOBUILD + 'the in-place rearrangement of partial blocks depends on all extents at once.',
  ['io/netcdfreader.h'], [('clipping', 'io/netcdfreader.h: getBlock'), ('in-place mapping for user types', 'io/netcdfreader.h: getVar<void>')], ['asagi::Grid::getBuf'])
p('C13', 'Values are converted like C++ and sizes are checked',
  'A typed getter returns the stored value converted to the requested type like a C++ conversion, for all combinations of stored and requested type, and reading into a buffer copies exactly the bytes of one variable and nothing more. For array and struct grids the variable size is taken from the first file; a later file with another size, or a variable that is not a whole number of array elements, is rejected with the documented error.',
  ['inputs'], 'all values, stored types and requested types; all variable sizes; open order of levels',
  'The unit tests of the types check sizes and mpi types of single cases, not conversion for all values.',
  ['types/basictype.h', 'types/arraytype.h', 'types/structtype.h', 'types/structtype.cpp'], [('conversion', 'types/basictype.h: convert'), ('size checks', 'types/arraytype.h: check, types/structtype.h: check')], ['asagi::Grid getters', 'asagi::Grid::getVarSize', 'asagi::Grid::open'])
p('C14', 'Opening reports the documented error for every defect of the input',
  'open returns "not open" if the file cannot be opened, "variable not found" if the variable does not exist, "unsupported dimensions" if it has more than four dimensions, the type\'s size errors, and success otherwise; every thread of a grid gets the error if opening failed in the first domain, and the thread that opens the file for another domain gets the error of that domain. After an error no file handle is leaked and the grid can still be destroyed.',
  ['inputs', 'fault_sequences'], 'all failures of the file library and of the communication layer at each step of opening',
  NOBUILD + 'error paths are not tested.',
  ['io/netcdfreader.cpp', 'grid/level/level.h', 'grid/grid.cpp', 'grid/simplecontainer.h'], [('file errors', 'io/netcdfreader.cpp: open'), ('propagation', 'grid/level/*.h: open, grid/grid.cpp: open')], ['asagi::Grid::open'])
p('C15', 'Access counters count the right events',
  'For every level, each successful lookup adds one to "accesses" and one to exactly the counters of the work it did: "file_loads" for a block read from the file, "numa_transfers" and "mpi_transfers" for a block copied from another domain or process. "local_hits" is accesses minus all transfers and loads, "node_hits" is local hits plus domain transfers, "local_misses" is transfers plus loads, and a counter query sums over the domains of the requested level; unknown names are not mistaken for a counter.',
  ['histories', 'inputs'], 'all lookup histories, all counter names, every level',
  'The unit test of the counters checks the counter class with a few increments only.',
  ['perf/counter.h', 'perf/counter.cpp', 'grid/grid.cpp', 'grid/level'], [('counter arithmetic', 'perf/counter.cpp: get'), ('names', 'perf/counter.h: NameToCounterMap, perf/counter.cpp: name2type'), ('level selection', 'grid/grid.cpp: getCounter')], ['asagi::Grid::getCounter'])
p('C16', 'The C and Fortran interfaces act on the grid the handle names',
  'Every C and Fortran function forwards its arguments unchanged and in the documented order to the corresponding operation of the grid named by its handle and returns its result unchanged; level arguments are passed through. A Fortran handle names the same grid from creation until it is closed, for every history of creating and closing grids by any number of threads, and no two live grids share a handle.',
  ['inputs', 'histories', 'schedules'], 'all arguments, all create/close histories, concurrent creation',
  'The Fortran unit tests mock a few calls with single argument values.',
  ['asagi.cpp', 'asagi_f90.cpp', 'fortran/pointerarray.h', 'include/asagi.h', 'include/asagi.f90'], [('forwarding', 'asagi.cpp, asagi_f90.cpp'), ('handle table', 'fortran/pointerarray.h: add, get, remove')], ['C and Fortran API results'])
p('C17', 'Thread and domain numbers are dense, unique and stable',
  'When the configured number of threads open a grid, in any order and under any schedule, they get distinct thread numbers 0..n-1, two threads get the same domain number exactly when they run on the same NUMA domain (or detection is off), domain numbers are 0..d-1, and exactly one thread per domain is its master. Later opens report the same numbers and the same master again.',
  ['schedules', 'inputs'], 'all arrival orders, thread counts and cpu/domain assignments',
  'The unit test runs a few threads once; it cannot enumerate arrival orders and topologies.',
  ['numa/numa.cpp', 'numa/numa.h'], [('registration', 'numa/numa.cpp: registerThread'), ('packed thread/domain id', 'numa/numa.h: threadId, domainId')], ['asagi::Grid::open from several threads'])
p('C18', 'Barrier and broadcast are correct under every schedule and spurious wakeup',
  'No thread leaves a barrier before all participating threads have entered it, no thread is left behind, and the barrier can be reused immediately any number of times, also if condition variables wake up spuriously. After a broadcast every thread holds the value the root passed, and the root does not return before all threads have read it.',
  ['schedules'], 'all interleavings and spurious wakeups of any number of threads over any number of rounds',
  'The unit tests run the barrier on a real scheduler; specific interleavings and spurious wakeups cannot be forced.',
  ['threads/sync.h', 'numa/numa.h', 'numa/numacomm.h'], [('two-phase barrier', 'threads/sync.h: startBarrier, waitBarrier, endBarrier'), ('broadcast', 'threads/sync.h: broadcast')], ['asagi::Grid::open from several threads'],
  [('m_syncedThreads', 'threads inside the barrier', 'threads/sync.h'), ('m_finishing', 'threads are leaving', 'threads/sync.h')])
p('C19', 'Each domain gets its own slice of shared memory',
  'Memory shared by the NUMA domains of a process is allocated once with room for all domains, every domain gets its own slice of the requested size, slices do not overlap and lie within the allocation, and all domains use the same allocation. It is released exactly once.',
  ['inputs', 'configurations'], 'all sizes, domain counts, element types',
  'The unit test allocates a single size with a single domain count.',
  ['numa/numacomm.h', 'allocator/default.h', 'allocator/mpialloc.h'], [('slices', 'numa/numacomm.h: allocate'), ('allocation', 'allocator/*.h')], ['values returned by the getters with several domains'])
p('C20', 'The communication thread delivers every message to the right receiver',
  'Receivers registered on the same communicator get a tag that is the same on all processes and different from all other live tags and the control tags; a message sent with a tag reaches exactly the receiver registered for it on the target process, with the sender\'s rank in the receiver\'s communicator and the data unchanged. Starting it twice is refused, stopping ends the thread, and a valid cpu number, counted from the end if negative, pins it to that cpu and to no other; invalid numbers leave it unpinned.',
  ['histories', 'inputs'], 'all registration/message histories and cpu numbers',
  'The unit test sends one message.',
  ['mpi/commthread.h'], [('tags', 'mpi/commthread.h: registerReceiver'), ('dispatch', 'mpi/commthread.h: commThreadHandler'), ('pinning', 'mpi/commthread.h: init')], ['asagi::Grid::startCommThread', 'thread affinity'])
p('C21', 'The distributed lock excludes and hands over in order',
  'The lock on a directory entry is held by at most one thread of one process at any time; a thread that finds it taken waits for exactly its predecessor and gets the lock when that predecessor releases it, and releasing with nobody waiting frees it. Thread identities of different processes never coincide.',
  ['schedules', 'histories'], 'all interleavings of acquire/wait/release by any number of processes and threads',
  NOBUILD + 'lock interleavings across processes cannot be forced by tests.',
  ['mpi/mutex.h'], [('queue lock', 'mpi/mutex.h: acquire, wait, release')], ['asagi::Grid getters of a cached grid over MPI windows'])
p('C22', 'The node-local rank counts the lower ranks on the same node',
  'For every distribution of processes over nodes and all node names, including names with colliding checksums, the node-local rank of a process is the number of processes of the communicator with a lower rank on the same node; so ranks on a node are 0,1,2,... without gaps.',
  ['inputs', 'configurations'], 'all node names and process placements',
  'All tests run on one node.',
  ['asagi.cpp'], [('split by checksum, then compare names', 'asagi.cpp: nodeLocalRank')], ['asagi::Grid::nodeLocalRank'])
p('C23', 'Levels of a grid are independent',
  'Opening a level, in any order and with gaps, never changes values, ranges, block sizes or counters of another level, and lookups at a level only use that level\'s file. Destroying the grid releases each level\'s resources exactly once.',
  ['histories', 'inputs'], 'all orders of opening levels',
  NOBUILD + 'level orders and gaps are not sampled.',
  ['grid/simplecontainer.h', 'grid/level/level.h', 'grid/grid.cpp'], [('levels', 'grid/simplecontainer.h: init, getAt'), ('copying of levels', 'grid/level/level.h: Level(const Level&)')], ['asagi::Grid getters with levels'])
p('C24', 'Parameters are honoured as documented',
  'Parameter names and keyword values are case insensitive with "-" and "_" interchangeable, variable names and numbers keep their meaning (negative numbers included), an unset parameter has its documented default, parameters of a level affect that level only, and the last setting wins. The storage type (full, cached, pass-through; with or without domain or process communication) follows the documented parameters, number of processes and number of domains, and unknown values fall back to the documented default.',
  ['inputs', 'configurations'], 'all parameter names, values and levels; all process/domain counts',
  NOBUILD + 'they set a handful of parameters.',
  ['grid/grid.cpp'], [('normalisation', 'grid/grid.cpp: setParam'), ('lookup with default', 'grid/grid.cpp: param'), ('selection', 'grid/grid.cpp: initContainers')], ['asagi::Grid::setParam', 'behaviour after asagi::Grid::open'])
p('C25', 'One-time initialisation runs exactly once and completes before use',
  'If any number of threads request the one-time initialisation of a grid under any schedule, it runs exactly once, and no request returns before it has completed.',
  ['schedules'], 'all interleavings of any number of threads',
  'The unit test calls it sequentially.',
  ['threads/once.h'], [('double-checked flag', 'threads/once.h: saveExec')], ['asagi::Grid::open from several threads'])
p('C26', 'A pass-through grid reads each value from the file',
  'Every lookup in a pass-through grid returns the file\'s value at the grid point selected by the coordinate, reading exactly one value from the file; concurrent lookups of different threads do not disturb each other.',
  ['inputs', 'schedules'], 'all coordinates, types and thread counts',
  NOBUILD + 'concurrency is not tested.',
  ['grid/level/passthrough.h'], [('per-thread buffer', 'grid/level/passthrough.h: getAt')], ['asagi::Grid getters'])
p('C27', 'Multi-process lookups always make progress',
  'With any number of processes and threads performing lookups concurrently, every lookup eventually returns: the locks, windows and messages used between processes never deadlock.',
  ['schedules', 'fault_sequences'], 'all interleavings of all processes and threads',
  'Tests cannot enumerate interleavings across processes.',
  ['transfer/mpiwincache.h', 'transfer/mpithreadcache.h', 'transfer/mpithreadfull.h', 'mpi/mutex.h'], [('lock order', 'transfer/*.h')], ['asagi::Grid getters'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')

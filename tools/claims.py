T = ' Trusted: clang IR, vcgen, SMT solvers, assumed contracts listed in the evidence. '
CLAIMS = {
 'C07': 'Every obligation of the directory and slot functions discharged for all inputs and histories (representation invariant preserved by every operation).' + T + 'std::unordered_map assumed a finite map.',
 'C08': 'Every obligation of the replacement clock discharged for all sizes, hand positions and marks, with termination variant.' + T,
 'C10': 'Every entry operation proved against the list specification for all entries, both instantiations; initialisation proved for all domain counts, with the broadcast replaced by its contract (C18).' + T,
 'C18': 'Monitor proof: every critical section of every thread is proved to be a transition of the barrier protocol, for any number of threads, schedules and spurious wakeups; mutex and condition variables assumed to follow POSIX.' + T,
 'C09': 'Monitor-style proof: lock discipline, invariants on unlock, exclusive slot access; pthread spin locks assumed to exclude.' + T,
 'C01': 'Index safety of the coordinate mapping proved for every double (NaN and infinities included); the nearest-point result proved for all grids over real arithmetic.' + T + 'Rounding of double operations is treated as exact in the nearest-point and range obligations.',
 'C02': 'Offset, scaling and range of every dimension proved equal to those of the file for 1 to 4 dimensions.' + T + 'Double arithmetic treated as real.',
 'C03': 'Block count, block size, normalisation and time dimension proved for 1 to 4 dimensions and all sizes.' + T,
 'C04': 'Owner, local index, block start and position proved to be a bijection of all points, for all grids of 1 to 4 dimensions, both distributions.' + T + 'Stated size limits (2^44 points).',
 'C12': 'Every reading function proved for all offsets, sizes, shapes and 1 to 3 dimensions (whole-variable reads of 4 dimensions are checked within bounds only), block reads for 1 to 4 dimensions and all six element types.' + T + 'The netCDF library is represented by its documented contract.',
 'C13': 'Conversion of every element type, array and struct proved for all values; type checks against every level of the file.' + T + 'Narrowing between number formats is an uninterpreted function (that of the C++ conversion).',
 'C14': 'Error results of every opening function proved to be reported, and a grid that failed to open proved to stay unusable without harm.' + T,
 'C15': 'Counter arithmetic of every counting function, the sums of the grid and the names proved.' + T,
 'C16': 'C and Fortran functions proved to forward to the same grid function with the same values, and the handle table proved for all histories (monitor).' + T,
 'C17': 'Monitor proof over the registration of threads: one master per domain and consecutive domain numbers, for any number of threads, rounds and interleavings.' + T + 'std::map and std::vector<bool> assumed to be a finite map and an array.',
 'C19': 'Shared allocation, broadcast and release of NumaComm proved for all numbers of domains and threads; the barrier is represented by its contract (C18).' + T,
 'C22': 'The node-local rank proved to be the number of lower ranks with the same name, for all communicators.' + T + 'MPI_Comm_split and MPI_Allgather represented by their contracts.',
 'C23': 'Level checks, ownership of the levels and error paths proved for all histories of opens.' + T + 'std::deque assumed not to move its elements.',
 'C24': 'Lookup and storage of parameters proved for every name, value and level.' + T + 'std::unordered_map and std::string assumed.',
 'C25': 'Monitor proof of Once and of the opening of the grid: exactly one execution per round, and nobody passes before it ended.' + T,
 'C05': 'The loading loop of the fully stored levels (one process, one copy per process or per domain, split over the processes) proved for all grids, processes and domains: every local block is read once, from its own start, into its own slot of the local memory, and a failing allocation or window stops the level.' + T + 'The reader is represented by its contract (C12), the block geometry by C04; sizes below the stated limits.',
 'C06': 'Every path by which a level copies an element (own memory, other domain, window of another process, request to the communication thread, block cache) proved to read the process, domain and byte that hold the element, for all elements, domains and processes.' + T + 'MPI one-sided and two-sided calls represented by their contracts.',
 'C11': 'Directory entry and slot contents of the distributed cache proved consistent across replace, register, delete and lookup, for all entries, slots, domains and processes; the slot a process announces holds the block it announces, under the locks of the owner.' + T + 'MPI windows represented by contracts; unified memory model.',
 'C20': 'Tags, receivers and the handler of the communication thread proved for all histories of registrations, messages and start/stop; CPU selection proved for every number of CPUs.' + T + 'MPI calls represented by their contracts; std::unordered_map a finite map.',
 'C21': 'Monitor proof of the distributed mutex (ticket words, hand-over message) and of the mutex of the message tasks, for any number of processes and threads.' + T + 'MPI windows and message order represented by contracts.',
 'C26': 'The pass-through level proved to read exactly the element of the position, into the buffer of the calling thread, for all positions, threads and types.' + T + 'Buffer size below 2^31.',
}
NA = {
 'C27': 'deadlock freedom across processes depends on MPI progress, passive-target synchronisation and the global order of blocking calls of several processes: a liveness property no function contract within reach of a deductive verifier for this C++ code expresses; only its local parts (locks are released, no lock is requested twice, the replacement search ends) are proved, under C08, C09, C18 and C21',
}

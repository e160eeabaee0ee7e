#include <vector>
#define ASAGI_NOMPI
#include "asagi.h"
#define private public
#define protected public
#include "threads/sync.h"
template bool threads::Sync::broadcast<unsigned long>(unsigned long&, unsigned int, unsigned int, unsigned int);
template bool threads::Sync::broadcast<long*>(long*&, unsigned int, unsigned int, unsigned int);
template bool threads::Sync::broadcast<unsigned char*>(unsigned char*&, unsigned int, unsigned int, unsigned int);
template bool threads::Sync::broadcast<asagi::Grid::Error>(asagi::Grid::Error&, unsigned int, unsigned int, unsigned int);
template bool threads::Sync::broadcast<int>(int&, unsigned int, unsigned int, unsigned int);
void verif_use(threads::Sync &s) { s.startBarrier(); s.waitBarrier(1, true); s.endBarrier(); s.waiting(); s.barrier(3); threads::Sync t; }

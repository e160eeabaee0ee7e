// The reader of netCDF files.
#include <string>
#include <vector>
#include <limits>
#include <mutex>
#include <map>
#include <algorithm>
#include <cstring>
#define private public
#define protected public
#include "io/netcdfreader.cpp"
template void io::NetCdfReader::getBlock<unsigned char>(void*, const size_t*, const size_t*);
template void io::NetCdfReader::getBlock<int>(void*, const size_t*, const size_t*);
template void io::NetCdfReader::getBlock<long>(void*, const size_t*, const size_t*);
template void io::NetCdfReader::getBlock<float>(void*, const size_t*, const size_t*);
template void io::NetCdfReader::getBlock<double>(void*, const size_t*, const size_t*);
template void io::NetCdfReader::getBlock<void>(void*, const size_t*, const size_t*);

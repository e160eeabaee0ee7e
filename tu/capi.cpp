// The C and Fortran interfaces.
#include <string>
#include <vector>
#include <limits>
#include <mutex>
#include <map>
#include <deque>
#include <algorithm>
#include <cstring>
#include <sstream>
#include <unordered_map>
#define private public
#define protected public
#include "asagi.cpp"
#include "asagi_f90.cpp"
int verif_capi(grid::Grid &g) { return g.c2f() + (grid::Grid::f2c(1) != 0L); }

#define private public
#define protected public
#include "cache/cachemanager.h"
template class std::unordered_map<unsigned long, unsigned long>;
void verif_use(cache::CacheManager &m, cache::CacheList &l, cache::LRU &r, unsigned long *x, unsigned char** p, const unsigned char **q)
{
	r.init(1, 2); r.access(1); *x = r.getFree();
	l.init(1, 2); l.getIndex(1, *x); l.getFreeIndex(1, *x);
	m.init(*p, 1, 2, 3); m.get(1, *x, *p); m.tryGet(1, *x, *q); m.unlock(1);
}
void verif_life() { cache::CacheManager m; cache::CacheList l; cache::LRU r; }

// The renamed pthread operations (included once per program, after pthread.h).
// cond_wait etc. are renamed for the whole program, including libstdc++'s headers
extern "C" {
int vs_spin_init(pthread_spinlock_t*, int) noexcept { return 0; }
int vs_spin_destroy(pthread_spinlock_t*) noexcept { return 0; }
int vs_spin_lock(pthread_spinlock_t* l) noexcept { return vs::lock((void*)l); }
int vs_spin_trylock(pthread_spinlock_t* l) noexcept { return vs::trylock((void*)l); }
int vs_spin_unlock(pthread_spinlock_t* l) noexcept { return vs::unlock((void*)l); }
int vs_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
int vs_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int vs_mutex_lock(pthread_mutex_t* l) noexcept { return vs::lock((void*)l); }
int vs_mutex_trylock(pthread_mutex_t* l) noexcept { return vs::trylock((void*)l); }
int vs_mutex_unlock(pthread_mutex_t* l) noexcept { return vs::unlock((void*)l); }
int vs_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int vs_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int vs_cond_wait(pthread_cond_t* c, pthread_mutex_t* l) { return vs::wait((void*)c, (void*)l); }
int vs_cond_signal(pthread_cond_t* c) noexcept { return vs::signal((void*)c); }
int vs_cond_broadcast(pthread_cond_t* c) noexcept { return vs::broadcast((void*)c); }
void* vs_getspecific(pthread_key_t k) noexcept { std::map<unsigned, const void*>& m = vs::cur >= 0 ? vs::cos[vs::cur]->specific : vs::mainSpecific; return m.count(k) ? (void*)m[k] : 0; }
int vs_setspecific(pthread_key_t k, const void* v) noexcept { (vs::cur >= 0 ? vs::cos[vs::cur]->specific : vs::mainSpecific)[k] = v; return 0; }
int vs_key_create(pthread_key_t* k, void (*)(void*)) noexcept { *k = ++vs::keys; return 0; }
int vs_key_delete(pthread_key_t) noexcept { return 0; }
int vs_getcpu() noexcept { return vs::cur >= 0 ? vs::cur : 0; }
int vs_node_of_cpu(int cpu) noexcept { return vs::nodeOfThread ? vs::nodeOfThread(cpu) : 0; }
}

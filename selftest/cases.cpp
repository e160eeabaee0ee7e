// Small functions whose verdict is known: the verifier must accept the right
// ones and reject the wrong ones.
#include <cassert>
#include <pthread.h>
struct S { unsigned long n; unsigned char *a; unsigned k; pthread_mutex_t m; };
extern "C" {
int abs_ok(int x) { return x < 0 ? (x == -2147483647 - 1 ? 0 : -x) : x; }
int abs_bad(int x) { return x < 0 ? -x : x; }
unsigned char read_ok(S *s, unsigned long i) { return i < s->n ? s->a[i] : 0; }
unsigned char read_bad(S *s, unsigned long i) { return i <= s->n ? s->a[i] : 0; }
void fill_ok(S *s) { for (unsigned long i = 0; i < s->n; i++) s->a[i] = 0; }
void fill_bad(S *s) { for (unsigned long i = 1; i < s->n; i++) s->a[i] = 0; }
unsigned long div_bad(unsigned long a, unsigned long b) { return a / b; }
unsigned long div_ok(unsigned long a, unsigned long b) { return b ? a / b : 0; }
void lock_ok(S *s) { pthread_mutex_lock(&s->m); s->k++; pthread_mutex_unlock(&s->m); }
void lock_twice(S *s) { pthread_mutex_lock(&s->m); pthread_mutex_lock(&s->m); pthread_mutex_unlock(&s->m); }
void lock_leak(S *s) { pthread_mutex_lock(&s->m); }
void frame_bad(S *s) { s->k = 1; s->n = s->n + 1; }
void asserts(int x) { assert(x > 3); }
unsigned spin(unsigned x) { while (x != 7) x = 7 + (x & 8); return x; }
int freed(void) { int *p = new int(3); delete p; return *p; }
}

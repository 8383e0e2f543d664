/* Schedule perturbation for the RTI: random delays before taking a mutex, after waking up and around writing. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <unistd.h>
#include <stdatomic.h>
static atomic_uint seed;
static int level = -1;
static void delay(int weight) {
  if (level < 0) { const char* e = getenv("R_DELAY"); level = e ? atoi(e) : 0; const char* s = getenv("R_SEED"); seed = s ? (unsigned)atoi(s) : 1; }
  if (!level) return;
  unsigned x = atomic_fetch_add(&seed, 0x9e3779b9u); x ^= x >> 16; x *= 0x85ebca6bu; x ^= x >> 13; x *= 0xc2b2ae35u; x ^= x >> 16;
  if ((int)(x % 1000) < level * weight) usleep((x >> 10) % 3000);
}
int __real_pthread_mutex_lock(pthread_mutex_t*); int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { delay(1); return __real_pthread_mutex_lock(m); }
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*); int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { int r = __real_pthread_cond_wait(c, m); delay(5); return r; }
ssize_t __real_write(int, const void*, size_t); ssize_t __wrap_write(int f, const void* b, size_t n) { delay(2); ssize_t r = __real_write(f, b, n); delay(1); return r; }
ssize_t __real_read(int, void*, size_t); ssize_t __wrap_read(int f, void* b, size_t n) { ssize_t r = __real_read(f, b, n); delay(1); return r; }

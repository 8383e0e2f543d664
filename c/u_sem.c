// Permit ledger for the counting semaphore (U10).
#include <pthread.h>
#include <stdatomic.h>
#include <unistd.h>
#include <time.h>
#include "lf_semaphore.h"
#include "hutil.h"
static lf_semaphore_t* S; static _Atomic long issued_before, acquired; static int NA, NR, NW; static long per; static int tot_done; static _Atomic long rel_left; static long init;
static _Atomic int stop_w; static _Atomic long waits; static uint64_t sd;
static __thread uint64_t ts; static uint64_t trnd(void) { ts += 0x9e3779b97f4a7c15ull; return h_mix(ts); }
static void jitter(void) { uint64_t r = trnd() % 16; if (r == 0) sched_yield(); else if (r == 1) usleep(trnd() % 50); }
static void* acq(void* a) { ts = sd + (size_t)a; for (long i = 0; i < per; i++) { jitter(); lf_semaphore_acquire(S); long c = atomic_fetch_add(&acquired, 1) + 1; long is = atomic_load(&issued_before); if (c > is) fail("sem_overdraw", "%ld acquires completed with %ld permits issued", c, is); } return 0; }
static void* rel(void* a) { ts = sd + 1000 + (size_t)a; for (;;) { long l = atomic_load(&rel_left); if (l <= 0) return 0; long k = 1 + trnd() % 3; if (k > l) k = l; if (!atomic_compare_exchange_strong(&rel_left, &l, l - k)) continue; jitter(); atomic_fetch_add(&issued_before, k); lf_semaphore_release(S, k); } }
static void* wat(void* a) { ts = sd + 2000 + (size_t)a; while (!atomic_load(&stop_w)) { lf_semaphore_wait(S); atomic_fetch_add(&waits, 1); long is = atomic_load(&issued_before); if (is == 0) fail("sem_wait", "wait returned before any permit was issued"); jitter(); } return 0; }
int main(int argc, char** argv) {
  sd = strtoull(argv[1], 0, 10) * 1000003; h_s = sd; int rounds = atoi(argv[2]);
  for (int r = 0; r < rounds; r++) {
    NA = 1 + rn(6); NR = 1 + rn(4); NW = rn(3); per = 20 + rn(300); init = rn(5); atomic_store(&acquired, 0); atomic_store(&issued_before, init); atomic_store(&stop_w, 0);
    atomic_store(&rel_left, NA * per > init ? NA * per - init : 0); long surplus = NA * per > init ? 0 : init - NA * per;
    S = lf_semaphore_new(init); pthread_t t[32]; int n = 0;
    for (int i = 0; i < NA; i++) pthread_create(&t[n++], 0, acq, (void*)(size_t)i);
    for (int i = 0; i < NW; i++) pthread_create(&t[n++], 0, wat, (void*)(size_t)i);
    int w0 = NA; 
    for (int i = 0; i < NR; i++) pthread_create(&t[n++], 0, rel, (void*)(size_t)i);
    for (int i = 0; i < NA; i++) pthread_join(t[i], 0); // every acquirer must finish: permits suffice
    atomic_store(&stop_w, 1); lf_semaphore_release(S, 3); atomic_fetch_add(&issued_before, 3);
    for (int i = w0; i < n; i++) pthread_join(t[i], 0);
    if (S->count != (size_t)(3 + surplus)) fail("sem_count", "count %zu at the end, ledger says %ld", S->count, 3 + surplus);
    h_evals += NA * per; sig(NA * 100 + NR * 10 + NW + init * 1000);
    if (r < 4) sample("%d acquirers x %ld, %d releasers, %d waiters, initial %ld", NA, per, NR, NW, init);
    lf_semaphore_destroy(S); h_s = rnd();
  }
  stats(); return 0;
}

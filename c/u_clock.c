// Hostile system clock under lf_clock_gettime (U07); linked with --wrap=_lf_clock_gettime.
#include <pthread.h>
#include <stdatomic.h>
#include "clock.h"
#include "tag.h"
#include "hutil.h"
static _Atomic int64_t raw; static int mode; // 0: single thread script, 1: threads
static __thread uint64_t ts;
static uint64_t trnd(void) { ts += 0x9e3779b97f4a7c15ull; return h_mix(ts); }
int __wrap__lf_clock_gettime(instant_t* now) {
  if (mode) {
    uint64_t r = trnd();
    switch (r % 8) {
    case 0: atomic_fetch_sub(&raw, (int64_t)(r >> 40)); break;      // step back
    case 1: atomic_fetch_add(&raw, (int64_t)(r >> 44)); break;      // jump forward
    case 2: sched_yield(); break;
    default: atomic_fetch_add(&raw, (int64_t)(r >> 56) % 3); break; // creep
    }
  }
  *now = atomic_load(&raw);
  return 0;
}
static _Atomic int64_t maxdone; static long per; static _Atomic long bad;
static void* thr(void* a) {
  ts = (uint64_t)(size_t)a * 77773 + h_s; int64_t last = INT64_MIN;
  for (long i = 0; i < per; i++) {
    int64_t m = atomic_load(&maxdone), r = lf_time_physical();
    if (r < m) { if (atomic_fetch_add(&bad, 1) < 3) fail("clock_order", "reading %lld after an earlier completed reading %lld", (long long)r, (long long)m); }
    if (r < last) { if (atomic_fetch_add(&bad, 1) < 3) fail("clock_thread", "reading %lld after %lld in one thread", (long long)r, (long long)last); }
    last = r;
    int64_t c = atomic_load(&maxdone);
    while (c < r && !atomic_compare_exchange_weak(&maxdone, &c, r)) {}
  }
  return 0;
}
int main(int argc, char** argv) {
  h_s = strtoull(argv[1], 0, 10) + 5; long n = atol(argv[2]); int nt = atoi(argv[3]);
  int64_t prev = INT64_MIN; atomic_store(&raw, (int64_t)1000000);
  for (long i = 0; i < n; i++) {
    int64_t v = atomic_load(&raw); int c = rn(7);
    switch (c) { case 0: v -= (int64_t)rn(1 << 20); break; case 1: v += (int64_t)rn(1 << 20); break; case 2: v = prev; break; case 3: v = prev - 1; break; case 4: v = prev + 1; break; case 5: v += 1; break; default: break; }
    if (v < 0) v = 0;
    atomic_store(&raw, v);
    int64_t r = lf_time_physical(); h_evals++; sig(c * 8 + (v > prev) * 2 + (v == prev));
    if (i < 4) sample("raw %lld previous %lld -> %lld", (long long)v, (long long)prev, (long long)r);
    if (r < prev) fail("clock_back", "reading %lld after %lld (system clock %lld)", (long long)r, (long long)prev, (long long)v);
    if (v >= prev && r != v) fail("clock_follow", "reading %lld, system clock %lld, previous %lld", (long long)r, (long long)v, (long long)prev);
    if (v < prev && r > prev + 1000) fail("clock_runaway", "reading %lld, system clock %lld, previous %lld", (long long)r, (long long)v, (long long)prev);
    prev = r;
  }
  mode = 1; per = n; atomic_store(&maxdone, INT64_MIN);
  pthread_t t[32]; for (int i = 0; i < nt; i++) pthread_create(&t[i], 0, thr, (void*)(size_t)(i + 1));
  for (int i = 0; i < nt; i++) pthread_join(t[i], 0);
  h_evals += n * nt; sig(1000 + nt); stats(); return 0;
}

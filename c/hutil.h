// Shared helpers of the harnesses: RNG, failure lines, distinct-signature set.
#ifndef HUTIL_H
#define HUTIL_H
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
static uint64_t h_s;
static inline uint64_t h_mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static inline uint64_t rnd(void) { h_s += 0x9e3779b97f4a7c15ull; uint64_t x = h_s; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static inline uint64_t rn(uint64_t n) { return rnd() % n; }
static long h_evals, h_fails;
#define SIGN (1 << 20)
static uint64_t *h_sigs; static long h_nsig;
static inline void sig(uint64_t v) {
  if (!h_sigs) h_sigs = (uint64_t*)calloc(SIGN, 8);
  v = h_mix(v) | 1;
  for (uint64_t i = v & (SIGN - 1), n = 0; n < 64; n++, i = (i + 1) & (SIGN - 1)) {
    if (h_sigs[i] == v) return;
    if (!h_sigs[i]) { h_sigs[i] = v; h_nsig++; return; }
  }
}
static inline void fail(const char* key, const char* fmt, ...) {
  if (h_fails++ > 20) return;
  char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  printf("FAIL %s %s\n", key, b); fflush(stdout);
}
static inline void sample(const char* fmt, ...) {
  static int n; if (n++ >= 6) return;
  char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  printf("SAMPLE %s\n", b);
}
static inline void stats(void) { printf("STAT %ld %ld\n", h_evals, h_nsig); fflush(stdout); }
#endif

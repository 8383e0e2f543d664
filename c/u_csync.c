// F08: the harness plays the RTI in clock synchronisation; the federate's system clock is scripted. Linked with --wrap of the platform clock, read, write, recvfrom and the timed waits.
#define _GNU_SOURCE
#include <pthread.h>
#include <stdatomic.h>
#include <unistd.h>
#include <errno.h>
#include <math.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "federate.h"
#include "federated/clock-sync.h"
#include "federated/network/net_common.h"
#include "federated/network/net_util.h"
#include "clock.h"
#include "tag.h"
#include "hutil.h"
extern int _lf_my_fed_id; extern int _lf_rti_socket_UDP;
#define NX _LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL
static _Atomic int64_t raw; static _Atomic int entered; static __thread int fedthread, lastgot = 1;
static _Atomic int64_t ld, r5raw; static _Atomic int probing; static int tcp_fd = -1;
int __wrap__lf_clock_gettime(instant_t* t) { *t = atomic_load(&raw); return 0; }
ssize_t __real_write(int, const void*, size_t); ssize_t __real_read(int, void*, size_t); ssize_t __real_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
static int isfed(int f) { return f == tcp_fd || f == _lf_rti_socket_UDP; }
ssize_t __wrap_write(int f, const void* b, size_t n) { if (isfed(f)) atomic_fetch_add(&raw, ld); return __real_write(f, b, n); }
ssize_t __wrap_read(int f, void* b, size_t n) {
  if (!isfed(f)) return __real_read(f, b, n);
  fedthread = 1; if (lastgot && f == tcp_fd) atomic_fetch_add(&entered, 1);
  ssize_t r = __real_read(f, b, n); lastgot = r > 0;
  if (f == _lf_rti_socket_UDP && r > 0) atomic_store(&raw, r5raw);
  return r;
}
ssize_t __wrap_recvfrom(int f, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
  if (!isfed(f)) return __real_recvfrom(f, b, n, fl, a, l);
  fedthread = 1; if (lastgot) atomic_fetch_add(&entered, 1);
  ssize_t r = __real_recvfrom(f, b, n, fl, a, l); lastgot = r > 0; return r;
}
ssize_t __wrap___recvfrom_chk(int f, void* b, size_t n, size_t m, int fl, struct sockaddr* a, socklen_t* l) { (void)m; return __wrap_recvfrom(f, b, n, fl, a, l); }
ssize_t __wrap___read_chk(int f, void* b, size_t n, size_t m) { (void)m; return __wrap_read(f, b, n); }
static _Thread_local instant_t waited;
int __wrap__lf_cond_timedwait(lf_cond_t* c, instant_t w) { (void)c; waited = w; return 0; }
int __wrap__lf_interruptable_sleep_until_locked(environment_t* e, instant_t w) { (void)e; waited = w; return 0; }
static void idle(int c) { for (long i = 0; atomic_load(&entered) <= c; i++) { usleep(i < 200 ? 20 : 1000); if (i > 20000) { fail("stuck", "the federate does not return to waiting for messages"); stats(); exit(1); } } }
static void put64(unsigned char* b, int64_t v) { for (int i = 0; i < 8; i++) b[i] = (unsigned char)((uint64_t)v >> (8 * i)); }
static int s_udp; static struct sockaddr_in to;
static void snd(int tcp, int type, int64_t v) { unsigned char b[9]; b[0] = (unsigned char)type; put64(b + 1, v); if (tcp >= 0) send(tcp, b, 9, 0); else sendto(s_udp, b, 9, 0, (struct sockaddr*)&to, sizeof to); }
static int64_t pick(int64_t m) { int64_t v = (int64_t)rn((uint64_t)m + 1); switch (rn(6)) { case 0: return 0; case 1: return m; case 2: return v % 100; case 3: return m - v % 100 < 0 ? m : m - v % 100; default: return v; } }
// the model
static int64_t offset, hist; static int64_t samp[64 + 1]; static int ns, cnt_min, cnt_max; static int64_t last = INT64_MIN;
static int64_t phys(void) { return raw + (LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT ? offset : 0); }
static int apply(void) { // 1 must, 0 must not, -1 either
  if (ns == 0) return 1;
  long double a = 0, v = 0; for (int i = 0; i < ns; i++) a += samp[i]; a /= ns; for (int i = 0; i < ns; i++) v += (samp[i] - a) * (samp[i] - a);
  long double sd = sqrtl(v / ns); return sd < 0.97L * CLOCK_SYNC_GUARD_BAND - 20 ? 1 : sd > 1.03L * CLOCK_SYNC_GUARD_BAND + 20 ? 0 : -1;
}
static _Atomic int run_reader = 1; static int have_reader; static _Atomic long reads;
static void* reader(void* a) {
  (void)a; int64_t p = INT64_MIN; static _Atomic int bad;
  while (run_reader) { int64_t t = lf_time_physical(); if (t < p && !bad++) fail("not_monotone", "a thread reads %lld after %lld while corrections are applied", (long long)t, (long long)p); p = t; atomic_fetch_add(&reads, 1); if (reads % 64 == 0) usleep(1); }
  return 0;
}
// With a concurrent reader the clock creeps while the system clock stands still: only monotonicity is judged then.
static void vfail(const char* k, const char* f, ...) { if (have_reader) return; char b[1200]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); fail(k, "%s", b); }
static int64_t ceil_;
static int64_t read_now(const char* when) {
  int64_t e = phys(), t = lf_time_physical();
  if (t < last) fail("not_monotone", "physical time %lld after %lld, %s", (long long)t, (long long)last, when);
  if (!have_reader && e < last && t > (last > ceil_ ? last : ceil_) + 1000) fail("runaway", "physical time %lld; corrected clock %lld, previous reading %lld, %s", (long long)t, (long long)e, (long long)last, when);
  last = t; return t;
}
static void check_offset(int64_t before, const char* when, long it) {
  // the first reading after a correction may be held back for monotonicity; afterwards let the clock run far ahead
  ceil_ = raw + (before > offset ? before : offset); read_now(when); atomic_fetch_add(&raw, (int64_t)1000 * SEC(1) + (before > offset ? before - offset : 0));
  int64_t t = read_now(when), o = t - raw;
  if (o != (LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT ? offset : 0)) { vfail("offset", "%s %ld: the applied offset is %lld, the exchanged timestamps prescribe %lld (before: %lld)", when, it, (long long)o, (long long)offset, (long long)before); offset = o; }
}
static void check_wait(void) {
  int64_t w = raw + (int64_t)rn(1u << 30); if (rn(8) == 0) w = FOREVER;
  lf_cond_t c; memset(&c, 0, sizeof c); int64_t o = LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT ? offset : 0;
  waited = -1; lf_clock_cond_timedwait(&c, w);
  if (waited != (w == FOREVER ? FOREVER : w - o)) vfail("wait", "waiting until %lld with offset %lld waits until system time %lld", (long long)w, (long long)o, (long long)waited);
  waited = -1; lf_clock_interruptable_sleep_until_locked(0, w);
  if (waited != (w == FOREVER ? FOREVER : w - o)) vfail("wait", "sleeping until %lld with offset %lld sleeps until system time %lld", (long long)w, (long long)o, (long long)waited);
}
static void* initial(void* a) { int fd = *(int*)a; synchronize_initial_physical_clock_with_rti(&fd); lastgot = 1; atomic_fetch_add(&entered, 1); return 0; }
static int recv3(int fd) {
  unsigned char b[64]; ssize_t n = recv(fd, b, fd == s_udp ? sizeof b : 5, fd == s_udp ? 0 : MSG_WAITALL);
  if (n != 5 || b[0] != MSG_TYPE_CLOCK_SYNC_T3 || (b[1] | b[2] << 8 | b[3] << 16 | b[4] << 24) != _lf_my_fed_id) { fail("t3", "reply of %zd bytes, type %d, federate %d to T1", n, b[0], b[1]); return 0; }
  return 1;
}
static void initial_phase(long it) {
  int sp[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) exit(2);
  tcp_fd = sp[0]; int64_t D = (int64_t)(rn(3) || it ? rn(10 * SEC(1)) : rn((uint64_t)SEC(300000000))) * (rn(2) ? 1 : -1), jit = rn(3) ? USEC(20) : USEC(400), h = 0; ns = 0; int64_t before = offset;
  int c = atomic_load(&entered); pthread_t t; pthread_create(&t, 0, initial, &sp[0]); idle(c);
  for (int i = 0; i < NX; i++) {
    atomic_fetch_add(&raw, (int64_t)SEC(1) + rn(SEC(1))); atomic_store(&ld, pick(MSEC(5)));
    int64_t A = raw, t2 = phys(), d1 = USEC(50) + pick(jit), d2 = USEC(50) + pick(jit), t1 = t2 - D - d1, t4 = t1 + d1 + ld + d2;
    c = atomic_load(&entered); snd(sp[1], MSG_TYPE_CLOCK_SYNC_T1, t1); if (!recv3(sp[1])) return; idle(c);
    (void)A; atomic_fetch_add(&raw, d2); c = atomic_load(&entered); snd(sp[1], MSG_TYPE_CLOCK_SYNC_T4, t4); idle(c);
    int64_t rtt = t4 - t1 - ld, err = rtt / 2 - (t2 - t1); h += err / NX; samp[ns++] = rtt;
  }
  pthread_join(t, 0); tcp_fd = -1; close(sp[0]); close(sp[1]);
  int ap = apply(); 
  atomic_store(&ld, 0); 
  if (ap == -1) { atomic_fetch_add(&raw, (int64_t)1000 * SEC(1) + llabs(D)); int64_t o = read_now("x") - raw; if (o != before && o != before + h && LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT) vfail("offset", "initial %ld: offset %lld, expected %lld or %lld", it, (long long)o, (long long)before, (long long)(before + h)); offset = LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT ? o : before + h; }
  else { if (ap) offset += h; check_offset(before, "initial synchronisation", it); }
  h_evals++; sig(1000 + ap * 100 + (D > 0) * 10 + (jit > 50000)); sample("initial: true offset %lld, measured correction %lld, %s", (long long)-D, (long long)h, ap == 1 ? "applied" : ap ? "either" : "discarded (noise)");
  check_wait(); hist = 0; ns = 0; cnt_min = cnt_max = 0;
}
int main(int argc, char** argv) {
  (void)argc; h_s = strtoull(argv[1], 0, 10) * 77 + 5; long n = atol(argv[2]); _lf_my_fed_id = (int)rn(300); atomic_store(&raw, (int64_t)1700000000 * SEC(1));
  have_reader = atoi(argv[3]); pthread_t rt; if (have_reader) pthread_create(&rt, 0, reader, 0);
  initial_phase(0); // a federate does this once
  uint16_t port = setup_clock_synchronization_with_rti();
  if (LF_CLOCK_SYNC < LF_CLOCK_SYNC_ON) {
    if (port != (LF_CLOCK_SYNC == LF_CLOCK_SYNC_INIT ? 0 : UINT16_MAX)) fail("port", "announces UDP port %d with clock synchronisation mode %d", port, LF_CLOCK_SYNC);
    for (long i = 1; i < n / 20 + 2; i++) initial_phase(i);
    run_reader = 0; if (have_reader) pthread_join(rt, 0); stats(); return 0;
  }
  s_udp = socket(AF_INET, SOCK_DGRAM, 0); struct sockaddr_in me = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)}; if (bind(s_udp, (struct sockaddr*)&me, sizeof me)) exit(2);
  to = me; to.sin_port = htons(port); struct timeval tv = {10, 0}; setsockopt(s_udp, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  lf_thread_t th; int c = atomic_load(&entered); if (create_clock_sync_thread(&th)) fail("thread", "no thread"); idle(c);
  int64_t D = 0, jit = 0, alts[2] = {0, 0}; int rounds = 0;
  for (long it = 1; it <= n; it++) {
    if (it % (NX * 2) == 1) { D = pick(SEC(3)) * (rn(2) ? 1 : -1); jit = rn(3) ? USEC(20) : USEC(600); }
    int what = (int)rn(14); atomic_fetch_add(&raw, (int64_t)SEC(60)); atomic_store(&ld, pick(USEC(300))); h_evals++;
    if (what < 2) { // messages out of place
      c = atomic_load(&entered); snd(-1, rn(2) ? MSG_TYPE_CLOCK_SYNC_T4 : MSG_TYPE_CLOCK_SYNC_CODED_PROBE, raw + (int64_t)rn(SEC(5))); idle(c); sig(1); check_offset(offset, "after a message out of place", it); continue;
    }
    int64_t t2 = phys(), d1 = USEC(50) + pick(jit), d2 = USEC(50) + pick(jit), t1 = t2 - D - d1, t4 = t1 + d1 + ld + d2;
    c = atomic_load(&entered); snd(-1, MSG_TYPE_CLOCK_SYNC_T1, t1); if (!recv3(s_udp)) break; idle(c);
    if (what == 2) { // the RTI starts over: both exchanges are void
      c = atomic_load(&entered); snd(-1, MSG_TYPE_CLOCK_SYNC_T1, t1 + 5000000); idle(c);
      c = atomic_load(&entered); snd(-1, MSG_TYPE_CLOCK_SYNC_T4, t4); idle(c); sig(2); check_offset(offset, "after a void exchange", it); continue;
    }
    atomic_fetch_add(&raw, d2); int64_t r4 = raw, gap = (int64_t)rn(MSEC(2)), g;
    switch (rn(8)) { case 0: g = CLOCK_SYNC_GUARD_BAND - 1; break; case 1: g = CLOCK_SYNC_GUARD_BAND; break; case 2: g = CLOCK_SYNC_GUARD_BAND + (int64_t)rn(MSEC(1)); break; default: g = (int64_t)rn(CLOCK_SYNC_GUARD_BAND); }
    if (rn(2)) { g = -g; if (gap < -g) gap = -g; }
    int64_t before = offset, rtt = t4 - t1 - ld, err = rtt / 2 - (t2 - t1); atomic_store(&r5raw, r4 + gap + g);
    int wrong = what == 3; c = atomic_load(&entered); snd(-1, MSG_TYPE_CLOCK_SYNC_T4, t4);
    snd(-1, wrong ? (rn(2) ? MSG_TYPE_CLOCK_SYNC_T1 : MSG_TYPE_CLOCK_SYNC_T4) : MSG_TYPE_CLOCK_SYNC_CODED_PROBE, t4 + gap); idle(c);
    int good = !wrong && llabs(g) < CLOCK_SYNC_GUARD_BAND;
    if (good) { hist += err / _LF_CLOCK_SYNC_ATTENUATION / NX; samp[ns++] = rtt; cnt_min++; cnt_max++; rounds++; } else if (wrong) cnt_max++;
    sig(10 + good * 40 + wrong * 20 + (llabs(g) >= CLOCK_SYNC_GUARD_BAND) * 10 + (g > 0) * 5 + (D > 0) + 2 * (jit > 50000) + 100 * (uint64_t)cnt_min);
    // observe: the offset changes only when a full window of accepted rounds has been collected
    int64_t o; ceil_ = raw + before + llabs(hist); read_now("round"); atomic_fetch_add(&raw, (int64_t)1000 * SEC(1)); o = read_now("round") - raw;
    int ap = good && cnt_max >= NX ? apply() : 0; (void)alts;
    if (good && cnt_max >= NX) { // the window may be complete (it is when no round was lost)
      int must = cnt_min >= NX;
      if (o == before + hist && hist != 0 && ap != 0) { offset = o; hist = 0; ns = cnt_min = cnt_max = 0; }
      else if (o == before && (ap != 1 || hist == 0)) { hist = 0; ns = cnt_min = cnt_max = 0; } // discarded because of noise
      else if (o == before && !must) {}
      else { vfail("offset", "round %ld (%d accepted, %d lost in this window): offset %lld -> %lld, the exchanged timestamps prescribe %s%lld", it, cnt_min, cnt_max - cnt_min, (long long)before, (long long)o, ap == 0 ? "no change, not " : "", (long long)(before + hist)); offset = o; hist = 0; ns = cnt_min = cnt_max = 0; }
      sample("window: correction %lld, %s", (long long)(o - before), ap ? "applied" : "discarded");
    } else if (o != before) { vfail("offset", "round %ld (%s, %d accepted in this window): offset %lld -> %lld", it, good ? "accepted" : wrong ? "without coded probe" : "noisy", cnt_min, (long long)before, (long long)o); offset = o; hist = 0; ns = cnt_min = cnt_max = 0; }
    if (rn(4) == 0) check_wait();
  }
  run_reader = 0; if (have_reader) { pthread_join(rt, 0); }
  printf("COUNT accepted_rounds %d\nCOUNT concurrent_readings %ld\n", rounds, (long)reads);
  stats(); fflush(stdout); _exit(0);
}

// Monitors for the wire encoding, socket transfer with an injected kernel, and the RTI address parser.
#include <errno.h>
#include <sys/socket.h>
#include <unistd.h>
#include <ctype.h>
#include "federate.h"
#include "net_util.h"
extern federation_metadata_t federation_metadata;
#include "reactor_common.h"
#include "hutil.h"
// ------------------------------------------------------------------ injected kernel
// A scripted stream: every call transfers some bytes, fails transiently or for good, or ends.
enum { FD = 777 };
static unsigned char* k_data; static size_t k_len, k_off;   // bytes of the peer (read) or bytes received by the peer (write)
static size_t k_break; static int k_how;                    // after k_break bytes: 0 never, 1 EOF, 2 error
static int k_maxseg, k_transient, k_sleeps, k_closed, k_shut, k_beyond;
static int k_err(void) { static const int e[] = {EAGAIN, EINTR, EWOULDBLOCK}; return e[rn(3)]; }
static int k_fatal(void) { static const int e[] = {EPIPE, ECONNRESET, EBADF, EIO, ENOTCONN}; return e[rn(5)]; }
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t); int __real_close(int); int __real_shutdown(int, int); int __real_lf_sleep(interval_t);
ssize_t __wrap_read(int fd, void* b, size_t n) {
  if (fd != FD) return __real_read(fd, b, n);
  if (k_closed) { errno = EBADF; return -1; }
  if (k_transient && rn(100) < (uint64_t)k_transient) { errno = k_err(); return -1; }
  if (k_how && k_off >= k_break) { if (k_how == 1) return 0; errno = k_fatal(); return -1; }
  size_t m = 1 + rn(k_maxseg); if (m > n) m = n;
  if (k_how && k_off + m > k_break) m = k_break - k_off;
  if (k_off + m > k_len) m = k_len - k_off;
  memcpy(b, k_data + k_off, m); k_off += m;
  errno = rn(3) ? errno : EAGAIN;      // a stale errno must not matter
  return (ssize_t)m;
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  if (fd != FD) return __real_write(fd, b, n);
  if (k_closed) { errno = EBADF; return -1; }
  if (k_transient && rn(100) < (uint64_t)k_transient) { errno = k_err(); return -1; }
  if (k_how && k_off >= k_break) { errno = k_fatal(); return -1; }
  size_t m = 1 + rn(k_maxseg); if (m > n) m = n;
  if (k_how && k_off + m > k_break) m = k_break - k_off;
  if (k_off + m > k_len) { k_beyond = 1; m = k_len - k_off; if (!m) return (ssize_t)n; }
  memcpy(k_data + k_off, b, m); k_off += m;
  return (ssize_t)m;
}
ssize_t __wrap_recv(int fd, void* b, size_t n, int f) { return __wrap_read(fd, b, n); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int f) { return __wrap_write(fd, b, n); }
int __wrap_close(int fd) { if (fd == FD) { k_closed++; return 0; } return __real_close(fd); }
int __wrap_shutdown(int fd, int h) { if (fd == FD) { k_shut++; return 0; } return __real_shutdown(fd, h); }
int __wrap_lf_sleep(interval_t d) { k_sleeps++; return 0; }
static int64_t r64(void) { switch (rn(5)) { case 0: return (int64_t)rnd(); case 1: return (int64_t)((1ull << rn(64)) - rn(3)); case 2: return -(int64_t)rn(1000); case 3: return rn(2) ? INT64_MAX - (int64_t)rn(3) : INT64_MIN + (int64_t)rn(3); default: return (int64_t)rn(70000); } }
static void le(unsigned char* e, uint64_t v, int n) { for (int i = 0; i < n; i++) e[i] = (unsigned char)(v >> (8 * i)); }
#define CHK(nm, call, ext, T, v, n) do { unsigned char* b = malloc(n); unsigned char e[16]; memset(b, 0xA5, n); call; le(e, (uint64_t)(v), n); \
  if (memcmp(b, e, n)) fail("encode_" nm, "value %lld is not encoded little-endian", (long long)(v)); \
  T q = ext(e_in(e, n)); if (q != (v)) fail("extract_" nm, "decoding the bytes of %lld gives %lld", (long long)(v), (long long)q); free(b); } while (0)
static unsigned char* tofree[64]; static int ntf;
static unsigned char* e_in(unsigned char* e, int n) { unsigned char* p = malloc(n + (rn(2) ? 0 : 0)); memcpy(p, e, n); tofree[ntf++] = p; return p; }   // exact-size copy: overreads are reported
static void do_codec(long n) {
  for (long i = 0; i < n; i++) {
    h_evals++;
    int64_t v = r64(); int32_t w = (int32_t)r64(); uint32_t u = (uint32_t)r64(); uint16_t s = (uint16_t)r64();
    CHK("int64", encode_int64(v, b), extract_int64, int64_t, v, 8);
    CHK("int32", encode_int32(w, b), extract_int32, int32_t, w, 4);
    CHK("uint32", encode_uint32(u, b), extract_uint32, uint32_t, u, 4);
    CHK("uint16", encode_uint16(s, b), extract_uint16, uint16_t, s, 2);
    tag_t t = {v, u}; unsigned char* b = malloc(12); unsigned char e[12]; encode_tag(b, t); le(e, (uint64_t)v, 8); le(e + 8, u, 4);
    if (memcmp(b, e, 12)) fail("encode_tag", "(%lld,%u)", (long long)v, u);
    tag_t q = extract_tag(b); if (q.time != v || q.microstep != u) fail("extract_tag", "(%lld,%u) -> (%lld,%u)", (long long)v, u, (long long)q.time, q.microstep);
    free(b);
    uint16_t port = (uint16_t)rnd(), fed = (uint16_t)rnd(); uint32_t len = rn(3) ? (uint32_t)rn(100000) : (uint32_t)rnd();
    unsigned char* h = malloc(20); le(h, port, 2); le(h + 2, fed, 2); le(h + 4, len, 4); memcpy(h + 8, e, 12);
    uint16_t p2, f2; size_t l2; tag_t t2;
    extract_timed_header(h, &p2, &f2, &l2, &t2);
    if (p2 != port || f2 != fed || l2 != len || t2.time != v || t2.microstep != u) fail("timed_header", "port %u federate %u length %u -> %u %u %zu", port, fed, len, p2, f2, l2);
    unsigned char* h8 = malloc(8); memcpy(h8, h, 8); free(h); extract_header(h8, &p2, &f2, &l2); free(h8);
    if (p2 != port || f2 != fed || l2 != len) fail("header", "port %u federate %u length %u -> %u %u %zu", port, fed, len, p2, f2, l2);
    while (ntf) free(tofree[--ntf]);
    sig((uint64_t)(v < 0) + 2 * (v > INT32_MAX || v < INT32_MIN) + 4 * (u >> 31) + 8 * (w < 0) + 16 * (len >> 31) + 32 * (s >> 15) + 64 * __builtin_clzll((uint64_t)v | 1));
    if (i < 2) sample("int64 %lld tag microstep %u header length %u", (long long)v, u, len);
  }
}
static void do_xfer(long n) {
  for (long i = 0; i < n; i++) {
    h_evals++;
    size_t want = rn(4) ? rn(40) : rn(3000); int rd = rn(2), mode = rn(2);
    k_len = rd ? want + rn(20) : want; k_data = malloc(k_len + 1); k_off = 0; k_maxseg = rn(3) ? 1 + (int)rn(8) : 4096; k_transient = rn(2) ? (int)rn(60) : 0;
    k_how = rn(3) ? 0 : 1 + (int)rn(2); k_break = rn(want + 2); k_sleeps = k_closed = k_shut = k_beyond = 0;
    if (!rd && k_how == 1) k_how = 2;
    unsigned char* src = malloc(want + 20); for (size_t j = 0; j < want + 20; j++) src[j] = (unsigned char)rnd();
    unsigned char* buf = malloc(want + 1); memset(buf, 0xEE, want + 1); int sock = FD, r;
    int brk = k_how && k_break < want;
    if (rd) { memcpy(k_data, src, k_len); r = mode ? read_from_socket(FD, want, buf) : read_from_socket_close_on_error(&sock, want, buf); }
    else { memcpy(buf, src, want); r = mode ? write_to_socket(FD, want, buf) : write_to_socket_close_on_error(&sock, want, buf); }
    const char* nm = rd ? "read" : "write"; char key[60];
#define F(k, ...) do { snprintf(key, sizeof key, "%s_%s", nm, k); fail(key, __VA_ARGS__); } while (0)
    if (!brk) {
      if (r != 0) F("fails", "%zu bytes, segments up to %d, transient errors %d%%: returned %d", want, k_maxseg, k_transient, r);
      if (k_off != want) F("amount", "%zu bytes requested, %zu transferred", want, k_off);
      if (memcmp(rd ? buf : k_data, src, want)) F("content", "%zu bytes transferred with different content (segments up to %d)", want, k_maxseg);
      if (sock != FD || k_closed) F("closed", "the socket was closed although the transfer succeeded");
    } else {
      if (r == 0) F("undetected", "only %zu of %zu bytes available but success was returned", k_break, want);
      if (!mode && (sock != -1 || k_closed != 1)) F("not_closed", "after a failure the socket is %d and was closed %d times", sock, k_closed);
      if (mode && rd && ((k_how == 1) != (r == 1))) F("eof", "end of file %d but the result is %d", k_how == 1, r);
    }
    if (rd && buf[want] != 0xEE) F("overrun", "wrote beyond the requested bytes");
    if (k_beyond) F("excess", "more bytes than requested were written");
    sig((uint64_t)rd + 2 * mode + 4 * k_how + 16 * brk + 32 * (k_maxseg > 8) + 64 * (k_transient > 0) + 128 * (want == 0) + 256 * (want > 100) + 512 * (k_how && k_break == 0));
    if (i < 3) sample("%s of %zu bytes, segments <= %d, transient %d%%, break %d at %zu -> %d", nm, want, k_maxseg, k_transient, k_how, k_break, r);
    errno = 0;
    if (read_from_socket(-1, 4, buf) == 0 || write_to_socket(-1, 0, buf) == 0) F("invalid_fd", "success on a socket that is not open");
    free(k_data); free(src); free(buf);
  }
}
// ------------------------------------------------------------------ RTI addresses
static const char LC[] = "abcdefghijklmnopqrstuvwxyz0123456789";
static int rlabel(char* d, int max) { int n = 1 + (int)rn(max), k = 0; for (int i = 0; i < n; i++) { if (i && i < n - 1 && rn(6) == 0 && d[k - 1] != '-') d[k++] = '-'; else d[k++] = LC[rn(36)]; } d[k] = 0; return k; }
static void rhost(char* d) {
  int k = 0;
  if (rn(4) == 0) { sprintf(d, "%d.%d.%d.%d", (int)rn(256), (int)rn(256), (int)rn(256), (int)rn(256)); return; }
  int parts = rn(2) ? 1 : 1 + (int)rn(6);
  for (int i = 0; i < parts; i++) { if (i) d[k++] = '.'; k += rlabel(d + k, rn(10) == 0 ? 40 : 10); }
  if (parts > 1) { d[k++] = '.'; int n = 2 + (int)rn(3); for (int i = 0; i < n; i++) d[k++] = LC[rn(26)]; }
  d[k] = 0;
}
static int ruser(char* d) {    // returns whether the name is valid
  int how = rn(8), n = 1 + (int)rn(how == 0 ? 32 : 12), k = 0;
  static const char A[] = "abcdefghijklmnopqrstuvwxyz_", B[] = "abcdefghijklmnopqrstuvwxyz0123456789_-";
  d[k++] = A[rn(27)]; while (k < n) d[k++] = B[rn(38)];
  int ok = 1;
  switch (how) {
  case 1: d[0] = (char)('0' + rn(10)); ok = 0; break;
  case 2: d[rn(k)] = (char)('A' + rn(26)); ok = 0; break;
  case 3: while (k < 33 + (int)rn(60)) d[k++] = 'x'; ok = 0; break;
  case 4: d[0] = '-'; ok = 0; break;
  }
  d[k] = 0; return ok;
}
static void one_addr(const char* s, const char* u, const char* h, const char* p, int expect, const char* what) {
  // expect 1: must be accepted with exactly these fields; 0: must be rejected; -1: only memory safety and consistency
  char* in = malloc(strlen(s) + 1); strcpy(in, s);
  federation_metadata.rti_host = NULL; federation_metadata.rti_port = -1; federation_metadata.rti_user = NULL;
  rti_addr_info_t* info = calloc(1, sizeof *info); extract_rti_addr_info(in, info);
  if (memchr(info->rti_host_str, 0, sizeof info->rti_host_str) == NULL || memchr(info->rti_port_str, 0, sizeof info->rti_port_str) == NULL || memchr(info->rti_user_str, 0, sizeof info->rti_user_str) == NULL) fail("addr_unterminated", "'%s'", s);
  free(info);
  int r = lf_parse_rti_addr(in);
  const char *gh = federation_metadata.rti_host, *gu = federation_metadata.rti_user; int gp = federation_metadata.rti_port;
  if (expect == 1) {
    if (r != SUCCESS) fail("addr_rejected", "'%s' is a well-formed address but is rejected with code %d", s, r);
    else if (!gh || strcmp(gh, h) || (u ? !gu || strcmp(gu, u) : gu != NULL) || (p ? gp != atoi(p) : gp != -1))
      fail("addr_fields", "'%s' gives user '%s' host '%s' port %d", s, gu ? gu : "(none)", gh ? gh : "(none)", gp);
  } else if (expect == 0) {
    if (r == SUCCESS) fail(what, "'%s' is accepted with user '%s' host '%s' port %d", s, gu ? gu : "(none)", gh ? gh : "(none)", gp);
  } else if (r == SUCCESS) {
    char re[800]; snprintf(re, sizeof re, "%s%s%s", gu ? gu : "", gu ? "@" : "", gh ? gh : "");
    if (strncmp(re, s, strlen(re))) fail("addr_inconsistent", "'%s' is accepted with user '%s' host '%s'", s, gu ? gu : "(none)", gh ? gh : "(none)");
    if (gp < -1 || gp > 65535) fail("addr_port_range", "'%s' is accepted with port %d", s, gp);
  }
  free((void*)gh); free((void*)gu); free(in);
}
static void do_addr(long n) {
  char u[300], h[700], p[40], s[1200];
  for (long i = 0; i < n; i++) {
    h_evals++;
    int kind = rn(10), hu = rn(2), hp = rn(2), uok = 1;
    do rhost(h); while (strlen(h) > 250);
    if (hu) uok = ruser(u);
    sprintf(p, "%d", rn(4) ? (int)rn(65536) : rn(2) ? 65535 : 0);
    if (rn(12) == 0) while (strlen(p) < 5) { memmove(p + 1, p, strlen(p) + 1); p[0] = '0'; }
    if (kind < 5) {
      snprintf(s, sizeof s, "%s%s%s%s%s", hu ? u : "", hu ? "@" : "", h, hp ? ":" : "", hp ? p : "");
      one_addr(s, hu ? u : NULL, h, hp ? p : NULL, hu ? uok : 1, "addr_user_accepted");
      sig(1 + 2 * hu + 4 * hp + 8 * uok + 16 * (strlen(h) / 32) + 1024 * strlen(p));
    } else if (kind < 8) { // port out of range or not a number
      int pk = rn(6);
      switch (pk) {
      case 0: sprintf(p, "%d", 65536 + (int)rn(34464)); break;
      case 1: sprintf(p, "%llu", (unsigned long long)(100000 + rn(1ull << rn(60)))); break;
      case 2: sprintf(p, "%c%d", (int)"abc-+ .x"[rn(8)], (int)rn(1000)); break;
      case 3: sprintf(p, "%d%c", (int)rn(10000), (int)"abcxZ -_./:"[rn(11)]); break;
      case 4: p[0] = 0; break;
      case 5: sprintf(p, "%dx%d", (int)rn(100), (int)rn(100)); break;
      }
      if (!uok) hu = 0;
      snprintf(s, sizeof s, "%s%s%s:%s", hu ? u : "", hu ? "@" : "", h, p);
      one_addr(s, NULL, NULL, NULL, 0, "addr_port_accepted");
      sig(20000 + pk * 4 + 2 * hu);
    } else {
      int k = 0, m = (int)rn(rn(4) ? 24 : 900); static const char X[] = "ab@:.-_019 Z$/\n\x80";
      for (int j = 0; j < m; j++) s[k++] = rn(20) ? X[rn(16)] : (char)(1 + rn(255));
      s[k] = 0;
      one_addr(s, NULL, NULL, NULL, -1, "");
      sig(30000 + (strchr(s, '@') != NULL) + 2 * (strchr(s, ':') != NULL) + 4 * (k / 64));
    }
    if (i < 5) sample("'%s'", s);
  }
}
int main(int argc, char** argv) {
  h_s = strtoull(argv[2], 0, 0); long n = atol(argv[3]);
  if (!strcmp(argv[1], "codec")) { do_codec(n); do_xfer(n); }
  else do_addr(n);
  stats(); return 0;
}

// Model-based monitors for tag arithmetic, formatting, queues, containers, mixed radix (U01-U04, U06).
#include <assert.h>
#include <limits.h>
#include <stdbool.h>
#include "tag.h"
#include "pqueue.h"
#include "pqueue_tag.h"
#include "vector.h"
#include "hashset/hashset.h"
#include "hashset/hashset_itr.h"
#include "mixed_radix.h"
#include "deque.h"
#include "lf_types.h"
#include "hutil.h"
#define HASHMAP(token) hmap_##token
#define K void*
#define V int
#define HASH_OF(key) (size_t) key
#include "core/utils/impl/hashmap.h"
#undef HASHMAP
#undef K
#undef V
#undef HASH_OF
#define HASHMAP(token) imap_##token
#define K int
#define V long
#define HASH_OF(key) ((size_t)(key) * 7)
#include "core/utils/impl/hashmap.h"
#undef HASHMAP
#undef K
#undef V
#undef HASH_OF

typedef __int128 i128;
static const int64_t TN = INT64_MIN, TF = INT64_MAX;
static int tclass;
static int64_t rtime(void) {
  static const int64_t edge[] = {INT64_MIN, INT64_MAX, 0, 1, -1, INT64_MIN + 1, INT64_MAX - 1, INT64_MAX / 2, INT64_MIN / 2, INT64_MAX / 2 + 1, INT64_MIN/2 - 1, 1000000000LL, 1700000000000000000LL};
  int c = rn(8);
  int64_t v;
  switch (c) {
  case 0: case 1: { int e = rn(sizeof edge / sizeof *edge); c = 10 + e; v = edge[e]; break; }
  case 2: v = (int64_t)rnd(); break;
  case 3: v = (int64_t)rn(1000); break;
  case 4: v = -(int64_t)rn(1000); break;
  case 5: v = INT64_MAX - (int64_t)rn(1000); break;
  case 6: v = INT64_MIN + (int64_t)rn(1000); break;
  default: v = (int64_t)(rnd() >> rn(64)); if (rn(2)) v = (v == INT64_MIN) ? v : -v; break;
  }
  tclass = tclass * 32 + c;
  return v;
}
static uint32_t rmicro(void) {
  switch (rn(5)) {
  case 0: return 0; case 1: return UINT_MAX; case 2: return rn(5); case 3: return UINT_MAX - rn(5); default: return (uint32_t)rnd();
  }
}
static tag_t rtag(void) {
  tag_t t = {rtime(), rmicro()};
  // Tags at the two extremes are the NEVER and FOREVER tags.
  return t;
}
static int refcmp(tag_t a, tag_t b) { i128 x = (i128)a.time * ((i128)1 << 32) + a.microstep, y = (i128)b.time * ((i128)1 << 32) + b.microstep; return x < y ? -1 : x > y; }
static int64_t refadd(int64_t a, int64_t b) {
  if (a == TN || b == TN) return TN;
  if (a == TF || b == TF) return TF;
  i128 s = (i128)a + b;
  if (s >= TF) return TF;
  if (s <= TN) return TN;
  return (int64_t)s;
}
#define TG(t) (long long)(t).time, (unsigned)(t).microstep
static void do_tag(long n) {
  for (long i = 0; i < n; i++) {
    tclass = 0;
    tag_t a = rtag(), b = rtag(), c = rtag();
    if (rn(4) == 0) b.time = a.time;
    if (rn(8) == 0) b.microstep = a.microstep;
    h_evals++;
    sig(tclass * 16 + (a.microstep == 0) + 2 * (b.microstep == UINT_MAX) + 4 * (refcmp(a, b) + 1));
    if (i < 3) sample("a=(%lld,%u) b=(%lld,%u)", TG(a), TG(b));
    if (lf_tag_compare(a, b) != refcmp(a, b)) fail("tag_compare", "compare((%lld,%u),(%lld,%u))=%d", TG(a), TG(b), lf_tag_compare(a, b));
    if (lf_tag_compare(NEVER_TAG, a) > 0 || lf_tag_compare(a, FOREVER_TAG) > 0) fail("tag_extremes", "(%lld,%u) outside [NEVER,FOREVER]", TG(a));
    int64_t s = lf_time_add(a.time, b.time), rs = refadd(a.time, b.time);
    if (s != rs) fail("time_add", "%lld + %lld = %lld, expected %lld", (long long)a.time, (long long)b.time, (long long)s, (long long)rs);
    tag_t t = lf_tag_add(a, b);
    if (rs == TN || rs == TF) {
      if (refcmp(t, rs == TN ? NEVER_TAG : FOREVER_TAG)) fail("tag_add_sat", "(%lld,%u)+(%lld,%u)=(%lld,%u)", TG(a), TG(b), TG(t));
    } else {
      uint64_t m = (uint64_t)(b.time > 0 ? 0 : a.microstep) + b.microstep;
      tag_t e = m > UINT_MAX ? FOREVER_TAG : (tag_t){rs, (uint32_t)m};
      if (refcmp(t, e)) fail("tag_add", "(%lld,%u)+(%lld,%u)=(%lld,%u) expected (%lld,%u)", TG(a), TG(b), TG(t), TG(e));
    }
    // delays
    int64_t d = b.time;
    tag_t r = lf_delay_tag(a, d);
    if (a.time == TN || d < 0) {
      if (refcmp(r, a)) fail("delay_none", "delay((%lld,%u),%lld)=(%lld,%u)", TG(a), (long long)d, TG(r));
    } else if ((i128)a.time + d >= TF) {
      if (r.time != TF) fail("delay_sat", "delay((%lld,%u),%lld)=(%lld,%u)", TG(a), (long long)d, TG(r));
    } else if (d == 0) {
      if (a.microstep != UINT_MAX && (r.time != a.time || r.microstep != a.microstep + 1)) fail("delay_zero", "delay((%lld,%u),0)=(%lld,%u)", TG(a), TG(r));
    } else if (r.time != a.time + d || r.microstep != 0) fail("delay_pos", "delay((%lld,%u),%lld)=(%lld,%u)", TG(a), (long long)d, TG(r));
    tag_t q = lf_delay_strict(a, d);
    if (a.time == TN || d < 0) {
      if (refcmp(q, a)) fail("strict_none", "strict((%lld,%u),%lld)=(%lld,%u)", TG(a), (long long)d, TG(q));
    } else if ((i128)a.time + d >= TF) {
      if (q.time != TF) fail("strict_sat", "strict((%lld,%u),%lld)=(%lld,%u)", TG(a), (long long)d, TG(q));
    } else if (d > 0 && (q.time != a.time + d - 1 || q.microstep != UINT_MAX)) fail("strict_pos", "strict((%lld,%u),%lld)=(%lld,%u)", TG(a), (long long)d, TG(q));
    // monotone in the first argument (away from the NEVER absorbing element and microstep wrap-around)
    if (refcmp(a, c) <= 0 && a.time != TN && b.time != TN && (b.time >= 0)) {
      if (refcmp(lf_tag_add(a, b), lf_tag_add(c, b)) > 0 && refcmp(lf_tag_add(c, b), FOREVER_TAG) && (b.time > 0 || a.microstep <= UINT_MAX - b.microstep))
        fail("tag_add_monotone", "(%lld,%u) <= (%lld,%u) but + (%lld,%u) reverses", TG(a), TG(c), TG(b));
      if (lf_time_add(a.time, b.time) > lf_time_add(c.time, b.time)) fail("time_add_monotone", "%lld %lld + %lld", (long long)a.time, (long long)c.time, (long long)b.time);
    }
  }
}
// -------------------------------------------------------------------- formatting
static i128 parse_num(const char** p) { // digits with commas every three
  i128 v = 0; const char* s = *p; int first = 0, n = 0;
  while (*s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); s++; first++; }
  if (first == 0) return -1;
  if (first > 3) return -2;
  while (*s == ',' && s[1] >= '0' && s[1] <= '9') {
    s++; n = 0;
    while (*s >= '0' && *s <= '9') { v = v * 10 + (*s - '0'); s++; n++; }
    if (n != 3) return -3;
  }
  *p = s;
  return v;
}
static void do_fmt(long n) {
  static const struct { const char* u; int64_t m; } U[] = {{"weeks", 604800000000000LL}, {"week", 604800000000000LL}, {"days", 86400000000000LL}, {"d", 86400000000000LL}, {"hr", 3600000000000LL}, {"h", 3600000000000LL}, {"min", 60000000000LL}, {"ms", 1000000LL}, {"us", 1000LL}, {"ns", 1}, {"s", 1000000000LL}};
  static const int64_t base[] = {1, 1000, 1000000, 1000000000LL, 60000000000LL, 3600000000000LL, 86400000000000LL, 604800000000000LL};
  for (long i = 0; i < n; i++) {
    int64_t v; int c = rn(6);
    switch (c) {
    case 0: v = (int64_t)(rnd() >> (1 + rn(63))); break;
    case 1: v = base[rn(8)] * (int64_t)rn(1100) + (int64_t)rn(3) - 1; break;
    case 2: v = INT64_MAX - (int64_t)rn(2000); break;
    case 3: { v = 0; for (int k = 0; k < 8; k++) if (rn(2)) v += base[k] * (int64_t)rn(k == 7 ? 15000 : (k >= 4 ? 23 : 999)); break; }
    case 4: { v = 1; int k = rn(19); while (k--) v *= 10; v += (int64_t)rn(3) - 1; break; }
    default: v = (int64_t)rn(5000); break;
    }
    if (v < 0) v = 0;
    h_evals++;
    char* buf = (char*)malloc(LF_TIME_BUFFER_LENGTH); // exact size: ASan watches the end
    memset(buf, 'Z', LF_TIME_BUFFER_LENGTH);
    size_t len = lf_readable_time(buf, v);
    size_t sl = strnlen(buf, LF_TIME_BUFFER_LENGTH);
    if (i < 4) sample("%lld -> %.*s", (long long)v, (int)sl, buf);
    if (sl == LF_TIME_BUFFER_LENGTH || len != sl) fail("readable_len", "%lld: returned %zu, strlen %zu", (long long)v, len, sl);
    else {
      const char* p = buf; i128 tot = 0; int bad = 0; uint64_t sg = 0; int64_t lastm = INT64_MAX;
      if (strcmp(buf, "0") == 0) tot = 0;
      else for (;;) {
        i128 x = parse_num(&p);
        if (x < 0) { bad = 1; break; }
        if (*p++ != ' ') { bad = 2; break; }
        int k; for (k = 0; k < 11; k++) { size_t L = strlen(U[k].u); if (!strncmp(p, U[k].u, L) && (p[L] == 0 || p[L] == ',')) { p += L; break; } }
        if (k == 11) { bad = 3; break; }
        if (U[k].m >= lastm) { bad = 5; break; }
        lastm = U[k].m;
        tot += x * U[k].m; sg = sg * 13 + k + 1;
        if (*p == 0) break;
        if (p[0] != ',' || p[1] != ' ') { bad = 4; break; }
        p += 2;
      }
      if (bad || tot != v) fail("readable_value", "%lld printed as '%s' (parse %d, denotes %lld)", (long long)v, buf, bad, (long long)tot);
      sig(sg * 64 + sl);
    }
    free(buf);
    buf = (char*)malloc(26 + 2); // "9,223,372,036,854,775,807" plus terminator
    int64_t w = rn(3) ? v : rn(20) ? -v : INT64_MIN;
    size_t l2 = lf_comma_separated_time(buf, w);
    const char* p = buf; int ng = *p == '-'; p += ng; i128 x = parse_num(&p); if (ng) x = -x;
    if (l2 != strlen(buf) || *p || x != w || (ng && !w)) fail("comma_value", "%lld printed as '%s', length %zu", (long long)w, buf, l2);
    free(buf);
  }
}
// -------------------------------------------------------------------- priority queues
typedef struct { unsigned long long pri; size_t pos; int id, in; } el_t;
static unsigned long long el_pri(void* e) { return ((el_t*)e)->pri; }
static size_t el_pos(void* e) { return ((el_t*)e)->pos; }
static void el_setpos(void* e, size_t p) { ((el_t*)e)->pos = p; }
static int el_eq(void* a, void* b) { return ((el_t*)a)->id == ((el_t*)b)->id; }
static void el_prt(void* e) { (void)e; }
static void do_pq_one(void) {
  int N = 1 + rn(rn(4) ? 40 : 400); size_t cap = rn(12); unsigned long long range = 1 + rn(rn(2) ? 5 : 1000);
  el_t* e = (el_t*)calloc(N, sizeof(el_t));
  pqueue_t* q = pqueue_init(cap, in_reverse_order, el_pri, el_pos, el_setpos, el_eq, el_prt);
  int cnt = 0; uint64_t sg = 0; int maxc = 0;
  for (int i = 0; i < N; i++) { e[i].id = i; }
  for (int k = 0; k < 6 * N; k++) {
    int op = rn(10);
    h_evals++;
    if (op < 5) {
      int i = rn(N); if (e[i].in) continue;
      e[i].pri = rn(range); e[i].in = 1; cnt++; sg |= 1;
      if (pqueue_insert(q, &e[i])) fail("pq_insert", "insert failed");
    } else if (op < 7) {
      el_t* r = (el_t*)pqueue_pop(q);
      if (!cnt) { if (r) fail("pq_pop_empty", "pop on empty returned an element"); sg |= 2; continue; }
      if (!r || r < e || r >= e + N || !r->in) { fail("pq_pop_unknown", "pop returned an element not in the queue (%d in queue)", cnt); goto out; }
      for (int i = 0; i < N; i++) if (e[i].in && e[i].pri < r->pri) { fail("pq_pop_order", "popped priority %llu while %llu is queued", r->pri, e[i].pri); break; }
      r->in = 0; cnt--; sg |= 4;
    } else if (op == 7) {
      int i = rn(N); if (!e[i].in) continue;
      pqueue_remove(q, &e[i]); e[i].in = 0; cnt--; sg |= 8;
    } else if (op == 8) {
      el_t key; key.pri = rn(range); key.id = rn(N); key.pos = 0;
      el_t* r = (el_t*)pqueue_find_same_priority(q, &key); int have = 0, haveq = 0;
      for (int i = 0; i < N; i++) if (e[i].in && e[i].pri == key.pri) { have = 1; if (i == key.id) haveq = 1; }
      if (!!r != have || (r && (!r->in || r->pri != key.pri))) fail("pq_find", "find_same_priority(%llu): %s, expected %d", key.pri, r ? "found" : "none", have);
      r = (el_t*)pqueue_find_equal_same_priority(q, &key);
      if (!!r != haveq || (r && r != &e[key.id])) fail("pq_find_equal", "find_equal_same_priority(%llu,%d): %s, expected %d", key.pri, key.id, r ? "found" : "none", haveq);
      sg |= 16 << have << haveq;
    } else {
      el_t* r = (el_t*)pqueue_peek(q);
      if (!!r != (cnt > 0)) fail("pq_peek", "peek wrong on size %d", cnt);
      else if (r) for (int i = 0; i < N; i++) if (e[i].in && e[i].pri < r->pri) { fail("pq_peek_order", "peeked %llu while %llu is queued", r->pri, e[i].pri); break; }
    }
    if ((int)pqueue_size(q) != cnt) { fail("pq_size", "size %zu expected %d", pqueue_size(q), cnt); break; }
    if (cnt > maxc) maxc = cnt;
    if (k % 7 == 0 && cnt && !pqueue_is_valid(q)) fail("pq_valid", "heap invalid at size %d", cnt);
  }
  if (rn(3) == 0) { // empty into
    pqueue_t* q2 = pqueue_init(rn(5), in_reverse_order, el_pri, el_pos, el_setpos, el_eq, el_prt);
    int N2 = 1 + rn(30); el_t* e2 = (el_t*)calloc(N2, sizeof(el_t));
    for (int i = 0; i < N2; i++) { e2[i].pri = rn(range); e2[i].in = 1; pqueue_insert(q2, &e2[i]); }
    pqueue_empty_into(&q2, &q);
    if (pqueue_size(q) != 0 || (int)pqueue_size(q2) != cnt + N2) fail("pq_empty_into", "sizes %zu %zu, expected 0 %d", pqueue_size(q), pqueue_size(q2), cnt + N2);
    unsigned long long last = 0; el_t* r; int c2 = 0;
    while ((r = (el_t*)pqueue_pop(q2))) { if (!r->in) fail("pq_empty_dup", "element delivered twice"); r->in = 0; if (r->pri < last) fail("pq_empty_order", "order"); last = r->pri; c2++; }
    if (c2 != cnt + N2) fail("pq_empty_lost", "%d of %d elements delivered", c2, cnt + N2);
    cnt = 0; pqueue_free(q2); free(e2); sg |= 256;
  } else {
    unsigned long long last = 0; el_t* r;
    while ((r = (el_t*)pqueue_pop(q))) { if (!r->in) { fail("pq_dup", "element delivered twice"); break; } r->in = 0; cnt--; if (r->pri < last) fail("pq_order", "drain out of order"); last = r->pri; }
    if (cnt) fail("pq_lost", "%d elements lost", cnt);
  }
  sig(sg * 1000 + maxc);
out:
  pqueue_free(q); free(e);
}
typedef struct { pqueue_tag_element_t base; int in, kind; } te_t;
static int te_eq(void* a, void* b) { return ((te_t*)a)->kind == ((te_t*)b)->kind; }
static void do_ptag_one(void) {
  int N = 1 + rn(80), custom = rn(2); int64_t range = 1 + rn(6); int64_t off = rn(2) ? 0 : (rn(2) ? INT64_MAX - 6 : INT64_MIN);
  te_t* e = (te_t*)calloc(N, sizeof(te_t)); tag_t dyn[512]; int nd = 0; uint64_t sg = 0; int cnt = 0;
  pqueue_tag_t* q = custom ? pqueue_tag_init_customize(rn(6), pqueue_tag_compare, te_eq, el_prt) : pqueue_tag_init(rn(6));
#define RT ((tag_t){off + (int64_t)rn(range), (uint32_t)rn(3)})
  for (int k = 0; k < 6 * N; k++) {
    h_evals++;
    int op = rn(12);
    tag_t least = FOREVER_TAG; for (int i = 0; i < N; i++) if (e[i].in && refcmp(e[i].base.tag, least) < 0) least = e[i].base.tag;
    for (int i = 0; i < nd; i++) if (refcmp(dyn[i], least) < 0) least = dyn[i];
    if (op < 4) { int i = rn(N); if (e[i].in) continue; e[i].base.tag = RT; e[i].kind = rn(3); e[i].in = 1; cnt++; pqueue_tag_insert(q, &e[i].base); sg |= 1; }
    else if (op == 4 && nd < 500 && !custom) { dyn[nd] = RT; pqueue_tag_insert_tag(q, dyn[nd]); nd++; sg |= 2; }
    else if (op == 5 && nd < 500 && !custom) {
      tag_t t = RT; int have = 0; for (int i = 0; i < N; i++) if (e[i].in && !refcmp(e[i].base.tag, t)) have = 1; for (int i = 0; i < nd; i++) if (!refcmp(dyn[i], t)) have = 1;
      int r = pqueue_tag_insert_if_no_match(q, t); if (!!r != have) fail("ptag_nomatch", "insert_if_no_match returned %d, present %d", r, have); if (!r) dyn[nd++] = t; sg |= 4 << have; }
    else if (op == 6) { if (refcmp(pqueue_tag_peek_tag(q), least)) fail("ptag_peek", "peek_tag"); }
    else if (op == 7 && custom) {
      te_t* r = (te_t*)pqueue_tag_pop(q);
      if (!!r != (cnt > 0)) fail("ptag_pop", "pop null mismatch"); else if (r) { if (refcmp(r->base.tag, least) || !r->in) fail("ptag_pop_order", "popped (%lld,%u), least (%lld,%u)", TG(r->base.tag), TG(least)); r->in = 0; cnt--; } sg |= 16; }
    else if (op == 8 && nd == 0 && custom) { int i = rn(N); if (e[i].in) { pqueue_tag_remove(q, &e[i].base); e[i].in = 0; cnt--; sg |= 32; } }
    else if (op == 9) {
      tag_t t = RT; int have = 0; for (int i = 0; i < N; i++) if (e[i].in && !refcmp(e[i].base.tag, t)) have = 1; for (int i = 0; i < nd; i++) if (!refcmp(dyn[i], t)) have = 1;
      pqueue_tag_element_t* r = pqueue_tag_find_with_tag(q, t); if (!!r != have || (r && refcmp(r->tag, t))) fail("ptag_find", "find_with_tag (%lld,%u): %p expected %d", TG(t), (void*)r, have);
      if (custom) { te_t key; key.base.tag = t; key.kind = rn(3); int hk = 0; for (int i = 0; i < N; i++) if (e[i].in && !refcmp(e[i].base.tag, t) && e[i].kind == key.kind) hk = 1;
        te_t* r2 = (te_t*)pqueue_tag_find_equal_same_tag(q, &key.base); if (!!r2 != hk || (r2 && (refcmp(r2->base.tag, t) || r2->kind != key.kind))) fail("ptag_find_equal", "find_equal_same_tag"); sg |= 64 << hk; } }
    else if (op == 10 && !custom) { // pop_tag frees dynamic elements
      int dyn_least = 0; for (int i = 0; i < nd; i++) if (!refcmp(dyn[i], least)) dyn_least = 1; int st_least = 0; for (int i = 0; i < N; i++) if (e[i].in && !refcmp(e[i].base.tag, least)) st_least++;
      if (st_least && dyn_least) continue; // ambiguous which one goes
      tag_t t = pqueue_tag_pop_tag(q); if (refcmp(t, least)) fail("ptag_pop_tag", "pop_tag (%lld,%u), least (%lld,%u)", TG(t), TG(least));
      if (dyn_least) { for (int i = 0; i < nd; i++) if (!refcmp(dyn[i], least)) { dyn[i] = dyn[--nd]; break; } }
      else if (st_least == 1) { for (int i = 0; i < N; i++) if (e[i].in && !refcmp(e[i].base.tag, least)) { e[i].in = 0; cnt--; break; } }
      else if (st_least > 1) { // find out which one left: re-pop all is destructive, so rebuild
        int left = 0; for (int i = 0; i < N; i++) if (e[i].in && !refcmp(e[i].base.tag, least)) { left++; }
        // remove the remaining ones with this tag as well
        pqueue_tag_element_t* r; while ((r = pqueue_tag_find_with_tag(q, least))) { pqueue_tag_remove(q, r); ((te_t*)r)->in = 0; cnt--; left--; }
        if (left != 1) fail("ptag_pop_tag_count", "pop_tag removed %d elements", left);
        for (int i = 0; i < N; i++) if (e[i].in && !refcmp(e[i].base.tag, least)) { e[i].in = 0; cnt--; }
      }
      sg |= 256; }
    else if (op == 11) {
      tag_t t = rn(8) ? RT : FOREVER_TAG; 
      pqueue_tag_remove_up_to(q, t);
      for (int i = 0; i < N; i++) if (e[i].in && refcmp(e[i].base.tag, t) <= 0) { e[i].in = 0; cnt--; }
      int w = 0; for (int i = 0; i < nd; i++) if (refcmp(dyn[i], t) > 0) dyn[w++] = dyn[i]; nd = w; sg |= 512; }
    if ((int)pqueue_tag_size(q) != cnt + nd) { fail("ptag_size", "size %zu expected %d after op %d", pqueue_tag_size(q), cnt + nd, op); break; }
  }
  sig(sg);
  pqueue_tag_free(q); free(e);
}
// reaction queue comparison used by the runtime
static void do_pq(long n) { for (long i = 0; i < n; i++) { if (rn(2)) do_pq_one(); else do_ptag_one(); } sample("random heaps up to 400 elements, tag queues up to 580"); }
// -------------------------------------------------------------------- containers
static void do_vector_one(void) {
  size_t cap = 1 + rn(8); vector_t v = vector_new(cap); void** m = (void**)calloc(100000, sizeof(void*)); size_t n = 0; uint64_t sg = cap; size_t mx = 0;
  int L = 50 + rn(400); int phase = 0;
  for (int k = 0; k < L; k++) {
    h_evals++;
    if (rn(40) == 0) phase = rn(3);
    int op = rn(12);
    if (op < (phase == 1 ? 1 : 4)) { void* e = (void*)(1 + rn(1000)); vector_push(&v, e); m[n++] = e; }
    else if (op < 5) { void* a[64]; size_t s = rn(rn(6) ? 8 : 64); for (size_t i = 0; i < s; i++) a[i] = (void*)(1 + rn(1000)); vector_pushall(&v, a, s); for (size_t i = 0; i < s; i++) m[n++] = a[i]; sg |= 256; }
    else if (op < (phase == 1 ? 10 : 8)) { void* r = vector_pop(&v); void* e = n ? m[--n] : NULL; if (r != e) fail("vec_pop", "pop returned %p expected %p (size %zu)", r, e, n); sg |= n ? 512 : 1024; }
    else if (op == 10) { vector_vote(&v); if (phase == 1) for (int j = 0; j < 20; j++) vector_vote(&v); sg |= 2048; }
    else if (op == 11 && phase != 1) {
      size_t i = n ? rn(n) : 0; int beyond = rn(3) == 0; if (beyond || !n) i = n + rn(rn(3) ? 4 : 60);
      void** p = vector_at(&v, i);
      if (i >= n) { for (size_t j = n; j <= i; j++) m[j] = NULL; n = i + 1; sg |= 4096; }
      if (*p != m[i]) fail("vec_at", "element %zu is %p expected %p", i, *p, m[i]);
      void* e = (void*)(1 + rn(1000)); *p = e; m[i] = e; sg |= 8192;
      // read back a random element, including those filled in by the expansion
      size_t j = rn(n); if (*vector_at(&v, j) != m[j]) fail("vec_at_fill", "element %zu is %p expected %p", j, *vector_at(&v, j), m[j]);
    }
    if (vector_size(&v) != n) { fail("vec_size", "size %zu expected %zu", vector_size(&v), n); break; }
    if (n > mx) mx = n;
    if (n > 90000) break;
  }
  for (size_t i = 0; i < n; i++) if (v.start[i] != m[i]) { fail("vec_content", "element %zu is %p expected %p", i, v.start[i], m[i]); break; }
  sig(sg * 131 + mx / 4);
  vector_free(&v); free(m);
}
static void do_hashset_one(void) {
  int bits = rn(6); hashset_t s = hashset_create(bits); int U = 2 + rn(rn(3) ? 30 : 700); char* m = (char*)calloc(U, 1); int cnt = 0; uint64_t sg = bits, stride = 1 + rn(3) * 8 + (rn(3) == 0 ? 1 << (6 + rn(6)) : 0);
#define IT(i) ((void*)(2 + (size_t)(i) * stride))
  int L = 50 + rn(1500), bias = 2 + rn(7);
  for (int k = 0; k < L; k++) {
    h_evals++; int i = rn(U); int op = rn(12);
    if (op < bias) { int r = hashset_add(s, IT(i)); if (r != !m[i]) fail("hs_add", "add returned %d, member %d", r, m[i]); if (!m[i]) { m[i] = 1; cnt++; } sg |= 64; }
    else if (op < 10) { int r = hashset_remove(s, IT(i)); if (r != m[i]) fail("hs_remove", "remove returned %d, member %d", r, m[i]); if (m[i]) { m[i] = 0; cnt--; sg |= 128; } }
    else if (op == 10) { int r = hashset_is_member(s, IT(i)); if (!!r != m[i]) fail("hs_member", "is_member returned %d, member %d", r, m[i]); }
    else if (rn(8) == 0) {
      hashset_itr_t it = hashset_iterator(s); int c = 0; char* seen = (char*)calloc(U, 1);
      while (hashset_iterator_has_next(it)) { if (hashset_iterator_next(it) < 0) { fail("hs_iter_next", "next failed after has_next"); break; } size_t x = ((size_t)hashset_iterator_value(it) - 2); if (x % stride || x / stride >= (size_t)U || !m[x / stride] || seen[x / stride]) { fail("hs_iter", "iterator delivered a wrong or repeated element"); break; } seen[x / stride] = 1; c++; }
      if (c != cnt) fail("hs_iter_count", "iterator delivered %d of %d", c, cnt);
      if (hashset_iterator_next(it) >= 0) fail("hs_iter_end", "next succeeds at the end");
      free(seen); free(it); sg |= 256;
    }
    if ((int)hashset_num_items(s) != cnt) { fail("hs_size", "num_items %zu expected %d", hashset_num_items(s), cnt); break; }
  }
  for (int i = 0; i < U; i++) if (!!hashset_is_member(s, IT(i)) != m[i]) { fail("hs_final", "membership of element %d", i); break; }
  if (hashset_add(s, NULL) != -1 || hashset_add(s, (void*)1) != -1) fail("hs_reserved", "reserved values accepted");
  sig(sg * 37 + U / 8); hashset_destroy(s); free(m);
}
static void do_hashmap_one(void) {
  size_t cap = 2 + rn(rn(3) ? 20 : 300); int n = 0, U = (int)(cap - (rn(2) ? 1 : rn(cap))); if (U < 1) U = 1; uint64_t stride = 8 * (1 + rn(3) * (cap - 1) + rn(3));
  hmap_t* h = hmap_new(cap, NULL); int* val = (int*)calloc(U, sizeof(int)); char* in = (char*)calloc(U, 1); size_t base = 8 + rn(1000);
  imap_t* g = imap_new(cap, -1); long* ival = (long*)calloc(U, sizeof(long));
  for (int k = 0; k < 6 * U; k++) {
    h_evals++; int i = rn(U);
    if (rn(2)) { val[i] = rnd() >> 40; ival[i] = (long)rnd(); hmap_put(h, (void*)(base + i * stride), val[i]); imap_put(g, i * 3, ival[i]); in[i] = 1; n++; }
    else if (in[i]) { if (hmap_get(h, (void*)(base + i * stride)) != val[i]) { fail("hm_get", "wrong value"); break; } if (imap_get(g, i * 3) != ival[i]) { fail("hm_get_int", "wrong value"); break; } }
  }
  for (int i = 0; i < U; i++) if (in[i] && (hmap_get(h, (void*)(base + i * stride)) != val[i] || imap_get(g, i * 3) != ival[i])) { fail("hm_final", "wrong value"); break; }
  sig(cap * 1000 + U); hmap_free(h); imap_free(g); free(val); free(ival); free(in);
}
static void do_deque_one(void) {
  deque_t d; deque_initialize(&d); long* m = (long*)calloc(2 * 4096, sizeof(long)); long f = 4096, b = 4096; uint64_t sg = 0; long id = 1; int L = 20 + rn(500), bias = 2 + rn(5);
  for (int k = 0; k < L; k++) {
    h_evals++; int op = rn(8);
    if (op < bias && rn(2)) { deque_push_front(&d, (void*)id); m[--f] = id++; }
    else if (op < bias) { deque_push_back(&d, (void*)id); m[b++] = id++; }
    else if (rn(2)) { long r = (long)deque_pop_front(&d), e = f < b ? m[f++] : 0; if (r != e) fail("dq_pop_front", "%ld expected %ld", r, e); }
    else { long r = (long)deque_pop_back(&d), e = f < b ? m[--b] : 0; if (r != e) fail("dq_pop_back", "%ld expected %ld", r, e); }
    if (f == b) sg |= 1 << (k % 20);
    if (deque_is_empty(&d) != (f == b)) fail("dq_empty", "is_empty");
    if ((long)deque_size(&d) != b - f) fail("dq_size", "size %zu expected %ld", deque_size(&d), b - f);
    if ((long)deque_peek_front(&d) != (f < b ? m[f] : 0)) fail("dq_peek_front", "peek_front");
    if ((long)deque_peek_back(&d) != (f < b ? m[b - 1] : 0)) fail("dq_peek_back", "peek_back");
  }
  while (!deque_is_empty(&d)) deque_pop_back(&d);
  sig(sg); free(m);
}
static void do_cont(long n) { for (long i = 0; i < n; i++) { switch (rn(4)) { case 0: do_vector_one(); break; case 1: do_hashset_one(); break; case 2: do_hashmap_one(); break; default: do_deque_one(); } } sample("operation sequences of up to 1500 steps on vector, hash set + iterator, two hash map instances, deque"); }
// -------------------------------------------------------------------- mixed radix
static void do_radix(long n) {
  for (long c = 0; c < n; c++) {
    int sz = 1 + rn(5), dg[5], rx[5], pm[5]; long tot = 1; 
    for (int i = 0; i < sz; i++) { dg[i] = 0; rx[i] = 1 + rn(5); pm[i] = i; tot *= rx[i]; }
    for (int i = sz - 1; i > 0; i--) { int j = rn(i + 1), t = pm[i]; pm[i] = pm[j]; pm[j] = t; }
    int *hd = (int*)malloc(sz * 4), *hr = (int*)malloc(sz * 4), *hp = (int*)malloc(sz * 4); // exact sizes for ASan
    memcpy(hd, dg, sz * 4); memcpy(hr, rx, sz * 4); memcpy(hp, pm, sz * 4);
    mixed_radix_int_t x = {sz, hd, hr, hp};
    uint64_t sg = sz; for (int i = 0; i < sz; i++) sg = sg * 8 + rx[i] + pm[i] * 64; sig(sg);
    if (c < 3) sample("radixes %d.. permutation %d.. total %ld", rx[0], pm[0], tot);
    for (long k = 0; k <= tot; k++) {
      h_evals++;
      long kk = k % tot; int e[5]; long r = kk;
      for (int i = 0; i < sz; i++) { e[pm[i]] = r % rx[pm[i]]; r /= rx[pm[i]]; }
      for (int i = 0; i < sz; i++) if (hd[i] != e[i]) { fail("radix_digits", "digit %d is %d expected %d at increment %ld (size %d)", i, hd[i], e[i], k, sz); goto next; }
      for (int d = 0; d <= sz + 1; d++) { long val = 0, f = 1; for (int i = d; i < sz; i++) { val += f * e[i]; f *= rx[i]; } if (mixed_radix_parent(&x, d) != val) { fail("radix_parent", "parent(%d)=%d expected %ld", d, mixed_radix_parent(&x, d), val); goto next; } if (d == 0 && mixed_radix_to_int(&x) != val) { fail("radix_int", "to_int"); goto next; } }
      mixed_radix_incr(&x);
      for (int i = 0; i < sz; i++) if (hr[i] != rx[i] || hp[i] != pm[i]) { fail("radix_changed", "radixes or permutation changed"); goto next; }
    }
  next:
    free(hd); free(hr); free(hp);
  }
}
int main(int argc, char** argv) {
  const char* what = argv[1]; h_s = strtoull(argv[2], 0, 10) * 7919 + 17; long n = atol(argv[3]);
  if (!strcmp(what, "tag")) do_tag(n);
  else if (!strcmp(what, "fmt")) do_fmt(n);
  else if (!strcmp(what, "pq")) do_pq(n);
  else if (!strcmp(what, "cont")) do_cont(n);
  else if (!strcmp(what, "radix")) do_radix(n);
  else return 3;
  stats();
  return 0;
}

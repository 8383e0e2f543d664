// Interpreter that plays the role of the code the LF compiler generates: it
// reads a program (reactors, ports, actions, timers, modes, reactions with
// deterministic behaviours), builds the runtime structures for it, runs it on
// the real runtime and logs what every reaction observed.
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include "environment.h"
#include "lf_types.h"
#include "lf_token.h"
#include "port.h"
#include "reactor.h"
#include "reactor_common.h"
#include "schedule.h"
#include "tag.h"
#include "clock.h"
#include "util.h"
#include "low_level_platform.h"
#ifdef MODAL_REACTORS
#include "modes.h"
#endif
#if !defined(LF_SINGLE_THREADED)
#include "scheduler.h"
#include "watchdog.h"
#endif
#include "vector.h"
#include "api/reaction_macros.h"
#undef lf_tag
#undef lf_time_logical
#undef lf_time_logical_elapsed
#ifdef FEDERATED_DECENTRALIZED
#define ITAG if (ac->net) ((ap_t*)O[o->a].ch[o->b])->itag = ac->trig.intended_tag;
#else
#define ITAG
#endif
#ifdef FEDERATED
#include "prog_fed.h"
#endif
int lf_reactor_c_main(int argc, const char* argv[]);
extern interval_t duration;
extern bool fast;
extern unsigned int _lf_number_of_workers;

// ------------------------------------------------------------ entities
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_port_internal_t _base; int64_t value; tag_t itag; } ip_t;
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_port_internal_t _base; int32_t* value; tag_t itag; } ap_t;
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_action_internal_t _base; self_base_t* parent; bool has_value; int source_id; } act_t;
typedef struct op { int code; uint64_t mask, match; long long a, b, c, d; } op_t;
typedef struct { int kind, id, flags; } src_t;
struct self_s;
typedef struct { int reactor, width, type, custom; lf_port_base_t** ch; } out_t;
typedef struct { int reactor, width, type, sparse, mode; lf_port_base_t** ch; lf_sparse_io_record_t* rec; trigger_t trig; } in_t;
typedef struct { int reactor, physical, policy, type, mode; int net; long long mind, minsp; act_t act; lf_token_t* tok0; trigger_t trig; } action_t;
typedef struct { int reactor, mode; long long off, per; trigger_t trig; } timer_t_;
typedef struct { int reactor, number, level, lastenab, mode, special; long long inferred, deadline; int nsrc; src_t* src; int neff; int* eff; int nops; op_t* ops; int nh; op_t* hops; int gid, stp; reaction_t r; } rx_t;
typedef struct { int reactor, initial; void* m; } mode_t_;
typedef struct { int reactor; long long timeout; int nops; op_t* ops; void* w; } wd_t_;
typedef struct { int aid, n, kind, spacing, startdelay, idx; long long extra; pthread_t th; int started, joined; } async_t;
typedef struct self_s { self_base_t base; int id; uint64_t st, st0; int busy; int count; rx_t* rx[24]; } self_t;

static int nR, nO, nI, nA, nT, nX, nM, nW, nAs, nSR;
static self_t** R; static int* Rparent; static int* Rwd; static int* Rtrk;
static out_t* O; static in_t* I; static action_t* A; static timer_t_* T; static rx_t* X; static mode_t_* M; static wd_t_* W; static async_t* As;
static int (*SR)[2]; static int (*C)[4]; static int nC;
static int clock_mode; static _Atomic long long vclock; static int dl_prob, dl_max; static uint64_t dl_seed;
static int* Rgid; static int nRg;
static int use_lf_exit; static int nlevels;
static environment_t env_;
static reaction_t** specials[3]; static int nspecial[3];
static int async_autostart;

static inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

// ----------------------------------------------------------------- log
static _Atomic uint64_t seqno;
static inline uint64_t tick(void) { return atomic_fetch_add_explicit(&seqno, 1, memory_order_relaxed); }
typedef struct { char k; long long f[24]; } rec_t;
typedef struct tl { rec_t* v; int n, cap, id; uint64_t rng; struct tl* next; } tl_t;
static _Atomic(tl_t*) tls_head; static _Atomic int tl_ids;
static __thread tl_t* mytl;
static tl_t* tl(void) {
  if (!mytl) {
    tl_t* t = calloc(1, sizeof *t); t->id = atomic_fetch_add_explicit(&tl_ids, 1, memory_order_relaxed);
    t->rng = mix(dl_seed * 77 + t->id);
    tl_t* h = atomic_load(&tls_head);
    do { t->next = h; } while (!atomic_compare_exchange_weak(&tls_head, &h, t));
    mytl = t;
  }
  return mytl;
}
static rec_t* newrec(char k) {
  tl_t* t = tl();
  if (t->n == t->cap) { t->cap = t->cap ? t->cap * 2 : 256; t->v = realloc(t->v, t->cap * sizeof(rec_t)); }
  rec_t* r = &t->v[t->n++]; memset(r, 0, sizeof *r); r->k = k; return r;
}
static _Atomic int nviol;
static void viol(const char* key, const char* fmt, ...) {
  if (atomic_fetch_add(&nviol, 1) > 10) return;
  char b[800]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  fprintf(stderr, "MONITOR %s %s\n", key, b);
}
static int dumped;
static FILE* logf_;
static void dump(void) {
  if (dumped) return; dumped = 1;
  FILE* f = logf_ ? logf_ : stdout;
  for (tl_t* t = atomic_load(&tls_head); t; t = t->next)
    for (int i = 0; i < t->n; i++) {
      rec_t* r = &t->v[i];
      fprintf(f, "%c %d", r->k, t->id);
      int z = 24; while (z > 1 && !r->f[z - 1]) z--;
      for (int j = 0; j < z; j++) fprintf(f, " %lld", r->f[j]);
      fprintf(f, "\n");
    }
  fprintf(f, "END\n"); fflush(f);
}

// ------------------------------------------------------ injected delays
static inline void inj(void) {
  if (!dl_prob) return;
  tl_t* t = tl(); t->rng = mix(t->rng);
  if ((int)(t->rng % 1000) < dl_prob) {
    uint64_t z = mix(t->rng ^ 5);
    if (z & 1) sched_yield(); else usleep((z >> 8) % (dl_max + 1));
  }
}
#define WRAP1(name, T1) int __real_##name(T1 a); int __wrap_##name(T1 a) { inj(); int r = __real_##name(a); inj(); return r; }
#ifdef WRAPPED
WRAP1(lf_mutex_lock, lf_mutex_t*)
int __real_lf_mutex_unlock(lf_mutex_t* a); int __wrap_lf_mutex_unlock(lf_mutex_t* a) { int r = __real_lf_mutex_unlock(a); inj(); return r; }
#if !defined(LF_SINGLE_THREADED)
WRAP1(lf_cond_wait, lf_cond_t*)
WRAP1(lf_cond_broadcast, lf_cond_t*)
WRAP1(lf_cond_signal, lf_cond_t*)
#endif
int __real__lf_clock_gettime(instant_t* t);
int __wrap__lf_clock_gettime(instant_t* t) {
  if (clock_mode == 1) { *t = atomic_load_explicit(&vclock, memory_order_relaxed); return 0; }
  if (clock_mode == 2) { int r = __real__lf_clock_gettime(t); *t += atomic_load_explicit(&vclock, memory_order_relaxed); return r; }
  return __real__lf_clock_gettime(t);
}
#endif

// ------------------------------------------------------------- payloads
#define MAXLIVE 65536
static void* live[MAXLIVE]; static int nlive; static pthread_mutex_t live_mu = PTHREAD_MUTEX_INITIALIZER; static long ncreated, ndestroyed;
#define MAGIC 0x5ca1ab1eu
static void live_add(void* p) {
#ifndef NOTRACK
  pthread_mutex_lock(&live_mu); ncreated++; if (nlive < MAXLIVE) live[nlive++] = p; pthread_mutex_unlock(&live_mu);
#endif
}
static void cdtor(void* p) {
#ifndef NOTRACK
  pthread_mutex_lock(&live_mu);
  int i; for (i = nlive - 1; i >= 0; i--) if (live[i] == p) break;
  if (i < 0) { viol("payload-destroyed-twice", "destructor called on %p which is not a live payload", p); pthread_mutex_unlock(&live_mu); return; }
  live[i] = live[--nlive]; ndestroyed++;
  pthread_mutex_unlock(&live_mu);
#endif
  int32_t* v = p; int n = v[0];
  for (int j = 0; j < n; j++) v[j] = 0x5a5a5a5a;
  free(p);
}
static void* ccopy(void* p) {
  int32_t* v = p; size_t n = v[0]; int32_t* c = malloc(n * 4); memcpy(c, v, n * 4); live_add(c); return c;
}
static unsigned bigarr;
static int32_t* mkarr(uint64_t v, size_t* n) {
  size_t len = 2 + v % 6; if (bigarr && (v >> 8) % 4 == 0) len = 2 + (v >> 16) % bigarr;
  int32_t* a = malloc(len * 4); a[0] = (int)len;
  for (size_t i = 1; i < len; i++) a[i] = (int32_t)(mix(v + i) & 0x7fffffff);
  *n = len; return a;
}
static uint64_t harr(uint64_t h, int32_t* a, size_t n) {
  h = mix(h ^ n); if (!a) return mix(h ^ 99);
  for (size_t i = 0; i < n; i++) h = mix(h ^ (uint32_t)a[i]);
  return h;
}

// ------------------------------------------------------------ operations
enum { SETI = 1, SETA, SETT, FWD, WCOPY, FWDACT, SETIV, SCH = 10, SCHI, SCHC, SCHV, SCHT, SCHF, SCHIV, SCHI32, SCHVV, STOP = 20, MODE, WDSTART, WDSTOP, ADVCLK, SLEEP, ASYNC, COUNTSTOP, CHKDL, BUSY, SIGSTOP_, SENDFED, SENDABS, ENQABS };
#ifdef FEDERATED
void fed_op(op_t* o, uint64_t v, self_t* self, uint64_t h);
#endif

static void start_async(int i);
static lf_port_base_t* inport(int iid, int chan) { return I[iid].ch[chan]; }

static void set_i(int oid, int ch, int64_t v) { ip_t* out = (ip_t*)O[oid].ch[ch]; lf_set(out, v); }
static void set_a(int oid, int ch, int32_t* v, size_t n) { ap_t* out = (ap_t*)O[oid].ch[ch]; if (O[oid].custom) live_add(v); lf_set_array(out, v, n); }
static void set_t(int oid, int ch, lf_token_t* t) { ap_t* out = (ap_t*)O[oid].ch[ch]; lf_set_token(out, t); }

static void wd_start(int w, long long extra, self_t* self); static void wd_stop(int w);
static void do_ops(self_t* self, int n, op_t* ops, uint64_t h, int xid) {
  for (int i = 0; i < n; i++) {
    op_t* o = &ops[i];
    uint64_t g = mix(h ^ ((uint64_t)(i + 1) * 0x2545F4914F6CDD1Dull));
    if ((g & o->mask) != o->match) continue;
    uint64_t v = mix(g); size_t len; int32_t* a; long long ret = 0; int sched = 0; instant_t pa = 0, pb = 0;
    if (o->code >= SCH && o->code < STOP) { sched = 1; if (A[o->a].physical) pa = lf_time_physical(); }
    switch (o->code) {
    case SETI: set_i(o->a, o->b, (int64_t)v); break;
    case SETA: a = mkarr(v, &len); set_a(o->a, o->b, a, len); break;
    case SETT: { a = mkarr(v, &len); if (O[o->a].custom) live_add(a); lf_token_t* t = lf_new_token(O[o->a].ch[o->b], a, len); set_t(o->a, o->b, t); } break;
    case FWD: { lf_port_base_t* p = inport(o->c, o->d); if (p->is_present) set_t(o->a, o->b, p->tmplt.token); } break;
    case WCOPY: { lf_port_base_t* p = inport(o->c, o->d); if (p->is_present) {
        lf_token_t* t = lf_writable_copy(p); a = t->value; for (size_t j = 1; j < t->length; j++) a[j] = (a[j] + 1 + (int32_t)(v & 7)) & 0x7fffffff;
        set_t(o->a, o->b, t); } } break;
    case FWDACT: { action_t* ac = &A[o->c]; ITAG if (ac->act.is_present && ac->act.has_value) set_t(o->a, o->b, ac->tok0); } break;
    case SETIV: { if (o->d >= 0) { lf_port_base_t* p = inport(o->c, o->d); if (p->is_present) set_i(o->a, o->b, ((ip_t*)p)->value); }
        else { action_t* ac = &A[o->c]; ITAG if (ac->act.is_present && ac->act.has_value) set_i(o->a, o->b, *(int64_t*)ac->tok0->value); } } break;
    case SCH: ret = lf_schedule(&A[o->a].act, o->b); break;
    case SCHI: { int64_t x = (int64_t)v; ret = lf_schedule_copy(&A[o->a].act, o->b, &x, 1); } break;
    case SCHI32: ret = lf_schedule_int(&A[o->a].act, o->b, (int)(v & 0x7fffffff)); break;
    case SCHVV: { int64_t* x = malloc(8); *x = (int64_t)v; ret = lf_schedule_value(&A[o->a].act, o->b, x, 1); } break;
    case SCHC: { a = mkarr(v, &len); ret = lf_schedule_copy(&A[o->a].act, o->b, a, len); free(a); } break;
    case SCHV: { a = mkarr(v, &len); ret = lf_schedule_value(&A[o->a].act, o->b, a, (int)len); } break;
    case SCHT: { a = mkarr(v, &len); lf_token_t* t = lf_new_token(&A[o->a].act, a, len); ret = lf_schedule_token(&A[o->a].act, o->b, t); } break;
    case SCHF: { lf_port_base_t* p = inport(o->c, o->d); if (p->is_present) ret = lf_schedule_token(&A[o->a].act, o->b, p->tmplt.token); else sched = 0; } break;
    case SCHIV: { lf_port_base_t* p = inport(o->c, o->d); if (p->is_present) ret = lf_schedule_copy(&A[o->a].act, o->b, &((ip_t*)p)->value, 1); else sched = 0; } break;
    case STOP: lf_request_stop(); { rec_t* r = newrec('Q'); r->f[0] = tick(); r->f[1] = xid; r->f[2] = lf_tag(&env_).time - lf_time_start(); r->f[3] = lf_tag(&env_).microstep; } break;
#ifdef MODAL_REACTORS
    case MODE: _LF_SET_MODE_WITH_TYPE(((reactor_mode_t*)M[o->a].m), ((lf_mode_change_type_t)o->b)); break;
#endif
    case WDSTART:
      if (xid >= 100000) { static int n[64]; if (n[xid - 100000]++ >= 6) break; } // handlers restart themselves a bounded number of times
      wd_start((int)o->a, o->b, self); break;
    case WDSTOP: wd_stop((int)o->a); break;
    case ADVCLK: atomic_fetch_add_explicit(&vclock, o->a + (long long)(v % (uint64_t)(o->b + 1)), memory_order_relaxed); break;
    case SLEEP: usleep((useconds_t)(o->a + (long long)(v % (uint64_t)(o->b + 1)))); break;
    case BUSY: for (volatile long k = 0; k < o->a; k++); break;
    case ASYNC: for (int k = 0; k < nAs; k++) start_async(k); break;
    case COUNTSTOP: if (++self->count == o->a) lf_request_stop(); break;
    case CHKDL: { bool b = lf_check_deadline(self, false); instant_t p = lf_time_physical(); rec_t* r = newrec('D'); r->f[0] = tick(); r->f[1] = xid; r->f[2] = b; r->f[3] = p - lf_time_logical(&env_); } break;
#ifdef FEDERATED
    case SENDFED: case SENDABS: case ENQABS: fed_op(o, v, self, h); break;
#endif
    default: fprintf(stderr, "bad op %d\n", o->code); _exit(3);
    }
    if (sched) {
      if (A[o->a].physical) pb = lf_time_physical();
      rec_t* r = newrec('S'); r->f[0] = tick(); r->f[1] = xid; r->f[2] = i; r->f[3] = o->a; r->f[4] = ret; r->f[5] = pa; r->f[6] = pb; r->f[7] = (long long)v; r->f[8] = -1;
      if (xid < 100000) { r->f[9] = lf_tag(&env_).time - lf_time_start(); r->f[10] = lf_tag(&env_).microstep; }
    }
  }
}

static void exec(self_t* self, rx_t* x, int kind) {
  inj();
  int xid = x->gid;
  uint64_t s0 = tick();
  if (__atomic_exchange_n(&self->busy, 1, __ATOMIC_RELAXED)) viol("mutual-exclusion", "reactor %d executes two reactions at once (reaction %d)", self->id, xid);
  tag_t tg = lf_tag(&env_); interval_t el = lf_time_logical_elapsed(&env_); instant_t p0 = lf_time_physical();
  if (el != tg.time - lf_time_start() || lf_time_logical(&env_) != tg.time) viol("elapsed-time", "elapsed %lld at tag time %lld start %lld", (long long)el, (long long)tg.time, (long long)lf_time_start());
  uint64_t h = self->st; h = mix(h ^ (uint64_t)(xid + 1) * 0x9E3779B1u); h = mix(h ^ (uint64_t)el); h = mix(h ^ tg.microstep); h = mix(h ^ (uint64_t)kind);
  uint64_t pres = 1;
  long long ph[8]; int nph = 0;
  for (int i = 0; i < x->nsrc; i++) {
    src_t* s = &x->src[i];
    if (s->kind == 0 && (s->flags & 2)) {
      in_t* in = &I[s->id];
      if (s->flags & 4) { // through the iterator
        struct { lf_port_base_t** _lf_in; int _lf_in_width; } vw = {in->ch, in->width}, *keep = (void*)self; (void)keep;
        lf_multiport_iterator_t it = _lf_multiport_iterator_impl(vw._lf_in, vw._lf_in_width);
        int c, prev = -1, seen = 0, real = 0;
        for (int k = 0; k < in->width; k++) real += in->ch[k]->is_present;
        while ((c = lf_multiport_next(&it)) >= 0) {
          if (c <= prev || c >= in->width) { viol("sparse-iterator", "reaction %d: channel %d after %d (width %d)", xid, c, prev, in->width); break; }
          if (!in->ch[c]->is_present) viol("sparse-iterator", "reaction %d: iterator visits absent channel %d", xid, c);
          prev = c; seen++;
        }
        if (seen != real) viol("sparse-iterator", "reaction %d: iterator visited %d channels, %d are present", xid, seen, real);
      }
      for (int c = 0; c < in->width; c++) {
        lf_port_base_t* p = in->ch[c];
        if (!p->is_present) continue;
        h = mix(h ^ (uint64_t)(i * 1000 + c + 1)); pres = mix(pres ^ (uint64_t)(i * 1000 + c + 1));
        if (in->type == 0) h = mix(h ^ (uint64_t)((ip_t*)p)->value);
        else {
          ap_t* q = (ap_t*)p;
          if (q->token == NULL || q->value != q->token->value || q->length != q->token->length) viol("token-fields", "reaction %d: port value/length disagree with its token", xid);
          h = harr(h, q->value, q->length);
        }
#ifdef FEDERATED_DECENTRALIZED
        { rec_t* r = newrec('V'); r->f[0] = s0; r->f[1] = xid; r->f[2] = kind; r->f[3] = el; r->f[4] = tg.microstep; r->f[5] = s->id; r->f[6] = c;
          r->f[7] = in->type == 0 ? ((ip_t*)p)->value : ((ap_t*)p)->value[1]; r->f[8] = in->type == 0 ? 0 : (long long)harr(1, ((ap_t*)p)->value, ((ap_t*)p)->length);
          tag_t it = ((ap_t*)p)->itag; r->f[9] = it.time == NEVER ? NEVER : it.time - lf_time_start(); r->f[10] = it.microstep; r->f[11] = s->flags; }
#endif
      }
    } else if (s->kind == 1 && (s->flags & 3)) {
      action_t* ac = &A[s->id];
      act_t* a = &ac->act;
      a->is_present = ac->trig.status == present;
      a->has_value = ac->trig.tmplt.token != NULL && ac->trig.tmplt.token->value != NULL;
      _lf_replace_template_token((token_template_t*)a, ac->trig.tmplt.token); ac->tok0 = a->token;
      if (ac->net && ac->type == 2 && a->is_present && a->has_value) a->token->length /= 4; // bytes on the wire
      if (!a->is_present) continue;
      h = mix(h ^ (uint64_t)(i * 1000 + 500)); pres = mix(pres ^ (uint64_t)(i * 1000 + 500));
      long long val = -1;
      if (a->has_value) {
        if (ac->type == 1) { val = *(int64_t*)a->token->value; h = mix(h ^ (uint64_t)val); }
        else if (ac->type == 3) { val = *(int*)a->token->value; h = mix(h ^ (uint64_t)val); }
        else if (ac->type == 2) { h = harr(h, a->token->value, a->token->length); val = ((int32_t*)a->token->value)[1]; }
      } else h = mix(h ^ 77);
      if ((ac->physical || ac->net) && nph < 3) { ph[nph * 2] = s->id; ph[nph * 2 + 1] = val; nph++; }
    }
  }
  long long op_st = (long long)h;
  self->st = h;
#ifdef LF_TRACE
  tracepoint_user_value(self, (char*)"uservalue", xid);
#endif
  do_ops(self, kind ? x->nh : x->nops, kind ? x->hops : x->ops, h, xid);
  tag_t t2 = lf_tag(&env_); interval_t el2 = lf_time_logical_elapsed(&env_);
  if (t2.time != tg.time || t2.microstep != tg.microstep || el2 != el) viol("tag-changes-in-body", "reaction %d: tag (%lld,%u) became (%lld,%u) during its body", xid, (long long)el, tg.microstep, (long long)el2, t2.microstep);
  instant_t p1 = lf_time_physical();
  __atomic_store_n(&self->busy, 0, __ATOMIC_RELAXED);
  rec_t* r = newrec('E');
  r->f[0] = s0; r->f[1] = tick(); r->f[2] = xid; r->f[3] = kind; r->f[4] = el; r->f[5] = tg.microstep; r->f[6] = p0; r->f[7] = p1; r->f[8] = (long long)pres; r->f[9] = op_st;
  r->f[10] = nph; for (int i = 0; i < nph * 2; i++) r->f[11 + i] = ph[i];
  inj();
}
#define B(n) static void body##n(void* s) { exec((self_t*)s, ((self_t*)s)->rx[n], 0); } static void hand##n(void* s) { exec((self_t*)s, ((self_t*)s)->rx[n], 1); } static void stp##n(void* s) { exec((self_t*)s, ((self_t*)s)->rx[n], 2); }
B(0) B(1) B(2) B(3) B(4) B(5) B(6) B(7) B(8) B(9) B(10) B(11) B(12) B(13) B(14) B(15) B(16) B(17) B(18) B(19) B(20) B(21) B(22) B(23)
static reaction_function_t bodies[] = {body0, body1, body2, body3, body4, body5, body6, body7, body8, body9, body10, body11, body12, body13, body14, body15, body16, body17, body18, body19, body20, body21, body22, body23};
static reaction_function_t hands[] = {hand0, hand1, hand2, hand3, hand4, hand5, hand6, hand7, hand8, hand9, hand10, hand11, hand12, hand13, hand14, hand15, hand16, hand17, hand18, hand19, hand20, hand21, hand22, hand23};
static reaction_function_t stps[] __attribute__((unused)) = {stp0, stp1, stp2, stp3, stp4, stp5, stp6, stp7, stp8, stp9, stp10, stp11, stp12, stp13, stp14, stp15, stp16, stp17, stp18, stp19, stp20, stp21, stp22, stp23};

// ------------------------------------------------------------- watchdogs
#if !defined(LF_SINGLE_THREADED)
static void wd_fire(int w) {
  wd_t_* wd = &W[w]; self_t* self = R[wd->reactor];
  inj();
  uint64_t s0 = tick();
  if (__atomic_exchange_n(&self->busy, 1, __ATOMIC_RELAXED)) viol("watchdog-exclusion", "watchdog handler %d runs during a reaction of its reactor", w);
  instant_t p0 = lf_time_physical();
  do_ops(self, wd->nops, wd->ops, mix(w + 1), 100000 + w);
  usleep(tl()->rng % 50);
  __atomic_store_n(&self->busy, 0, __ATOMIC_RELAXED);
  rec_t* r = newrec('W'); r->f[0] = s0; r->f[1] = tick(); r->f[2] = w; r->f[3] = 2; r->f[4] = p0 - lf_time_start();
}
#define WD(n) static void wdf##n(void* s) { (void)s; wd_fire(n); }
WD(0) WD(1) WD(2) WD(3) WD(4) WD(5) WD(6) WD(7)
static void (*wdfs[])(void*) = {wdf0, wdf1, wdf2, wdf3, wdf4, wdf5, wdf6, wdf7};
static void wd_start(int w, long long extra, self_t* self) {
  rec_t* r = newrec('W'); r->f[0] = tick(); r->f[2] = w; r->f[3] = 0; r->f[4] = lf_time_physical() - lf_time_start(); r->f[5] = extra; if (self) r->f[6] = self->base.environment->current_tag.time - lf_time_start();
  lf_watchdog_start(W[w].w, extra);
}
static void wd_stop(int w) {
  lf_watchdog_stop(W[w].w);
  rec_t* r = newrec('W'); r->f[0] = tick(); r->f[2] = w; r->f[3] = 1; r->f[4] = lf_time_physical() - lf_time_start();
}
#else
static void wd_start(int w, long long extra, self_t* s) { (void)w; (void)extra; (void)s; }
static void wd_stop(int w) { (void)w; }
#endif

// ----------------------------------------------------- asynchronous threads
static _Atomic int stop_async;
static void* async_main(void* p) {
  async_t* as = p; action_t* ac = &A[as->aid];
  if (as->startdelay) usleep(as->startdelay);
  for (int k = 0; k < as->n; k++) {
    if (atomic_load_explicit(&stop_async, memory_order_relaxed)) break;
    int64_t val = (int64_t)(as->idx + 1) * 1000000 + k;
    inj();
    instant_t pa = lf_time_physical(); long long ret = 0; uint64_t s0 = tick();
    if (as->kind == 9) lf_request_stop();
    else if (ac->type == 1) {
      if (as->kind == 0) ret = lf_schedule_copy(&ac->act, as->extra, &val, 1);
      else { int64_t* x = malloc(8); *x = val; ret = lf_schedule_value(&ac->act, as->extra, x, 1); }
    } else if (ac->type == 3) ret = lf_schedule_int(&ac->act, as->extra, (int)val);
    else if (ac->type == 2) { int32_t* x = malloc(12); x[0] = 3; x[1] = (int32_t)val; x[2] = (int32_t)(val * 7 & 0x7fffffff); 
      if (as->kind == 0) { ret = lf_schedule_copy(&ac->act, as->extra, x, 3); free(x); } else ret = lf_schedule_value(&ac->act, as->extra, x, 3); }
    else ret = lf_schedule(&ac->act, as->extra);
    instant_t pb = lf_time_physical();
    rec_t* r = newrec(as->kind == 9 ? 'q' : 'S'); r->f[0] = s0; r->f[1] = -1; r->f[2] = k; r->f[3] = as->aid; r->f[4] = ret; r->f[5] = pa; r->f[6] = pb; r->f[7] = val; r->f[8] = as->idx; r->f[9] = tick();
    if (as->spacing) usleep(as->spacing); else if ((k & 7) == 0) sched_yield();
  }
  return NULL;
}
static pthread_mutex_t as_mu = PTHREAD_MUTEX_INITIALIZER;
static void start_async(int i) {
  pthread_mutex_lock(&as_mu);
  if (!As[i].started) { As[i].started = 1; pthread_create(&As[i].th, NULL, async_main, &As[i]); }
  pthread_mutex_unlock(&as_mu);
}

// --------------------------------------------------------------- building
static long long rd(FILE* f) { long long v; if (fscanf(f, "%lld", &v) != 1) { fprintf(stderr, "bad program file\n"); _exit(3); } return v; }
static op_t* rdops(FILE* f, int n) {
  op_t* o = calloc(n + 1, sizeof *o);
  for (int i = 0; i < n; i++) { o[i].code = (int)rd(f); o[i].mask = (uint64_t)rd(f); o[i].match = (uint64_t)rd(f); o[i].a = rd(f); o[i].b = rd(f); o[i].c = rd(f); o[i].d = rd(f); }
  return o;
}
#define GROW(arr, n) (arr = realloc(arr, ((n) + 1) * sizeof *arr), memset(&arr[n], 0, sizeof *arr))
static void parse(const char* path) {
  FILE* f = fopen(path, "r"); if (!f) { perror(path); _exit(3); }
  char k[32];
  while (fscanf(f, "%31s", k) == 1) {
    if (!strcmp(k, "clock")) { clock_mode = (int)rd(f); vclock = rd(f); }
    else if (!strcmp(k, "delay")) { dl_prob = (int)rd(f); dl_max = (int)rd(f); dl_seed = (uint64_t)rd(f); }
    else if (!strcmp(k, "reactor")) { GROW(Rparent, nR); GROW(Rwd, nR); rd(f); Rparent[nR] = (int)rd(f); Rwd[nR] = (int)rd(f); nR++; }
    else if (!strcmp(k, "mode")) { GROW(M, nM); rd(f); M[nM].reactor = (int)rd(f); M[nM].initial = (int)rd(f); nM++; }
    else if (!strcmp(k, "out")) { GROW(O, nO); rd(f); O[nO].reactor = (int)rd(f); O[nO].width = (int)rd(f); O[nO].type = (int)rd(f); O[nO].custom = (int)rd(f); nO++; }
    else if (!strcmp(k, "in")) { GROW(I, nI); rd(f); I[nI].reactor = (int)rd(f); I[nI].width = (int)rd(f); I[nI].type = (int)rd(f); I[nI].sparse = (int)rd(f); I[nI].mode = (int)rd(f); nI++; }
    else if (!strcmp(k, "conn")) { GROW(C, nC); for (int i = 0; i < 4; i++) C[nC][i] = (int)rd(f); nC++; }
    else if (!strcmp(k, "act")) { GROW(A, nA); rd(f); A[nA].reactor = (int)rd(f); A[nA].physical = (int)rd(f); A[nA].mind = rd(f); A[nA].minsp = rd(f); A[nA].policy = (int)rd(f); A[nA].type = (int)rd(f); A[nA].mode = (int)rd(f); nA++; }
    else if (!strcmp(k, "timer")) { GROW(T, nT); rd(f); T[nT].reactor = (int)rd(f); T[nT].off = rd(f); T[nT].per = rd(f); T[nT].mode = (int)rd(f); nT++; }
    else if (!strcmp(k, "wd")) { GROW(W, nW); rd(f); W[nW].reactor = (int)rd(f); W[nW].timeout = rd(f); W[nW].nops = (int)rd(f); W[nW].ops = rdops(f, W[nW].nops); nW++; }
    else if (!strcmp(k, "reaction")) {
      GROW(X, nX); rx_t* x = &X[nX]; x->gid = nX++; rd(f);
      x->reactor = (int)rd(f); x->number = (int)rd(f); x->level = (int)rd(f); x->inferred = rd(f); x->deadline = rd(f); x->lastenab = (int)rd(f); x->mode = (int)rd(f); x->special = (int)rd(f);
      x->nsrc = (int)rd(f); x->src = calloc(x->nsrc + 1, sizeof(src_t)); for (int i = 0; i < x->nsrc; i++) { x->src[i].kind = (int)rd(f); x->src[i].id = (int)rd(f); x->src[i].flags = (int)rd(f); }
      x->neff = (int)rd(f); x->eff = calloc(x->neff + 1, sizeof(int)); for (int i = 0; i < x->neff; i++) x->eff[i] = (int)rd(f);
      x->nops = (int)rd(f); x->ops = rdops(f, x->nops); x->nh = (int)rd(f); x->hops = rdops(f, x->nh);
    } else if (!strcmp(k, "statereset")) { GROW(SR, nSR); SR[nSR][0] = (int)rd(f); SR[nSR][1] = (int)rd(f); nSR++; }
    else if (!strcmp(k, "big")) bigarr = (unsigned)rd(f);
    else if (!strcmp(k, "async")) { GROW(As, nAs); As[nAs].aid = (int)rd(f); As[nAs].n = (int)rd(f); As[nAs].kind = (int)rd(f); As[nAs].spacing = (int)rd(f); As[nAs].extra = rd(f); As[nAs].startdelay = (int)rd(f); As[nAs].idx = nAs; nAs++; }
#ifdef FEDERATED
    else if (fed_parse(k, f)) {}
#endif
    else { fprintf(stderr, "bad keyword %s\n", k); _exit(3); }
  }
  fclose(f);
}

int _lf_get_environments(environment_t** e) { *e = &env_; return 1; }
#ifndef FEDERATED
void lf_set_default_command_line_options(void) {}
void logical_tag_complete(tag_t t) { (void)t; }
#endif
static rec_t zrec;
static void join_async(void) {
  atomic_store_explicit(&stop_async, 1, memory_order_relaxed);
  for (int i = 0; i < nAs; i++) { pthread_mutex_lock(&as_mu); int s = As[i].started && !As[i].joined; As[i].joined = 1; pthread_mutex_unlock(&as_mu); if (s) pthread_join(As[i].th, NULL); }
}
void prog_terminating(environment_t* env) {
  rec_t* r = newrec('Z'); r->f[0] = tick(); r->f[1] = env->current_tag.time - lf_time_start(); r->f[2] = env->current_tag.microstep;
  r->f[3] = env->stop_tag.time == FOREVER ? FOREVER : env->stop_tag.time - lf_time_start(); r->f[4] = env->stop_tag.microstep; r->f[5] = lf_time_physical() - lf_time_start(); r->f[6] = lf_time_start(); { instant_t t; __real__lf_clock_gettime(&t); r->f[7] = t - lf_time_start(); r->f[8] = clock_mode == 2 ? vclock : 0; }
  join_async();
  for (int i = 0; i < nR; i++) { r = newrec('F'); r->f[0] = i < nRg ? Rgid[i] : i; r->f[1] = R ? (long long)R[i]->st : 0; }
}
#ifndef FEDERATED
void lf_terminate_execution(environment_t* env) { prog_terminating(env); }
#endif

#ifdef FEDERATED
#include "prog_fed_impl.h"
#endif
static int nlevel(int lv) { int n = 0; for (int i = 0; i < nX; i++) n += X[i].level == lv; return n; }
void lf_create_environments(void) {
  printf("WORKERS %u\n", _lf_number_of_workers);
  int present_fields = nA; for (int i = 0; i < nO; i++) present_fields += O[i].width;
#ifdef FEDERATED
  present_fields += fed_extra_present();
#endif
  for (int s = 0; s < 3; s++) { nspecial[s] = 0; for (int i = 0; i < nX; i++) nspecial[s] += (X[i].special >> s) & 1; }
  int nmodal = 0; for (int r = 0; r < nR; r++) { int has = 0; for (int m = 0; m < nM; m++) has |= M[m].reactor == r; nmodal += has; }
  environment_init(&env_, "main", 0, (int)_lf_number_of_workers, nT, nspecial[0], nspecial[1], nspecial[2], present_fields, nmodal, nSR, nW, NULL);
}

static trigger_t** tlist(self_t* s, int n) { return (trigger_t**)lf_allocate(n > 0 ? n : 1, sizeof(trigger_t*), &s->base.allocations); }
#ifdef MODAL_REACTORS
static reactor_mode_t* mp(int m) { return m < 0 ? NULL : (reactor_mode_t*)M[m].m; }
#else
#define mp(m) NULL
#endif
static void fill_reactions(trigger_t* t, int kind, int id, self_t* s) {
  int n = 0; for (int i = 0; i < nX; i++) for (int j = 0; j < X[i].nsrc; j++) n += X[i].src[j].kind == kind && X[i].src[j].id == id && (X[i].src[j].flags & 1);
  t->reactions = (reaction_t**)lf_allocate(n + 1, sizeof(reaction_t*), &s->base.allocations); t->number_of_reactions = n; n = 0;
  for (int i = 0; i < nX; i++) for (int j = 0; j < X[i].nsrc; j++) if (X[i].src[j].kind == kind && X[i].src[j].id == id && (X[i].src[j].flags & 1)) t->reactions[n++] = &X[i].r;
  t->last_tag = NEVER_TAG; t->period = -1; 
#ifdef FEDERATED
  t->last_known_status_tag = NEVER_TAG; t->intended_tag = NEVER_TAG; t->physical_time_of_arrival = NEVER;
#endif
}
void _lf_initialize_trigger_objects(void) {
  environment_t* env = &env_;
  int ipf = 0;
  R = calloc(nR, sizeof *R);
  for (int r = 0; r < nR; r++) {
    self_t* s = (self_t*)lf_new_reactor(sizeof(self_t)); R[r] = s; s->id = r; s->st = s->st0 = mix((r < nRg ? Rgid[r] : r) + 1); s->base.environment = env;
#if !defined(LF_SINGLE_THREADED)
    if (Rwd[r]) s->base.reactor_mutex = calloc(1, sizeof(lf_mutex_t));
#endif
  }
#ifdef MODAL_REACTORS
  for (int m = 0; m < nM; m++) {
    reactor_mode_t* md = (reactor_mode_t*)lf_allocate(1, sizeof(reactor_mode_t), &R[M[m].reactor]->base.allocations); M[m].m = md;
    md->state = &R[M[m].reactor]->base._lf__mode_state; md->name = "m"; md->deactivation_time = 0; md->flags = 0;
    if (M[m].initial) { md->state->initial_mode = md; md->state->current_mode = md; }
  }
  for (int r = 0; r < nR; r++) R[r]->base._lf__mode_state.parent_mode = mp(Rparent[r]);
  int ms = 0;
  for (int r = 0; r < nR; r++) { int has = 0; for (int m = 0; m < nM; m++) has |= M[m].reactor == r; if (has) env->modes->modal_reactor_states[ms++] = &R[r]->base._lf__mode_state; }
  for (int i = 0; i < nSR; i++) env->modes->state_resets[i] = (mode_state_variable_reset_data_t){.mode = mp(SR[i][1]), .target = &R[SR[i][0]]->st, .source = &R[SR[i][0]]->st0, .size = 8};
#endif
  // ports
  for (int o = 0; o < nO; o++) {
    self_t* s = R[O[o].reactor]; O[o].ch = (lf_port_base_t**)lf_allocate(O[o].width, sizeof(void*), &s->base.allocations);
    for (int c = 0; c < O[o].width; c++) {
      lf_port_base_t* p = (lf_port_base_t*)lf_allocate(1, sizeof(ap_t), &s->base.allocations); O[o].ch[c] = p;
      p->source_reactor = &s->base; p->destination_channel = -1;
      if (O[o].type == 0) p->tmplt.type.element_size = 8;
      else { _lf_initialize_template((token_template_t*)p, 4); if (O[o].custom) { lf_set_destructor(p, cdtor); lf_set_copy_constructor(p, ccopy); } }
#ifdef FEDERATED_DECENTRALIZED
      env->_lf_intended_tag_fields[ipf] = &((ap_t*)p)->itag; ((ap_t*)p)->itag = NEVER_TAG;
#endif
      env->is_present_fields[ipf++] = &p->is_present;
    }
  }
  for (int i = 0; i < nI; i++) {
    self_t* s = R[I[i].reactor]; I[i].ch = (lf_port_base_t**)lf_allocate(I[i].width, sizeof(void*), &s->base.allocations);
    lf_port_base_t* def = (lf_port_base_t*)lf_allocate(1, sizeof(ap_t), &s->base.allocations); def->destination_channel = -1; def->source_reactor = &s->base;
    for (int c = 0; c < I[i].width; c++) I[i].ch[c] = def;
    fill_reactions(&I[i].trig, 0, i, s); I[i].trig.mode = mp(I[i].mode);
    if (I[i].sparse) {
      size_t cap = I[i].width / LF_SPARSE_CAPACITY_DIVIDER; if (cap < 1) cap = 1;
      I[i].rec = (lf_sparse_io_record_t*)lf_allocate(1, sizeof(lf_sparse_io_record_t), &s->base.allocations);
      I[i].rec->capacity = cap; I[i].rec->present_channels = (size_t*)lf_allocate(cap, sizeof(size_t), &s->base.allocations);
      if (env->sparse_io_record_sizes.start == NULL) env->sparse_io_record_sizes = vector_new(1);
      vector_push(&env->sparse_io_record_sizes, (void*)&I[i].rec->size);
    }
  }
  for (int c = 0; c < nC; c++) {
    lf_port_base_t* p = O[C[c][2]].ch[C[c][3]]; I[C[c][0]].ch[C[c][1]] = p; p->num_destinations++;
    if (I[C[c][0]].rec) { p->sparse_record = I[C[c][0]].rec; p->destination_channel = C[c][1]; }
  }
  // actions, timers
  for (int a = 0; a < nA; a++) {
    self_t* s = R[A[a].reactor]; trigger_t* t = &A[a].trig; fill_reactions(t, 1, a, s);
    t->offset = A[a].mind; t->period = A[a].minsp; t->is_physical = A[a].physical; t->policy = (lf_spacing_policy_t)A[a].policy; t->mode = mp(A[a].mode); t->status = absent;
    A[a].act._base.trigger = t; A[a].act.parent = &s->base;
    size_t es = A[a].type == 1 ? 8 : A[a].type == 2 || A[a].type == 3 ? 4 : 0;
    if (es) { A[a].act.type.element_size = es; _lf_initialize_template((token_template_t*)t, es); _lf_initialize_template((token_template_t*)&A[a].act, es); }
    env->is_present_fields[ipf++] = (bool*)&t->status;
  }
  for (int i = 0; i < nT; i++) {
    trigger_t* t = &T[i].trig; fill_reactions(t, 2, i, R[T[i].reactor]); t->is_timer = true; t->offset = T[i].off; t->period = T[i].per; t->mode = mp(T[i].mode);
    env->timer_triggers[i] = t;
  }
  // reactions
  int spn[3] = {0, 0, 0};
  for (int i = 0; i < nX; i++) {
    rx_t* x = &X[i]; self_t* s = R[x->reactor]; reaction_t* r = &x->r; s->rx[x->number] = x;
    r->function = bodies[x->number]; r->self = s; r->number = x->number; r->index = lf_combine_deadline_and_level(x->inferred, x->level); r->deadline = x->deadline;
    r->deadline_violation_handler = x->deadline >= 0 ? hands[x->number] : NULL; r->STP_handler = x->stp ? stps[x->number] : NULL; r->name = "?"; r->mode = mp(x->mode); r->worker_affinity = 0;
    r->last_enabling_reaction = x->lastenab >= 0 ? &X[x->lastenab].r : NULL; r->status = inactive;
    int no = 0; for (int e = 0; e < x->neff; e++) no += O[x->eff[e]].width;
    r->num_outputs = no; r->output_produced = (bool**)lf_allocate(no + 1, sizeof(bool*), &s->base.allocations);
    r->triggered_sizes = (int*)lf_allocate(no + 1, sizeof(int), &s->base.allocations); r->triggers = (trigger_t***)lf_allocate(no + 1, sizeof(void*), &s->base.allocations);
    no = 0;
    for (int e = 0; e < x->neff; e++) for (int c = 0; c < O[x->eff[e]].width; c++, no++) {
      r->output_produced[no] = &O[x->eff[e]].ch[c]->is_present;
      int n = 0; for (int k = 0; k < nC; k++) n += C[k][2] == x->eff[e] && C[k][3] == c;
      r->triggered_sizes[no] = n; r->triggers[no] = tlist(s, n); n = 0;
      for (int k = 0; k < nC; k++) if (C[k][2] == x->eff[e] && C[k][3] == c) r->triggers[no][n++] = &I[C[k][0]].trig;
    }
    reaction_t** arr[3] = {env->startup_reactions, env->shutdown_reactions, env->reset_reactions};
    for (int q = 0; q < 3; q++) if ((x->special >> q) & 1) arr[q][spn[q]++] = r;
    if (x->level + 1 > nlevels) nlevels = x->level + 1;
  }
#if !defined(LF_SINGLE_THREADED)
  for (int w = 0; w < nW; w++) {
    watchdog_t* d = (watchdog_t*)lf_allocate(1, sizeof(watchdog_t), &R[W[w].reactor]->base.allocations); W[w].w = d;
    d->base = &R[W[w].reactor]->base; d->expiration = NEVER; d->min_expiration = W[w].timeout; d->watchdog_function = wdfs[w]; d->active = false; d->terminate = false;
    env->watchdogs[w] = d;
  }
  static size_t per[4096]; if (nlevels < 1) nlevels = 1;
  for (int l = 0; l < nlevels; l++) per[l] = nlevel(l) ? nlevel(l) : 1;
  static sched_params_t sp; sp.num_reactions_per_level = per; sp.num_reactions_per_level_size = nlevels;
#ifdef FEDERATED
  fed_init(env, &ipf);
#endif
  lf_sched_init(env, (size_t)env->num_workers, &sp);
#ifdef FEDERATED
  fed_connect();
#endif
#endif
#ifdef LF_TRACE
  register_user_trace_event(&env_, (char*)"uservalue");
  for (int i = 0; i < nR; i++) { char* b = malloc(16); sprintf(b, "R%d", i); _lf_register_trace_event(R[i], NULL, trace_reactor, b); printf("TOBJ %p R %d\n", (void*)R[i], i); }
  for (int i = 0; i < nA; i++) { char* b = malloc(16); sprintf(b, "A%d", i); _lf_register_trace_event(R[A[i].reactor], &A[i].trig, trace_trigger, b); printf("TOBJ %p A %d\n", (void*)&A[i].trig, i); }
  for (int i = 0; i < nT; i++) { char* b = malloc(16); sprintf(b, "T%d", i); _lf_register_trace_event(R[T[i].reactor], &T[i].trig, trace_trigger, b); printf("TOBJ %p T %d\n", (void*)&T[i].trig, i); }
#endif
  if (async_autostart) for (int k = 0; k < nAs; k++) start_async(k);
}

static void final_checks(void) {
#ifndef NOTRACK
  extern bool _lf_normal_termination;
  if (_lf_normal_termination && nlive) viol("payload-not-destroyed", "%d of %ld payloads with destructor were never destroyed", nlive, ncreated);
  fprintf(stdout, "PAYLOADS %ld %ld\n", ncreated, ndestroyed);
#endif
}
static void at_exit1(void) { dump(); }
static void at_exit2(void) { final_checks(); if (env_.sparse_io_record_sizes.start) vector_free(&env_.sparse_io_record_sizes); free(R); R = NULL; }

int main(int argc, const char* argv[]) {
  setvbuf(stdout, NULL, _IOLBF, 0);
  const char* lp = getenv("PROG_LOG");
  if (lp) logf_ = fopen(lp, "w");
  async_autostart = getenv("PROG_AUTOASYNC") != NULL;
  parse(argv[1]);
  atexit(at_exit1); atexit(at_exit2); // run after the runtime's own termination
  argv[1] = argv[0];
  int r = lf_reactor_c_main(argc - 1, argv + 1);
  printf("MAIN %d\n", r);
  return r;
}

// Plays the role of the code generated for a program whose reactors are scheduling enclaves: one environment per enclave,
// connections that deliver into the receiver's event queue and tell the local RTI. argv[1]: program file; the rest goes to the runtime.
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include "environment.h"
#include "lf_types.h"
#include "lf_token.h"
#include "reactor.h"
#include "reactor_common.h"
#include "schedule.h"
#include "tag.h"
#include "clock.h"
#include "util.h"
#include "low_level_platform.h"
#include "scheduler.h"
#include "watchdog.h"
#include "rti_local.h"
#include "hutil.h"
int lf_reactor_c_main(int argc, const char* argv[]);
#define ME 12
#define MC 48
typedef struct { token_type_t type; lf_token_t* token; size_t length; bool is_present; lf_action_internal_t _base; self_base_t* parent; bool has_value; int source_id; } act_t;
typedef struct { int src, dst; long long delay, den; act_t act; trigger_t trig; reaction_t* rl[1]; } conn_t;
typedef struct { self_base_t base; int id; uint64_t st; int busy; } self_t;
static struct { long long off, per, n; int workers, keep; trigger_t tim; reaction_t r, su, sd; reaction_t *l0[1], *l1[1], *l2[1]; self_t* self; char* log; size_t ll, lc; long nth; int tpres; } E[ME];
static conn_t C[MC]; static int nE, nC; static int stopE; static long long stopT, lag; static environment_t env[ME]; static FILE* out; static uint64_t seed;
static uint64_t tk; static uint64_t tick(void) { return __atomic_add_fetch(&tk, 1, __ATOMIC_RELAXED); }
static void lg(int e, const char* f, ...) {   // the log of an enclave is written by its reactions alone
  char b[400]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a);
  if (E[e].ll + n + 1 > E[e].lc) { E[e].lc = 2 * E[e].lc + 1000; E[e].log = realloc(E[e].log, E[e].lc); }
  memcpy(E[e].log + E[e].ll, b, n + 1); E[e].ll += n;
}
static void viol(const char* k, const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); fprintf(stderr, "MONITOR %s %s\n", k, b); fflush(stderr); }
static __thread uint64_t js; static void inj(void) {
  if (!js) js = h_mix((uint64_t)(uintptr_t)&js ^ seed) | 1;
  js = h_mix(js); if (lag && js % 8 == 0) usleep(js / 8 % lag); else if (js % 5 == 0) sched_yield();
}
// delays around the runtime's synchronisation
int __real_lf_mutex_lock(lf_mutex_t*); int __real_lf_mutex_unlock(lf_mutex_t*); int __real_lf_cond_wait(lf_cond_t*);
static void dly(void) { if (!lag) return; if (!js) js = h_mix((uint64_t)(uintptr_t)&js ^ seed) | 1; js = h_mix(js); if (js % 16 == 0) { usleep(js / 16 % lag); } }
int __wrap_lf_mutex_lock(lf_mutex_t* m) { dly(); return __real_lf_mutex_lock(m); }
int __wrap_lf_mutex_unlock(lf_mutex_t* m) { int r = __real_lf_mutex_unlock(m); dly(); return r; }
int __wrap_lf_cond_wait(lf_cond_t* c) { int r = __real_lf_cond_wait(c); dly(); return r; }
static void deliver(int e, conn_t* c, tag_t now, uint64_t v) {
  environment_t *s = &env[e], *d = &env[c->dst];
  tag_t t = lf_delay_tag(now, c->delay);
  lf_token_t* tok = _lf_new_token((token_type_t*)&c->trig, NULL, 1); tok->value = malloc(8); memcpy(tok->value, &v, 8);
  inj();
  lf_mutex_lock(&d->mutex);
  tag_t dc = d->current_tag; int at = lf_tag_compare(t, d->stop_tag) <= 0; tag_t ds = d->stop_tag;
  int past = lf_tag_compare(t, dc) <= 0 && d->execution_started;
  trigger_handle_t h = _lf_schedule_at_tag(d, &c->trig, t, tok);
  if (h < 0 && past) _lf_free_token(tok);   // refused before it was retained
  lf_notify_of_event(d);
  rti_update_other_net_locked(s->enclave_info, d->enclave_info, t);
  lf_mutex_unlock(&d->mutex);
  if (past && at) viol("message-in-the-past", "enclave %d sends a message for (%lld,%u) to enclave %d, which is at (%lld,%u)", e, (long long)(t.time - lf_time_start()), t.microstep, c->dst, (long long)(dc.time - lf_time_start()), dc.microstep);
  lg(e, "M %d %lld %u %lld %d %lld %u\n", (int)(c - C), (long long)(t.time - lf_time_start()), t.microstep, (long long)h, past, ds.time == FOREVER ? FOREVER : (long long)(ds.time - lf_time_start()), ds.microstep);
}
static void body(void* p) {
  self_t* s = p; int e = s->id; environment_t* n = &env[e]; uint64_t s0 = tick(); instant_t p0 = lf_time_physical();
  if (__atomic_exchange_n(&s->busy, 1, __ATOMIC_ACQUIRE)) viol("exclusion", "enclave %d executes two reactions of one reactor at once", e);
  tag_t t = lf_tag(n); long long el = t.time - lf_time_start(); uint64_t x = h_mix(s->st ^ (uint64_t)el ^ ((uint64_t)t.microstep << 50)); char in[300] = ""; int k = 0;
  for (int i = 0; i < nC; i++) if (C[i].dst == e && C[i].trig.status == present) {
    uint64_t v = 0; lf_token_t* tok = C[i].trig.tmplt.token; if (tok && tok->value) memcpy(&v, tok->value, 8); else viol("payload", "enclave %d: input %d is present without a payload", e, i);
    x = h_mix(x ^ (v + i)); k += snprintf(in + k, sizeof in - k, " %d:%llu", i, (unsigned long long)v);
  }
  s->st = x; inj();
  lg(e, "E %lld %u %llu %lld %llu%s\n", el, t.microstep, (unsigned long long)x, (long long)(p0 - lf_time_start()), (unsigned long long)s0, in);
  for (int i = 0; i < nC; i++) if (C[i].src == e && h_mix(x + 77 * i) % C[i].den == 0 && (t.microstep == h_mix((uint64_t)el + i) % 4 % 3 % 2 || C[i].delay <= 0)) deliver(e, &C[i], t, h_mix(x + i));
  if (e == stopE && el >= stopT && stopT >= 0) { stopT = -1; lg(e, "Q %lld %u\n", el, t.microstep); lf_request_stop(); }
  tag_t t2 = lf_tag(n); if (lf_tag_compare(t, t2)) viol("tag-changes-in-body", "enclave %d: the tag changed during a reaction", e);
  __atomic_store_n(&s->busy, 0, __ATOMIC_RELEASE);
}
static void up(void* p) { self_t* s = p; tag_t t = lf_tag(&env[s->id]); lg(s->id, "U %lld %u\n", (long long)(t.time - lf_time_start()), t.microstep); }
static void down(void* p) { self_t* s = p; tag_t t = lf_tag(&env[s->id]); lg(s->id, "D %lld %u %lld\n", (long long)(t.time - lf_time_start()), t.microstep, (long long)(lf_time_physical() - lf_time_start())); }
int lf_get_upstream_of(int e, uint16_t** r) { static uint16_t u[ME][ME]; int n = 0; for (int i = 0; i < nE; i++) for (int c = 0; c < nC; c++) if (C[c].dst == e && C[c].src == i && i != e) { u[e][n++] = i; break; } *r = u[e]; return n; }
int lf_get_downstream_of(int e, uint16_t** r) { static uint16_t u[ME][ME]; int n = 0; for (int i = 0; i < nE; i++) for (int c = 0; c < nC; c++) if (C[c].src == e && C[c].dst == i && i != e) { u[e][n++] = i; break; } *r = u[e]; return n; }
int lf_get_upstream_delay_of(int e, interval_t** r) {
  static interval_t d[ME][ME]; uint16_t* u; int n = lf_get_upstream_of(e, &u);
  for (int k = 0; k < n; k++) { d[e][k] = FOREVER; for (int c = 0; c < nC; c++) if (C[c].dst == e && C[c].src == u[k] && C[c].delay < d[e][k]) d[e][k] = C[c].delay; }
  *r = d[e]; return n;
}
int _lf_get_environments(environment_t** e) { *e = env; return nE; }
void lf_set_default_command_line_options(void) {}
void logical_tag_complete(tag_t t) { (void)t; }
void lf_terminate_execution(environment_t* e) { (void)e; }
void lf_create_environments(void) { for (int e = 0; e < nE; e++) { char* nm = malloc(8); sprintf(nm, "e%d", e); environment_init(&env[e], nm, e, E[e].workers, 1, 1, 1, 0, MC, 0, 0, 0, NULL); free(nm); } }
void _lf_initialize_trigger_objects(void) {
  for (int e = 0; e < nE; e++) {
    self_t* s = (self_t*)lf_new_reactor(sizeof(self_t)); E[e].self = s; s->id = e; s->st = h_mix(seed + e); s->base.environment = &env[e];
    reaction_t* rs[3] = {&E[e].r, &E[e].su, &E[e].sd}; reaction_function_t f[3] = {body, up, down};
    for (int k = 0; k < 3; k++) { int lv[3] = {1, 0, 2}; rs[k]->function = f[k]; rs[k]->self = s; rs[k]->number = k; rs[k]->index = lf_combine_deadline_and_level(FOREVER, lv[k]); rs[k]->deadline = NEVER; rs[k]->name = "?"; rs[k]->status = inactive; rs[k]->worker_affinity = 0; }
    E[e].l0[0] = &E[e].r;
    E[e].tim.reactions = E[e].l0; E[e].tim.number_of_reactions = E[e].off >= 0; E[e].tim.is_timer = true; E[e].tim.offset = E[e].off < 0 ? 0 : E[e].off; E[e].tim.period = E[e].per; env[e].timer_triggers[0] = &E[e].tim;
    if (E[e].off < 0) env[e].timer_triggers_size = 0;
    env[e].startup_reactions[0] = &E[e].su; env[e].shutdown_reactions[0] = &E[e].sd;
    int ip = 0; static bool dummy[ME];
    for (int c = 0; c < nC; c++) if (C[c].dst == e) {
      trigger_t* t = &C[c].trig; C[c].rl[0] = &E[e].r; t->reactions = C[c].rl; t->number_of_reactions = 1; t->offset = 0; t->status = absent; t->policy = defer;
      C[c].act._base.trigger = t; C[c].act.parent = &s->base; C[c].act.type.element_size = 8; _lf_initialize_template((token_template_t*)t, 8); _lf_initialize_template((token_template_t*)&C[c].act, 8);
      env[e].is_present_fields[ip++] = (bool*)&t->status;
    }
    while (ip < MC) env[e].is_present_fields[ip++] = &dummy[e];
    static size_t per[3] = {1, 1, 1}; static sched_params_t sp = {per, 3};
    lf_sched_init(&env[e], E[e].workers, &sp);
  }
}
static void dump(void) {
  for (int e = 0; e < nE; e++) { fprintf(out, "F %d %lld %u %lld %u\n", e, (long long)(env[e].current_tag.time - lf_time_start()), env[e].current_tag.microstep, env[e].stop_tag.time == FOREVER ? FOREVER : (long long)(env[e].stop_tag.time - lf_time_start()), env[e].stop_tag.microstep); if (E[e].log) fputs(E[e].log, out); }
  fprintf(out, "END\n"); fclose(out);
  for (int e = 0; e < nE; e++) free(E[e].log);
}
static void* external(void* a) { usleep((long)(intptr_t)a); lf_request_stop(); return NULL; }
int main(int argc, const char** argv) {
  FILE* f = fopen(argv[1], "r"); long long ext;
  if (fscanf(f, "%llu %d %d %d %lld %lld %lld", (unsigned long long*)&seed, &nE, &nC, &stopE, &stopT, &lag, &ext) != 7) return 9;
  for (int e = 0; e < nE; e++) if (fscanf(f, "%lld %lld %d", &E[e].off, &E[e].per, &E[e].workers) != 3) return 9;
  for (int c = 0; c < nC; c++) if (fscanf(f, "%d %d %lld %lld", &C[c].src, &C[c].dst, &C[c].delay, &C[c].den) != 4) return 9;
  fclose(f); out = fopen(getenv("PROG_LOG"), "w"); atexit(dump);
  pthread_t th; (void)th; (void)external; (void)ext;
  argv[1] = argv[0]; return lf_reactor_c_main(argc - 1, argv + 1);
}

// Drives the tracing module directly: managed threads, user threads, random volumes. argv: seed scratch-name nmanaged nuser volume nobj
#include <pthread.h>
#include <sched.h>
#include "trace.h"
#include "low_level_platform.h"
#include "hutil.h"
static int nman, nuser, vol; static char* objs[64]; static int nobj;
typedef struct { int idx, managed; uint64_t s; int n; } th;
static pthread_barrier_t bar;
static uint64_t x_next(uint64_t* s) { return *s = h_mix(*s); }
static void emit(FILE* f, th* t, int k, uint64_t* s) {
  trace_record_nodeps_t r; memset(&r, 0, sizeof r);
  r.event_type = (int)(x_next(s) % 10);
  r.pointer = nobj ? objs[x_next(s) % nobj] : NULL;
  r.trigger = nobj && x_next(s) % 3 ? objs[x_next(s) % nobj] + 1 : NULL;
  r.src_id = t->idx; r.dst_id = (int)(x_next(s) % 60);
  r.logical_time = 1000000000ll + (int64_t)(x_next(s) >> 24); r.microstep = (int64_t)(x_next(s) % 5);
  r.physical_time = 1000000000ll + (int64_t)(x_next(s) >> 24); r.extra_delay = k;
  lf_tracing_tracepoint(t->idx, &r);
}
static void* go(void* a) {
  th* t = (th*)a; uint64_t s = t->s;
  if (t->managed) initialize_lf_thread_id();
  pthread_barrier_wait(&bar);
  for (int k = 0; k < t->n; k++) { emit(NULL, t, k, &s); if (x_next(&s) % 500 == 0) sched_yield(); }
  return NULL;
}
int main(int argc, char** argv) {
  uint64_t seed = strtoull(argv[1], 0, 0); nman = atoi(argv[3]); nuser = atoi(argv[4]); vol = atoi(argv[5]); nobj = atoi(argv[6]); int slack = atoi(argv[7]);
  h_s = seed;
  lf_tracing_global_init(argv[2], NULL, atoi(argv[8]), nman - slack);
  lf_tracing_set_start_time(1000000000ll);
  static char arena[8192];
  for (int i = 0; i < nobj; i++) {
    objs[i] = arena + i * 16; char* d = malloc(300); int n = 1 + (int)rn(rn(4) ? 20 : 200); for (int j = 0; j < n; j++) d[j] = "abcdefgh.xyz_[]0123"[rn(19)]; d[n] = 0; sprintf(d + n, "#%d", i);
    lf_tracing_register_trace_event((object_description_t){objs[i], NULL, i % 5 == 4 ? trace_user : trace_reactor, d});
    char* d2 = malloc(strlen(d) + 2); strcpy(d2, d); d = strcat(d2, "t");
    lf_tracing_register_trace_event((object_description_t){objs[i], objs[i] + 1, trace_trigger, d});
    printf("OBJ %p %s\n", (void*)objs[i], d);
  }
  th* t = calloc(nman + nuser, sizeof(th)); pthread_t* p = calloc(nman + nuser, sizeof(pthread_t));
  pthread_barrier_init(&bar, 0, nman + nuser);
  for (int i = 0; i < nman + nuser; i++) {
    t[i] = (th){i, i < nman, h_mix(seed * 1000 + i), rn(5) ? (int)rn(vol) : 2048 * (int)rn(3)};
    pthread_create(&p[i], 0, go, &t[i]);
  }
  for (int i = 0; i < nman + nuser; i++) pthread_join(p[i], 0);
  lf_tracing_global_shutdown();
  for (int i = 0; i < nman + nuser; i++) printf("THREAD %d %llu %d\n", i, (unsigned long long)t[i].s, t[i].n);
  printf("BASE %p\nEND\n", (void*)arena);
  return 0;
}

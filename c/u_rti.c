// Minimum delays and cycle flags of the RTI for topologies read from standard input.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "rti_common.h"
#include "lf_types.h"
#include "platform.h"
extern instant_t start_time;
void notify_tag_advance_grant(scheduling_node_t* e, tag_t t) { (void)e; (void)t; }
void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t t) { (void)e; (void)t; }
void notify_tag_advance_grant_and_visit(scheduling_node_t* e, tag_t t) { (void)e; (void)t; }
void free_scheduling_nodes(scheduling_node_t** s, uint16_t n) { (void)s; (void)n; }
void clock_sync_add_offset(instant_t* t) { (void)t; }
void clock_sync_subtract_offset(instant_t* t) { (void)t; }
static rti_common_t R;
static lf_mutex_t mx;
int main(void) {
  char c;
  lf_mutex_init(&mx);
  while (scanf(" %c", &c) == 1) {
    if (c == 'N') { // N n
      int n; if (scanf("%d", &n) != 1) return 3;
      initialize_rti_common(&R); R.number_of_scheduling_nodes = n; R.mutex = &mx;
      R.scheduling_nodes = calloc(n, sizeof(*R.scheduling_nodes));
      for (int i = 0; i < n; i++) {
        scheduling_node_t* e = R.scheduling_nodes[i] = calloc(1, sizeof(*e));
        initialize_scheduling_node(e, i); e->state = GRANTED;
        e->upstream = calloc(n + 1, sizeof(*e->upstream)); e->upstream_delay = calloc(n + 1, sizeof(*e->upstream_delay)); e->downstream = calloc(n + 1, sizeof(*e->downstream));
      }
    } else if (c == 'E') { // E from to delay
      int a, b; long long d; if (scanf("%d %d %lld", &a, &b, &d) != 3) return 3;
      scheduling_node_t *x = R.scheduling_nodes[a], *y = R.scheduling_nodes[b];
      y->upstream[y->num_upstream] = a; y->upstream_delay[y->num_upstream++] = d; x->downstream[x->num_downstream++] = b;
    } else if (c == 'S') { // S i connected
      int i, s; if (scanf("%d %d", &i, &s) != 2) return 3;
      R.scheduling_nodes[i]->state = s ? GRANTED : NOT_CONNECTED;
      for (int k = 0; k < R.number_of_scheduling_nodes; k++) invalidate_min_delays_upstream(R.scheduling_nodes[k]);
    } else if (c == 'T') { // T i time microstep: next event
      int i; long long t; unsigned m; if (scanf("%d %lld %u", &i, &t, &m) != 3) return 3;
      R.scheduling_nodes[i]->next_event = (tag_t){.time = t, .microstep = m};
    } else if (c == 'Q') { // Q order: 0 flags first, 1 delays first
      int o; if (scanf("%d", &o) != 1) return 3;
      for (int i = 0; i < R.number_of_scheduling_nodes; i++) {
        scheduling_node_t* e = R.scheduling_nodes[i];
        bool z = 0, cy = 0;
        if (o) update_min_delays_upstream(e);
        z = is_in_zero_delay_cycle(e); cy = is_in_cycle(e);
        tag_t t = earliest_future_incoming_message_tag(e);
        printf("%d %d %d %lld %u", i, z, cy, (long long)t.time, t.microstep);
        for (size_t k = 0; k < e->num_min_delays; k++) printf(" %d %lld %u", e->min_delays[k].id, (long long)e->min_delays[k].min_delay.time, e->min_delays[k].min_delay.microstep);
        printf("\n");
      }
    } else if (c == 'X') { // end of a topology
      for (int i = 0; i < R.number_of_scheduling_nodes; i++) { scheduling_node_t* e = R.scheduling_nodes[i]; invalidate_min_delays_upstream(e); free(e->upstream); free(e->upstream_delay); free(e->downstream); free(e); }
      free(R.scheduling_nodes); printf("X\n");
    }
  }
  return 0;
}

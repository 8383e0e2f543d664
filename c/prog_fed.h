// The part of the generated code that exists only in federates, for prog.c.
#include "federated/federate.h"
#include "federated/network/net_util.h"
#include "federated/network/net_common.h"
#include "federated/clock-sync.h"
#include <sys/socket.h>
#include <errno.h>
#define MAXP 64
lf_action_base_t* _lf_action_table[MAXP]; interval_t _lf_action_delay_table[MAXP]; size_t _lf_action_table_size;
lf_action_base_t* _lf_zero_delay_cycle_action_table[MAXP]; size_t _lf_zero_delay_cycle_action_table_size;
reaction_t* network_input_reactions[MAXP]; size_t num_network_input_reactions;
reaction_t* port_absent_reaction[MAXP]; size_t num_port_absent_reactions;
#ifdef FEDERATED_DECENTRALIZED
staa_t* staa_lst[MAXP]; size_t staa_lst_size;
static struct { long long off; int n; int port[MAXP]; } fd_staa[MAXP]; static int fd_nstaa;
extern interval_t lf_fed_STA_offset;
static long long fd_sta;
#endif
typedef struct { int code; uint64_t mask, match; long long a, b, c, d; } op_fwd;
static struct { int act, src, zdc; long long delay; } fd_in[MAXP]; static int fd_nin;
static struct { int kind, fed, port; long long delay; } fd_snd[MAXP]; static int fd_nsnd;
static struct { int id; long long delay; } fd_up[MAXP]; static int fd_nup; static int fd_down[MAXP], fd_ndown;
static int fd_abs[MAXP], fd_nabs, fd_inp2p, fd_outp2p[MAXP], fd_noutp2p;
static long long fd_mindelay = NEVER; static int fd_id, fd_hasup, fd_hasdown; static char fd_host[64] = "localhost"; static int fd_port;
static int nd_prob, nd_max, nd_seg; static long long die_after = -1; static _Thread_local bool sending_p2p;
extern int _lf_my_fed_id;
extern federate_instance_t _fed;
static int fed_parse(const char* k, FILE* f);
static int fed_extra_present(void) { return 0; }

void logical_tag_complete(tag_t t) {
#ifdef FEDERATED_CENTRALIZED
  lf_latest_tag_confirmed(t);
#else
  (void)t;
#endif
}
void lf_set_default_command_line_options(void) {}
void lf_send_neighbor_structure_to_RTI(int s) {
  unsigned char b[9 + MAXP * 12]; int n = 9;
  b[0] = MSG_TYPE_NEIGHBOR_STRUCTURE; encode_int32(fd_nup, b + 1); encode_int32(fd_ndown, b + 5);
  for (int i = 0; i < fd_nup; i++) { encode_uint16((uint16_t)fd_up[i].id, b + n); encode_int64(fd_up[i].delay, b + n + 2); n += 10; }
  for (int i = 0; i < fd_ndown; i++) { encode_uint16((uint16_t)fd_down[i], b + n); n += 2; }
  write_to_socket_fail_on_error(&s, n, b, NULL, "Failed to send the neighbor structure.");
}

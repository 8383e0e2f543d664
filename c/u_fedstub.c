// Stand-ins for the code generated for a federate, for harnesses that do not run a program.
#include "federate.h"
#include "environment.h"
#include "api/schedule.h"
#include "lf_types.h"
environment_t _env_stub = {.name = "stub"};
int _lf_get_environments(environment_t** envs) { *envs = &_env_stub; return 1; }
void lf_create_environments(void) {}
void _lf_initialize_trigger_objects(void) {}
void lf_set_default_command_line_options(void) {}
lf_action_base_t* _lf_action_table[1];
interval_t _lf_action_delay_table[1];
size_t _lf_action_table_size;
lf_action_base_t* _lf_zero_delay_cycle_action_table[1];
size_t _lf_zero_delay_cycle_action_table_size;
reaction_t* network_input_reactions[1];
size_t num_network_input_reactions;
reaction_t* port_absent_reaction[1];
size_t num_port_absent_reactions;
#ifdef FEDERATED_DECENTRALIZED
staa_t* staa_lst[1];
size_t staa_lst_size;
#endif
void lf_send_neighbor_structure_to_RTI(int s) { (void)s; }
void logical_tag_complete(tag_t t) { (void)t; }

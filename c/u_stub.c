// Stand-ins for generated code in harnesses that do not run a program.
#include <stdbool.h>
#include "tag.h"
#include "environment.h"
environment_t _env_stub;
int _lf_get_environments(environment_t** envs) { *envs = &_env_stub; return 1; }
void lf_create_environments(void) {}
void _lf_initialize_trigger_objects(void) {}
void lf_terminate_execution(environment_t* env) { (void)env; }
void lf_set_default_command_line_options(void) {}
void logical_tag_complete(tag_t t) { (void)t; }

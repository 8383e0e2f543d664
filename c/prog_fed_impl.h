// Included by prog.c after its entity types and helpers are defined.
static int fed_parse(const char* k, FILE* f) {
  if (!strcmp(k, "fed")) { fd_id = (int)rd(f); fd_hasup = (int)rd(f); fd_hasdown = (int)rd(f); fd_mindelay = rd(f); }
  else if (!strcmp(k, "up")) { fd_up[fd_nup].id = (int)rd(f); fd_up[fd_nup++].delay = rd(f); }
  else if (!strcmp(k, "down")) { fd_down[fd_ndown++] = (int)rd(f); }
  else if (!strcmp(k, "netin")) { fd_in[fd_nin].act = (int)rd(f); fd_in[fd_nin].delay = rd(f); fd_in[fd_nin].src = (int)rd(f); fd_in[fd_nin++].zdc = (int)rd(f); }
  else if (!strcmp(k, "snd")) { fd_snd[fd_nsnd].kind = (int)rd(f); fd_snd[fd_nsnd].fed = (int)rd(f); fd_snd[fd_nsnd].port = (int)rd(f); fd_snd[fd_nsnd++].delay = rd(f); }
  else if (!strcmp(k, "absent")) { fd_abs[fd_nabs++] = (int)rd(f); }
  else if (!strcmp(k, "inp2p")) { fd_inp2p = (int)rd(f); }
  else if (!strcmp(k, "outp2p")) { fd_outp2p[fd_noutp2p++] = (int)rd(f); }
  else if (!strcmp(k, "netdelay")) { nd_prob = (int)rd(f); nd_max = (int)rd(f); nd_seg = (int)rd(f); }
  else if (!strcmp(k, "die")) { die_after = rd(f); }
  else if (!strcmp(k, "stp")) { X[rd(f)].stp = 1; }
  else if (!strcmp(k, "gid")) { int x = (int)rd(f); X[x].gid = (int)rd(f); }
  else if (!strcmp(k, "rgid")) { int r = (int)rd(f); while (nRg <= r) { GROW(Rgid, nRg); Rgid[nRg] = nRg; nRg++; } Rgid[r] = (int)rd(f); }
#ifdef FEDERATED_DECENTRALIZED
  else if (!strcmp(k, "sta")) { fd_sta = rd(f); }
  else if (!strcmp(k, "staa")) { fd_staa[fd_nstaa].off = rd(f); fd_staa[fd_nstaa].n = (int)rd(f); for (int i = 0; i < fd_staa[fd_nstaa].n; i++) fd_staa[fd_nstaa].port[i] = (int)rd(f); fd_nstaa++; }
#endif
  else return 0;
  return 1;
}
static void fed_init(environment_t* env, int* ipf) {
  (void)ipf;
  _lf_my_fed_id = fd_id; _fed.has_upstream = fd_hasup; _fed.has_downstream = fd_hasdown; _fed.min_delay_from_physical_action_to_federate_output = fd_mindelay;
  lf_mutex_init(&lf_outbound_socket_mutex); lf_cond_init(&lf_port_status_changed, &env->mutex);
  for (int i = 0; i < fd_nin; i++) {
    action_t* a = &A[fd_in[i].act]; a->net = 1; a->act.source_id = fd_in[i].src;
    _lf_action_table[i] = (lf_action_base_t*)&a->act; _lf_action_delay_table[i] = fd_in[i].delay;
    for (int j = 0; j < a->trig.number_of_reactions; j++) { a->trig.reactions[j]->is_an_input_reaction = true; network_input_reactions[num_network_input_reactions++] = a->trig.reactions[j]; }
    if (fd_in[i].zdc) _lf_zero_delay_cycle_action_table[_lf_zero_delay_cycle_action_table_size++] = (lf_action_base_t*)&a->act;
  }
  _lf_action_table_size = fd_nin;
  for (int i = 0; i < fd_nabs; i++) port_absent_reaction[num_port_absent_reactions++] = &X[fd_abs[i]].r;
#ifdef FEDERATED_DECENTRALIZED
  lf_fed_STA_offset = fd_sta;
  for (int i = 0; i < fd_nstaa; i++) {
    staa_t* s = calloc(1, sizeof *s); s->STAA = fd_staa[i].off; s->num_actions = fd_staa[i].n; s->actions = calloc(s->num_actions + 1, sizeof(void*));
    for (int j = 0; j < fd_staa[i].n; j++) s->actions[j] = _lf_action_table[fd_staa[i].port[j]];
    staa_lst[staa_lst_size++] = s;
  }
  for (int i = 0; i < env->is_present_fields_size; i++) if (!env->_lf_intended_tag_fields[i]) { tag_t* t = calloc(1, sizeof *t); *t = NEVER_TAG; env->_lf_intended_tag_fields[i] = t; }
#endif
}
static void fed_connect(void) {
  environment_t* env = &env_;
  _fed.number_of_inbound_p2p_connections = fd_inp2p; _fed.inbound_socket_listeners = fd_inp2p ? calloc(fd_inp2p, sizeof(lf_thread_t)) : NULL;
  _fed.number_of_outbound_p2p_connections = fd_noutp2p;
  for (int i = 0; i < NUMBER_OF_FEDERATES; i++) { _fed.sockets_for_inbound_p2p_connections[i] = -1; _fed.sockets_for_outbound_p2p_connections[i] = -1; }
  lf_connect_to_rti("localhost", 0);
#if LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT
  synchronize_initial_physical_clock_with_rti(&_fed.socket_TCP_RTI);
#endif
  if (fd_inp2p) { lf_create_server(0); lf_thread_create(&_fed.inbound_p2p_handling_thread_id, lf_handle_p2p_connections_from_federates, env); }
  for (int i = 0; i < fd_noutp2p; i++) lf_connect_to_federate((uint16_t)fd_outp2p[i]);
}
void fed_op(op_t* o, uint64_t v, self_t* self, uint64_t h) {
  (void)v; (void)h; (void)self;
  if (o->code == ENQABS) { lf_enqueue_port_absent_reactions(&env_); return; }
  lf_port_base_t* p = inport((int)o->a, 0); int s = (int)o->c; int ret = 0;
  rec_t* r = newrec('N'); r->f[0] = tick(); r->f[1] = o->code; r->f[2] = s; r->f[3] = lf_tag(&env_).time - lf_time_start(); r->f[4] = lf_tag(&env_).microstep;
  r->f[8] = lf_time_physical() - lf_time_start();
  if (o->code == SENDABS) {
    if (p->is_present) { r->f[5] = -99; return; }
    sending_p2p = fd_snd[s].kind != 0;
    lf_send_port_absent_to_federate(&env_, fd_snd[s].delay, (unsigned short)fd_snd[s].port, (unsigned short)fd_snd[s].fed);
    sending_p2p = false;
    return;
  }
  unsigned char* m; size_t n; int64_t x;
  if (I[o->a].type == 0) { x = ((ip_t*)p)->value; m = (unsigned char*)&x; n = 8; }
  else { ap_t* q = (ap_t*)p; m = (unsigned char*)q->token->value; n = q->token->length * 4; }
  r->f[7] = n == 8 && I[o->a].type == 0 ? x : ((int32_t*)m)[1]; r->f[8] = lf_time_physical() - lf_time_start(); r->f[9] = I[o->a].type == 0 ? 0 : (long long)harr(1, (int32_t*)m, n / 4);
  sending_p2p = fd_snd[s].kind != 0;
  if (fd_snd[s].kind == 2) ret = lf_send_message(MSG_TYPE_P2P_MESSAGE, (unsigned short)fd_snd[s].port, (unsigned short)fd_snd[s].fed, "dest", n, m);
  else ret = lf_send_tagged_message(&env_, fd_snd[s].delay, fd_snd[s].kind == 1 ? MSG_TYPE_P2P_TAGGED_MESSAGE : MSG_TYPE_TAGGED_MESSAGE, (unsigned short)fd_snd[s].port, (unsigned short)fd_snd[s].fed, "dest", n, m);
  sending_p2p = false; r->f[5] = ret; r->f[6] = tick();
}
// the network: random delays, short reads and short writes
static void ninj(void) {
  if (!nd_prob) return;
  tl_t* t = tl(); t->rng = mix(t->rng);
  if ((int)(t->rng % 1000) < nd_prob) usleep((mix(t->rng ^ 9) >> 8) % (nd_max + 1));
}
static size_t nseg(size_t n) {
  if (!nd_seg || n <= 1) return n;
  tl_t* t = tl(); t->rng = mix(t->rng); 
  if ((int)(t->rng % 1000) >= nd_seg) return n;
  size_t k = 1 + (mix(t->rng ^ 3) % 13); return k < n ? k : n;
}
ssize_t __real_read(int, void*, size_t); ssize_t __wrap_read(int f, void* b, size_t n) { ninj(); return __real_read(f, b, nseg(n)); }
ssize_t __real_write(int, const void*, size_t); ssize_t __wrap_write(int f, const void* b, size_t n) {
  ninj(); n = nseg(n);
  if (die_after >= 0 && sending_p2p) {   // the process dies after it has written a given number of bytes to other federates
    if ((long long)n >= die_after) { if (die_after) { ssize_t r = __real_write(f, b, (size_t)die_after); (void)r; } kill(getpid(), SIGKILL); for (;;) pause(); }
    ssize_t r = __real_write(f, b, n); if (r > 0) die_after -= r; return r;
  }
  return __real_write(f, b, n);
}
void __real_lf_terminate_execution(environment_t* env);
void __wrap_lf_terminate_execution(environment_t* env) { prog_terminating(env); __real_lf_terminate_execution(env); }

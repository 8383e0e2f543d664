#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs,hook_needed=hook)))
NT="No existing test runs a reactor program: the stable tests exercise tag helpers, containers and the min-delay table on a few fixed inputs. "
RC="core/reactor.c";RCC="core/reactor_common.c";RT="core/threaded/reactor_threaded.c";TK="core/lf_token.c";FED="core/federated/federate.c"
RTI="core/federated/RTI/rti_remote.c";RTIC="core/federated/RTI/rti_common.c";NU="core/federated/network/net_util.c"
SCH=["core/threaded/scheduler_NP.c","core/threaded/scheduler_GEDF_NP.c","core/threaded/scheduler_adaptive.c","core/threaded/scheduler_sync_tag_advance.c"]

# ---------------------------------------------------------------- runtime
p("L01","Logical time advances monotonically and is seen consistently",
 "In every execution, the sequence of tags at which reactions execute never decreases, all reactions executing concurrently execute at the same tag, and no reaction of a later tag starts before every reaction of the earlier tag has finished. The tag a reaction reads from the API is that tag for the whole duration of its body, and the elapsed logical time it reads is the tag's time minus the start time.",
 ["programs","schedules","configurations"],"every program, scheduler, number of workers and thread interleaving",
 NT+"Tag order is a property of all interleavings of the workers with asynchronous schedulers.",
 [RC,RCC,RT]+SCH,[("advance tag",RCC+":_lf_advance_tag"),("tag advance under the lock when all workers idle","core/threaded/scheduler_sync_tag_advance.c:_lf_sched_advance_tag_locked"),("next tag selection",RT+":_lf_next_locked")],
 ["lf_tag/lf_time_logical/lf_time_logical_elapsed inside reactions","reaction start and end log"],[("current_tag","tag being executed","environment.h")])
p("L02","Every triggered reaction executes exactly once per tag, no other does",
 "At each tag a reaction executes exactly once if at least one of its triggers (timer, action, input port, startup, shutdown, reset) is present at that tag, and not at all otherwise. No event is lost or duplicated, however many events, reactions, levels and workers there are.",
 ["programs","schedules","configurations"],"every program, event pattern, scheduler and number of workers",
 NT+"Lost wakeups and double insertions need particular interleavings of workers finishing a level, and particular event-queue shapes.",
 [RC,RCC,RT,"core/utils/pqueue_base.c"]+SCH,[("reaction status inactive/queued/running CAS",RT+":_lf_trigger_reaction"),("event popping",RCC+":_lf_pop_events"),("output propagation",RCC+":schedule_output_reactions")],
 ["reaction start log compared with the reference semantics"],[("reaction->status","inactive, queued or running","lf_types.h")])
p("L03","Reactions respect declared precedence and reactor mutual exclusion",
 "At a tag, a reaction does not start before every triggered reaction it depends on (through a connection, or earlier in the same reactor) has finished. Two reactions of the same reactor never execute at the same time.",
 ["programs","schedules","configurations"],"every acyclic reaction graph, scheduler, number of workers and thread interleaving",
 NT+"Level barriers between workers only matter with several workers racing; nothing samples them.",
 SCH+[RT],[("level barrier","core/threaded/scheduler_NP.c:_lf_scheduler_try_advance_tag_and_distribute"),("level advance","core/threaded/scheduler_adaptive.c:advance_level_and_unlock"),("level advance","core/threaded/scheduler_GEDF_NP.c:lf_sched_get_ready_reaction")],
 ["global sequence numbers of reaction starts and ends"])
p("L04","Same program, same inputs, same behaviour on every runtime variant",
 "A program without physical inputs produces the same set of reaction executions with the same tags, values and final states under the single-threaded runtime and under every scheduler with any number of workers, on every run, and that behaviour is the one the discrete-event semantics prescribes.",
 ["programs","schedules","configurations"],"every deterministic program, scheduler, worker count and interleaving",
 NT+"Determinism is a statement about pairs of executions.",
 [RC,RCC,RT]+SCH,[("event queue order","core/environment.c"),("level order",RCC+":lf_combine_deadline_and_level")],["full per-tag trace and final state hashes across variants, compared with an independent reference interpreter"])
p("L05","Scheduled logical events occur exactly at the tag the API promises",
 "Scheduling a logical action at tag (t,m) with total delay d (minimum delay plus additional delay) makes it present, with the value or copied payload given, at (t+d,0) if d>0 and at (t,m+1) if d=0, and at no other tag. Events for the same action and tag beyond the first go to later microsteps or replace as documented; negative or overflowing delays are treated as documented and never produce an event in the past.",
 ["programs","inputs"],"every program and every combination of minimum delay, additional delay, payload kind and present tag",
 NT+"scheduling_api_test only checks that calls return.",
 [RCC,"lib/schedule.c"],[("schedule",RCC+":lf_schedule_trigger / lib/schedule.c"),("event insertion",RCC+":_lf_pop_events")],["lf_schedule* return values and the tags and values seen by triggered reactions"])
p("L06","Minimum spacing policies are enforced exactly",
 "For an action with a minimum spacing, two events of that action never occur closer together than the spacing. An attempt that comes too early is deferred to the earliest allowed time, dropped, or used to update the value of the previous still-pending event, according to the action's policy (default defer), and nothing else about the schedule changes.",
 ["programs","inputs","histories"],"every sequence of schedule calls on an action with spacing and policy",
 NT+"Nothing exercises spacing.",
 ["lib/schedule.c",RCC],[("policy switch","lib/schedule.c:lf_schedule_trigger")],["tags and values of action events against a model of the policy"],[("trigger->last_tag","tag of the previous event","lf_types.h")])
p("L07","Timers fire at offset plus multiples of the period, exactly",
 "A timer with offset o and period p triggers its reactions exactly at (start+o+k*p, 0) for every k>=0 up to the stop tag, a timer with zero period exactly once, and timers with zero offset at the start tag. Nothing makes a timer skip, drift or double fire.",
 ["programs","schedules"],"every offset, period, number of timers and load",NT+"Timers are never started by a test.",
 [RCC],[("timer initialisation",RCC+":_lf_initialize_timer"),("rescheduling",RCC+":_lf_pop_events")],["tags of timer-triggered reactions"])
p("L08","Asynchronously scheduled physical events get safe tags and are never lost",
 "An event scheduled on a physical action, from a reaction or from any number of other threads, gets a tag whose time is at least the physical time at the call plus the delay and later than every tag already executed, occurs exactly once with its own value if the call reports success and the program has not stopped, and events scheduled one after another by one thread on one action occur in that order.",
 ["schedules","histories","configurations"],"any number of threads calling the scheduling API at any time relative to the runtime's progress",
 NT+"No test starts the runtime with a concurrent scheduling thread.",
 ["lib/schedule.c",RCC,RT],[("critical section and notify","lib/schedule.c:lf_schedule_token / lf_schedule_value"),("tag assignment","lib/schedule.c:lf_schedule_trigger"),("wake on earlier event",RT+":wait_until")],["values and tags delivered versus calls recorded at the caller"])
p("L09","Startup and shutdown happen once, and timeout bounds the execution",
 "Startup reactions execute exactly once, at the start tag; shutdown reactions execute exactly once, at the last tag of the execution. With a timeout T the last tag is (start+T, 0), reached even if there is nothing else to do there when keepalive or events hold the program alive, and no reaction executes at any later tag; without events and keepalive the program stops one microstep after the last tag.",
 ["programs","configurations","schedules"],"every program, timeout, keepalive and fast setting, runtime variant",NT+"Program start and end are never exercised.",
 [RCC,RC,RT],[("stop tag",RCC+":lf_set_stop_tag"),("starvation stop",RT+":_lf_next_locked / reactor.c:next"),("shutdown reactions",RCC+":_lf_trigger_shutdown_reactions")],["tags of startup and shutdown reactions and of the last reactions"])
p("L10","A stop request ends the program at one agreed near-future tag",
 "If a reaction at tag (t,m) requests a stop, the final tag is (t,m+1): everything due at the requesting tag and at (t,m+1) still executes, shutdown reactions execute there once, and nothing executes after it. Repeated or concurrent requests, also from other threads, change nothing more, never move the stop past an earlier timeout and never put it in the past.",
 ["programs","schedules","histories"],"any number of requests by reactions and by other threads at any time",NT+"lf_request_stop is called by no test.",
 [RC,RT],[("stop request",RT+":lf_request_stop, "+RC+":lf_request_stop"),("stop tag comparison",RCC+":lf_is_tag_after_stop_tag")],["final tag, shutdown executions, executions after it"])
p("L11","A deadline violation runs the handler instead of the body, and only then",
 "For a reaction with a deadline d triggered at tag time t, the deadline handler executes instead of the body exactly when physical time at the moment the reaction is released exceeds t+d; otherwise the body executes. Outputs the handler sets propagate like the body's.",
 ["programs","inputs","schedules"],"every deadline and every physical lag",NT+"No test has a deadline.",
 [RC,RT,RCC],[("check",RT+":_lf_worker_handle_deadline_violation_for_reaction"),("check",RC+":_lf_do_step")],["which of the two functions ran, with a controlled physical clock"])
p("L12","Unless fast mode is on, no event is handled before its physical time",
 "With fast execution off, a reaction at tag time t starts only when physical time as reported to the program is at least t (up to the documented minimum sleep duration of 10 us); with fast execution on the program never waits for logical time to elapse. The physical time reported to the program never goes backwards.",
 ["schedules","programs","configurations"],"every program, spurious or early wakeup and asynchronous event",NT+"Nothing runs in real time.",
 [RT,RC,"core/clock.c"],[("wait",RT+":wait_until"),("wait",RC+":wait_until"),("monotone clock","core/clock.c:lf_clock_gettime")],["physical time sampled by reactions against the tag","physical time against total waiting time in fast mode"])
p("L13","Port presence and values are exact at every tag",
 "At each tag a reaction sees an input as present exactly if it was set upstream at this tag, with the last value set; nothing leaks to the next tag. For a multiport, the sparse iterator visits exactly the present channels once each in increasing order.",
 ["programs","schedules","inputs"],"every pattern of sets over ports, multiports, fan-out and tags",NT+"No test sets a port.",
 ["core/port.c",RC,RCC,RT],[("presence reset",RCC+":_lf_start_time_step"),("set present",RC+"/"+RT+":lf_set_present"),("iterator","core/port.c:lf_multiport_next")],["is_present and values read by reactions, iterator output"],[("sparse record","indices of present channels, overflow flag","port.h")])
p("L14","Token payloads are freed exactly once, after the last user, and isolated",
 "A dynamically allocated payload stays valid and unchanged for every reader that received it and for every pending event that carries it, a reader that asks for a writable copy never changes what others see, every payload is destroyed exactly once after its last use, and at the end of the program none is left.",
 ["programs","schedules","histories"],"every pattern of allocation, forwarding, fan-out, writable copies, delayed events and stop",NT+"No test creates tokens in a running program.",
 [TK,RCC,"lib/schedule.c"],[("reference counts",TK+":_lf_done_using/_lf_free_token"),("writable copy",TK+":_lf_writable_copy_locked"),("event token release",RCC+":_lf_pop_events")],["payload checksums at readers, destructor calls, AddressSanitizer, leak count at exit"])
p("L15","Modal reactors freeze, reset and resume exactly as specified",
 "A reaction or event belonging to an inactive mode is suspended; a transition to another mode takes effect at the next microstep; entering a mode by reset restarts its timers from their offset, discards its pending events and resets its state and nested modes, while entering by history resumes timers and pending events with exactly the remaining local time. Exactly one mode of each modal reactor is active at every tag.",
 ["programs","histories"],"every hierarchy of modes and sequence of transitions",NT+"No test uses modes.",
 ["core/modal_models/modes.c",RCC],[("transitions","core/modal_models/modes.c:_lf_process_mode_changes"),("suspended events","core/modal_models/modes.c:_lf_add_suspended_event")],["mode-tagged reaction trace against a reference model"])
p("L16","Watchdogs fire once after expiry unless stopped or restarted",
 "A started watchdog invokes its handler once, not before its expiration (logical time at the start plus timeout), never after it was stopped or restarted with a later expiration before expiring, and its handler is never concurrent with a reaction of its reactor. The program terminates cleanly whatever watchdogs are pending.",
 ["schedules","histories"],"every sequence of start/stop/restart and interleaving with expiry and with termination",NT+"No test starts a watchdog.",
 ["core/threaded/watchdog.c"],[("wait loop","core/threaded/watchdog.c:watchdog_thread_main / watchdog_wait"),("start/stop","core/threaded/watchdog.c:lf_watchdog_start / lf_watchdog_stop")],["handler log against start/stop log, reactor mutual exclusion"])
p("L17","The runtime is free of data races and memory errors",
 "Whatever the program does through the documented API, from reactions and from other threads, the runtime itself performs no unsynchronised conflicting accesses, no out-of-bounds or use-after-free access and no undefined arithmetic, from start-up to the end of termination.",
 ["programs","schedules","configurations"],"every program, scheduler, worker count and interleaving",NT+"The tests run without instrumentation and without concurrency.",
 [RC,RCC,RT,TK]+SCH,[("environment mutex",RT),("atomics","low_level_platform/impl/src/lf_atomic_gcc_clang.c"),("schedulers' semaphores and condition variables","core/threaded/*.c")],["ThreadSanitizer, AddressSanitizer and UBSan reports while the whole workload runs"])
p("L18","Programs always make progress and terminate",
 "An execution with a finite amount of work always completes it and exits: workers never all sleep while a reaction is ready or an event is due, tag advance is never blocked forever, and an asynchronous event always wakes an idle runtime.",
 ["schedules","programs","configurations"],"every program, scheduler, worker count and interleaving; bounded restatement: every run ends with the complete trace",NT+"Lost wakeups need an interleaving no test produces.",
 SCH+[RT,"core/utils/lf_semaphore.c"],[("idle worker counting",SCH[0]+":_lf_sched_wait_for_work"),("tag barrier",RT+":_lf_wait_on_tag_barrier"),("event notification",RT+":lf_notify_of_event")],["process exit with complete trace, stuck-run stack dumps"])
p("L19","Command-line options select exactly the documented behaviour",
 "The options for fast execution, timeout (value and unit), keep-alive, workers and help are parsed as documented for every unit and ordering, take effect exactly (a timeout beyond the range of time values as no timeout), and missing operands, malformed time values or units and unknown options are rejected: no reaction executes and the exit status is not zero.",
 ["inputs","configurations"],"every argument vector",NT+"process_args is never called by a test.",
 [RCC],[("parser",RCC+":process_args")],["resulting behaviour of a running program (last tag, waiting, workers), exit status"])
# ---------------------------------------------------------------- utilities
p("L20","Scheduling enclaves execute exactly as the unpartitioned program",
 "When reactors are placed in scheduling enclaves with event queues, workers and clocks of their own, no enclave advances past a tag at which it may still receive a message: every enclave executes the same reactions at the same tags with the same inputs as the program without enclaves, every message arrives once with its payload, all enclaves end at the common stop tag (or when none has events left), promptly after a stop request, and none waits for ever.",
 ["schedules","programs"],"all acyclic and delayed cyclic enclave topologies, worker counts and schedulers","No test compiles the local RTI.",["core/federated/RTI/rti_local.c","core/federated/RTI/rti_common.c",RT],[("grants","core/federated/RTI/rti_local.c:rti_next_event_tag_locked, rti_update_other_net_locked"),("stop",RT+":lf_request_stop")],["executions, inputs and tags of every enclave; messages and the receivers' tags"])
p("U01","Tag and time arithmetic is totally ordered, saturating and monotone",
 "Tag comparison is a total order (time first, then microstep) with NEVER and FOREVER as extremes; adding intervals or tags saturates instead of wrapping at both ends and is monotone; delaying a tag by zero gives the next microstep and by d>0 gives microstep 0 of t+d; the strict delay by d>0 gives the latest tag strictly before that.",
 ["inputs"],"all pairs of 64-bit times and 32-bit microsteps","tag_test checks about a dozen fixed sums.",
 ["core/tag.c","tag/api/tag.h"],[("arithmetic","core/tag.c:lf_time_add, lf_tag_add, lf_delay_tag, lf_delay_strict, lf_tag_compare")],["results against exact integer arithmetic"])
p("U02","Formatted times are exact and fit the documented buffers",
 "Formatting a time interval in readable or comma separated form produces text that denotes exactly that value with the documented unit words, returns its length, and never writes beyond the documented buffer size.",
 ["inputs"],"all non-negative 64-bit times","tag_test formats two values.",
 ["core/tag.c"],[("formatting","core/tag.c:lf_readable_time, lf_comma_separated_time")],["text parsed back to the value, canaries behind the buffer"])
p("U03","Priority queues deliver every element once in priority order",
 "Whatever the sequence of inserts, removals, lookups and pops, each inserted element is delivered exactly once unless removed, in an order consistent with its priority; lookups find an equal element of the same priority exactly if there is one; the tag queue returns tags in order and removes exactly those up to a given tag.",
 ["histories","inputs"],"all operation sequences and sizes across reallocation","pqueue_test pushes a handful of elements.",
 ["core/utils/pqueue_base.c","core/utils/pqueue.c","core/utils/pqueue_tag.c"],[("heap","core/utils/pqueue_base.c"),("tag queue","core/utils/pqueue_tag.c")],["results against a sorted-list model and the heap validity check"])
p("U04","Vectors, hash sets, hash maps and deques behave as their abstract types",
 "Every container returns exactly what its abstract data type prescribes after any sequence of operations, across growth, shrinking, collisions and deletion, without touching memory outside its storage.",
 ["histories","inputs"],"all operation sequences","The container tests use one short random or fixed sequence each.",
 ["core/utils/vector.c","core/utils/hashset/hashset.c","include/core/utils/impl/hashmap.h"],[("vector","core/utils/vector.c"),("hash set","core/utils/hashset/hashset.c"),("hash map","include/core/utils/impl/hashmap.h"),("deque","include/core/utils/deque.h / core/utils")],["results against model containers under AddressSanitizer"])
p("U05","Wire encoding round-trips and is exactly little-endian",
 "Encoding and decoding any integer, tag or message header of the federation protocol yields the original values, uses exactly the documented number of bytes in little-endian order, and reading from or writing to a socket transfers exactly the requested bytes whatever the segmentation.",
 ["inputs","fault_sequences"],"all values and all ways the kernel may split transfers","No test covers the encoding functions.",
 [NU],[("codec",NU+":encode_int64, extract_int64, encode_tag, extract_tag, extract_timed_header ..."),("transfer",NU+":read_from_socket, write_to_socket")],["bytes and values against an independent codec, segmented socket pairs"])
p("U06","Mixed-radix counters enumerate permuted indices exactly",
 "Starting from zero, repeated increments of a mixed-radix number visit every combination of digits exactly once in order and wrap around, and dropping the first n digits maps to the correct parent value.",
 ["inputs"],"all radix vectors","No test covers it.",["core/mixed_radix.c"],[("increment","core/mixed_radix.c:mixed_radix_incr"),("value","core/mixed_radix.c:mixed_radix_parent")],["values against big-integer arithmetic"])
p("U07","Physical time read by several threads is monotone",
 "Successive readings of physical time, in one thread or ordered between threads, never decrease, even if the underlying system clock jumps backwards, and follow the system clock when it advances.",
 ["inputs","schedules","fault_sequences"],"all sequences of system clock values including steps backwards","No test reads the clock.",
 ["core/clock.c"],[("monotone clock","core/clock.c:lf_clock_gettime")],["readings under an injected hostile clock"])
p("U08","Traces record every event once and conversion loses none",
 "With tracing enabled every traced event of the run is in the trace file exactly once with its own contents, per-thread order is kept across any number of buffer flushes, and converting the file yields the same events.",
 ["programs","schedules","histories"],"every number of events, workers and buffer fillings","The trace tools have no test.",
 ["trace/impl/src/trace_impl.c","core/tracepoint.c","util/tracing/trace_util.c","util/tracing/trace_to_csv.c"],[("buffering","trace/impl/src/trace_impl.c:lf_tracing_tracepoint"),("conversion","util/tracing/trace_to_csv.c")],["decoded trace against the harness's own log"])
p("U09","RTI address strings are parsed exactly as documented",
 "For every string, parsing an RTI address of the form [user@]host[:port] extracts the user, host and port of a well-formed address verbatim, rejects an invalid user name and a port that is out of range or not a number, and never writes outside the fields.",
 ["inputs"],"all strings","No test covers it.",[NU,FED],[("parser",NU+":extract_rti_addr_info"),("validation",FED+":lf_parse_rti_addr")],["fields against an independent parser"])
p("U10","The counting semaphore never loses or invents a permit",
 "Over any interleaving, the number of completed acquires never exceeds the initial count plus the releases, a waiter returns only while the count is positive, and no waiter stays blocked while a permit is available.",
 ["schedules"],"any number of threads and interleavings","No test covers it.",["core/utils/lf_semaphore.c"],[("semaphore","core/utils/lf_semaphore.c")],["permit ledger under concurrent stress and ThreadSanitizer"])
# ---------------------------------------------------------------- RTI
p("R01","The RTI never grants a tag that a message could still precede",
 "A tag advance grant for tag g is sent to a federate only when no message with a tag less than or equal to g can still arrive at it from upstream, given what all federates have reported, and a provisional grant only when none with a tag less than g can, nor one with tag g for which the federate will not wait (over a connection with a delay, or from a federate on no cycle without delay). After a grant for g no message with an earlier or equal (for provisional: earlier) tag is forwarded to that federate.",
 ["schedules","histories","configurations"],"all topologies with delays and cycles, all event histories and message orders",
 "rti_common_test checks the minimum-delay table of a few 4-node graphs; no grant is ever computed by a test.",
 [RTIC,RTI],[("EIMT",RTIC+":earliest_future_incoming_message_tag"),("grant decision",RTIC+":tag_advance_grant_if_safe"),("notification",RTI+":notify_tag_advance_grant")],["messages on the wire at honest scripted federates against a reference model of grant safety"],
 [("next_event, completed, last_granted","per federate reported and granted tags","rti_common.h")])
p("R02","A federate waiting for a safe tag is granted it",
 "Whenever the reports of all federates make a federate's requested tag safe (or provisionally safe), the RTI sends the corresponding grant without needing any further message.",
 ["schedules","histories","configurations"],"all topologies and histories; bounded restatement: at every quiescent point no federate that the reference model says is grantable is left without its grant",
 "No test drives grants.",[RTIC,RTI],[("re-evaluation downstream",RTIC+":notify_downstream_advance_grant_if_safe, update_scheduling_node_next_event_tag_locked"),("in-transit messages",RTI+":handle_timed_message")],["grants received at quiescent points against the model"])
p("R03","Grants to a federate only move forward",
 "The sequence of grants the RTI sends to one federate never goes back: full grants strictly increase, a provisional grant exceeds all previous provisional grants and full grants, and a full grant is never below an earlier provisional grant's tag minus what that grant promised.",
 ["schedules","histories"],"all histories and interleavings","No test sends a grant.",[RTI,RTIC],[("last_granted checks",RTIC+":tag_advance_grant_if_safe, "+RTI+":notify_provisional_tag_advance_grant")],["sequence of grant messages per federate"])
p("R04","The RTI forwards every message exactly once, intact and in order",
 "Every tagged message and port-absent notification sent to a connected federate is delivered to exactly that federate once, byte for byte whatever its length, and messages from one sender to one destination keep their order; nothing is forwarded before the federation has started or after the destination has left.",
 ["inputs","schedules","histories"],"all payload sizes across the buffer size, senders, destinations and segmentations","No test forwards a message.",
 [RTI],[("forwarding",RTI+":handle_timed_message, handle_port_absent_message")],["payload sequence numbers and checksums at receivers"])
p("R05","All federates start at the same time: the latest proposal plus the fixed offset",
 "The RTI answers the start-time proposals of the federates only after all have arrived, with one and the same start time to all, equal to the maximum of the proposals plus the documented delay.",
 ["inputs","schedules"],"all proposals, orders and timings","No test.",[RTI],[("barrier",RTI+":handle_timestamp")],["start-time replies"])
p("R06","A federation stop is agreed once, at the maximum requested or replied tag",
 "After one or more federates request a stop, every other connected federate is asked once, and once all have requested or replied, every federate is told the same final stop tag, which is the maximum of all tags they named; it is sent exactly once and never before all answered.",
 ["schedules","histories","inputs"],"all sets of requesters, tags and interleavings of requests and replies","No test.",
 [RTI],[("consensus",RTI+":handle_stop_request_message, mark_federate_requesting_stop, broadcast_stop_time_to_federates_locked")],["stop messages on the wire"])
p("R07","Only legitimate federates are admitted",
 "A connection is admitted only with the right federation identifier and a federate identifier that is in range and not in use, and each admissible federate is acknowledged; anything else is rejected with the documented reason and does not disturb the others, and connections after start-up are rejected.",
 ["inputs","histories","fault_sequences"],"all admission messages, orders, duplicates and malformed or truncated connections","No test.",
 [RTI],[("admission",RTI+":receive_and_check_fed_id_message, lf_connect_to_federates"),("late connections",RTI+":respond_to_erroneous_connections")],["replies on the wire"])
p("R08","With authentication on, only holders of the key join",
 "With authentication enabled the RTI admits a federate only after it proved knowledge of the federation key for a fresh nonce, and proves its own; a wrong, replayed, truncated or missing response is rejected. Nonces differ between handshakes.",
 ["inputs","histories"],"all handshake messages","No test.",[RTI,NU],[("authentication",RTI+":authenticate_federate")],["handshake bytes against an independent HMAC implementation"])
p("R09","Minimum delays and cycle flags match the topology",
 "For every federation topology the minimum delay the RTI computes between two federates equals the minimum over all paths of the accumulated connection delays, in the tag algebra where an undelayed connection and a microstep delay differ, and the (zero-delay) cycle flags are set exactly for the federates on such a cycle, also after connections change.",
 ["configurations","inputs"],"all directed graphs with delays","rti_common_test checks a few graphs of 4 nodes.",
 [RTIC],[("min delays",RTIC+":update_min_delays_upstream"),("flags",RTIC+":is_in_zero_delay_cycle, is_in_cycle")],["tables against a brute-force path search"])
p("R10","Departing or failing federates never block or corrupt the federation",
 "When a federate resigns, reports failure or closes its connection (normally or with a reset, between two of its messages) at any point after the federation has started, the remaining federates continue to be granted what is safe and to exchange messages, messages to the departed one are dropped, and the RTI terminates once all have left, with an error status if a federate reported a failure and success if all resigned.",
 ["crash_points","schedules","histories"],"every point after the start at which a federate may leave, in all four ways","No test.",
 [RTI,"core/federated/RTI/main.c"],[("departure",RTI+":handle_federate_resign, handle_federate_failed"),("read failure",RTI+":federate_info_thread_TCP")],["grants to the remaining federates, exit code"])
p("R11","Clock synchronisation replies carry ordered, truthful timestamps",
 "During clock synchronisation the RTI answers each round with its own physical times in the documented order and format, per federate, so that an honest client computes an offset within the round-trip error of the true one. At runtime rounds go on at the configured period over UDP whatever datagrams are lost, duplicated or delayed; a lost datagram costs only its round.",
 ["inputs","schedules"],"all rounds, delays and both transports","No test.",[RTI],[("rounds",RTI+":send_physical_clock, handle_physical_clock_sync_message, clock_synchronization_thread")],["timestamps on the wire against the shared clock"])
p("R12","Address queries return what the federate advertised",
 "A query for the address of a federate returns the port and IP address that federate advertised, or the documented unknown marker before it advertised one, whatever else is going on.",
 ["histories","schedules"],"all orders of advertisement and query","No test.",[RTI],[("queries",RTI+":handle_address_query, handle_address_ad")],["replies on the wire"])
p("R13","The RTI is free of data races and memory errors under any federation schedule",
 "Whatever the interleaving of the messages, departures, stop requests, address queries and clock-synchronisation rounds of honest federates, the RTI's threads access shared state only under synchronisation and commit no out-of-bounds access, use after free or undefined operation.",
 ["schedules","histories","configurations"],"all interleavings of the per-federate threads, with delays injected between its steps","No test runs the RTI process; races do not show as failures.",
 [RTI,RTIC,NU],[("per-federate threads",RTI+":federate_info_thread_TCP"),("clock thread",RTI+":clock_synchronization_thread")],["ThreadSanitizer and AddressSanitizer over the whole RTI process while it serves concurrent federates"])
p("R14","The RTI's command line means what it documents",
 "Every documented option takes effect with the value given, in any order and combination with the others, defaults apply to those omitted, and an unknown option, a missing argument or an invalid value ends the RTI with an error instead of being ignored or misread.",
 ["inputs","configurations"],"all orders, combinations and values of the options","No test runs the RTI process.",
 ["core/federated/RTI/main.c"],[("parsing","core/federated/RTI/main.c:process_args, process_clock_sync_args")],["behaviour on the wire (identifier, number of federates, port, clock-synchronisation mode, period and exchanges, authentication) and exit status"])
# ---------------------------------------------------------------- federate
p("F01","A centralised federation is deterministic and equals its unfederated semantics",
 "With centralised coordination every federate executes the same reactions with the same tags and values whatever the network delays and process speeds, namely those the discrete-event semantics prescribes for the whole program; no message is handled late.",
 ["schedules","programs","configurations"],"all programs, topologies, network delays and thread interleavings","No test runs a federate.",
 [FED,RTI],[("grants",FED+":lf_send_next_event_tag, handle_tag_advance_grant"),("message insertion",FED+":handle_tagged_message")],["traces of all federates against a global reference interpreter"])
p("F02","A federate obeys its grants and reports its progress honestly",
 "A federate with upstream connections executes no reaction at a tag beyond its last grant; its reported next-event tags never exceed a tag at which it later sends a message plus nothing, completed tags are reported in order, once per tag and only when all reactions of the tag are done, and a message it sends is never earlier than its last completed tag.",
 ["schedules","histories"],"all programs, network delays and interleavings","No test.",[FED,RT],[("NET",FED+":lf_send_next_event_tag"),("LTC",FED+":lf_latest_tag_confirmed")],["wire log at a proxy joined with the federate's reaction log"])
p("F03","Zero-delay cycles between federates are resolved without loss or deadlock",
 "In a cycle of connections without delay, a federate executes a reaction that depends on a network input only when it is known whether the input is present at the tag, reactions independent of it may execute before, absent inputs are reported as absent, and the federation terminates with the semantics of the whole program.",
 ["schedules","programs"],"all programs with zero-delay cycles and all network delays","No test.",[FED],[("blocking levels",FED+":lf_stall_advance_level_federation, lf_update_max_level"),("absence",FED+":handle_port_absent_message, lf_send_port_absent_to_federate")],["traces against the reference, port-absent messages on the wire"])
p("F04","A federated stop ends all federates at the same tag",
 "When any federate requests a stop, or a timeout applies, all federates execute their shutdown reactions exactly once at the same agreed tag, which is not before any tag already completed, execute nothing later, and all processes terminate normally.",
 ["schedules","histories","programs"],"all requesters, times and network delays","No test.",[FED,RT,RTI],[("stop",FED+":lf_send_stop_request_to_rti, handle_stop_request_message, handle_stop_granted_message")],["shutdown tags of all federates"])
p("F05","Decentralised messages are delivered exactly once, at their tag or flagged late",
 "With decentralised coordination every message sent before the receiver stops is delivered exactly once with intact payload, at its intended tag if it arrives in time and otherwise to the safe-to-process violation handling at a later tag with the intended tag recorded; it never disappears silently and never runs as if on time. A federate does not go on waiting for the inputs from a peer that has left.",
 ["schedules","programs"],"all network delays and safe-to-process offsets","No test.",[FED],[("STP",FED+":handle_tagged_message, update_ports_from_staa_offsets"),("violation",RT+":_lf_worker_handle_STP_violation_for_reaction")],["delivered messages and intended tags at receivers"])
p("F06","Messages on physical connections are delivered once, after physical time",
 "A message on a physical connection between federates is delivered exactly once, in order, with a tag based on physical time at reception not earlier than the sender's sending time, and delays nothing else.",
 ["schedules"],"all network delays","No test.",[FED],[("physical messages",FED+":handle_message, lf_send_message")],["receiver log"])
p("F07","A federate survives any segmentation and any departure of its peers",
 "A federate interprets the byte stream from the RTI identically however it is segmented or delayed and whatever the sizes of the messages in it, and when another federate dies at any point of the execution, every remaining federate terminates normally at the timeout with shutdown executed exactly once, having executed everything that does not depend on what the departed federate had not yet sent as the semantics prescribes.",
 ["fault_sequences","crash_points","schedules"],"all segmentations and disconnection points","No test.",[FED,NU],[("listeners",FED+":listen_to_rti_TCP, listen_to_federates"),("transfer",NU)],["behaviour under a segmenting proxy; exit"])
p("F08","Clock synchronisation computes the offset that the protocol prescribes",
 "The clock offset a federate applies is that computed from the exchanged timestamps by the documented formula, a round that is lost or too noisy is discarded without effect on later rounds, and physical time seen by the program stays monotone while corrections are applied.",
 ["inputs","schedules","fault_sequences"],"all round-trip delays, offsets and lost or spurious rounds","No test.",["core/federated/clock-sync.c"],[("offset computation","core/federated/clock-sync.c:handle_T4_clock_sync_message"),("clock","core/clock.c")],["applied offset against a model fed with the wire timestamps"])
p("F09","A federate takes part only in its own federation",
 "A federate sends its identification, verbatim, to the address it was given (or tries the default ports in order), keeps trying while nobody answers there or the answer is a foreign server, another federation's RTI, a resignation or a closed connection, and goes on only after an acknowledgement; with authentication it does so only after the other side has proved knowledge of the key, and proves nothing to one that has not. It admits as peers exactly the federates of its own federation, answers anyone else with the documented rejection and is not disturbed by them, connects to its peers at the addresses the RTI names once they are known, and proposes a start time only then.",
 ["inputs","fault_sequences","schedules"],"all identifiers, addresses, sequences of wrong answers and strangers","No test.",[FED,NU],[("joining",FED+":lf_connect_to_rti"),("authentication",FED+":perform_hmac_authentication"),("peers",FED+":lf_connect_to_federate, lf_handle_p2p_connections_from_federates")],["bytes on the federate's sockets, exit status, reactions executed"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P))

From b754afef81f6ca9c3311329d565f63ee1f3011b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 01/78] fix: lf_time_add detects overflow without relying on
 undefined signed overflow

---
 core/tag.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index c5f8f88..08b1d55 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -46,16 +46,16 @@ instant_t lf_time_add(instant_t a, interval_t b) {
   if (a == FOREVER || b == FOREVER) {
     return FOREVER;
   }
-  instant_t res = a + b;
+  // Check before adding because signed overflow is undefined behavior in C.
   // Check for overflow
-  if (res < a && b > 0) {
+  if (b > 0 && a > FOREVER - b) {
     return FOREVER;
   }
   // Check for underflow
-  if (res > a && b < 0) {
+  if (b < 0 && a < NEVER - b) {
     return NEVER;
   }
-  return res;
+  return a + b;
 }
 
 tag_t lf_tag_add(tag_t a, tag_t b) {
-- 
2.43.0


From 15b19258564a9ae4902e52eb77efbb09a0ba3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 02/78] fix: vector_at fills the positions it adds with NULL as
 documented

---
 core/utils/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/utils/vector.c b/core/utils/vector.c
index 2124f12..b29047f 100644
--- a/core/utils/vector.c
+++ b/core/utils/vector.c
@@ -102,6 +102,7 @@ void* vector_pop(vector_t* v) {
  */
 void** vector_at(vector_t* v, size_t idx) {
   void** vector_position = v->start + idx;
+  size_t old_size = v->next - v->start;
   if ((vector_position + 1) > v->next) {
     v->next = vector_position + 1;
   }
@@ -114,6 +115,10 @@ void** vector_at(vector_t* v, size_t idx) {
     }
     vector_resize(v, new_size);
   }
+  // Fill the positions added by this call, if any, with NULL.
+  for (void** added = v->start + old_size; added < v->next; added++) {
+    *added = NULL;
+  }
   // Note: Can't re-use vector_position because v->start can move after
   // resizing.
   return v->start + idx;
-- 
2.43.0


From 06e8f04ed05ddf01842bae62cbb4630d3ff6d27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:43 +0000
Subject: [PATCH 03/78] fix: lf_delay_strict returns the tag unmodified for
 every negative interval

---
 core/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/tag.c b/core/tag.c
index 08b1d55..3453b98 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -117,7 +117,7 @@ tag_t lf_delay_tag(tag_t tag, interval_t interval) {
 
 tag_t lf_delay_strict(tag_t tag, interval_t interval) {
   tag_t result = lf_delay_tag(tag, interval);
-  if (interval != 0 && interval != NEVER && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
+  if (interval > 0 && result.time != NEVER && result.time != FOREVER) {
     result.time -= 1;
     result.microstep = UINT_MAX;
   }
-- 
2.43.0


From 647c151fb4473dc2c924744dac5f478e14ade6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 04/78] fix: do not execute a downstream reaction at once when
 it is already queued

---
 core/reactor_common.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 358480e..a170a3b 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -756,7 +756,10 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               // avoids acquiring a mutex lock.
               // FIXME: Check the earliest deadline on the reaction queue.
               // This optimization could violate EDF scheduling otherwise.
-              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction) {
+              // A downstream reaction that is already queued because another trigger of it is
+              // present at this tag has to be left in the queue or it would execute twice.
+              if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction &&
+                  downstream_reaction->status == inactive) {
                 // So far, this downstream reaction is a candidate to execute now.
                 downstream_to_execute_now = downstream_reaction;
               } else {
-- 
2.43.0


From c2f1f5ac4893480d956ec3a931d3e192ce13752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:49 +0000
Subject: [PATCH 05/78] fix: do not execute a downstream reaction at once when
 its mode is inactive

---
 core/reactor_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index a170a3b..2bbadc5 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -759,7 +759,12 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
               // A downstream reaction that is already queued because another trigger of it is
               // present at this tag has to be left in the queue or it would execute twice.
               if (num_downstream_reactions == 1 && downstream_reaction->last_enabling_reaction == reaction &&
-                  downstream_reaction->status == inactive) {
+                  downstream_reaction->status == inactive
+#ifdef MODAL_REACTORS
+                  // A reaction in an inactive mode must not execute; _lf_trigger_reaction suppresses it.
+                  && _lf_mode_is_active(downstream_reaction->mode)
+#endif
+              ) {
                 // So far, this downstream reaction is a candidate to execute now.
                 downstream_to_execute_now = downstream_reaction;
               } else {
-- 
2.43.0


From 85dcd86aa403bc94f98ab6d07d064f028976f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 06/78] fix: adaptive scheduler never lets a reaction count
 become negative

---
 core/threaded/scheduler_adaptive.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 5a926ab..31e2da7 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -206,16 +206,8 @@ static void worker_assignments_free(lf_scheduler_t* scheduler) {
  */
 static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
   worker_assignments_t* worker_assignments = scheduler->custom_data->worker_assignments;
-#ifndef FEDERATED
-  int index = lf_atomic_add_fetch(worker_assignments->num_reactions_by_worker + worker, -1);
-  if (index >= 0) {
-    return worker_assignments->reactions_by_worker[worker][index];
-  }
-  worker_assignments->num_reactions_by_worker[worker] = 0;
-  return NULL;
-#else
-  // This is necessary for federated programs because reactions may be inserted into the current
-  // level.
+  // The count must never become negative, not even temporarily, because other workers inspect it
+  // and because, in federated programs, reactions may be inserted into the current level.
   int old_num_reactions;
   int current_num_reactions = worker_assignments->num_reactions_by_worker[worker];
   int index;
@@ -227,7 +219,6 @@ static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
                 lf_atomic_val_compare_and_swap(worker_assignments->num_reactions_by_worker + worker, old_num_reactions,
                                                (index = old_num_reactions - 1))) != old_num_reactions);
   return worker_assignments->reactions_by_worker[worker][index];
-#endif
 }
 
 /**
-- 
2.43.0


From 27ff0e074eb926e9a301759f4c405a337a644b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 07/78] fix: a template releases its busy token when it gets a
 new one

---
 core/lf_token.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index b97a3b3..411eb4c 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -247,10 +247,12 @@ lf_token_t* _lf_get_token(token_template_t* tmplt) {
     return tmplt->token;
   }
   LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
-  // If we get here, we need a new token.
-  lf_token_t* result = _lf_new_token((token_type_t*)tmplt, NULL, 0);
-  result->ref_count = 1;
-  return result;
+  // If we get here, we need a new token. It becomes the template token, which accounts for its
+  // reference count of one, so the template no longer uses the previous token.
+  _lf_done_using(tmplt->token);
+  tmplt->token = _lf_new_token((token_type_t*)tmplt, NULL, 0);
+  tmplt->token->ref_count = 1;
+  return tmplt->token;
 }
 
 void _lf_initialize_template(token_template_t* tmplt, size_t element_size) {
-- 
2.43.0


From 324371cb64c9021a323c8708eb4522d6ab6e9478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 08/78] fix: a reused template token takes the type of its
 template

---
 core/lf_token.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lf_token.c b/core/lf_token.c
index 411eb4c..b722016 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -243,6 +243,8 @@ lf_token_t* _lf_get_token(token_template_t* tmplt) {
                    tmplt->token->ref_count);
     // Free any previous value in the token.
     _lf_free_token_value(tmplt->token);
+    // The token may originate from another port or action, whose destructor does not apply anymore.
+    tmplt->token->type = (token_type_t*)tmplt;
     LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
     return tmplt->token;
   }
-- 
2.43.0


From a9cb9fb4c786ec322227b83aa9ed2dfae2fcdd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 09/78] fix: do not read a token copy after releasing it

---
 core/lf_token.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index b722016..c4672e8 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -369,7 +369,9 @@ token_freed _lf_done_using(lf_token_t* token) {
 
 void _lf_free_token_copies() {
   while (_lf_tokens_allocated_in_reactions != NULL) {
-    _lf_done_using(_lf_tokens_allocated_in_reactions);
-    _lf_tokens_allocated_in_reactions = _lf_tokens_allocated_in_reactions->next;
+    // The token may be freed by _lf_done_using, so advance first.
+    lf_token_t* token = _lf_tokens_allocated_in_reactions;
+    _lf_tokens_allocated_in_reactions = token->next;
+    _lf_done_using(token);
   }
 }
-- 
2.43.0


From f717753780bffc855240ec3448baa341f3434b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:51 +0000
Subject: [PATCH 10/78] fix: token reference counts are updated under the
 global mutex

---
 core/lf_token.c         | 21 +++++++++++++++++----
 core/reactor_common.c   |  2 +-
 include/core/lf_token.h | 10 ++++++++++
 lib/schedule.c          |  2 +-
 4 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index c4672e8..f3cca65 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -91,7 +91,10 @@ static lf_token_t* _lf_writable_copy_locked(lf_port_base_t* port) {
     return NULL;
   LF_PRINT_DEBUG("lf_writable_copy: Requesting writable copy of token %p with reference count %zu.", (void*)token,
                  token->ref_count);
-  if (port->num_destinations == 1 && token->ref_count == 1) {
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+  bool sole_user = port->num_destinations == 1 && token->ref_count == 1;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+  if (sole_user) {
     LF_PRINT_DEBUG("lf_writable_copy: Avoided copy because there "
                    "is only one reader and the reference count is %zu.",
                    token->ref_count);
@@ -346,7 +349,7 @@ void _lf_replace_template_token(token_template_t* tmplt, lf_token_t* newtoken) {
       _lf_done_using(tmplt->token);
     }
     if (newtoken != NULL) {
-      newtoken->ref_count++;
+      _lf_retain_token(newtoken);
       LF_PRINT_DEBUG("_lf_replace_template_token: Incremented ref_count of %p to %zu.", (void*)newtoken,
                      newtoken->ref_count);
     }
@@ -359,12 +362,22 @@ token_freed _lf_done_using(lf_token_t* token) {
     return NOT_FREED;
   }
   LF_PRINT_DEBUG("_lf_done_using: token = %p, ref_count = %zu.", (void*)token, token->ref_count);
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
   if (token->ref_count == 0) {
+    LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
     lf_print_warning("Token being freed that has already been freed: %p", (void*)token);
     return NOT_FREED;
   }
-  token->ref_count--;
-  return _lf_free_token(token);
+  size_t remaining = --(token->ref_count);
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+  // If other users remain, one of them may be freeing the token by now, so do not access it.
+  return remaining > 0 ? NOT_FREED : _lf_free_token(token);
+}
+
+void _lf_retain_token(lf_token_t* token) {
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+  token->ref_count++;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
 }
 
 void _lf_free_token_copies() {
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 2bbadc5..1cf6af6 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -492,7 +492,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
 
   // Increment the reference count of the token.
   if (token != NULL) {
-    token->ref_count++;
+    _lf_retain_token(token);
     LF_PRINT_DEBUG("_lf_schedule_at_tag: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
   }
 
diff --git a/include/core/lf_token.h b/include/core/lf_token.h
index 49069fa..35ede25 100644
--- a/include/core/lf_token.h
+++ b/include/core/lf_token.h
@@ -321,6 +321,16 @@ void _lf_replace_template_token(token_template_t* tmplt, lf_token_t* newtoken);
  */
 token_freed _lf_done_using(lf_token_t* token);
 
+/**
+ * @brief Increment the reference count of the given token.
+ *
+ * Reactions that execute in parallel may share a token, so this acquires the mutex
+ * that also protects the decrement in _lf_done_using().
+ *
+ * @param token The token, which must not be NULL.
+ */
+void _lf_retain_token(lf_token_t* token);
+
 /**
  * @brief Free token copies made for mutable inputs.
  * This function should be called at the beginning of each time step
diff --git a/lib/schedule.c b/lib/schedule.c
index 1683523..5412345 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -128,7 +128,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
 
   // Increment the reference count of the token.
   if (token != NULL) {
-    token->ref_count++;
+    _lf_retain_token(token);
     LF_PRINT_DEBUG("lf_schedule_trigger: Incremented ref_count of %p to %zu.", (void*)token, token->ref_count);
   }
 
-- 
2.43.0


From 319a694ae75d71dc9de4363c800febf1ed0857f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:52 +0000
Subject: [PATCH 11/78] fix: adaptive scheduler holds the mutex while it
 advances time in fast mode

---
 core/threaded/scheduler_adaptive.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 31e2da7..3bd1227 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -30,7 +30,6 @@
 #endif
 
 /////////////////// Forward declarations /////////////////////////
-extern bool fast;
 static void worker_states_lock(lf_scheduler_t* scheduler, size_t worker);
 static void worker_states_unlock(lf_scheduler_t* scheduler, size_t worker);
 static void data_collection_init(lf_scheduler_t* scheduler, sched_params_t* params);
@@ -337,18 +336,16 @@ static void worker_states_awaken_locked(lf_scheduler_t* scheduler, size_t worker
   }
 }
 
-/** Lock the global mutex if needed. */
+/** Lock the global mutex. */
 static void worker_states_lock(lf_scheduler_t* scheduler, size_t worker) {
   worker_states_t* worker_states = scheduler->custom_data->worker_states;
   worker_assignments_t* worker_assignments = scheduler->custom_data->worker_assignments;
+  // Even the last loose worker needs the mutex because other threads may schedule physical actions.
+  LF_MUTEX_LOCK(&scheduler->env->mutex);
   LF_ASSERT(worker_states->num_loose_threads > 0, "Sched: No loose threads");
   LF_ASSERT(worker_states->num_loose_threads <= worker_assignments->max_num_workers, "Sched: Too many loose threads");
-  size_t lt = worker_states->num_loose_threads;
-  if (lt > 1 || !fast) { // FIXME: Lock should be partially optimized out even when !fast
-    LF_MUTEX_LOCK(&scheduler->env->mutex);
-    assert(!worker_states->mutex_held[worker]);
-    worker_states->mutex_held[worker] = true;
-  }
+  LF_ASSERT(!worker_states->mutex_held[worker], "Sched: Worker already holds the mutex");
+  worker_states->mutex_held[worker] = true;
 }
 
 /** Unlock the global mutex if needed. */
-- 
2.43.0


From e778a277c7c79169a794819d18b7aea22748c1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:53 +0000
Subject: [PATCH 12/78] fix: adaptive scheduler reads its reaction counts
 atomically

---
 core/threaded/scheduler_adaptive.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 3bd1227..c7a82dd 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -208,7 +208,7 @@ static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
   // The count must never become negative, not even temporarily, because other workers inspect it
   // and because, in federated programs, reactions may be inserted into the current level.
   int old_num_reactions;
-  int current_num_reactions = worker_assignments->num_reactions_by_worker[worker];
+  int current_num_reactions = lf_atomic_fetch_add(worker_assignments->num_reactions_by_worker + worker, 0);
   int index;
   do {
     old_num_reactions = current_num_reactions;
@@ -230,7 +230,6 @@ static reaction_t* worker_assignments_get_or_lock(lf_scheduler_t* scheduler, siz
   worker_assignments_t* worker_assignments = scheduler->custom_data->worker_assignments;
   assert((long long)worker >= 0);
   // assert(worker < num_workers);  // There are edge cases where this doesn't hold.
-  assert((long long)worker_assignments->num_reactions_by_worker[worker] >= 0);
   reaction_t* ret;
   while (true) {
     if ((ret = get_reaction(scheduler, worker)))
@@ -243,7 +242,7 @@ static reaction_t* worker_assignments_get_or_lock(lf_scheduler_t* scheduler, siz
       }
     }
     worker_states_lock(scheduler, worker);
-    if (!worker_assignments->num_reactions_by_worker[worker]) {
+    if (!lf_atomic_fetch_add(worker_assignments->num_reactions_by_worker + worker, 0)) {
       return NULL;
     }
     worker_states_unlock(scheduler, worker);
@@ -367,8 +366,8 @@ static void worker_states_unlock(lf_scheduler_t* scheduler, size_t worker) {
 static bool worker_states_finished_with_level_locked(lf_scheduler_t* scheduler, size_t worker) {
   worker_states_t* worker_states = scheduler->custom_data->worker_states;
   worker_assignments_t* worker_assignments = scheduler->custom_data->worker_assignments;
-  LF_ASSERT(worker_assignments->num_reactions_by_worker[worker] != 1, "Sched: Current worker not assigned");
-  assert(((int64_t)worker_assignments->num_reactions_by_worker[worker]) <= 0);
+  LF_ASSERT(lf_atomic_fetch_add(worker_assignments->num_reactions_by_worker + worker, 0) <= 0,
+            "Sched: Current worker still has reactions assigned");
   // Why use an atomic operation when we are supposed to be "as good as locked"? Because I took a
   // shortcut, and the shortcut was imperfect.
   size_t ret = lf_atomic_add_fetch(&worker_states->num_loose_threads, -1);
-- 
2.43.0


From 96cab29584f5f9be023942fb52d6cf514f1f17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 13/78] fix: lf_schedule_trigger saturates overflowing delays
 instead of relying on undefined signed overflow

---
 lib/schedule.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index 5412345..cc3db75 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -147,7 +147,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // Add the offset if this is not a timer because, in that case,
   // it is the minimum delay.
   if (!trigger->is_timer) {
-    delay += trigger->offset;
+    delay = lf_time_add(delay, trigger->offset);
   }
   tag_t intended_tag = lf_delay_tag(env->current_tag, delay);
 
@@ -169,7 +169,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // modify the intended time.
   if (trigger->is_physical) {
     // Get the current physical time and assign it as the intended time.
-    intended_tag.time = lf_time_physical() + delay;
+    intended_tag.time = lf_time_add(lf_time_physical(), delay);
     intended_tag.microstep = 0;
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
@@ -227,7 +227,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // scheduled event. It determines the
     // earliest time at which the new event can be scheduled.
     // Check to see whether the event is too early.
-    instant_t earliest_time = trigger->last_tag.time + min_spacing;
+    instant_t earliest_time = lf_time_add(trigger->last_tag.time, min_spacing);
     LF_PRINT_DEBUG("There is a previously scheduled event; earliest possible time "
                    "with min spacing: " PRINTF_TIME,
                    earliest_time);
-- 
2.43.0


From 578b6bfcf36304f2ed196fab1c3285a1f62bde92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 14/78] fix: a physical action is scheduled after the current
 tag also when physical time lags behind

---
 lib/schedule.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index cc3db75..f1a24ce 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -171,6 +171,12 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // Get the current physical time and assign it as the intended time.
     intended_tag.time = lf_time_add(lf_time_physical(), delay);
     intended_tag.microstep = 0;
+    // Physical time may lag behind logical time (e.g., in fast mode) or be equal to it.
+    // The event must be later than the current tag. This has to be ensured before checking
+    // for conflicts so that this event does not collide with an event already queued.
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+      intended_tag = lf_delay_tag(env->current_tag, 0);
+    }
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
 // See reactor_threaded.
-- 
2.43.0


From d289c36246a135c910def7c96b993d45753aa822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:12 +0000
Subject: [PATCH 15/78] fix: advancing the tag waits for the barrier that
 lf_request_stop raises

---
 core/threaded/reactor_threaded.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 82dd2b6..65194b9 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -416,20 +416,18 @@ void _lf_next_locked(environment_t* env) {
                  ". This should be small unless -fast is used.",
                  lf_time_physical() - next_tag.time);
 
-#ifdef FEDERATED
   // In federated execution (at least under decentralized coordination),
   // it is possible that an incoming message has been partially read,
   // enough to see its tag. To prevent it from becoming tardy, the thread
   // that is reading the message has set a barrier to prevent logical time
   // from exceeding the timestamp of the message. It will remove that barrier
-  // once the complete message has been read. Also, if a federate requests
-  // to stop exeuction barriers will used while reaching a consensus.
+  // once the complete message has been read. Also, lf_request_stop(), which may
+  // be called asynchronously, uses a barrier until the stop tag is determined.
   // Here, we wait for that barrier to be removed, if appropriate.
   if (_lf_wait_on_tag_barrier(env, next_tag)) {
     // A wait actually occurred, so the next_tag may have changed again.
     next_tag = get_next_event_tag(env);
   }
-#endif // FEDERATED
 
   // If the first event in the event queue has a tag greater than or equal to the
   // stop time, and the current tag matches the stop tag (meaning that we have already
-- 
2.43.0


From f4ac2565541d2358fb58dc0851ffbc36f4b81217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:03 +0000
Subject: [PATCH 16/78] fix: schedule functions do not reuse the template token
 of the action, which a reaction may be using

---
 lib/schedule.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index f1a24ce..68abd87 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -12,8 +12,26 @@
 #include "environment.h"
 
 #include <assert.h>
+#include <stdlib.h> // Defines calloc.
 #include <string.h> // Defines memcpy.
 
+extern int _lf_count_payload_allocations;
+
+/**
+ * Return a new token for an event of the specified action.
+ * This does not reuse the template token of the action because schedule functions may be called
+ * asynchronously while a reaction is using or replacing that token.
+ */
+static lf_token_t* new_event_token(void* action, void* value, size_t length) {
+// Count allocations to issue a warning if this is never freed.
+#if !defined NDEBUG
+  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
+  _lf_count_payload_allocations++;
+  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
+#endif
+  return lf_new_token(action, value, length);
+}
+
 trigger_handle_t lf_schedule(void* action, interval_t offset) {
   return lf_schedule_token((lf_action_base_t*)action, offset, NULL);
 }
@@ -55,8 +73,8 @@ trigger_handle_t lf_schedule_copy(void* action, interval_t offset, void* value,
     return -1;
   }
   LF_CRITICAL_SECTION_ENTER(env);
-  // Initialize token with an array size of length and a reference count of 0.
-  lf_token_t* token = _lf_initialize_token(template, length);
+  // Create a token with an array size of length and a reference count of 0.
+  lf_token_t* token = new_event_token(action, calloc(length, template->type.element_size), length);
   // Copy the value into the newly allocated memory.
   memcpy(token->value, value, template->type.element_size * length);
   // The schedule function will increment the reference count.
@@ -74,10 +92,9 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
                    length);
     return -1;
   }
-  token_template_t* template = (token_template_t*)action;
   environment_t* env = ((lf_action_base_t*)action)->parent->environment;
   LF_CRITICAL_SECTION_ENTER(env);
-  lf_token_t* token = _lf_initialize_token_with_value(template, value, length);
+  lf_token_t* token = new_event_token(action, value, length);
   int return_value = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, extra_delay, token);
   // Notify the main thread in case it is waiting for physical time to elapse.
   lf_notify_of_event(env);
-- 
2.43.0


From c969d252051c4bdaffe75f3ef0c4a881a137c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:27 +0000
Subject: [PATCH 17/78] fix: with fast and keepalive an idle program waits for
 asynchronous events instead of advancing to the end of time

---
 core/threaded/reactor_threaded.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 65194b9..7d703ef 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -195,7 +195,14 @@ void lf_set_present(lf_port_base_t* port) {
 }
 
 bool wait_until(instant_t wait_until_time, lf_cond_t* condition) {
-  if (!fast) {
+#ifdef FEDERATED
+  bool wait = !fast;
+#else
+  // Even in fast mode, wait if there is neither an event nor a stop time to advance to
+  // (keepalive is true). The wait ends when an event is scheduled asynchronously.
+  bool wait = !fast || wait_until_time == FOREVER;
+#endif
+  if (wait) {
     LF_PRINT_DEBUG("-------- Waiting until physical time " PRINTF_TIME, wait_until_time - start_time);
     // Check whether we actually need to wait, or if we have already passed the timepoint.
     interval_t wait_duration = wait_until_time - lf_time_physical();
-- 
2.43.0


From de910d97846252a5d72c1646f6dceea9ad39044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:03 +0000
Subject: [PATCH 18/78] fix: schedule functions release their reference to a
 token whose event is not queued

---
 core/reactor_common.c | 24 +++++++++++++-----------
 lib/schedule.c        |  1 +
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 1cf6af6..1a0e289 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -471,10 +471,10 @@ event_t* _lf_create_dummy_events(environment_t* env, tag_t tag) {
 }
 
 void lf_replace_token(event_t* event, lf_token_t* token) {
-  if (event->token != token) {
-    // Free the existing token, if any.
-    _lf_done_using(event->token);
-  }
+  // Release the reference that the event holds to the existing token, if any.
+  // If the existing token is the same as the new one, this balances the reference
+  // that has been added for the new one.
+  _lf_done_using(event->token);
   // Replace the token with ours.
   event->token = token;
 }
@@ -525,9 +525,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
   if (found != NULL) {
     switch (trigger->policy) {
     case drop:
-      if (found->token != token) {
-        _lf_done_using(token);
-      }
+      _lf_done_using(token);
       lf_recycle_event(env, e);
       return (0);
       break;
@@ -539,13 +537,17 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
       return 0;
       break;
     default:
-      // Adding a microstep to the original
-      // intended tag.
-      tag.microstep++;
-      e->base.tag = tag;
+      // Adding microsteps to the original
+      // intended tag until there is no conflict.
+      while (found != NULL) {
+        tag.microstep++;
+        e->base.tag = tag;
+        found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e);
+      }
       if (lf_is_tag_after_stop_tag(env, (tag_t){.time = tag.time, .microstep = tag.microstep})) {
         // Scheduling e will incur a microstep after the stop tag,
         // which is illegal.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
diff --git a/lib/schedule.c b/lib/schedule.c
index 68abd87..044c057 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -235,6 +235,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
         LF_PRINT_DEBUG("Attempt to schedule an event after stop_tag was rejected.");
         // Scheduling an event will incur a microstep
         // after the stop tag.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
-- 
2.43.0


From be753b94fc27089306f890eafdac73621fdfaf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 19/78] fix: events left at termination are freed and their
 tokens released

---
 core/environment.c        | 8 ++++++++
 core/modal_models/modes.c | 1 +
 core/reactor_common.c     | 8 ++++++++
 3 files changed, 17 insertions(+)

diff --git a/core/environment.c b/core/environment.c
index d24de4b..171f929 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -183,6 +183,14 @@ void environment_free(environment_t* env) {
   free(env->reset_reactions);
   free(env->is_present_fields);
   free(env->is_present_fields_abbreviated);
+  // The queues do not own the events, so free these first.
+  event_t* event;
+  while ((event = (event_t*)pqueue_tag_pop(env->event_q)) != NULL) {
+    free(event);
+  }
+  while ((event = (event_t*)pqueue_tag_pop(env->recycle_q)) != NULL) {
+    free(event);
+  }
   pqueue_tag_free(env->event_q);
   pqueue_tag_free(env->recycle_q);
 
diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 42c35a6..ecc3ddc 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -520,6 +520,7 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
 void _lf_terminate_modal_reactors(environment_t* env) {
   _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
   while (suspended_event != NULL) {
+    _lf_done_using(suspended_event->event->token);
     lf_recycle_event(env, suspended_event->event);
     _lf_suspended_event_t* next = suspended_event->next;
     free(suspended_event);
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 1a0e289..bf7deed 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1179,6 +1179,14 @@ void termination(void) {
         lf_print_warning("---- The first future event has timestamp " PRINTF_TAG " after start tag.",
                          event->base.tag.time - start_time, event->base.tag.microstep);
       }
+      // Discard the unprocessed events, releasing their tokens.
+      if (env[i].event_q != NULL) {
+        event_t* unprocessed;
+        while ((unprocessed = (event_t*)pqueue_tag_pop(env[i].event_q)) != NULL) {
+          _lf_done_using(unprocessed->token);
+          lf_recycle_event(&env[i], unprocessed);
+        }
+      }
       // Print elapsed times.
       // If these are negative, then the program failed to start up.
       interval_t elapsed_time = lf_time_logical_elapsed(&env[i]);
-- 
2.43.0


From 8a319c5a4192ddf3a6cd621cb4fa0153a603aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 20/78] fix: the stop time saturates when the timeout exceeds
 the range of time values

---
 core/environment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/environment.c b/core/environment.c
index 171f929..3e80607 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -206,7 +206,7 @@ void environment_init_tags(environment_t* env, instant_t start_time, interval_t
   tag_t stop_tag = FOREVER_TAG_INITIALIZER;
   if (duration >= 0LL) {
     // A duration has been specified. Calculate the stop time.
-    stop_tag.time = env->current_tag.time + duration;
+    stop_tag.time = lf_time_add(env->current_tag.time, duration);
     stop_tag.microstep = 0;
   }
   env->stop_tag = stop_tag;
-- 
2.43.0


From 3e5b11486e25e9f8c8566c20e7d339e0d18e8d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 21/78] fix: a suspended event releases its token when it is
 re-enqueued or dropped

---
 core/modal_models/modes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index ecc3ddc..65ad4ed 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -114,7 +114,7 @@ _lf_suspended_event_t* _lf_remove_suspended_event(_lf_suspended_event_t* event)
     _lf_suspended_events_head = next; // Adjust head
   } else {
     _lf_suspended_event_t* predecessor = _lf_suspended_events_head;
-    while (predecessor->next != event && predecessor != NULL) {
+    while (predecessor != NULL && predecessor->next != event) {
       predecessor = predecessor->next;
     }
     if (predecessor != NULL) {
@@ -412,6 +412,8 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
               _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
             }
             // A fresh event was created by schedule, hence, recycle old one
+            // and release its reference to the token.
+            _lf_done_using(event->token);
             lf_recycle_event(env, event);
 
             // Remove suspended event and continue
-- 
2.43.0


From bb118889f50e8b27ad7cb6cca5b860ee5392a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:37 +0000
Subject: [PATCH 22/78] fix: suspended events of modes resume in tag order with
 their remaining time, also in nested modal reactors, and a reset restarts all
 timers

---
 core/modal_models/modes.c | 153 +++++++++++++++++++++++++-------------
 1 file changed, 100 insertions(+), 53 deletions(-)

diff --git a/core/modal_models/modes.c b/core/modal_models/modes.c
index 65ad4ed..c5db570 100644
--- a/core/modal_models/modes.c
+++ b/core/modal_models/modes.c
@@ -37,6 +37,7 @@ THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
 #ifdef MODAL_REACTORS
 
+#include <stdlib.h>
 #include <string.h>
 
 #include "low_level_platform.h"
@@ -125,6 +126,48 @@ _lf_suspended_event_t* _lf_remove_suspended_event(_lf_suspended_event_t* event)
   return next;
 }
 
+/**
+ * Comparison function for sorting pointers to events from the latest to the earliest tag.
+ */
+static int _lf_compare_events_descending(const void* event1, const void* event2) {
+  return lf_tag_compare((*(event_t* const*)event2)->base.tag, (*(event_t* const*)event1)->base.tag);
+}
+
+/**
+ * Put the suspended events of the given mode, which becomes active, back on the event queue
+ * such that each is due after the time that remained when it was suspended.
+ */
+static void _lf_resume_suspended_events(environment_t* env, reactor_mode_t* mode) {
+  _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
+  while (suspended_event != NULL) {
+    event_t* event = suspended_event->event;
+    if (event != NULL && event->trigger != NULL && event->trigger->mode == mode) {
+      // Remaining time that the event would have been waiting before mode was left
+      instant_t local_remaining_delay =
+          event->base.tag.time - (mode->deactivation_time != 0 ? mode->deactivation_time : lf_time_start());
+      tag_t current_logical_tag = env->current_tag;
+
+      // Reschedule event with original local delay
+      LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME " (previous TTH: " PRINTF_TIME
+                     ", Mode suspended at: " PRINTF_TIME ").",
+                     local_remaining_delay, event->base.tag.time, mode->deactivation_time);
+      tag_t schedule_tag = {.time = current_logical_tag.time + local_remaining_delay,
+                            .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
+      _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
+
+      // A fresh event was created by schedule, hence, recycle old one
+      // and release its reference to the token.
+      _lf_done_using(event->token);
+      lf_recycle_event(env, event);
+
+      // Remove suspended event and continue
+      suspended_event = _lf_remove_suspended_event(suspended_event);
+    } else {
+      suspended_event = suspended_event->next;
+    }
+  }
+}
+
 // ----------------------------------------------------------------------------
 
 /**
@@ -367,59 +410,37 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
             }
           }
 
-          // Handle timers that have a period of 0. These timers will only trigger
-          // once and will not be on the event_q after their initial triggering.
-          // Therefore, the logic above cannot handle these timers. We need
-          // to trigger these timers manually if there is a reset transition.
+          // Restart the timers of the mode. They may not have a suspended event, either because they have a
+          // period of 0 and have already been triggered or because their next event is after the stop tag.
+          // If the mode is already active, then its periodic timers are still on the event queue.
           for (int j = 0; j < timer_triggers_size; j++) {
             trigger_t* timer = timer_triggers[j];
-            if (timer->period == 0 && timer->mode == state->next_mode) {
+            if (timer->mode == state->next_mode && (timer->period == 0 || !_lf_mode_is_active(timer->mode))) {
+              LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
+              // Reschedule the timer with no additional delay.
+              // This will take care of super dense time when offset is 0.
               lf_schedule_trigger(env, timer, timer->offset, NULL);
             }
           }
         }
 
-        // Reset/Reactivate previously suspended events of next state
-        _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
-        while (suspended_event != NULL) {
-          event_t* event = suspended_event->event;
-          if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
-            if (state->mode_change == reset_transition) { // Reset transition
-              if (event->trigger->is_timer) {             // Only reset timers
-                trigger_t* timer = event->trigger;
-
-                LF_PRINT_DEBUG("Modes: Re-enqueuing reset timer.");
-                // Reschedule the timer with no additional delay.
-                // This will take care of super dense time when offset is 0.
-                lf_schedule_trigger(env, timer, event->trigger->offset, NULL);
-              }
-              // No further processing; drops all events upon reset (timer event was recreated by schedule and original
-              // can be removed here)
-            } else if (state->next_mode != state->current_mode &&
-                       event->trigger != NULL) { // History transition to a different mode
-              // Remaining time that the event would have been waiting before mode was left
-              instant_t local_remaining_delay =
-                  event->base.tag.time -
-                  (state->next_mode->deactivation_time != 0 ? state->next_mode->deactivation_time : lf_time_start());
-              tag_t current_logical_tag = env->current_tag;
-
-              // Reschedule event with original local delay
-              LF_PRINT_DEBUG("Modes: Re-enqueuing event with a suspended delay of " PRINTF_TIME
-                             " (previous TTH: " PRINTF_TIME ", Mode suspended at: " PRINTF_TIME ").",
-                             local_remaining_delay, event->base.tag.time, state->next_mode->deactivation_time);
-              tag_t schedule_tag = {.time = current_logical_tag.time + local_remaining_delay,
-                                    .microstep = (local_remaining_delay == 0 ? current_logical_tag.microstep + 1 : 0)};
-              _lf_schedule_at_tag(env, event->trigger, schedule_tag, event->token);
+        // Drop previously suspended events of next state
+        // (Events are resumed below once it is known which modes become active.)
+        if (state->mode_change == reset_transition) {
+          _lf_suspended_event_t* suspended_event = _lf_suspended_events_head;
+          while (suspended_event != NULL) {
+            event_t* event = suspended_event->event;
+            if (event != NULL && event->trigger != NULL && event->trigger->mode == state->next_mode) {
+              // Drop all events upon reset (timer events have been recreated by schedule),
+              // releasing their references to tokens.
+              _lf_done_using(event->token);
+              lf_recycle_event(env, event);
+
+              // Remove suspended event and continue
+              suspended_event = _lf_remove_suspended_event(suspended_event);
+            } else {
+              suspended_event = suspended_event->next;
             }
-            // A fresh event was created by schedule, hence, recycle old one
-            // and release its reference to the token.
-            _lf_done_using(event->token);
-            lf_recycle_event(env, event);
-
-            // Remove suspended event and continue
-            suspended_event = _lf_remove_suspended_event(suspended_event);
-          } else {
-            suspended_event = suspended_event->next;
           }
         }
       }
@@ -433,15 +454,16 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
     for (int i = 0; i < states_size; i++) {
       reactor_mode_state_t* state = states[i];
       if (state != NULL) {
+        reactor_mode_t* previous_mode = state->current_mode;
+        bool was_active = _lf_mode_is_active(previous_mode);
+        bool reset = state->next_mode != NULL && state->mode_change == reset_transition;
+
         // Clear cached active flag on active state, because
         // parent activity might have changed or active state may change.
         state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_ACTIVE;
 
         // Apply transition effect
         if (state->next_mode != NULL) {
-          // Save time when mode was left to handle suspended events in the future
-          state->current_mode->deactivation_time = lf_time_logical(env);
-
           // Apply transition
           state->current_mode = state->next_mode;
 
@@ -464,17 +486,40 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
         }
 
         // Compute new cached activity flag
-        if (_lf_mode_is_active(state->parent_mode)) {
+        bool is_active = _lf_mode_is_active(state->parent_mode);
+        bool entered = is_active && !(was_active && state->current_mode == previous_mode);
+        if (is_active) {
           // If there is no enclosing or the parent is marked active,
           // then set active flag on active mode
           state->current_mode->flags |= _LF_MODE_FLAG_MASK_ACTIVE;
 
+          // Trigger startup reactions if this becomes active for the first time,
+          // possibly because the enclosing mode is entered.
+          if (entered && !(state->current_mode->flags & _LF_MODE_FLAG_MASK_HAD_STARTUP)) {
+            state->current_mode->flags |= _LF_MODE_FLAG_MASK_NEEDS_STARTUP;
+          }
+
           // Register execution of special triggers
           // This is not done when setting the flag because actual triggering
           // might be delayed by parent mode inactivity.
           env->modes->triggered_reactions_request |=
               state->current_mode->flags & (_LF_MODE_FLAG_MASK_NEEDS_STARTUP | _LF_MODE_FLAG_MASK_NEEDS_RESET);
         }
+
+        // Save time when mode was left, which may be because its enclosing mode was left,
+        // to handle suspended events in the future
+        if (was_active && !(is_active && state->current_mode == previous_mode)) {
+          previous_mode->deactivation_time = lf_time_logical(env);
+        }
+        if (reset && !is_active) {
+          // The timers that have been reset are going to be suspended.
+          state->current_mode->deactivation_time = lf_time_logical(env);
+        }
+
+        // Resume the events of a mode that becomes active, unless it has been reset
+        if (entered && !reset) {
+          _lf_resume_suspended_events(env, state->current_mode);
+        }
       }
     }
 
@@ -490,15 +535,17 @@ void _lf_process_mode_changes(environment_t* env, reactor_mode_state_t* states[]
           event_t* event = (event_t*)env->event_q->d[i + 1]; // internal queue data structure omits index 0
           if (event != NULL && event->trigger != NULL && !_lf_mode_is_active(event->trigger->mode)) {
             delayed_removal[delayed_removal_count++] = event;
-            // This will store the event including possibly those chained up in super dense time
-            _lf_add_suspended_event(event);
           }
         }
 
         // Events are removed delayed in order to allow linear iteration over the queue
-        LF_PRINT_DEBUG("Modes: Pulling %zu events from the event queue to suspend them. %d events are now suspended.",
-                       delayed_removal_count, _lf_suspended_events_num);
+        LF_PRINT_DEBUG("Modes: Pulling %zu events from the event queue to suspend them. %zu events are now suspended.",
+                       delayed_removal_count, delayed_removal_count + (size_t)_lf_suspended_events_num);
+        // Suspended events are prepended to a list. Add them from the latest to the earliest such that events of the
+        // same trigger (possibly chained up in super dense time) are resumed in the order of their tags.
+        qsort(delayed_removal, delayed_removal_count, sizeof(event_t*), _lf_compare_events_descending);
         for (size_t i = 0; i < delayed_removal_count; i++) {
+          _lf_add_suspended_event(delayed_removal[i]);
           pqueue_tag_remove(env->event_q, (pqueue_tag_element_t*)(delayed_removal[i]));
         }
 
-- 
2.43.0


From bcdcf4d9be3be8a45e3d00fbece05369d8015684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:16 +0000
Subject: [PATCH 23/78] fix: watchdogs of the same reactor share a mutex that
 is initialized and freed once

---
 core/environment.c       |  1 +
 core/reactor_common.c    |  2 ++
 core/threaded/watchdog.c | 12 ++++++++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/environment.c b/core/environment.c
index 3e80607..c06a451 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -138,6 +138,7 @@ static void environment_init_federated(environment_t* env, int num_is_present_fi
 static void environment_free_threaded(environment_t* env) {
 #if !defined(LF_SINGLE_THREADED)
   free(env->thread_ids);
+  free(env->watchdogs);
   lf_sched_free(env->scheduler);
 #else
   (void)env;
diff --git a/core/reactor_common.c b/core/reactor_common.c
index bf7deed..3cf23f8 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -1223,6 +1223,8 @@ void termination(void) {
     for (int i = 0; i < env->watchdogs_size; i++) {
       if (env->watchdogs[i]->base->reactor_mutex != NULL) {
         free(env->watchdogs[i]->base->reactor_mutex);
+        // Several watchdogs may belong to the same reactor.
+        env->watchdogs[i]->base->reactor_mutex = NULL;
       }
     }
 #endif
diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index 3240fc3..f8c3d04 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -27,13 +27,21 @@ static void* watchdog_thread_main(void* arg);
  * Finally it starts of a non-termminating thread for each watchdog.
  */
 void _lf_initialize_watchdogs(environment_t* env) {
+  // Initialize all mutexes before creating any thread. Watchdogs of the same reactor share
+  // the mutex of the reactor, which must be initialized only once.
   for (int i = 0; i < env->watchdogs_size; i++) {
     watchdog_t* watchdog = env->watchdogs[i];
-    if (watchdog->base->reactor_mutex != NULL) {
+    bool initialized = false;
+    for (int j = 0; j < i; j++) {
+      initialized = initialized || env->watchdogs[j]->base == watchdog->base;
+    }
+    if (watchdog->base->reactor_mutex != NULL && !initialized) {
       LF_MUTEX_INIT((lf_mutex_t*)(watchdog->base->reactor_mutex));
     }
     LF_COND_INIT(&watchdog->cond, watchdog->base->reactor_mutex);
-
+  }
+  for (int i = 0; i < env->watchdogs_size; i++) {
+    watchdog_t* watchdog = env->watchdogs[i];
     int ret = lf_thread_create(&watchdog->thread_id, watchdog_thread_main, (void*)watchdog);
     LF_ASSERTN(ret, "Could not create watchdog thread");
   }
-- 
2.43.0


From 8416c92cc9971b00e5470278f3657a3870003dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:16 +0000
Subject: [PATCH 24/78] fix: restarting a watchdog in its handler, with an
 earlier expiration or during termination takes effect

---
 core/threaded/watchdog.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/threaded/watchdog.c b/core/threaded/watchdog.c
index f8c3d04..830aef9 100644
--- a/core/threaded/watchdog.c
+++ b/core/threaded/watchdog.c
@@ -136,8 +136,9 @@ static void* watchdog_thread_main(void* arg) {
       // If we reach here, the watchdog actually timed out. Handle it.
       LF_PRINT_DEBUG("Watchdog %p timed out", (void*)watchdog);
       watchdog_function_t watchdog_func = watchdog->watchdog_function;
-      (*watchdog_func)(base);
+      // Do this before invoking the handler because the handler may start the watchdog again.
       watchdog->expiration = NEVER;
+      (*watchdog_func)(base);
     }
   }
 
@@ -150,13 +151,13 @@ static void* watchdog_thread_main(void* arg) {
 void lf_watchdog_start(watchdog_t* watchdog, interval_t additional_timeout) {
   // Assumes reactor mutex is already held.
   self_base_t* base = watchdog->base;
-  watchdog->terminate = false;
-  watchdog->expiration = base->environment->current_tag.time + watchdog->min_expiration + additional_timeout;
+  // Do not reset watchdog->terminate here because the watchdog may be being terminated.
+  watchdog->expiration = lf_time_add(lf_time_add(base->environment->current_tag.time, watchdog->min_expiration),
+                                     additional_timeout);
 
-  // If the watchdog is inactive, signal it to start waiting.
-  if (!watchdog->active) {
-    LF_COND_SIGNAL(&watchdog->cond);
-  }
+  // Wake up the thread, which is waiting for a start or, if the watchdog is active, for an expiration
+  // that may be later than the new one.
+  LF_COND_SIGNAL(&watchdog->cond);
 }
 
 void lf_watchdog_stop(watchdog_t* watchdog) {
-- 
2.43.0


From 8e14f4e3c4ad9a426dc223572ee2ef3f3de0368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 25/78] fix: deadline and STP violation handlers exclude
 watchdog handlers of the same reactor

---
 core/reactor_common.c            | 18 ++++++++++++++++--
 core/threaded/reactor_threaded.c |  4 ++--
 include/core/reactor_common.h    | 11 +++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 3cf23f8..c74b9ed 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -705,6 +705,20 @@ void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker) {
 #endif
 }
 
+void _lf_invoke_violation_handler(reaction_t* reaction, reaction_function_t handler) {
+#if !defined(LF_SINGLE_THREADED)
+  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
+    LF_MUTEX_LOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
+  }
+#endif
+  (*handler)(reaction->self);
+#if !defined(LF_SINGLE_THREADED)
+  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
+    LF_MUTEX_UNLOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
+  }
+#endif
+}
+
 /**
  * For the specified reaction, if it has produced outputs, insert the
  * resulting triggered reactions into the reaction queue.
@@ -823,7 +837,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         // to downstream reactions.
         violation = true;
         LF_PRINT_LOG("Invoke tardiness handler.");
-        (*handler)(downstream_to_execute_now->self);
+        _lf_invoke_violation_handler(downstream_to_execute_now, handler);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
@@ -850,7 +864,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
         tracepoint_reaction_starts(env, downstream_to_execute_now, worker);
         if (handler != NULL) {
           // Assume the mutex is still not held.
-          (*handler)(downstream_to_execute_now->self);
+          _lf_invoke_violation_handler(downstream_to_execute_now, handler);
 
           // If the reaction produced outputs, put the resulting
           // triggered reactions into the queue or execute them directly if possible.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 7d703ef..1d65322 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -698,7 +698,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
       reaction_function_t handler = reaction->deadline_violation_handler;
       if (handler != NULL) {
         LF_PRINT_LOG("Worker %d: Deadline violation. Invoking deadline handler.", worker_number);
-        (*handler)(reaction->self);
+        _lf_invoke_violation_handler(reaction, handler);
 
         // If the reaction produced outputs, put the resulting
         // triggered reactions into the queue or execute them directly if possible.
@@ -749,7 +749,7 @@ bool _lf_worker_handle_STP_violation_for_reaction(environment_t* env, int worker
       LF_PRINT_LOG("Worker %d: Invoking STP violation handler.", worker_number);
       // There is a violation
       violation_occurred = true;
-      (*handler)(reaction->self);
+      _lf_invoke_violation_handler(reaction, handler);
 
       // Reset the STP violation flag because it has been dealt with.
       // Downstream handlers should not be invoked.
diff --git a/include/core/reactor_common.h b/include/core/reactor_common.h
index 8086ed7..420adff 100644
--- a/include/core/reactor_common.h
+++ b/include/core/reactor_common.h
@@ -264,6 +264,17 @@ void _lf_advance_tag(environment_t* env, tag_t next_tag);
 void _lf_pop_events(environment_t* env);
 
 void _lf_invoke_reaction(environment_t* env, reaction_t* reaction, int worker);
+
+/**
+ * @brief Invoke a deadline or STP violation handler of the given reaction.
+ *
+ * Like the body of the reaction, a handler must not execute concurrently with
+ * a watchdog handler of the same reactor.
+ *
+ * @param reaction The reaction.
+ * @param handler The handler to invoke.
+ */
+void _lf_invoke_violation_handler(reaction_t* reaction, reaction_function_t handler);
 void schedule_output_reactions(environment_t* env, reaction_t* reaction, int worker);
 int process_args(int argc, const char* argv[]);
 
-- 
2.43.0


From 4b659f944d5447347c3945fb03372cadd3687665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 26/78] fix: a deadline beyond the range of time values is
 never violated

---
 core/reactor.c                   | 2 +-
 core/reactor_common.c            | 2 +-
 core/threaded/reactor_threaded.c | 2 +-
 lib/schedule.c                   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 6e2fd24..7638c83 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -158,7 +158,7 @@ int _lf_do_step(environment_t* env) {
       // container deadlines are defined in the container.
       // They can have different deadlines, so we have to check both.
       // Handle the local deadline first.
-      if (reaction->deadline == 0 || physical_time > env->current_tag.time + reaction->deadline) {
+      if (reaction->deadline == 0 || physical_time > lf_time_add(env->current_tag.time, reaction->deadline)) {
         LF_PRINT_LOG("Deadline violation. Invoking deadline handler.");
         tracepoint_reaction_deadline_missed(env, reaction, 0);
         // Deadline violation has occurred.
diff --git a/core/reactor_common.c b/core/reactor_common.c
index c74b9ed..ef9e625 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -855,7 +855,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
       instant_t physical_time = lf_time_physical();
       // Check for deadline violation.
       if (downstream_to_execute_now->deadline == 0 ||
-          physical_time > env->current_tag.time + downstream_to_execute_now->deadline) {
+          physical_time > lf_time_add(env->current_tag.time, downstream_to_execute_now->deadline)) {
         // Deadline violation has occurred.
         tracepoint_reaction_deadline_missed(env, downstream_to_execute_now, worker);
         violation = true;
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 1d65322..a104f5c 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -689,7 +689,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
     // Get the current physical time.
     instant_t physical_time = lf_time_physical();
     // Check for deadline violation.
-    if (reaction->deadline == 0 || physical_time > env->current_tag.time + reaction->deadline) {
+    if (reaction->deadline == 0 || physical_time > lf_time_add(env->current_tag.time, reaction->deadline)) {
       // Deadline violation has occurred.
       tracepoint_reaction_deadline_missed(env, reaction, worker_number);
       violation_occurred = true;
diff --git a/lib/schedule.c b/lib/schedule.c
index 044c057..b552311 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -115,7 +115,7 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
  */
 bool lf_check_deadline(void* self, bool invoke_deadline_handler) {
   reaction_t* reaction = ((self_base_t*)self)->executing_reaction;
-  if (lf_time_physical() > (lf_time_logical(((self_base_t*)self)->environment) + reaction->deadline)) {
+  if (lf_time_physical() > lf_time_add(lf_time_logical(((self_base_t*)self)->environment), reaction->deadline)) {
     if (invoke_deadline_handler) {
       reaction->deadline_violation_handler(self);
     }
-- 
2.43.0


From fc899b6b6b610593786e8c75aa66670e519a32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:20 +0000
Subject: [PATCH 27/78] fix: the adaptive scheduler frees all the memory it
 allocates

---
 core/threaded/scheduler_adaptive.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index c7a82dd..53b6386 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -194,8 +194,11 @@ static void worker_assignments_free(lf_scheduler_t* scheduler) {
     free(worker_assignments->reactions_by_worker_by_level[level]);
     free(worker_assignments->num_reactions_by_worker_by_level[level]);
   }
+  free(worker_assignments->reactions_by_worker_by_level);
+  free(worker_assignments->num_reactions_by_worker_by_level);
   free(worker_assignments->max_num_workers_by_level);
   free(worker_assignments->num_workers_by_level);
+  free(worker_assignments);
 }
 
 /**
@@ -300,7 +303,9 @@ static void worker_states_free(lf_scheduler_t* scheduler) {
   // FIXME: Why do the condition variables and mutexes not need to be freed?
   worker_states_t* worker_states = scheduler->custom_data->worker_states;
   free(worker_states->worker_conds);
+  free(worker_states->cumsum_of_worker_group_sizes);
   free(worker_states->mutex_held);
+  free(worker_states);
 }
 
 /**
@@ -544,7 +549,10 @@ static void data_collection_free(lf_scheduler_t* scheduler) {
     free(data_collection->execution_times_by_num_workers_by_level[i]);
   }
   free(data_collection->execution_times_by_num_workers_by_level);
+  free(data_collection->execution_times_mins);
+  free(data_collection->execution_times_argmins);
   free(data_collection->possible_nums_workers);
+  free(data_collection);
 }
 
 /** @brief Record that the execution of the given level is beginning. */
-- 
2.43.0


From 7400c4339f05d2bd8fd636c8ffa5315366147196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 28/78] fix: a channel set twice at a tag is recorded once, and
 concurrent writers update the sparse record atomically

---
 core/reactor.c                   |  4 +++-
 core/threaded/reactor_threaded.c | 23 ++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index 7638c83..674ab8d 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -53,10 +53,12 @@ void lf_set_present(lf_port_base_t* port) {
     env->is_present_fields_abbreviated[env->is_present_fields_abbreviated_size] = is_present_field;
   }
   env->is_present_fields_abbreviated_size++;
+  // A channel that is set again at the same tag is already in the sparse record.
+  bool already_present = *is_present_field;
   *is_present_field = true;
 
   // Support for sparse destination multiports.
-  if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
+  if (!already_present && port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
     size_t next = port->sparse_record->size++;
     if (next >= port->sparse_record->capacity) {
       // Buffer is full. Have to revert to the classic iteration.
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index a104f5c..ba768d0 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -180,16 +180,25 @@ void lf_set_present(lf_port_base_t* port) {
   if (ipfas < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[ipfas] = is_present_field;
   }
+  // A channel that is set again at the same tag is already in the sparse record.
+  bool already_present = *is_present_field;
   *is_present_field = true;
 
   // Support for sparse destination multiports.
-  if (port->sparse_record && port->destination_channel >= 0 && port->sparse_record->size >= 0) {
-    size_t next = (size_t)lf_atomic_fetch_add(&port->sparse_record->size, 1);
-    if (next >= port->sparse_record->capacity) {
-      // Buffer is full. Have to revert to the classic iteration.
-      port->sparse_record->size = -1;
-    } else {
-      port->sparse_record->present_channels[next] = port->destination_channel;
+  if (!already_present && port->sparse_record && port->destination_channel >= 0) {
+    int* size = &port->sparse_record->size;
+    int next = lf_atomic_fetch_add(size, 0);
+    while (next >= 0) {
+      // If the buffer is full, have to revert to the classic iteration.
+      int new_size = ((size_t)next < port->sparse_record->capacity) ? next + 1 : -1;
+      int current = lf_atomic_val_compare_and_swap(size, next, new_size);
+      if (current == next) {
+        if (new_size > 0) {
+          port->sparse_record->present_channels[next] = port->destination_channel;
+        }
+        break;
+      }
+      next = current;
     }
   }
 }
-- 
2.43.0


From 3481d6528c74d9684227aaa366a5f0b774b75326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 29/78] fix: a timeout argument beyond the range of time values
 saturates

---
 core/reactor_common.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index ef9e625..772d049 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -972,28 +972,37 @@ int process_args(int argc, const char* argv[]) {
         usage(argc, argv);
         return 0;
       }
+      interval_t unit;
       if (strncmp(units, "sec", 3) == 0) {
-        duration = SEC(duration);
+        unit = SEC(1);
       } else if (strncmp(units, "msec", 4) == 0) {
-        duration = MSEC(duration);
+        unit = MSEC(1);
       } else if (strncmp(units, "usec", 4) == 0) {
-        duration = USEC(duration);
+        unit = USEC(1);
       } else if (strncmp(units, "nsec", 4) == 0) {
-        duration = NSEC(duration);
+        unit = NSEC(1);
       } else if (strncmp(units, "min", 3) == 0) {
-        duration = MINUTE(duration);
+        unit = MINUTE(1);
       } else if (strncmp(units, "hour", 4) == 0) {
-        duration = HOUR(duration);
+        unit = HOUR(1);
       } else if (strncmp(units, "day", 3) == 0) {
-        duration = DAY(duration);
+        unit = DAY(1);
       } else if (strncmp(units, "week", 4) == 0) {
-        duration = WEEK(duration);
+        unit = WEEK(1);
       } else {
         // Invalid units.
         lf_print_error("Invalid time units: %s", units);
         usage(argc, argv);
         return 0;
       }
+      // Saturate a timeout beyond the range of time values. A negative timeout means no timeout.
+      if (duration > FOREVER / unit) {
+        duration = FOREVER;
+      } else if (duration < 0) {
+        duration = -1;
+      } else {
+        duration *= unit;
+      }
     } else if (strcmp(arg, "-k") == 0 || strcmp(arg, "--keepalive") == 0) {
       if (argc < i + 1) {
         lf_print_error("--keepalive needs a boolean.");
-- 
2.43.0


From f3055dc5c0c066bee2d000790e28e74b2900b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:46 +0000
Subject: [PATCH 30/78] fix: an RTI address is matched as a whole, so trailing
 characters of a port are not ignored

---
 core/federated/network/net_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/network/net_util.c b/core/federated/network/net_util.c
index 61d4804..74457a1 100644
--- a/core/federated/network/net_util.c
+++ b/core/federated/network/net_util.c
@@ -520,7 +520,8 @@ bool extract_match_groups(const char* rti_addr, char** rti_addr_strs, bool** rti
 }
 
 void extract_rti_addr_info(const char* rti_addr, rti_addr_info_t* rti_addr_info) {
-  const char* regex_str = "(([a-zA-Z0-9_-]{1,254})@)?([a-zA-Z0-9._-]{1,255})(:([0-9]{1,5}))?";
+  // The whole string must match, otherwise an invalid port would be ignored or cut off.
+  const char* regex_str = "^(([a-zA-Z0-9_-]{1,254})@)?([a-zA-Z0-9._-]{1,255})(:([0-9]{1,5}))?$";
   size_t max_groups = 6;
   // The group indices of each field of interest in the regex.
   int user_gid = 2, host_gid = 3, port_gid = 5;
-- 
2.43.0


From 59bed4e0b35784911793221db565e117768fb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:59 +0000
Subject: [PATCH 31/78] fix: a trace buffer that cannot be written is emptied
 instead of overflowing

---
 trace/impl/src/trace_impl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trace/impl/src/trace_impl.c b/trace/impl/src/trace_impl.c
index f819507..7d9dccd 100644
--- a/trace/impl/src/trace_impl.c
+++ b/trace/impl/src/trace_impl.c
@@ -98,6 +98,7 @@ static void flush_trace_locked(trace_t* trace, int worker) {
     if (!trace->_lf_trace_header_written) {
       if (write_trace_header(trace) < 0) {
         lf_print_error("Failed to write trace header. Trace file will be incomplete.");
+        trace->_lf_trace_buffer_size[worker] = 0;
         return;
       }
       trace->_lf_trace_header_written = true;
@@ -119,8 +120,9 @@ static void flush_trace_locked(trace_t* trace, int worker) {
         trace->_lf_trace_file = NULL;
       }
     }
-    trace->_lf_trace_buffer_size[worker] = 0;
   }
+  // Always make room in the buffer, even if its contents could not be written.
+  trace->_lf_trace_buffer_size[worker] = 0;
 }
 
 /**
-- 
2.43.0


From e4abf7abfa1bdce15c5e13e38eaabcdfdede718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:08 +0000
Subject: [PATCH 32/78] fix: trace summaries cover every worker wait they index

---
 util/tracing/trace_to_csv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/tracing/trace_to_csv.c b/util/tracing/trace_to_csv.c
index 1ddf4a9..14ff31e 100644
--- a/util/tracing/trace_to_csv.c
+++ b/util/tracing/trace_to_csv.c
@@ -84,7 +84,7 @@ typedef struct summary_stats_t {
   const char* description;  // Description in the reaction table (e.g. reactor name).
   int occurrences;          // Number of occurrences of this description.
   int num_reactions_seen;
-  reaction_stats_t reactions[MAX_NUM_REACTIONS];
+  reaction_stats_t reactions[MAX_NUM_REACTIONS > 2 * MAX_NUM_WORKERS ? MAX_NUM_REACTIONS : 2 * MAX_NUM_WORKERS];
 } summary_stats_t;
 
 /**
@@ -223,7 +223,7 @@ size_t read_and_write_trace(instant_t trace_start_time, instant_t trace_end_time
             trace[i].event_type == scheduler_advancing_time_ends) {
           index++;
         }
-        if (object_table_size + index >= table_size) {
+        if (index < 0 || index >= 2 * MAX_NUM_WORKERS) {
           fprintf(stderr, "WARNING: Too many workers. Not all will be shown in summary file.\n");
           continue;
         }
-- 
2.43.0


From 355db4beaf93c308ba6850af5cbe400231fe6eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:25 +0000
Subject: [PATCH 33/78] fix: tracepoints of threads beyond those announced use
 the fallback buffer

---
 trace/impl/src/trace_impl.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trace/impl/src/trace_impl.c b/trace/impl/src/trace_impl.c
index 7d9dccd..93cf883 100644
--- a/trace/impl/src/trace_impl.c
+++ b/trace/impl/src/trace_impl.c
@@ -225,16 +225,17 @@ void lf_tracing_tracepoint(int worker, trace_record_nodeps_t* tr) {
   (void)worker;
   // Worker argument determines which buffer to write to.
   int tid = lf_thread_id();
+  if (tid >= (int)trace._lf_number_of_trace_buffers) {
+    // The thread is managed by LF, but it was not counted when the buffers were allocated,
+    // as is the case for the thread of a watchdog. Use the fallback buffer.
+    tid = -1;
+  }
   if (tid < 0) {
     // The current thread was created by the user. It is not managed by LF, its ID is not known,
     // and most importantly it does not count toward the limit on the total number of threads.
     // Therefore we should fall back to using a mutex.
     lf_platform_mutex_lock(trace_mutex);
   }
-  if (tid > (int)trace._lf_number_of_trace_buffers) {
-    lf_print_error_and_exit("the thread id (%d) exceeds the number of trace buffers (%zu)", tid,
-                            trace._lf_number_of_trace_buffers);
-  }
 
   // Flush the buffer if it is full.
   if (trace._lf_trace_buffer_size[tid] >= TRACE_BUFFER_CAPACITY) {
-- 
2.43.0


From a4813e25a110a3b86f8b1c3c19574008f4ca5c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:51 +0000
Subject: [PATCH 34/78] fix: departing federates no longer block the remaining
 ones

When a federate resigned, failed or lost its connection, the cached minimum
delays and cycle flags computed through it stayed in use, a pending stop request
kept waiting for it, and (for a lost connection) downstream federates were not
re-evaluated.
---
 core/federated/RTI/rti_remote.c | 52 ++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3daaeff..7e66d09 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -971,6 +971,41 @@ void* clock_synchronization_thread(void* noargs) {
   return NULL;
 }
 
+/**
+ * @brief Update the RTI after a federate has resigned, failed, or lost its connection.
+ *
+ * Mark the federate as not connected, stop waiting for it in a pending stop request, discard the
+ * minimum delays and cycle flags that were computed from connections through it, and check whether
+ * the departure permits downstream federates to advance.
+ *
+ * This function assumes the caller holds the rti_mutex lock.
+ *
+ * @param my_fed The federate that has departed.
+ */
+static void handle_federate_departure_locked(federate_info_t* my_fed) {
+  my_fed->enclave.state = NOT_CONNECTED;
+
+  // Indicate that there will no further events from this federate.
+  my_fed->enclave.next_event = FOREVER_TAG;
+
+  // Paths through this federate no longer exist.
+  for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
+    invalidate_min_delays_upstream(rti_remote->base.scheduling_nodes[i]);
+  }
+
+  // If a stop has been requested, do not wait for a reply from this federate.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
+  // Check downstream federates to see whether they should now be granted a TAG.
+  // To handle cycles, need to create a boolean array to keep
+  // track of which upstream federates have been visited.
+  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
+  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
+  free(visited);
+}
+
 /**
  * Handle MSG_TYPE_FAILED sent by a federate. This message is sent by a federate
  * that is exiting in failure.  In this case, the RTI will
@@ -1006,12 +1041,7 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
-  // Check downstream federates to see whether they should now be granted a TAG.
-  // To handle cycles, need to create a boolean array to keep
-  // track of which upstream federates have been visited.
-  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
-  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
-  free(visited);
+  handle_federate_departure_locked(my_fed);
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -1059,12 +1089,7 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
-  // Check downstream federates to see whether they should now be granted a TAG.
-  // To handle cycles, need to create a boolean array to keep
-  // track of which upstream federates have been visited.
-  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
-  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
-  free(visited);
+  handle_federate_departure_locked(my_fed);
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -1085,8 +1110,6 @@ void* federate_info_thread_TCP(void* fed) {
     if (read_failed) {
       // Socket is closed
       lf_print_error("RTI: Socket to federate %d is closed. Exiting the thread.", my_fed->enclave.id);
-      my_fed->enclave.state = NOT_CONNECTED;
-      my_fed->socket = -1;
       // FIXME: We need better error handling here, but do not stop execution here.
       break;
     }
@@ -1140,6 +1163,7 @@ void* federate_info_thread_TCP(void* fed) {
   // Nothing more to do. Close the socket and exit.
   // Prevent multiple threads from closing the same socket at the same time.
   LF_MUTEX_LOCK(&rti_mutex);
+  handle_federate_departure_locked(my_fed);
   close(my_fed->socket); //  from unistd.h
   LF_MUTEX_UNLOCK(&rti_mutex);
   return NULL;
-- 
2.43.0


From e468bff25b1830e11c27873086430815e8713415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:51 +0000
Subject: [PATCH 35/78] fix: stimulate upstream federates of a pending
 provisional grant once it is safe

The grants sent to the upstream federates of a provisionally granted federate
were attempted only once, when the provisional grant was sent. If they were not
safe at that time, they were never retried, and the cycle deadlocked.
---
 core/federated/RTI/rti_common.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 3a1b16f..c4bc076 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -280,6 +280,25 @@ void notify_advance_grant_if_safe(scheduling_node_t* e) {
       notify_tag_advance_grant(e, grant.tag);
     }
   }
+
+  // A downstream node that has a pending provisional grant may be waiting for this node to report
+  // that its outputs are absent at that tag. When that grant was sent, it may not yet have been
+  // safe to stimulate this node (see notify_provisional_tag_advance_grant()), so check again.
+  for (int i = 0; i < e->num_downstream; i++) {
+    scheduling_node_t* downstream = rti_common->scheduling_nodes[e->downstream[i]];
+    tag_t pending = downstream->last_provisionally_granted;
+    if (downstream->state == NOT_CONNECTED || lf_tag_compare(pending, downstream->last_granted) <= 0 ||
+        lf_tag_compare(pending, downstream->completed) <= 0 || lf_tag_compare(pending, e->last_granted) <= 0 ||
+        lf_tag_compare(pending, e->last_provisionally_granted) <= 0) {
+      continue;
+    }
+    tag_t earliest = earliest_future_incoming_message_tag(e);
+    if (lf_tag_compare(earliest, pending) > 0) {
+      notify_tag_advance_grant(e, pending);
+    } else if (lf_tag_compare(earliest, pending) == 0 && lf_tag_compare(eimt_strict(e), pending) > 0) {
+      notify_provisional_tag_advance_grant(e, pending);
+    }
+  }
 }
 
 // Local function used recursively to find minimum delays upstream.
-- 
2.43.0


From c96ad24bffb2d7187446df2b63c32a9c20aed9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:28 +0000
Subject: [PATCH 36/78] fix: a federate that cannot be written to no longer
 terminates the RTI

Forwarding a message, a stop request, a stop grant, an address or a physical time
to a federate whose connection had just been lost ended the RTI and with it the
whole federation.
---
 core/federated/RTI/rti_remote.c | 59 ++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 7e66d09..9bb6601 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -178,6 +178,29 @@ static int create_rti_server(uint16_t port, socket_type_t socket_type) {
   return socket_descriptor;
 }
 
+/**
+ * @brief Write to the socket of a federate, treating a failure as a soft failure.
+ *
+ * If the connection to the federate is lost, mark the federate as not connected rather than
+ * terminating the RTI. The thread that listens to the federate will then clean up.
+ *
+ * This function assumes the caller holds the rti_mutex lock.
+ *
+ * @param fed The destination federate.
+ * @param num_bytes The number of bytes to write.
+ * @param buffer The buffer from which to write.
+ * @param what What is being sent (for the error message).
+ * @return true if the bytes were written.
+ */
+static bool write_to_federate_locked(federate_info_t* fed, size_t num_bytes, unsigned char* buffer, const char* what) {
+  if (write_to_socket(fed->socket, num_bytes, buffer)) {
+    lf_print_error("RTI failed to send %s to federate %d.", what, fed->enclave.id);
+    fed->enclave.state = NOT_CONNECTED;
+    return false;
+  }
+  return true;
+}
+
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
       lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
@@ -333,8 +356,7 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   }
 
   // Forward the message.
-  write_to_socket_fail_on_error(&fed->socket, message_size + 1, buffer, &rti_mutex,
-                                "RTI failed to forward message to federate %d.", federate_id);
+  write_to_federate_locked(fed, message_size + 1, buffer, "a port absent message");
 
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
@@ -429,8 +451,7 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
 
-  write_to_socket_fail_on_error(&fed->socket, bytes_read, buffer, &rti_mutex,
-                                "RTI failed to forward message to federate %d.", federate_id);
+  bool forwarding = write_to_federate_locked(fed, bytes_read, buffer, "a message");
 
   // The message length may be longer than the buffer,
   // in which case we have to handle it in chunks.
@@ -449,8 +470,12 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
     // do not write to destination_socket and cause interleaving. However,
     // holding the rti_mutex might be very expensive. Instead, each outgoing
     // socket should probably have its own mutex.
-    write_to_socket_fail_on_error(&fed->socket, bytes_to_read, buffer, &rti_mutex,
-                                  "RTI failed to send message chunks.");
+    // If the destination has been lost, continue reading to discard the rest of the message.
+    forwarding = forwarding && write_to_federate_locked(fed, bytes_to_read, buffer, "message chunks");
+  }
+  if (!forwarding) {
+    LF_MUTEX_UNLOCK(&rti_mutex);
+    return;
   }
 
   // Record this in-transit message in federate's in-transit message queue.
@@ -555,8 +580,7 @@ static void broadcast_stop_time_to_federates_locked() {
     if (rti_remote->base.tracing_enabled) {
       tracepoint_rti_to_federate(send_STOP_GRN, fed->enclave.id, &rti_remote->base.max_stop_tag);
     }
-    write_to_socket_fail_on_error(&fed->socket, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, &rti_mutex,
-                                  "RTI failed to send MSG_TYPE_STOP_GRANTED message to federate %d.", fed->enclave.id);
+    write_to_federate_locked(fed, MSG_TYPE_STOP_GRANTED_LENGTH, outgoing_buffer, "MSG_TYPE_STOP_GRANTED");
   }
 
   LF_PRINT_LOG("RTI sent to federates MSG_TYPE_STOP_GRANTED with tag " PRINTF_TAG,
@@ -675,9 +699,7 @@ void handle_stop_request_message(federate_info_t* fed) {
       if (rti_remote->base.tracing_enabled) {
         tracepoint_rti_to_federate(send_STOP_REQ, f->enclave.id, &rti_remote->base.max_stop_tag);
       }
-      write_to_socket_fail_on_error(&f->socket, MSG_TYPE_STOP_REQUEST_LENGTH, stop_request_buffer, &rti_mutex,
-                                    "RTI failed to forward MSG_TYPE_STOP_REQUEST message to federate %d.",
-                                    f->enclave.id);
+      write_to_federate_locked(f, MSG_TYPE_STOP_REQUEST_LENGTH, stop_request_buffer, "MSG_TYPE_STOP_REQUEST");
     }
   }
   LF_PRINT_LOG("RTI forwarded to federates MSG_TYPE_STOP_REQUEST with tag (" PRINTF_TIME ", %u).",
@@ -741,13 +763,11 @@ void handle_address_query(uint16_t fed_id) {
   // Send the port number (which could be -1).
   LF_MUTEX_LOCK(&rti_mutex);
   encode_int32(remote_fed->server_port, (unsigned char*)&buffer[1]);
-  write_to_socket_fail_on_error(&fed->socket, sizeof(int32_t) + 1, (unsigned char*)buffer, &rti_mutex,
-                                "Failed to write port number to socket of federate %d.", fed_id);
-
-  // Send the server IP address to federate.
-  write_to_socket_fail_on_error(&fed->socket, sizeof(remote_fed->server_ip_addr),
-                                (unsigned char*)&remote_fed->server_ip_addr, &rti_mutex,
-                                "Failed to write ip address to socket of federate %d.", fed_id);
+  if (write_to_federate_locked(fed, sizeof(int32_t) + 1, (unsigned char*)buffer, "a port number")) {
+    // Send the server IP address to federate.
+    write_to_federate_locked(fed, sizeof(remote_fed->server_ip_addr), (unsigned char*)&remote_fed->server_ip_addr,
+                             "an IP address");
+  }
   LF_MUTEX_UNLOCK(&rti_mutex);
 
   LF_PRINT_DEBUG("Replied to address query from federate %d with address %s:%d.", fed_id, remote_fed->server_hostname,
@@ -861,8 +881,7 @@ void send_physical_clock(unsigned char message_type, federate_info_t* fed, socke
   } else if (socket_type == TCP) {
     LF_PRINT_DEBUG("Clock sync:  RTI sending TCP message type %u.", buffer[0]);
     LF_MUTEX_LOCK(&rti_mutex);
-    write_to_socket_fail_on_error(&fed->socket, 1 + sizeof(int64_t), buffer, &rti_mutex,
-                                  "Clock sync: RTI failed to send physical time to federate %d.", fed->enclave.id);
+    write_to_federate_locked(fed, 1 + sizeof(int64_t), buffer, "the physical time");
     LF_MUTEX_UNLOCK(&rti_mutex);
   }
   LF_PRINT_DEBUG("Clock sync: RTI sent PHYSICAL_TIME_SYNC_MESSAGE with timestamp " PRINTF_TIME " to federate %d.",
-- 
2.43.0


From b2bc3be4f325d7767957eb8d718933a19e30fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:11 +0000
Subject: [PATCH 37/78] fix: data races in the RTI on the start time, the stop
 flag and the connection state

The start time is now set once, under the mutex, before the threads waiting for it
are notified. Before, each federate's thread wrote it without the mutex, and the
clock synchronization thread could read it before it was set.
---
 core/federated/RTI/rti_remote.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 9bb6601..85ee341 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -617,7 +617,10 @@ static void* wait_for_stop_request_reply(void* args) {
   interval_t chunk = MAX_TIME_FOR_REPLY_TO_STOP_REQUEST / 30;
   int count = 0;
   while (count++ < 30) {
-    if (stop_granted_already_sent_to_federates)
+    LF_MUTEX_LOCK(&rti_mutex);
+    bool stop_granted = stop_granted_already_sent_to_federates;
+    LF_MUTEX_UNLOCK(&rti_mutex);
+    if (stop_granted)
       return NULL;
     lf_sleep(chunk);
   }
@@ -817,6 +820,9 @@ void handle_timestamp(federate_info_t* my_fed) {
   }
   if (rti_remote->num_feds_proposed_start == rti_remote->base.number_of_scheduling_nodes) {
     // All federates have proposed a start time.
+    // Add an offset to this start time to get everyone starting together.
+    start_time = rti_remote->max_start_time + DELAY_START;
+    lf_tracing_set_start_time(start_time);
     lf_cond_broadcast(&received_start_times);
   } else {
     // Some federates have not yet proposed a start time.
@@ -833,9 +839,6 @@ void handle_timestamp(federate_info_t* my_fed) {
   // message.
   unsigned char start_time_buffer[MSG_TYPE_TIMESTAMP_LENGTH];
   start_time_buffer[0] = MSG_TYPE_TIMESTAMP;
-  // Add an offset to this start time to get everyone starting together.
-  start_time = rti_remote->max_start_time + DELAY_START;
-  lf_tracing_set_start_time(start_time);
   encode_int64(swap_bytes_if_big_endian_int64(start_time), &start_time_buffer[1]);
 
   if (rti_remote->base.tracing_enabled) {
@@ -1123,7 +1126,14 @@ void* federate_info_thread_TCP(void* fed) {
   unsigned char buffer[FED_COM_BUFFER_SIZE];
 
   // Listen for messages from the federate.
-  while (my_fed->enclave.state != NOT_CONNECTED) {
+  while (true) {
+    // Another thread may have found that the connection is lost.
+    LF_MUTEX_LOCK(&rti_mutex);
+    bool connected = my_fed->enclave.state != NOT_CONNECTED;
+    LF_MUTEX_UNLOCK(&rti_mutex);
+    if (!connected) {
+      break;
+    }
     // Read no more than one byte to get the message type.
     int read_failed = read_from_socket(my_fed->socket, 1, buffer);
     if (read_failed) {
-- 
2.43.0


From 253ae965c27cda92735328f15a730a7069679cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:22 +0000
Subject: [PATCH 38/78] fix: wait for a federate's start before deciding what
 to send to it

The wait for the starting MSG_TYPE_TIMESTAMP releases the mutex, so the checks made
before it were stale: the same grant could be sent twice, and a message could be
written to the socket of a federate that had left meanwhile.
---
 core/federated/RTI/rti_remote.c | 52 ++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 85ee341..1b0a63d 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -202,16 +202,17 @@ static bool write_to_federate_locked(federate_info_t* fed, size_t num_bytes, uns
 }
 
 void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
+  // Check only now because the wait above releases the mutex.
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) < 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_TAG_ADVANCE_GRANT;
@@ -235,16 +236,17 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
 }
 
 void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
-  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
-      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
-    return;
-  }
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
     // Need to wait here.
     lf_cond_wait(&sent_start_time);
   }
+  // Check only now because the wait above releases the mutex.
+  if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
+      lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
+    return;
+  }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
   buffer[0] = MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT;
@@ -324,9 +326,17 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning
   // and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
@@ -344,13 +354,6 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
 
   LF_PRINT_LOG("RTI forwarding port absent message for port %u to federate %u.", reactor_port_id, federate_id);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_PORT_ABS, federate_id, &tag);
   }
@@ -408,9 +411,17 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning,
   // remove the message from the socket and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
     LF_PRINT_LOG("Fed status: next_event " PRINTF_TAG ", "
@@ -440,13 +451,6 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   LF_PRINT_DEBUG("RTI forwarding message to port %d of federate %hu of length %zu.", reactor_port_id, federate_id,
                  length);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
-- 
2.43.0


From 2d7a372c01410c8419051ffba4455c45ce9371d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 39/78] fix: do not forward a stop request to a federate before
 its start time

A federate that has not yet been told the start time expects nothing else.
---
 core/federated/RTI/rti_remote.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 1b0a63d..3766141 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -698,6 +698,11 @@ void handle_stop_request_message(federate_info_t* fed) {
 
   for (int i = 0; i < rti_remote->base.number_of_scheduling_nodes; i++) {
     federate_info_t* f = GET_FED_INFO(i);
+    // Need to make sure that the federate's thread has already
+    // sent the starting MSG_TYPE_TIMESTAMP message.
+    while (f->enclave.state == PENDING) {
+      lf_cond_wait(&sent_start_time);
+    }
     if (f->enclave.id != fed->enclave.id && f->requested_stop == false) {
       if (f->enclave.state == NOT_CONNECTED) {
         mark_federate_requesting_stop(f);
-- 
2.43.0


From 4765123677eb616526f50246ac0ce3fe2322cf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 40/78] fix: the RTI compares the whole federation ID

Any prefix of the federation ID, even an empty one, was accepted.
---
 core/federated/RTI/rti_remote.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3766141..3720632 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1291,7 +1291,9 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
       tracepoint_rti_from_federate(receive_FED_ID, fed_id, NULL);
     }
     // Compare the received federation ID to mine.
-    if (strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
+    // The lengths have to be compared as well because otherwise any prefix would match.
+    if (federation_id_length != strnlen(rti_remote->federation_id, 255) ||
+        memcmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
       // Federation IDs do not match. Send back a MSG_TYPE_REJECT message.
       lf_print_warning("Federate from another federation %s attempted to connect to RTI in federation %s.",
                        federation_id_received, rti_remote->federation_id);
-- 
2.43.0


From 2f64df11b06b73e72cb03762ca4d22fa38d49399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 41/78] fix: the RTI keeps rejecting connections while the
 federation is running

The thread that rejects late connections ended when nobody connected for 10 s.
---
 core/federated/RTI/rti_remote.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3720632..3b39e64 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1683,12 +1683,16 @@ void* respond_to_erroneous_connections(void* nothing) {
     // The following will block until either a federate attempts to connect
     // or close(rti->socket_descriptor_TCP) is called.
     int socket_id = accept(rti_remote->socket_descriptor_TCP, &client_fd, &client_length);
-    if (socket_id < 0)
-      return NULL;
-
     if (rti_remote->all_federates_exited) {
       return NULL;
     }
+    if (socket_id < 0) {
+      if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR || errno == ECONNABORTED) {
+        // The accept timed out or was interrupted. Keep listening.
+        continue;
+      }
+      return NULL;
+    }
 
     lf_print_error("RTI received an unexpected connection request. Federation is running.");
     unsigned char response[2];
-- 
2.43.0


From b29e047954a825b50d3985c276db48904cac6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 42/78] fix: a client that vanishes or errs while joining does
 not disturb the federation

A connection lost during the handshake ended the RTI or left the federate's ID in
use forever.
---
 core/federated/RTI/rti_remote.c | 45 +++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3b39e64..07397bb 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1357,6 +1357,7 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
   }
   LF_MUTEX_LOCK(&rti_mutex);
   if (write_to_socket_close_on_error(&fed->socket, 1, &ack_message)) {
+    fed->enclave.state = NOT_CONNECTED;
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_error("RTI failed to write MSG_TYPE_ACK message to federate %d.", fed_id);
     return -1;
@@ -1376,9 +1377,10 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
 static int receive_connection_information(int* socket_id, uint16_t fed_id) {
   LF_PRINT_DEBUG("RTI waiting for MSG_TYPE_NEIGHBOR_STRUCTURE from federate %d.", fed_id);
   unsigned char connection_info_header[MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE];
-  read_from_socket_fail_on_error(socket_id, MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE, connection_info_header, NULL,
-                                 "RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message header from federate %d.",
-                                 fed_id);
+  if (read_from_socket_close_on_error(socket_id, MSG_TYPE_NEIGHBOR_STRUCTURE_HEADER_SIZE, connection_info_header)) {
+    lf_print_error("RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message header from federate %d.", fed_id);
+    return 0;
+  }
 
   if (connection_info_header[0] != MSG_TYPE_NEIGHBOR_STRUCTURE) {
     lf_print_error("RTI was expecting a MSG_TYPE_UDP_PORT message from federate %d. Got %u instead. "
@@ -1418,9 +1420,11 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
     if (connections_info_body_size > 0) {
       connections_info_body = (unsigned char*)malloc(connections_info_body_size);
       LF_ASSERT_NON_NULL(connections_info_body);
-      read_from_socket_fail_on_error(socket_id, connections_info_body_size, connections_info_body, NULL,
-                                     "RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message body from federate %d.",
-                                     fed_id);
+      if (read_from_socket_close_on_error(socket_id, connections_info_body_size, connections_info_body)) {
+        lf_print_error("RTI failed to read MSG_TYPE_NEIGHBOR_STRUCTURE message body from federate %d.", fed_id);
+        free(connections_info_body);
+        return 0;
+      }
       // Keep track of where we are in the buffer
       size_t message_head = 0;
       // First, read the info about upstream federates
@@ -1462,8 +1466,10 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
   // is doing clock synchronization, and if it is, what port to use for UDP.
   LF_PRINT_DEBUG("RTI waiting for MSG_TYPE_UDP_PORT from federate %d.", fed_id);
   unsigned char response[1 + sizeof(uint16_t)];
-  read_from_socket_fail_on_error(socket_id, 1 + sizeof(uint16_t), response, NULL,
-                                 "RTI failed to read MSG_TYPE_UDP_PORT message from federate %d.", fed_id);
+  if (read_from_socket_close_on_error(socket_id, 1 + sizeof(uint16_t), response)) {
+    lf_print_error("RTI failed to read MSG_TYPE_UDP_PORT message from federate %d.", fed_id);
+    return 0;
+  }
   if (response[0] != MSG_TYPE_UDP_PORT) {
     lf_print_error("RTI was expecting a MSG_TYPE_UDP_PORT message from federate %d. Got %u instead. "
                    "Rejecting federate.",
@@ -1489,8 +1495,10 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
           // Listen for reply message, which should be T3.
           size_t message_size = 1 + sizeof(int32_t);
           unsigned char buffer[message_size];
-          read_from_socket_fail_on_error(socket_id, message_size, buffer, NULL,
-                                         "Socket to federate %d unexpectedly closed.", fed_id);
+          if (read_from_socket_close_on_error(socket_id, message_size, buffer)) {
+            lf_print_error("Socket to federate %d unexpectedly closed.", fed_id);
+            return 0;
+          }
           if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
             int32_t fed_id = extract_int32(&(buffer[1]));
             assert(fed_id > -1);
@@ -1649,7 +1657,22 @@ void lf_connect_to_federates(int socket_descriptor) {
       federate_info_t* fed = GET_FED_INFO(fed_id);
       lf_thread_create(&(fed->thread_id), federate_info_thread_TCP, fed);
     } else {
-      // Received message was rejected. Try again.
+      // Received message was rejected or the connection was lost. Try again.
+      if (fed_id >= 0) {
+        // The federate had already been acknowledged. Discard what it has sent
+        // and allow its ID to be used again.
+        federate_info_t* fed = GET_FED_INFO(fed_id);
+        fed->enclave.state = NOT_CONNECTED;
+        fed->socket = -1;
+        free(fed->enclave.upstream);
+        free(fed->enclave.upstream_delay);
+        free(fed->enclave.downstream);
+        fed->enclave.upstream = NULL;
+        fed->enclave.upstream_delay = NULL;
+        fed->enclave.downstream = NULL;
+        fed->enclave.num_upstream = 0;
+        fed->enclave.num_downstream = 0;
+      }
       i--;
     }
   }
-- 
2.43.0


From 09196f2b36da135f16fd1a47c386d4bdcad001f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 43/78] fix: an invalid or truncated authentication message
 does not end the RTI

---
 core/federated/RTI/rti_remote.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 07397bb..1c50f38 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1549,10 +1549,14 @@ static bool authenticate_federate(int* socket) {
   // Wait for MSG_TYPE_FED_NONCE from federate.
   size_t fed_id_length = sizeof(uint16_t);
   unsigned char buffer[1 + fed_id_length + NONCE_LENGTH];
-  read_from_socket_fail_on_error(socket, 1 + fed_id_length + NONCE_LENGTH, buffer, NULL,
-                                 "Failed to read MSG_TYPE_FED_NONCE");
+  if (read_from_socket_close_on_error(socket, 1 + fed_id_length + NONCE_LENGTH, buffer)) {
+    lf_print_error("Failed to read MSG_TYPE_FED_NONCE");
+    return false;
+  }
   if (buffer[0] != MSG_TYPE_FED_NONCE) {
-    lf_print_error_and_exit("Received unexpected response %u from the FED (see net_common.h).", buffer[0]);
+    lf_print_error("Received unexpected response %u from the FED (see net_common.h).", buffer[0]);
+    send_reject(socket, UNEXPECTED_MESSAGE);
+    return false;
   }
   unsigned int hmac_length = SHA256_HMAC_LENGTH;
   size_t federation_id_length = strnlen(rti_remote->federation_id, 255);
@@ -1580,9 +1584,13 @@ static bool authenticate_federate(int* socket) {
 
   // Wait for MSG_TYPE_FED_RESPONSE
   unsigned char received[1 + hmac_length];
-  read_from_socket_fail_on_error(socket, 1 + hmac_length, received, NULL, "Failed to read federate response.");
+  if (read_from_socket_close_on_error(socket, 1 + hmac_length, received)) {
+    lf_print_error("Failed to read federate response.");
+    return false;
+  }
   if (received[0] != MSG_TYPE_FED_RESPONSE) {
-    lf_print_error_and_exit("Received unexpected response %u from the federate (see net_common.h).", received[0]);
+    lf_print_error("Received unexpected response %u from the federate (see net_common.h).", received[0]);
+    send_reject(socket, UNEXPECTED_MESSAGE);
     return false;
   }
   // HMAC tag is created with MSG_TYPE_FED_RESPONSE and RTI's nonce.
@@ -1634,10 +1642,12 @@ void lf_connect_to_federates(int socket_descriptor) {
     if (rti_remote->authentication_enabled) {
       if (!authenticate_federate(&socket_id)) {
         lf_print_warning("RTI failed to authenticate the incoming federate.");
-        // Close the socket.
-        shutdown(socket_id, SHUT_RDWR);
-        close(socket_id);
-        socket_id = -1;
+        // Close the socket unless this has been done already.
+        if (socket_id >= 0) {
+          shutdown(socket_id, SHUT_RDWR);
+          close(socket_id);
+          socket_id = -1;
+        }
         // Ignore the federate that failed authentication.
         i--;
         continue;
-- 
2.43.0


From 8c9790cfcdf8e0ec93b4468a3e0e5d1424ed4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 44/78] fix: runtime clock synchronization survives lost
 messages

After a lost T3 message, the RTI waited for it forever, and if it had not, the
thread would have ended if all rounds of one period had failed. Federates that
do not take part in runtime clock synchronization are now skipped.
---
 core/federated/RTI/rti_remote.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 1c50f38..7f65832 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -948,6 +948,8 @@ void* clock_synchronization_thread(void* noargs) {
       } else if (!fed->clock_synchronization_enabled) {
         continue;
       }
+      // Keep synchronizing even if this round fails, for example, because a message gets lost.
+      any_federates_connected = true;
       // Send the RTI's current physical time to the federate
       // Send on UDP.
       LF_PRINT_DEBUG("RTI sending T1 message to initiate clock sync round.");
@@ -962,7 +964,10 @@ void* clock_synchronization_thread(void* noargs) {
       int remaining_attempts = 5;
       while (remaining_attempts > 0) {
         remaining_attempts--;
-        int read_failed = read_from_socket(rti_remote->socket_descriptor_UDP, message_size, buffer);
+        // Do not use read_from_socket() here because that would wait forever for a lost message.
+        // A message is a datagram, so it is received as a whole or not at all.
+        bool read_failed =
+            recv(rti_remote->socket_descriptor_UDP, buffer, message_size, 0) < (ssize_t)message_size;
         // If any errors occur, either discard the message or the clock sync round.
         if (!read_failed) {
           if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
@@ -994,9 +999,6 @@ void* clock_synchronization_thread(void* noargs) {
           remaining_attempts = -1;
         }
       }
-      if (remaining_attempts > 0) {
-        any_federates_connected = true;
-      }
     }
   }
   return NULL;
@@ -1515,11 +1517,14 @@ static int receive_udp_message_and_set_up_clock_sync(int* socket_id, uint16_t fe
       }
       if (rti_remote->clock_sync_global_status >= clock_sync_on) {
         // If no runtime clock sync, no need to set up the UDP port.
-        if (federate_UDP_port_number > 0) {
+        if (federate_UDP_port_number > 0 && federate_UDP_port_number != UINT16_MAX) {
           // Initialize the UDP_addr field of the federate struct
           fed->UDP_addr.sin_family = AF_INET;
           fed->UDP_addr.sin_port = htons(federate_UDP_port_number);
           fed->UDP_addr.sin_addr = fed->server_ip_addr;
+        } else {
+          // The federate does not perform runtime clock synchronization.
+          fed->clock_synchronization_enabled = false;
         }
       } else {
         // Disable clock sync after initial round.
-- 
2.43.0


From 0aa6bb0027dbb255dc035bfaadc5029cccfb050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:23 +0000
Subject: [PATCH 45/78] fix: RTI options that follow the clock synchronization
 options are parsed

---
 core/federated/RTI/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/main.c b/core/federated/RTI/main.c
index 17d73e9..9c4d13d 100644
--- a/core/federated/RTI/main.c
+++ b/core/federated/RTI/main.c
@@ -253,7 +253,8 @@ int process_args(int argc, const char* argv[]) {
         return 0;
       }
       i++;
-      i += process_clock_sync_args((argc - i), &argv[i]);
+      // Subtract one because the loop increments i.
+      i += process_clock_sync_args((argc - i), &argv[i]) - 1;
     } else if (strcmp(argv[i], "-a") == 0 || strcmp(argv[i], "--auth") == 0) {
 #ifndef __RTI_AUTH__
       lf_print_error("--auth requires the RTI to be built with the -DAUTH=ON option.");
-- 
2.43.0


From 01c59884bf3aa785a9de432fe4dd37a9471a2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:58 +0000
Subject: [PATCH 46/78] fix: data race on the flag that all federates have
 exited

---
 core/federated/RTI/rti_remote.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 7f65832..254a97f 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1721,11 +1721,16 @@ void* respond_to_erroneous_connections(void* nothing) {
     // The following will block until either a federate attempts to connect
     // or close(rti->socket_descriptor_TCP) is called.
     int socket_id = accept(rti_remote->socket_descriptor_TCP, &client_fd, &client_length);
-    if (rti_remote->all_federates_exited) {
+    int accept_errno = errno;
+    LF_MUTEX_LOCK(&rti_mutex);
+    bool all_federates_exited = rti_remote->all_federates_exited;
+    LF_MUTEX_UNLOCK(&rti_mutex);
+    if (all_federates_exited) {
       return NULL;
     }
     if (socket_id < 0) {
-      if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR || errno == ECONNABORTED) {
+      if (accept_errno == EAGAIN || accept_errno == EWOULDBLOCK || accept_errno == EINTR ||
+          accept_errno == ECONNABORTED) {
         // The accept timed out or was interrupted. Keep listening.
         continue;
       }
@@ -1795,7 +1800,9 @@ void wait_for_federates(int socket_descriptor) {
     lf_print("RTI: Federate %d thread exited.", fed->enclave.id);
   }
 
+  LF_MUTEX_LOCK(&rti_mutex);
   rti_remote->all_federates_exited = true;
+  LF_MUTEX_UNLOCK(&rti_mutex);
 
   // Shutdown and close the socket that is listening for incoming connections
   // so that the accept() call in respond_to_erroneous_connections returns.
-- 
2.43.0


From 9d428f0e28aef88f3f56a9bb3f778ffdb30fcc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:58 +0000
Subject: [PATCH 47/78] fix: the RTI exits cleanly when an option following the
 number of federates is invalid

---
 core/federated/RTI/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/main.c b/core/federated/RTI/main.c
index 9c4d13d..1ce5993 100644
--- a/core/federated/RTI/main.c
+++ b/core/federated/RTI/main.c
@@ -101,7 +101,8 @@ static void send_failed_signal(federate_info_t* fed) {
  */
 void termination() {
   if (!normal_termination) {
-    for (int i = 0; i < rti.base.number_of_scheduling_nodes; i++) {
+    // If the arguments are invalid, the array of federates has not been allocated.
+    for (int i = 0; rti.base.scheduling_nodes != NULL && i < rti.base.number_of_scheduling_nodes; i++) {
       federate_info_t* f = (federate_info_t*)rti.base.scheduling_nodes[i];
       if (!f || f->enclave.state == NOT_CONNECTED)
         continue;
-- 
2.43.0


From 633416541d9c5e328b08134b41521b3083cacac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:19 +0000
Subject: [PATCH 48/78] fix: negative times are formatted without reading
 outside an array

---
 core/tag.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index 3453b98..f7417cb 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -233,21 +233,23 @@ size_t lf_comma_separated_time(char* buffer, instant_t time) {
     snprintf(buffer, 2, "0");
     return 1;
   }
-  // If the number is negative, print a minus sign.
+  // If the number is negative, print a minus sign and then its magnitude.
+  uint64_t magnitude = (uint64_t)time;
   if (time < (instant_t)0) {
     snprintf(buffer, 2, "-");
     buffer++;
     result++;
+    magnitude = 0 - magnitude;
   }
   int count = 0;
   // Assume the time value is no larger than 64 bits.
-  instant_t clauses[7];
-  while (time > (instant_t)0) {
-    clauses[count++] = time;
-    time = time / 1000;
+  uint64_t clauses[7];
+  while (magnitude > 0) {
+    clauses[count++] = magnitude;
+    magnitude = magnitude / 1000;
   }
   // Highest order clause should not be filled with zeros.
-  instant_t to_print = clauses[--count] % 1000;
+  instant_t to_print = (instant_t)(clauses[--count] % 1000);
   snprintf(buffer, 5, "%lld", (long long)to_print);
   if (to_print >= 100LL) {
     buffer += 3;
@@ -260,7 +262,7 @@ size_t lf_comma_separated_time(char* buffer, instant_t time) {
     result += 1;
   }
   while (count-- > 0) {
-    to_print = clauses[count] % 1000LL;
+    to_print = (instant_t)(clauses[count] % 1000);
     snprintf(buffer, 8, ",%03lld", (long long)to_print);
     buffer += 4;
     result += 4;
-- 
2.43.0


From bef4498cb3ab33e82af8adb927502ebf4d865e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:50 +0000
Subject: [PATCH 49/78] fix: a federate waiting to start does not announce a
 later next event

---
 core/federated/federate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 9be45fd..4844350 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2454,7 +2454,10 @@ tag_t lf_send_next_event_tag(environment_t* env, tag_t tag, bool wait_for_reply)
         if (lf_tag_compare(_fed.last_TAG, next_tag) >= 0 || lf_tag_compare(_fed.last_TAG, tag) >= 0) {
           return _fed.last_TAG;
         }
-        if (lf_tag_compare(next_tag, tag) != 0) {
+        // Never announce a later tag than the one being waited for. At the start tag, the reactions
+        // to be invoked are already on the reaction queue and the event queue has only later events.
+        if (lf_tag_compare(next_tag, tag) < 0) {
+          tag = next_tag;
           send_tag(MSG_TYPE_NEXT_EVENT_TAG, next_tag);
           _fed.last_sent_NET = next_tag;
           LF_PRINT_LOG("Sent next event tag (NET) " PRINTF_TAG " to RTI from loop.", next_tag.time - lf_time_start(),
-- 
2.43.0


From 34360c475901423a0ca3659b2855f3e890bc949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:30 +0000
Subject: [PATCH 50/78] fix: an absent notification about a past tag does not
 mark the port absent at the current tag

---
 core/federated/federate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 4844350..30506b6 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -725,7 +725,12 @@ static int handle_port_absent_message(int* socket, int fed_id) {
   _lf_get_environments(&env);
 
   LF_MUTEX_LOCK(&env->mutex);
-  update_last_known_status_on_input_port(env, intended_tag, port_id);
+  // An absent notification for a tag that is in the past or whose status is already known
+  // says nothing about the status of the port at the current tag or at the next microstep.
+  if (lf_tag_compare(intended_tag, env->current_tag) >= 0 &&
+      lf_tag_compare(intended_tag, action_for_port(port_id)->trigger->last_known_status_tag) > 0) {
+    update_last_known_status_on_input_port(env, intended_tag, port_id);
+  }
   LF_MUTEX_UNLOCK(&env->mutex);
 
   return 0;
-- 
2.43.0


From c371ea1fccd46f836347e5d1c39afb162294e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:51 +0000
Subject: [PATCH 51/78] fix: the GEDF scheduler waits for the status of network
 inputs before it completes a tag

---
 core/threaded/scheduler_GEDF_NP.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/threaded/scheduler_GEDF_NP.c b/core/threaded/scheduler_GEDF_NP.c
index 84afee3..5fb492f 100644
--- a/core/threaded/scheduler_GEDF_NP.c
+++ b/core/threaded/scheduler_GEDF_NP.c
@@ -207,6 +207,14 @@ reaction_t* lf_sched_get_ready_reaction(lf_scheduler_t* scheduler, int worker_nu
 
       // If all other workers are idle, then we are done with this tag.
       if (scheduler->number_of_idle_workers == scheduler->number_of_workers - 1) {
+#ifdef FEDERATED
+        // Network input reactions may yet be triggered at this tag. Go through the remaining levels,
+        // stalling at each one that has network inputs whose status is not yet known.
+        if (scheduler->custom_data->current_level < scheduler->max_reaction_level) {
+          advance_level(scheduler);
+          continue;
+        }
+#endif
         // Last thread to go idle
         LF_PRINT_DEBUG("Scheduler: Worker %d is advancing the tag.", worker_number);
         if (advance_tag(scheduler)) {
-- 
2.43.0


From 963ff389ab473d2b1c089b599229e03481184c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:56 +0000
Subject: [PATCH 52/78] fix: the adaptive scheduler waits for network inputs at
 the last level before it completes a tag

---
 core/threaded/scheduler_adaptive.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 53b6386..6b40ac2 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -419,7 +419,11 @@ static void advance_level_and_unlock(lf_scheduler_t* scheduler, size_t worker) {
   size_t max_level = worker_assignments->num_levels - 1;
   size_t total_num_reactions;
   while (true) {
-    if (worker_assignments->current_level == max_level) {
+#ifdef FEDERATED
+    // Stall at every level, including the last one, that has network inputs whose status is not yet known.
+    lf_stall_advance_level_federation_locked(worker_assignments->current_level);
+#endif
+    if (worker_assignments->current_level == max_level && !get_num_reactions(scheduler)) {
       data_collection_end_tag(scheduler, worker_assignments->num_workers_by_level,
                               worker_assignments->max_num_workers_by_level);
       set_level(scheduler, 0);
@@ -430,9 +434,6 @@ static void advance_level_and_unlock(lf_scheduler_t* scheduler, size_t worker) {
         return;
       }
     } else {
-#ifdef FEDERATED
-      lf_stall_advance_level_federation_locked(worker_assignments->current_level);
-#endif
       total_num_reactions = get_num_reactions(scheduler);
       if (!total_num_reactions) {
         worker_assignments->current_level++;
-- 
2.43.0


From 3a419702f351615d704c7ffead40ef1c8009d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:50 +0000
Subject: [PATCH 53/78] fix: workers executing input reactions concurrently do
 not race on the flag that an LTC must be sent

---
 core/threaded/reactor_threaded.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index ba768d0..56896a4 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -861,7 +861,10 @@ void _lf_worker_do_work(environment_t* env, int worker_number) {
       // This federate has received a tagged message with the current tag and
       // must send LTC at the current tag to confirm that the federate has successfully
       // received and processed tagged messages with the current tag.
+      // Several workers may be executing input reactions at the same time.
+      LF_MUTEX_LOCK(&env->mutex);
       env->need_to_send_LTC = true;
+      LF_MUTEX_UNLOCK(&env->mutex);
     }
 #endif // FEDERATED_CENTRALIZED
 
-- 
2.43.0


From dd6af696e7bd7f60407b6ffe8c9566c06dda4235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:19 +0000
Subject: [PATCH 54/78] fix: the NP scheduler does not race with threads that
 insert reactions to network inputs

---
 core/threaded/scheduler_NP.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/threaded/scheduler_NP.c b/core/threaded/scheduler_NP.c
index fd0ccfb..0de7e38 100644
--- a/core/threaded/scheduler_NP.c
+++ b/core/threaded/scheduler_NP.c
@@ -69,12 +69,12 @@ static inline void _lf_sched_insert_reaction(lf_scheduler_t* scheduler, reaction
     LF_PRINT_DEBUG("Scheduler: Trying to lock the mutex for level %zu.", reaction_level);
     LF_MUTEX_LOCK(&scheduler->custom_data->array_of_mutexes[reaction_level]);
     LF_PRINT_DEBUG("Scheduler: Locked the mutex for level %zu.", reaction_level);
-  }
-  // The level index for the current level can sometimes become negative. Set
-  // it back to zero before adding a reaction (otherwise worker threads will
-  // not be able to see the added reaction).
-  if (scheduler->indexes[reaction_level] < 0) {
-    scheduler->indexes[reaction_level] = 0;
+    // The level index for the current level can sometimes become negative. Set
+    // it back to zero before adding a reaction (otherwise worker threads will
+    // not be able to see the added reaction).
+    if (scheduler->indexes[reaction_level] < 0) {
+      scheduler->indexes[reaction_level] = 0;
+    }
   }
 #endif
   int reaction_q_level_index = lf_atomic_fetch_add((int*)&scheduler->indexes[reaction_level], 1);
@@ -102,7 +102,9 @@ static int _lf_sched_distribute_ready_reactions(lf_scheduler_t* scheduler) {
   // locking a mutex.
   while (scheduler->custom_data->next_reaction_level <= scheduler->max_reaction_level) {
 #ifdef FEDERATED
-    lf_stall_advance_level_federation(scheduler->env, scheduler->custom_data->next_reaction_level);
+    // Threads that receive messages insert reactions while holding the mutex.
+    LF_MUTEX_LOCK(&scheduler->env->mutex);
+    lf_stall_advance_level_federation_locked(scheduler->custom_data->next_reaction_level);
 #endif
     scheduler->custom_data->executing_reactions =
         scheduler->custom_data->triggered_reactions[scheduler->custom_data->next_reaction_level];
@@ -111,7 +113,12 @@ static int _lf_sched_distribute_ready_reactions(lf_scheduler_t* scheduler) {
 
     scheduler->custom_data->next_reaction_level++;
 
-    if (scheduler->custom_data->executing_reactions[0] != NULL) {
+    bool reactions_are_ready = (scheduler->custom_data->executing_reactions[0] != NULL);
+#ifdef FEDERATED
+    LF_MUTEX_UNLOCK(&scheduler->env->mutex);
+#endif
+
+    if (reactions_are_ready) {
       // There is at least one reaction to execute
       return 1;
     }
@@ -169,8 +176,8 @@ static void _lf_scheduler_try_advance_tag_and_distribute(lf_scheduler_t* schedul
   // Loop until it's time to stop or work has been distributed
   while (true) {
     if (scheduler->custom_data->next_reaction_level == (scheduler->max_reaction_level + 1)) {
-      scheduler->custom_data->next_reaction_level = 0;
       LF_MUTEX_LOCK(&env->mutex);
+      scheduler->custom_data->next_reaction_level = 0;
       // Nothing more happening at this tag.
       LF_PRINT_DEBUG("Scheduler: Advancing tag.");
       // This worker thread will take charge of advancing tag.
-- 
2.43.0


From 8ecd00e29e8bbde093856d230920e1d62d823244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:46 +0000
Subject: [PATCH 55/78] fix: the adaptive scheduler does not race with threads
 that insert reactions to network inputs

---
 core/threaded/scheduler_adaptive.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/core/threaded/scheduler_adaptive.c b/core/threaded/scheduler_adaptive.c
index 6b40ac2..bec36ae 100644
--- a/core/threaded/scheduler_adaptive.c
+++ b/core/threaded/scheduler_adaptive.c
@@ -101,6 +101,10 @@ typedef struct custom_scheduler_data_t {
   bool init_called;
   bool should_stop;
   size_t level_counter;
+#ifdef FEDERATED
+  /** Protects the queued reactions, because messages can trigger reactions at the level that is being executed. */
+  lf_mutex_t reactions_mutex;
+#endif
 } custom_scheduler_data_t;
 
 ///////////////////////// Scheduler Private Functions ///////////////////////////
@@ -210,6 +214,18 @@ static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
   worker_assignments_t* worker_assignments = scheduler->custom_data->worker_assignments;
   // The count must never become negative, not even temporarily, because other workers inspect it
   // and because, in federated programs, reactions may be inserted into the current level.
+#ifdef FEDERATED
+  // Get the reaction and decrement the count in one step, lest an insertion come between.
+  reaction_t* reaction = NULL;
+  LF_MUTEX_LOCK(&scheduler->custom_data->reactions_mutex);
+  int num_reactions = lf_atomic_fetch_add(worker_assignments->num_reactions_by_worker + worker, 0);
+  if (num_reactions > 0) {
+    reaction = worker_assignments->reactions_by_worker[worker][num_reactions - 1];
+    lf_atomic_fetch_add(worker_assignments->num_reactions_by_worker + worker, -1);
+  }
+  LF_MUTEX_UNLOCK(&scheduler->custom_data->reactions_mutex);
+  return reaction;
+#else
   int old_num_reactions;
   int current_num_reactions = lf_atomic_fetch_add(worker_assignments->num_reactions_by_worker + worker, 0);
   int index;
@@ -221,6 +237,7 @@ static reaction_t* get_reaction(lf_scheduler_t* scheduler, size_t worker) {
                 lf_atomic_val_compare_and_swap(worker_assignments->num_reactions_by_worker + worker, old_num_reactions,
                                                (index = old_num_reactions - 1))) != old_num_reactions);
   return worker_assignments->reactions_by_worker[worker][index];
+#endif
 }
 
 /**
@@ -273,9 +290,15 @@ static void worker_assignments_put(lf_scheduler_t* scheduler, reaction_t* reacti
   hash = (hash ^ (hash >> 27)) * 0x94d049bb133111eb;
   hash = hash ^ (hash >> 31);
   size_t worker = hash % worker_assignments->num_workers_by_level[level];
+#ifdef FEDERATED
+  LF_MUTEX_LOCK(&scheduler->custom_data->reactions_mutex);
+#endif
   size_t num_preceding_reactions =
       lf_atomic_fetch_add(&worker_assignments->num_reactions_by_worker_by_level[level][worker], 1);
   worker_assignments->reactions_by_worker_by_level[level][worker][num_preceding_reactions] = reaction;
+#ifdef FEDERATED
+  LF_MUTEX_UNLOCK(&scheduler->custom_data->reactions_mutex);
+#endif
 }
 
 ///////////////////////// Private Worker States Functions ///////////////////////////
@@ -679,6 +702,9 @@ void lf_sched_init(environment_t* env, size_t number_of_workers, sched_params_t*
   scheduler->custom_data->data_collection = (data_collection_t*)calloc(1, sizeof(data_collection_t));
   LF_ASSERT_NON_NULL(scheduler->custom_data->data_collection);
 
+#ifdef FEDERATED
+  LF_MUTEX_INIT(&scheduler->custom_data->reactions_mutex);
+#endif
   worker_states_init(scheduler, number_of_workers);
   worker_assignments_init(scheduler, number_of_workers, params);
 
-- 
2.43.0


From 62d42e945d4ceea9db62668d9539495aa20bc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:52 +0000
Subject: [PATCH 56/78] fix: sending a message does not race with a change of
 the stop tag

---
 core/federated/federate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 30506b6..029c4e4 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2637,7 +2637,11 @@ int lf_send_tagged_message(environment_t* env, interval_t additional_delay, int
   // tag of the outgoing message.
   tag_t current_message_intended_tag = lf_delay_tag(env->current_tag, additional_delay);
 
-  if (lf_is_tag_after_stop_tag(env, current_message_intended_tag)) {
+  // The stop tag can be changed concurrently by the thread listening to the RTI.
+  LF_MUTEX_LOCK(&env->mutex);
+  bool is_after_stop_tag = lf_is_tag_after_stop_tag(env, current_message_intended_tag);
+  LF_MUTEX_UNLOCK(&env->mutex);
+  if (is_after_stop_tag) {
     // Message tag is past the timeout time (the stop time) so it should not be sent.
     LF_PRINT_LOG("Dropping message because it will be after the timeout time.");
     return -1;
-- 
2.43.0


From 81230e617e01433d765aade861c9e902e73b908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:39 +0000
Subject: [PATCH 57/78] fix: a message from the RTI discarded at the stop tag
 does not access an array at index -1 or leak

---
 core/federated/federate.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 029c4e4..816220b 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -664,8 +664,12 @@ static int handle_tagged_message(int* socket, int fed_id) {
                      "    Discarding message and closing the socket.",
                      env->current_tag.time - start_time, env->current_tag.microstep, intended_tag.time - start_time,
                      intended_tag.microstep);
+      _lf_free_token(message_token);
       // Close socket, reading any incoming data and discarding it.
-      close_inbound_socket(fed_id, 1);
+      // If the message came from the RTI, there is no inbound socket.
+      if (fed_id >= 0) {
+        close_inbound_socket(fed_id, 1);
+      }
     } else {
       // Need to use intended_tag here, not actual_tag, so that STP violations are detected.
       // It will become actual_tag (that is when the reactions will be invoked).
-- 
2.43.0


From e24418a1d9272ed4a646d91cc4e41ccc1a4d0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:19 +0000
Subject: [PATCH 58/78] fix: reading the clock does not race with the clock
 synchronization thread

---
 core/federated/clock-sync.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/federated/clock-sync.c b/core/federated/clock-sync.c
index b18efb6..346ba9d 100644
--- a/core/federated/clock-sync.c
+++ b/core/federated/clock-sync.c
@@ -529,12 +529,17 @@ void* listen_to_rti_UDP_thread(void* args) {
 // If clock synchronization is enabled, provide implementations. If not
 // just empty implementations that should be optimized away.
 #if (LF_CLOCK_SYNC >= LF_CLOCK_SYNC_INIT)
+/**
+ * Atomically read the clock sync offset, which the clock synchronization thread may be adjusting.
+ */
+static interval_t read_lf_clock_sync_offset() { return lf_atomic_fetch_add64(&_lf_clock_sync_offset, 0); }
+
 void clock_sync_add_offset(instant_t* t) {
-  *t = lf_time_add(*t, (_lf_clock_sync_offset + _lf_clock_sync_constant_bias));
+  *t = lf_time_add(*t, (read_lf_clock_sync_offset() + _lf_clock_sync_constant_bias));
 }
 
 void clock_sync_subtract_offset(instant_t* t) {
-  *t = lf_time_add(*t, -(_lf_clock_sync_offset + _lf_clock_sync_constant_bias));
+  *t = lf_time_add(*t, -(read_lf_clock_sync_offset() + _lf_clock_sync_constant_bias));
 }
 
 void clock_sync_set_constant_bias(interval_t offset) { _lf_clock_sync_constant_bias = offset; }
-- 
2.43.0


From 462d7ac85856a92d247dadc2b28d7e015f423612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:17 +0000
Subject: [PATCH 59/78] fix: the RTI joins its clock synchronization thread
 before it frees the federates

---
 core/federated/RTI/rti_remote.c | 38 +++++++++++++++++++++++++++------
 core/federated/RTI/rti_remote.h |  3 +++
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 254a97f..0dd75f1 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -28,6 +28,7 @@
 
 #include "rti_remote.h"
 #include "net_util.h"
+#include "clock.h"
 #include <string.h>
 
 // Global variables defined in tag.c:
@@ -914,29 +915,44 @@ void handle_physical_clock_sync_message(federate_info_t* my_fed, socket_type_t s
   LF_MUTEX_UNLOCK(&rti_mutex);
 }
 
+/**
+ * Wait until the specified physical time or until all federates have exited.
+ * @return True if all federates have exited.
+ */
+static bool wait_unless_all_federates_exited(instant_t wakeup_time) {
+  LF_MUTEX_LOCK(&rti_mutex);
+  while (!rti_remote->all_federates_exited && lf_time_physical() < wakeup_time) {
+    lf_clock_cond_timedwait(&received_start_times, wakeup_time);
+  }
+  bool all_federates_exited = rti_remote->all_federates_exited;
+  LF_MUTEX_UNLOCK(&rti_mutex);
+  return all_federates_exited;
+}
+
 void* clock_synchronization_thread(void* noargs) {
   initialize_lf_thread_id();
   // Wait until all federates have been notified of the start time.
   // FIXME: Use lf_ version of this when merged with master.
   LF_MUTEX_LOCK(&rti_mutex);
-  while (rti_remote->num_feds_proposed_start < rti_remote->base.number_of_scheduling_nodes) {
+  while (rti_remote->num_feds_proposed_start < rti_remote->base.number_of_scheduling_nodes &&
+         !rti_remote->all_federates_exited) {
     lf_cond_wait(&received_start_times);
   }
   LF_MUTEX_UNLOCK(&rti_mutex);
 
   // Wait until the start time before starting clock synchronization.
   // The above wait ensures that start_time has been set.
-  interval_t ns_to_wait = start_time - lf_time_physical();
-
-  if (ns_to_wait > 0LL) {
-    lf_sleep(ns_to_wait);
+  if (wait_unless_all_federates_exited(start_time)) {
+    return NULL;
   }
 
   // Initiate a clock synchronization every rti->clock_sync_period_ns
   bool any_federates_connected = true;
   while (any_federates_connected) {
     // Sleep
-    lf_sleep(rti_remote->clock_sync_period_ns); // Can be interrupted
+    if (wait_unless_all_federates_exited(lf_time_add(lf_time_physical(), rti_remote->clock_sync_period_ns))) {
+      return NULL;
+    }
     any_federates_connected = false;
     for (int fed_id = 0; fed_id < rti_remote->base.number_of_scheduling_nodes; fed_id++) {
       federate_info_t* fed = GET_FED_INFO(fed_id);
@@ -1707,7 +1723,8 @@ void lf_connect_to_federates(int socket_descriptor) {
       }
     }
     if (rti_remote->final_port_UDP != UINT16_MAX && clock_sync_enabled) {
-      lf_thread_create(&rti_remote->clock_thread, clock_synchronization_thread, NULL);
+      rti_remote->clock_thread_created =
+          lf_thread_create(&rti_remote->clock_thread, clock_synchronization_thread, NULL) == 0;
     }
   }
 }
@@ -1802,6 +1819,8 @@ void wait_for_federates(int socket_descriptor) {
 
   LF_MUTEX_LOCK(&rti_mutex);
   rti_remote->all_federates_exited = true;
+  // Notify the clock synchronization thread, if there is one.
+  lf_cond_broadcast(&received_start_times);
   LF_MUTEX_UNLOCK(&rti_mutex);
 
   // Shutdown and close the socket that is listening for incoming connections
@@ -1821,6 +1840,10 @@ void wait_for_federates(int socket_descriptor) {
     if (shutdown(rti_remote->socket_descriptor_UDP, SHUT_RDWR)) {
       LF_PRINT_LOG("On shut down UDP socket, received reply: %s", strerror(errno));
     }
+    // The clock synchronization thread uses the socket and the data of the federates.
+    if (rti_remote->clock_thread_created) {
+      lf_thread_join(rti_remote->clock_thread, &thread_exit_status);
+    }
     close(rti_remote->socket_descriptor_UDP);
   }
 }
@@ -1840,6 +1863,7 @@ void initialize_RTI(rti_remote_t* rti) {
   rti_remote->max_start_time = 0LL;
   rti_remote->num_feds_proposed_start = 0;
   rti_remote->all_federates_exited = false;
+  rti_remote->clock_thread_created = false;
   rti_remote->federation_id = "Unidentified Federation";
   rti_remote->user_specified_port = 0;
   rti_remote->final_port_TCP = 0;
diff --git a/core/federated/RTI/rti_remote.h b/core/federated/RTI/rti_remote.h
index 8d3012b..4459bc8 100644
--- a/core/federated/RTI/rti_remote.h
+++ b/core/federated/RTI/rti_remote.h
@@ -134,6 +134,9 @@ typedef struct rti_remote_t {
   /* Thread performing PTP clock sync sessions periodically. */
   lf_thread_t clock_thread;
 
+  /* Whether that thread has been created. */
+  bool clock_thread_created;
+
   /**
    * Indicates whether clock sync is globally on for the federation. Federates
    * can still selectively disable clock synchronization if they wanted to.
-- 
2.43.0


From 877f3b57425cda5012232cdda4bca65915c93ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 60/78] fix: keep the intended tag of a message being scheduled
 out of the trigger

A network input reaction that executes for a previous message reads the trigger's intended tag
without the mutex and could see that of the message that is being scheduled.
---
 core/environment.c         |  1 +
 core/federated/federate.c  | 14 +++++++++-----
 core/reactor_common.c      |  2 +-
 include/core/environment.h |  1 +
 lib/schedule.c             |  2 +-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/environment.c b/core/environment.c
index c06a451..0252f9d 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -121,6 +121,7 @@ static void environment_init_federated(environment_t* env, int num_is_present_fi
   env->need_to_send_LTC = false;
   (void)num_is_present_fields;
 #elif defined(FEDERATED_DECENTRALIZED)
+  env->network_event_intended_tag = NEVER_TAG;
   if (num_is_present_fields > 0) {
     env->_lf_intended_tag_fields = (tag_t**)calloc(num_is_present_fields, sizeof(tag_t*));
     LF_ASSERT_NON_NULL(env->_lf_intended_tag_fields);
diff --git a/core/federated/federate.c b/core/federated/federate.c
index 816220b..3b2a8d8 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -361,9 +361,11 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
   // in the future relative to the tag of this
   // federate. By default, assume it is not.
   bool message_tag_is_in_the_future = lf_tag_compare(tag, env->current_tag) > 0;
-  // Assign the intended tag temporarily to restore later.
-  tag_t previous_intended_tag = trigger->intended_tag;
-  trigger->intended_tag = tag;
+#ifdef FEDERATED_DECENTRALIZED
+  // Have the scheduled event record the intended tag. Do not use the trigger's own intended tag for this
+  // because a network input reaction that is executing for a previous message may be reading it.
+  env->network_event_intended_tag = tag;
+#endif
 
   // Calculate the extra_delay required to be passed
   // to the schedule function.
@@ -383,7 +385,7 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
     // Set the delay back to 0
     extra_delay = 0LL;
     LF_PRINT_LOG("Calling schedule with 0 delay and intended tag " PRINTF_TAG ".",
-                 trigger->intended_tag.time - start_time, trigger->intended_tag.microstep);
+                 tag.time - start_time, tag.microstep);
     return_value = lf_schedule_trigger(env, trigger, extra_delay, token);
 #endif
   } else {
@@ -394,7 +396,9 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
                  extra_delay, tag.microstep - env->current_tag.microstep);
     return_value = _lf_schedule_at_tag(env, trigger, tag, token);
   }
-  trigger->intended_tag = previous_intended_tag;
+#ifdef FEDERATED_DECENTRALIZED
+  env->network_event_intended_tag = NEVER_TAG;
+#endif
   // Notify the main thread in case it is waiting for physical time to elapse.
   LF_PRINT_DEBUG("Broadcasting notification that event queue changed.");
   lf_cond_broadcast(&env->event_q_changed);
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 772d049..6b5ca70 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -518,7 +518,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
 
 #ifdef FEDERATED_DECENTRALIZED
   // Set the intended tag
-  e->intended_tag = trigger->intended_tag;
+  e->intended_tag = env->network_event_intended_tag;
 #endif
 
   event_t* found = (event_t*)pqueue_tag_find_equal_same_tag(env->event_q, (pqueue_tag_element_t*)e);
diff --git a/include/core/environment.h b/include/core/environment.h
index 9f3960a..815850a 100644
--- a/include/core/environment.h
+++ b/include/core/environment.h
@@ -87,6 +87,7 @@ typedef struct environment_t {
 #if defined(FEDERATED)
   tag_t** _lf_intended_tag_fields;
   int _lf_intended_tag_fields_size;
+  tag_t network_event_intended_tag; // Intended tag of the network message being scheduled or NEVER_TAG.
   bool need_to_send_LTC;
 #endif             // FEDERATED
 #ifdef LF_ENCLAVES // TODO: Consider dropping #ifdef
diff --git a/lib/schedule.c b/lib/schedule.c
index b552311..5811553 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -216,7 +216,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
 #ifdef FEDERATED_DECENTRALIZED
   // Event inherits the original intended_tag of the trigger
   // set by the network stack (or the default, which is (NEVER,0))
-  e->intended_tag = trigger->intended_tag;
+  e->intended_tag = env->network_event_intended_tag;
 #endif
 
   // Check for conflicts (a queued event with the same trigger and tag).
-- 
2.43.0


From d54a715cc9a8120cff5864c049782a4aa5169a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 61/78] fix: stop the thread that assumes absent inputs before
 freeing what it uses

---
 core/federated/federate.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 3b2a8d8..514aefb 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1132,6 +1132,13 @@ static bool inputs_known_to(tag_t tag) {
 }
 #endif // FEDERATED_DECENTRALIZED
 
+#ifdef FEDERATED_DECENTRALIZED
+/** True when the thread that assumes absent inputs (update_ports_from_staa_offsets) has been created. */
+static bool staa_thread_started = false;
+
+/** Set with the mutex of the top-level environment held to have that thread return. */
+static bool staa_thread_stop = false;
+
 /**
  * @brief Thread handling setting the known absent status of input ports.
  *
@@ -1140,7 +1147,6 @@ static bool inputs_known_to(tag_t tag) {
  * then set the absent status of the input ports associated with the STAA.
  * Then wait for current time to advance and start over.
  */
-#ifdef FEDERATED_DECENTRALIZED
 static void* update_ports_from_staa_offsets(void* args) {
   (void)args;
   initialize_lf_thread_id();
@@ -1151,7 +1157,7 @@ static void* update_ports_from_staa_offsets(void* args) {
   environment_t* env;
   _lf_get_environments(&env);
   LF_MUTEX_LOCK(&env->mutex);
-  while (1) {
+  while (!staa_thread_stop) {
     LF_PRINT_DEBUG("**** (update thread) starting");
     tag_t tag_when_started_waiting = lf_tag(env);
     for (size_t i = 0; i < staa_lst_size; ++i) {
@@ -1177,7 +1183,7 @@ static void* update_ports_from_staa_offsets(void* args) {
       if (wait_time < 5 * MIN_SLEEP_DURATION) {
         wait_until_time += 5 * MIN_SLEEP_DURATION;
       }
-      while (a_port_is_unknown(staa_elem)) {
+      while (!staa_thread_stop && a_port_is_unknown(staa_elem)) {
         LF_PRINT_DEBUG("**** (update thread) waiting until: " PRINTF_TIME, wait_until_time - lf_time_start());
         if (wait_until(wait_until_time, &lf_port_status_changed)) {
           // Specified timeout time was reached.
@@ -1213,8 +1219,8 @@ static void* update_ports_from_staa_offsets(void* args) {
       if (lf_tag_compare(lf_tag(env), tag_when_started_waiting) != 0)
         break;
     }
-    // If the tag has advanced, start over.
-    if (lf_tag_compare(lf_tag(env), tag_when_started_waiting) != 0)
+    // If the tag has advanced, start over. Do so also to return if the federate terminates.
+    if (staa_thread_stop || lf_tag_compare(lf_tag(env), tag_when_started_waiting) != 0)
       continue;
 
     // At this point, the current tag is the same as when we started waiting
@@ -1250,7 +1256,7 @@ static void* update_ports_from_staa_offsets(void* args) {
     }
 
     // Wait until we progress to a new tag.
-    while (lf_tag_compare(lf_tag(env), tag_when_started_waiting) == 0) {
+    while (!staa_thread_stop && lf_tag_compare(lf_tag(env), tag_when_started_waiting) == 0) {
       // The following will release the env->mutex while waiting.
       LF_PRINT_DEBUG("**** (update thread) Waiting for tags to not match: " PRINTF_TAG ", " PRINTF_TAG,
                      lf_tag(env).time - lf_time_start(), lf_tag(env).microstep,
@@ -1263,6 +1269,7 @@ static void* update_ports_from_staa_offsets(void* args) {
                    tag_when_started_waiting.time - lf_time_start(), tag_when_started_waiting.microstep);
   }
   LF_MUTEX_UNLOCK(&env->mutex);
+  return NULL;
 }
 #endif // FEDERATED_DECENTRALIZED
 
@@ -1737,6 +1744,16 @@ void lf_terminate_execution(environment_t* env) {
 
   // For abnormal termination, there is no need to free memory.
   if (_lf_normal_termination) {
+#ifdef FEDERATED_DECENTRALIZED
+    if (staa_thread_started) {
+      LF_PRINT_DEBUG("Waiting for the thread that assumes absent inputs, which uses memory that will be freed.");
+      LF_MUTEX_LOCK(&env->mutex);
+      staa_thread_stop = true;
+      lf_cond_broadcast(&lf_port_status_changed);
+      LF_MUTEX_UNLOCK(&env->mutex);
+      lf_thread_join(_fed.staaSetter, NULL);
+    }
+#endif
     LF_PRINT_DEBUG("Freeing memory occupied by the federate.");
     free(_fed.inbound_socket_listeners);
     free(federation_metadata.rti_host);
@@ -2694,7 +2711,9 @@ int lf_send_tagged_message(environment_t* env, interval_t additional_delay, int
 void lf_set_federation_id(const char* fid) { federation_metadata.federation_id = fid; }
 
 #ifdef FEDERATED_DECENTRALIZED
-void lf_spawn_staa_thread() { lf_thread_create(&_fed.staaSetter, update_ports_from_staa_offsets, NULL); }
+void lf_spawn_staa_thread() {
+  staa_thread_started = lf_thread_create(&_fed.staaSetter, update_ports_from_staa_offsets, NULL) == 0;
+}
 #endif // FEDERATED_DECENTRALIZED
 
 void lf_stall_advance_level_federation_locked(size_t level) {
-- 
2.43.0


From b57fbb10a5f709c1edbb5b27599fd05428fc5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 62/78] fix: have the listener threads close the sockets that
 they read from

A federate that terminated closed them while the listeners could still read from them or close them again.
Also set the status of an input port before inserting the reaction that reads it.
---
 core/federated/federate.c | 64 ++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 17 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 514aefb..67c0769 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -405,6 +405,28 @@ static trigger_handle_t schedule_message_received_from_network_locked(environmen
   return return_value;
 }
 
+/**
+ * Like read_from_socket_close_on_error, but hold the socket mutex while closing the socket because
+ * lf_terminate_execution, executing in another thread, may be about to shut the same socket down.
+ * This is called only by the thread that listens on the socket, so that thread can read the socket ID without the mutex.
+ *
+ * @param socket Pointer to the socket ID.
+ * @param num_bytes The number of bytes to read.
+ * @param buffer The buffer into which to put the bytes.
+ * @return 0 for success, -1 for failure.
+ */
+static int read_from_listened_socket(int* socket, size_t num_bytes, unsigned char* buffer) {
+  if (read_from_socket(*socket, num_bytes, buffer)) {
+    LF_MUTEX_LOCK(&socket_mutex);
+    shutdown(*socket, SHUT_RDWR);
+    close(*socket);
+    *socket = -1;
+    LF_MUTEX_UNLOCK(&socket_mutex);
+    return -1;
+  }
+  return 0;
+}
+
 /**
  * Close the socket that receives incoming messages from the
  * specified federate ID. This function should be called when a read
@@ -489,7 +511,7 @@ static int handle_message(int* socket, int fed_id) {
   // Read the header.
   size_t bytes_to_read = sizeof(uint16_t) + sizeof(uint16_t) + sizeof(uint32_t);
   unsigned char buffer[bytes_to_read];
-  if (read_from_socket_close_on_error(socket, bytes_to_read, buffer)) {
+  if (read_from_listened_socket(socket, bytes_to_read, buffer)) {
     // Read failed, which means the socket has been closed between reading the
     // message ID byte and here.
     return -1;
@@ -510,7 +532,7 @@ static int handle_message(int* socket, int fed_id) {
   // Read the payload.
   // Allocate memory for the message contents.
   unsigned char* message_contents = (unsigned char*)malloc(length);
-  if (read_from_socket_close_on_error(socket, length, message_contents)) {
+  if (read_from_listened_socket(socket, length, message_contents)) {
     return -1;
   }
   // Trace the event when tracing is enabled
@@ -547,7 +569,7 @@ static int handle_tagged_message(int* socket, int fed_id) {
   size_t bytes_to_read =
       sizeof(uint16_t) + sizeof(uint16_t) + sizeof(uint32_t) + sizeof(instant_t) + sizeof(microstep_t);
   unsigned char buffer[bytes_to_read];
-  if (read_from_socket_close_on_error(socket, bytes_to_read, buffer)) {
+  if (read_from_listened_socket(socket, bytes_to_read, buffer)) {
     return -1; // Read failed.
   }
 
@@ -596,7 +618,7 @@ static int handle_tagged_message(int* socket, int fed_id) {
   // Read the payload.
   // Allocate memory for the message contents.
   unsigned char* message_contents = (unsigned char*)malloc(length);
-  if (read_from_socket_close_on_error(socket, length, message_contents)) {
+  if (read_from_listened_socket(socket, length, message_contents)) {
 #ifdef FEDERATED_DECENTRALIZED
     _lf_decrement_tag_barrier_locked(env);
 #endif
@@ -628,14 +650,15 @@ static int handle_tagged_message(int* socket, int fed_id) {
     // of the trigger.
     action->trigger->intended_tag = intended_tag;
 
-    // This will mark the STP violation in the reaction if the message is tardy.
-    _lf_insert_reactions_for_trigger(env, action->trigger, message_token);
-
     // Set the status of the port as present here to inform the network input
-    // port absent reactions know that they no longer need to block. The reason for
-    // that is because the network receiver reaction is now in the reaction queue
-    // keeping the precedence order intact.
+    // port absent reactions know that they no longer need to block. This precedes
+    // the insertion of the network receiver reaction into the reaction queue, which
+    // keeps the precedence order intact, because that reaction may then execute
+    // and read the status immediately.
     set_network_port_status(port_id, present);
+
+    // This will mark the STP violation in the reaction if the message is tardy.
+    _lf_insert_reactions_for_trigger(env, action->trigger, message_token);
   } else {
     // If no port absent reaction is waiting for this message, or if the intended
     // tag is in the future, or the message is tardy, use schedule functions to process the message.
@@ -709,7 +732,7 @@ static int handle_tagged_message(int* socket, int fed_id) {
 static int handle_port_absent_message(int* socket, int fed_id) {
   size_t bytes_to_read = sizeof(uint16_t) + sizeof(uint16_t) + sizeof(instant_t) + sizeof(microstep_t);
   unsigned char buffer[bytes_to_read];
-  if (read_from_socket_close_on_error(socket, bytes_to_read, buffer)) {
+  if (read_from_listened_socket(socket, bytes_to_read, buffer)) {
     return -1;
   }
 
@@ -776,7 +799,7 @@ static void* listen_to_federates(void* _args) {
     // Read one byte to get the message type.
     LF_PRINT_DEBUG("Waiting for a P2P message on socket %d.", *socket_id);
     bool bad_message = false;
-    if (read_from_socket_close_on_error(socket_id, 1, buffer)) {
+    if (read_from_listened_socket(socket_id, 1, buffer)) {
       // Socket has been closed.
       lf_print("Socket from federate %d is closed.", fed_id);
       // Stop listening to this federate.
@@ -1706,12 +1729,15 @@ void lf_terminate_execution(environment_t* env) {
     }
   }
 
-  LF_PRINT_DEBUG("Closing incoming P2P sockets.");
-  // Close any incoming P2P sockets that are still open.
+  LF_PRINT_DEBUG("Shutting down incoming P2P sockets.");
+  // Shut down any incoming P2P sockets that are still open. Leave it to the listener threads, which
+  // may be reading from them, to close them.
   for (int i = 0; i < NUMBER_OF_FEDERATES; i++) {
-    close_inbound_socket(i, 1);
-    // Ignore errors. Mark the socket closed.
-    _fed.sockets_for_inbound_p2p_connections[i] = -1;
+    LF_MUTEX_LOCK(&socket_mutex);
+    if (_fed.sockets_for_inbound_p2p_connections[i] >= 0) {
+      shutdown(_fed.sockets_for_inbound_p2p_connections[i], SHUT_RDWR);
+    }
+    LF_MUTEX_UNLOCK(&socket_mutex);
   }
 
   // Check for all outgoing physical connections in
@@ -1737,6 +1763,10 @@ void lf_terminate_execution(environment_t* env) {
       lf_thread_join(_fed.inbound_socket_listeners[i], NULL);
     }
   }
+  // Close any incoming P2P sockets that the listeners left open.
+  for (int i = 0; i < NUMBER_OF_FEDERATES; i++) {
+    close_inbound_socket(i, 1);
+  }
 
   LF_PRINT_DEBUG("Waiting for RTI's socket listener threads.");
   // Wait for the thread listening for messages from the RTI to close.
-- 
2.43.0


From ce4825e123d0d2abc32fc6f1222c5df7e1114a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 63/78] fix: do not clear or race on the STP violation
 inherited by a downstream reaction

---
 core/reactor_common.c            | 13 ++++++++++---
 core/threaded/reactor_threaded.c |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 6b5ca70..90c8947 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -757,9 +757,16 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
           for (int k = 0; k < trigger->number_of_reactions; k++) {
             reaction_t* downstream_reaction = trigger->reactions[k];
 #ifdef FEDERATED_DECENTRALIZED // Only pass down tardiness for federated LF programs
-            // Set the is_STP_violated for the downstream reaction
-            if (downstream_reaction != NULL) {
-              downstream_reaction->is_STP_violated = inherited_STP_violation;
+            // Set the is_STP_violated for the downstream reaction. Do not clear it if this reaction is on time
+            // because another late reaction may trigger the same downstream reaction, possibly concurrently.
+            if (inherited_STP_violation && downstream_reaction != NULL
+#ifdef MODAL_REACTORS
+                && _lf_mode_is_active(downstream_reaction->mode)
+#endif
+            ) {
+              LF_MUTEX_LOCK(&env->mutex);
+              downstream_reaction->is_STP_violated = true;
+              LF_MUTEX_UNLOCK(&env->mutex);
               LF_PRINT_DEBUG("Passing is_STP_violated of %d to the downstream reaction: %s",
                              downstream_reaction->is_STP_violated, downstream_reaction->name);
             }
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 56896a4..62ed6c1 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -801,6 +801,10 @@ bool _lf_worker_handle_violations(environment_t* env, int worker_number, reactio
 
   violation = _lf_worker_handle_deadline_violation_for_reaction(env, worker_number, reaction) ||
               _lf_worker_handle_STP_violation_for_reaction(env, worker_number, reaction);
+  if (violation) {
+    // The reaction is not invoked, so the STP violation, if any, has to be reset here.
+    reaction->is_STP_violated = false;
+  }
   return violation;
 }
 
-- 
2.43.0


From aae5e602e326895180a63788c7aec56b901069eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:39 +0000
Subject: [PATCH 64/78] fix: host_is_big_endian does not need an unsynchronised
 cache

---
 core/federated/network/net_util.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/core/federated/network/net_util.c b/core/federated/network/net_util.c
index 74457a1..a03d919 100644
--- a/core/federated/network/net_util.c
+++ b/core/federated/network/net_util.c
@@ -261,17 +261,13 @@ void encode_uint16(uint16_t data, unsigned char* buffer) {
 }
 
 int host_is_big_endian() {
-  static int host = 0;
   union {
     uint32_t uint;
     unsigned char c[sizeof(uint32_t)];
   } x;
-  if (host == 0) {
-    // Determine the endianness of the host by setting the low-order bit.
-    x.uint = 0x01;
-    host = (x.c[3] == 0x01) ? HOST_BIG_ENDIAN : HOST_LITTLE_ENDIAN;
-  }
-  return (host == HOST_BIG_ENDIAN);
+  // Determine the endianness of the host by setting the low-order bit.
+  x.uint = 0x01;
+  return x.c[3] == 0x01;
 }
 
 int32_t swap_bytes_if_big_endian_int32(int32_t src) {
-- 
2.43.0


From 82a7a1ffc86848c0c5e427dfa608c6452defd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:37 +0000
Subject: [PATCH 65/78] fix: RTI: a federate that has completed a tag has no
 further event at that tag

A federate that was granted a later tag provisionally does not report its
next event, and the RTI kept assuming that it could still send messages
from its last reported event, so that other federates of a zero-delay
cycle were never granted their tags and the federation stalled.
---
 core/federated/RTI/rti_common.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index c4bc076..cd2fca1 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -81,6 +81,22 @@ void _logical_tag_complete(scheduling_node_t* enclave, tag_t completed) {
   LF_MUTEX_UNLOCK(rti_common->mutex);
 }
 
+// Local function returning a lower bound on the tag of the next event of the given node that is upstream of another.
+// This is its most recently reported next event, except that a node that has completed a tag has no further events
+// at or before that tag. Such a node may not report its next event if it has already been granted (provisionally)
+// a later tag.
+static tag_t earliest_next_event(scheduling_node_t* upstream) {
+  // If we haven't heard from the upstream node, then assume it can send an event at the start time.
+  if (lf_tag_compare(upstream->next_event, NEVER_TAG) == 0) {
+    tag_t start_tag = {.time = start_time, .microstep = 0};
+    upstream->next_event = start_tag;
+  }
+  if (lf_tag_compare(upstream->next_event, upstream->completed) <= 0) {
+    return lf_delay_tag(upstream->completed, 0);
+  }
+  return upstream->next_event;
+}
+
 tag_t earliest_future_incoming_message_tag(scheduling_node_t* e) {
   // First, we need to find the shortest path (minimum delay) path to each upstream node
   // and then find the minimum of the node's recorded NET plus the minimum path delay.
@@ -94,17 +110,12 @@ tag_t earliest_future_incoming_message_tag(scheduling_node_t* e) {
   for (int i = 0; i < e->num_min_delays; i++) {
     // Node e->min_delays[i].id is upstream of e with min delay e->min_delays[i].min_delay.
     scheduling_node_t* upstream = rti_common->scheduling_nodes[e->min_delays[i].id];
-    // If we haven't heard from the upstream node, then assume it can send an event at the start time.
-    if (lf_tag_compare(upstream->next_event, NEVER_TAG) == 0) {
-      tag_t start_tag = {.time = start_time, .microstep = 0};
-      upstream->next_event = start_tag;
-    }
     // The min_delay here is a tag_t, not an interval_t because it may account for more than
     // one connection. No delay at all is represented by (0,0). A delay of 0 is represented
     // by (0,1). If the time part of the delay is greater than 0, then we want to ignore
     // the microstep in upstream->next_event because that microstep will have been lost.
     // Otherwise, we want preserve it and add to it. This is handled by lf_tag_add().
-    tag_t earliest_tag_from_upstream = lf_tag_add(upstream->next_event, e->min_delays[i].min_delay);
+    tag_t earliest_tag_from_upstream = lf_tag_add(earliest_next_event(upstream), e->min_delays[i].min_delay);
 
     /* Following debug message is too verbose for normal use:
     LF_PRINT_DEBUG("RTI: Earliest next event upstream of fed/encl %d at fed/encl %d has tag " PRINTF_TAG ".",
@@ -130,17 +141,13 @@ tag_t eimt_strict(scheduling_node_t* e) {
     // Skip this node if it is part of a zero-delay cycle.
     if (is_in_zero_delay_cycle(upstream))
       continue;
-    // If we haven't heard from the upstream node, then assume it can send an event at the start time.
-    if (lf_tag_compare(upstream->next_event, NEVER_TAG) == 0) {
-      tag_t start_tag = {.time = start_time, .microstep = 0};
-      upstream->next_event = start_tag;
-    }
+    tag_t next_event = earliest_next_event(upstream);
     // Need to consider nodes that are upstream of the upstream node because those
     // nodes may send messages to the upstream node.
     tag_t earliest = earliest_future_incoming_message_tag(upstream);
     // If the next event of the upstream node is earlier, then use that.
-    if (lf_tag_compare(upstream->next_event, earliest) < 0) {
-      earliest = upstream->next_event;
+    if (lf_tag_compare(next_event, earliest) < 0) {
+      earliest = next_event;
     }
     tag_t earliest_tag_from_upstream = lf_delay_tag(earliest, e->upstream_delay[i]);
     LF_PRINT_DEBUG("RTI: Strict EIMT of fed/encl %d at fed/encl %d has tag " PRINTF_TAG ".", e->id, upstream->id,
-- 
2.43.0


From 30c682fc9afa5aa4b89bd581cd05f03cd822d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 66/78] fix: RTI must not grant a PTAG at which a message over
 a delayed connection can still arrive

eimt_strict() skipped every upstream node in a zero-delay cycle, also if the connection from it has a delay. A federate
that advances to a provisionally granted tag waits only for ports that are fed without a delay, so it could complete
the tag before such a message arrived.
---
 core/federated/RTI/rti_common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index cd2fca1..8df5cd8 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -138,8 +138,10 @@ tag_t eimt_strict(scheduling_node_t* e) {
   tag_t t_d = FOREVER_TAG;
   for (int i = 0; i < e->num_upstream; i++) {
     scheduling_node_t* upstream = rti_common->scheduling_nodes[e->upstream[i]];
-    // Skip this node if it is part of a zero-delay cycle.
-    if (is_in_zero_delay_cycle(upstream))
+    // Skip this node if it is part of a zero-delay cycle, unless the connection has a delay
+    // ("no delay" is encoded as NEVER): a federate that advances to a provisionally granted tag
+    // waits only for the status of ports that are fed without a delay.
+    if (is_in_zero_delay_cycle(upstream) && e->upstream_delay[i] == NEVER)
       continue;
     tag_t next_event = earliest_next_event(upstream);
     // Need to consider nodes that are upstream of the upstream node because those
-- 
2.43.0


From 116230ab43a4349b9551a78be19aa0e835e094f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:55 +0000
Subject: [PATCH 67/78] fix: RTI makes federates it stimulates with a TAG visit
 that tag

When a federate is granted a PTAG, the RTI grants the tag to its upstream federates so that they report absent outputs.
To those that cannot receive anything at that tag it sent a TAG, at which a federate that has no event before a later
tag does nothing; in a federation with two connected zero-delay cycles the federate with the PTAG then waited forever.
A PTAG followed by the TAG makes it visit the tag without waiting.
---
 core/federated/RTI/rti_common.c |  2 +-
 core/federated/RTI/rti_common.h | 15 ++++++++++++++
 core/federated/RTI/rti_local.c  |  2 ++
 core/federated/RTI/rti_remote.c | 35 ++++++++++++++++++++++++---------
 4 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/core/federated/RTI/rti_common.c b/core/federated/RTI/rti_common.c
index 8df5cd8..021f5d9 100644
--- a/core/federated/RTI/rti_common.c
+++ b/core/federated/RTI/rti_common.c
@@ -303,7 +303,7 @@ void notify_advance_grant_if_safe(scheduling_node_t* e) {
     }
     tag_t earliest = earliest_future_incoming_message_tag(e);
     if (lf_tag_compare(earliest, pending) > 0) {
-      notify_tag_advance_grant(e, pending);
+      notify_tag_advance_grant_and_visit(e, pending);
     } else if (lf_tag_compare(earliest, pending) == 0 && lf_tag_compare(eimt_strict(e), pending) > 0) {
       notify_provisional_tag_advance_grant(e, pending);
     }
diff --git a/core/federated/RTI/rti_common.h b/core/federated/RTI/rti_common.h
index 615ca8a..555c255 100644
--- a/core/federated/RTI/rti_common.h
+++ b/core/federated/RTI/rti_common.h
@@ -178,6 +178,21 @@ void notify_advance_grant_if_safe(scheduling_node_t* e);
  */
 void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag);
 
+/**
+ * Notify a tag advance grant (TAG) message to the specified scheduling node and make sure that the
+ * node advances to the granted tag even if it has no event at that tag.
+ *
+ * This is used to stimulate a node in a zero-delay cycle to report which of its outputs are absent
+ * at the tag. Because a node that is granted a TAG earlier than its next event does nothing at that
+ * tag, a provisional grant (PTAG), at which a node does so, is sent before the TAG if needed.
+ *
+ * This function assumes that the caller holds the RTI mutex.
+ *
+ * @param e The scheduling node.
+ * @param tag The tag to grant.
+ */
+void notify_tag_advance_grant_and_visit(scheduling_node_t* e, tag_t tag);
+
 /**
  * @brief Determine whether the specified scheduling node is eligible for a tag advance grant,
  * (TAG) and, if so, return the details.
diff --git a/core/federated/RTI/rti_local.c b/core/federated/RTI/rti_local.c
index 9e70137..39c2f7c 100644
--- a/core/federated/RTI/rti_local.c
+++ b/core/federated/RTI/rti_local.c
@@ -191,6 +191,8 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   LF_PRINT_LOG("RTI: enclave %u callback with PTAG " PRINTF_TAG " ", e->id, tag.time - lf_time_start(), tag.microstep);
 }
 
+void notify_tag_advance_grant_and_visit(scheduling_node_t* e, tag_t tag) { notify_tag_advance_grant(e, tag); }
+
 void free_scheduling_nodes(scheduling_node_t** scheduling_nodes, uint16_t number_of_scheduling_nodes) {
   // Nothing to do here.
 }
diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 0dd75f1..a59b4d6 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -236,7 +236,12 @@ void notify_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   }
 }
 
-void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
+/**
+ * Send a provisional tag advance grant (PTAG) to the specified node unless a PTAG or TAG
+ * that is greater or equal has been sent previously. Return true if the PTAG has been sent.
+ * This function assumes that the caller holds the RTI mutex.
+ */
+static bool send_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   // Need to make sure that the destination federate's thread has already
   // sent the starting MSG_TYPE_TIMESTAMP message.
   while (e->state == PENDING) {
@@ -246,7 +251,7 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   // Check only now because the wait above releases the mutex.
   if (e->state == NOT_CONNECTED || lf_tag_compare(tag, e->last_granted) <= 0 ||
       lf_tag_compare(tag, e->last_provisionally_granted) <= 0) {
-    return;
+    return false;
   }
   size_t message_length = 1 + sizeof(int64_t) + sizeof(uint32_t);
   unsigned char buffer[message_length];
@@ -263,11 +268,24 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
   if (write_to_socket(((federate_info_t*)e)->socket, message_length, buffer)) {
     lf_print_error("RTI failed to send tag advance grant to federate %d.", e->id);
     e->state = NOT_CONNECTED;
-  } else {
-    e->last_provisionally_granted = tag;
-    LF_PRINT_LOG("RTI sent to federate %d the Provisional Tag Advance Grant (PTAG) " PRINTF_TAG ".", e->id,
-                 tag.time - start_time, tag.microstep);
+    return false;
+  }
+  e->last_provisionally_granted = tag;
+  LF_PRINT_LOG("RTI sent to federate %d the Provisional Tag Advance Grant (PTAG) " PRINTF_TAG ".", e->id,
+               tag.time - start_time, tag.microstep);
+  return true;
+}
 
+void notify_tag_advance_grant_and_visit(scheduling_node_t* e, tag_t tag) {
+  if (is_in_zero_delay_cycle(e) && lf_tag_compare(tag, e->next_event) != 0 &&
+      lf_tag_compare(tag, e->last_granted) > 0) {
+    send_provisional_tag_advance_grant(e, tag);
+  }
+  notify_tag_advance_grant(e, tag);
+}
+
+void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
+  if (send_provisional_tag_advance_grant(e, tag)) {
     // Send PTAG to all upstream federates, if they have not had
     // a later or equal PTAG or TAG sent previously and if their transitive
     // NET is greater than or equal to the tag.
@@ -290,7 +308,7 @@ void notify_provisional_tag_advance_grant(scheduling_node_t* e, tag_t tag) {
       // If these tags are equal, then a TAG or PTAG should have already been granted,
       // in which case, another will not be sent. But it may not have been already granted.
       if (lf_tag_compare(earliest, tag) > 0) {
-        notify_tag_advance_grant(upstream, tag);
+        notify_tag_advance_grant_and_visit(upstream, tag);
       } else if (lf_tag_compare(earliest, tag) == 0 && lf_tag_compare(strict_earliest, tag) > 0) {
         notify_provisional_tag_advance_grant(upstream, tag);
       }
@@ -982,8 +1000,7 @@ void* clock_synchronization_thread(void* noargs) {
         remaining_attempts--;
         // Do not use read_from_socket() here because that would wait forever for a lost message.
         // A message is a datagram, so it is received as a whole or not at all.
-        bool read_failed =
-            recv(rti_remote->socket_descriptor_UDP, buffer, message_size, 0) < (ssize_t)message_size;
+        bool read_failed = recv(rti_remote->socket_descriptor_UDP, buffer, message_size, 0) < (ssize_t)message_size;
         // If any errors occur, either discard the message or the clock sync round.
         if (!read_failed) {
           if (buffer[0] == MSG_TYPE_CLOCK_SYNC_T3) {
-- 
2.43.0


From 17dfdb774c091ad1a69d3407ed545c7de56dce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:57 +0000
Subject: [PATCH 68/78] fix: decentralised federate decremented the tag barrier
 without the mutex and leaked the payload after a truncated message

---
 core/federated/federate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 67c0769..315b219 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -533,6 +533,7 @@ static int handle_message(int* socket, int fed_id) {
   // Allocate memory for the message contents.
   unsigned char* message_contents = (unsigned char*)malloc(length);
   if (read_from_listened_socket(socket, length, message_contents)) {
+    free(message_contents);
     return -1;
   }
   // Trace the event when tracing is enabled
@@ -619,8 +620,11 @@ static int handle_tagged_message(int* socket, int fed_id) {
   // Allocate memory for the message contents.
   unsigned char* message_contents = (unsigned char*)malloc(length);
   if (read_from_listened_socket(socket, length, message_contents)) {
+    free(message_contents);
 #ifdef FEDERATED_DECENTRALIZED
+    LF_MUTEX_LOCK(&env->mutex);
     _lf_decrement_tag_barrier_locked(env);
+    LF_MUTEX_UNLOCK(&env->mutex);
 #endif
     return -1; // Read failed.
   }
-- 
2.43.0


From 8625db2bdcec7a6f83b603913ee1c4a83e5441a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:57 +0000
Subject: [PATCH 69/78] fix: federates rejected valid RTI port numbers above
 32767

---
 core/federated/federate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 315b219..3f4dedb 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -1963,7 +1963,7 @@ void lf_connect_to_rti(const char* hostname, int port) {
 
   // Adjust the port.
   uint16_t uport = 0;
-  if (port < 0 || port > INT16_MAX) {
+  if (port < 0 || port > UINT16_MAX) {
     lf_print_error("lf_connect_to_rti(): Specified port (%d) is out of range,"
                    " using the default port %d instead.",
                    port, DEFAULT_PORT);
-- 
2.43.0


From 611be3a995c61cfc3c002a7b7e44510df1611e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:57 +0000
Subject: [PATCH 70/78] fix: federate server accepted peers of federations
 whose ID merely begins with its own and read beyond shorter IDs

---
 core/federated/federate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 3f4dedb..759fec6 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2255,10 +2255,10 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
 
     // Get the federation ID and check it.
     unsigned char federation_id_length = buffer[header_length - 1];
-    char remote_federation_id[federation_id_length];
+    char remote_federation_id[UINT8_MAX];
     read_failed = read_from_socket(socket_id, federation_id_length, (unsigned char*)remote_federation_id);
-    if (read_failed || (strncmp(federation_metadata.federation_id, remote_federation_id,
-                                strnlen(federation_metadata.federation_id, 255)) != 0)) {
+    if (read_failed || federation_id_length != strnlen(federation_metadata.federation_id, 255) ||
+        strncmp(federation_metadata.federation_id, remote_federation_id, federation_id_length) != 0) {
       lf_print_warning("Received invalid federation ID. Closing socket.");
       if (read_failed == 0) {
         unsigned char response[2];
-- 
2.43.0


From e48cd2275d09a62cdc246a50b7ec6e34c9d654ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:57 +0000
Subject: [PATCH 71/78] fix: federate server indexed its sockets with an
 unchecked federate ID

---
 core/federated/federate.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/federated/federate.c b/core/federated/federate.c
index 759fec6..c73618a 100644
--- a/core/federated/federate.c
+++ b/core/federated/federate.c
@@ -2275,6 +2275,17 @@ void* lf_handle_p2p_connections_from_federates(void* env_arg) {
 
     // Extract the ID of the sending federate.
     uint16_t remote_fed_id = extract_uint16((unsigned char*)&(buffer[1]));
+    if (remote_fed_id >= NUMBER_OF_FEDERATES) {
+      lf_print_warning("Received invalid federate ID %d. Closing socket.", remote_fed_id);
+      unsigned char response[2];
+      response[0] = MSG_TYPE_REJECT;
+      response[1] = FEDERATE_ID_OUT_OF_RANGE;
+      tracepoint_federate_to_federate(send_REJECT, _lf_my_fed_id, remote_fed_id, NULL);
+      // Ignore errors on this response.
+      write_to_socket(socket_id, 2, response);
+      close(socket_id);
+      continue;
+    }
     LF_PRINT_DEBUG("Received sending federate ID %d.", remote_fed_id);
 
     // Trace the event when tracing is enabled
-- 
2.43.0


From 8c84e0ef4aac3f44eb1680f88d67884276d05703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:21 +0000
Subject: [PATCH 72/78] fix: programs with scheduling enclaves compile again

rti_local.c used a field that environment_t no longer has, and reactor_common.c called
free_local_rti() without a declaration.
---
 core/federated/RTI/rti_local.c | 4 +++-
 core/reactor_common.c          | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_local.c b/core/federated/RTI/rti_local.c
index 39c2f7c..65718a8 100644
--- a/core/federated/RTI/rti_local.c
+++ b/core/federated/RTI/rti_local.c
@@ -43,7 +43,9 @@ void initialize_local_rti(environment_t* envs, int num_envs) {
   LF_MUTEX_INIT(&rti_mutex);
   rti_local->base.mutex = &rti_mutex;
   rti_local->base.number_of_scheduling_nodes = num_envs;
-  rti_local->base.tracing_enabled = (envs[0].trace != NULL);
+#ifdef LF_TRACE
+  rti_local->base.tracing_enabled = true;
+#endif
 
   // Allocate memory for the enclave_info objects
   rti_local->base.scheduling_nodes = (scheduling_node_t**)calloc(num_envs, sizeof(scheduling_node_t*));
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 90c8947..f33f962 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -39,6 +39,10 @@
 #include "watchdog.h"
 #endif
 
+#if defined(LF_ENCLAVES)
+#include "rti_local.h"
+#endif
+
 // Global variable defined in tag.c:
 extern instant_t start_time;
 
-- 
2.43.0


From 5b95141233396f56142e5dde4b7a2fbf787c8200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:21 +0000
Subject: [PATCH 73/78] fix: topology functions of enclaves return arrays of
 uint16_t

The local RTI stores node ids as uint16_t, but the functions that the generated code provides
were declared to return arrays of int, so that every second id was read as zero.
---
 core/federated/RTI/rti_local.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/federated/RTI/rti_local.h b/core/federated/RTI/rti_local.h
index 0d3eef9..20bdb6c 100644
--- a/core/federated/RTI/rti_local.h
+++ b/core/federated/RTI/rti_local.h
@@ -120,7 +120,7 @@ void rti_update_other_net_locked(enclave_info_t* src, enclave_info_t* target, ta
  * @param result The pointer to dereference and update to point to the resulting array.
  * @return The number of direct upstream enclaves.
  */
-int lf_get_upstream_of(int enclave_id, int** result);
+int lf_get_upstream_of(int enclave_id, uint16_t** result);
 
 /**
  * @brief Get the array of ids of enclaves directly downstream of the specified enclave.
@@ -132,7 +132,7 @@ int lf_get_upstream_of(int enclave_id, int** result);
  * @param result The pointer to dereference and update to point to the resulting array.
  * @return The number of direct downstream enclaves.
  */
-int lf_get_downstream_of(int enclave_id, int** result);
+int lf_get_downstream_of(int enclave_id, uint16_t** result);
 
 /**
  * @brief Retrieve the delays on the connections to direct upstream enclaves.
-- 
2.43.0


From 4b854488e6784175d768874da6fb78fdf58cc6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:21 +0000
Subject: [PATCH 74/78] fix: an enclave may be granted more than the start tag
 at once

If its upstream enclaves complete before it wakes up, then the grant is beyond the start tag,
and the program was aborted.
---
 core/threaded/reactor_threaded.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 62ed6c1..0e61a53 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -911,7 +911,7 @@ void* worker(void* arg) {
     LF_PRINT_LOG("Environment %u: Worker thread %d waits for TAG to (0,0).", env->id, worker_number);
 
     tag_t tag_granted = rti_next_event_tag_locked(env->enclave_info, env->current_tag);
-    LF_ASSERT(lf_tag_compare(tag_granted, env->current_tag) == 0, "We did not receive a TAG to the start tag.");
+    LF_ASSERT(lf_tag_compare(tag_granted, env->current_tag) >= 0, "We did not receive a TAG to the start tag.");
   }
 #endif
 
-- 
2.43.0


From 6fd991d4c7e51b8862cac37514b2f3745508adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:21 +0000
Subject: [PATCH 75/78] fix: the next event tag of an enclave could overwrite
 an earlier one

Between leaving the enclave's critical section and entering the RTI's, an upstream enclave could
schedule an earlier event, whose tag was then overwritten, so that downstream enclaves were
granted tags that later received messages.
---
 core/federated/RTI/rti_local.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/federated/RTI/rti_local.c b/core/federated/RTI/rti_local.c
index 65718a8..c0f49f2 100644
--- a/core/federated/RTI/rti_local.c
+++ b/core/federated/RTI/rti_local.c
@@ -86,10 +86,12 @@ tag_t rti_next_event_tag_locked(enclave_info_t* e, tag_t next_event_tag) {
   if (rti_local->base.number_of_scheduling_nodes == 1) {
     return next_event_tag;
   }
-  // This is called from a critical section within the source enclave. Leave
-  // this critical section and acquire the RTI mutex.
-  LF_MUTEX_UNLOCK(&e->env->mutex);
+  // This is called from a critical section within the source enclave. Acquire
+  // the RTI mutex and only then leave this critical section. Otherwise, an upstream
+  // enclave could schedule an earlier event in between, and the NET that it records
+  // (see rti_update_other_net_locked) would be overwritten by the later one below.
   LF_MUTEX_LOCK(rti_local->base.mutex);
+  LF_MUTEX_UNLOCK(&e->env->mutex);
   tracepoint_federate_to_rti(send_NET, e->base.id, &next_event_tag);
   // First, update the enclave data structure to record this next_event_tag,
   // and notify any downstream scheduling_nodes, and unblock them if appropriate.
-- 
2.43.0


From 8586c94685ca1cee2dfefadb3ed6d12d67ce8716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:21 +0000
Subject: [PATCH 76/78] fix: lf_request_stop wakes up every environment

---
 core/threaded/reactor_threaded.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 0e61a53..aefc65f 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -537,7 +537,7 @@ void lf_request_stop(void) {
     // We signal instead of broadcast under the assumption that only
     // one worker thread can call wait_until at a given time because
     // the call to wait_until is protected by a mutex lock
-    lf_cond_signal(&env->event_q_changed);
+    lf_cond_signal(&env[i].event_q_changed);
     LF_MUTEX_UNLOCK(&env[i].mutex);
   }
 #endif
-- 
2.43.0


From a15fd5cae7e810598f8deed14fc40619cc6d229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:21 +0000
Subject: [PATCH 77/78] fix: the latest completed tag belongs to a scheduler

It was a global variable shared by the schedulers of all enclaves without synchronization.
---
 core/threaded/scheduler_instance.c         | 1 +
 core/threaded/scheduler_sync_tag_advance.c | 9 ++-------
 include/core/threaded/scheduler_instance.h | 6 ++++++
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/threaded/scheduler_instance.c b/core/threaded/scheduler_instance.c
index 8146327..28ee8b2 100644
--- a/core/threaded/scheduler_instance.c
+++ b/core/threaded/scheduler_instance.c
@@ -46,6 +46,7 @@ bool init_sched_instance(environment_t* env, lf_scheduler_t** instance, size_t n
   (*instance)->number_of_workers = number_of_workers;
 
   (*instance)->should_stop = false;
+  (*instance)->latest_tag_completed = NEVER_TAG;
   (*instance)->env = env;
 
   return true;
diff --git a/core/threaded/scheduler_sync_tag_advance.c b/core/threaded/scheduler_sync_tag_advance.c
index 1af8bcb..6fde7ba 100644
--- a/core/threaded/scheduler_sync_tag_advance.c
+++ b/core/threaded/scheduler_sync_tag_advance.c
@@ -19,15 +19,10 @@
 // Forward declaration of function defined in reactor_threaded.h
 void _lf_next_locked(struct environment_t* env);
 
-/**
- * @brief Indicator that execution of the specified tag has completed.
- */
-static tag_t _latest_tag_completed = NEVER_TAG_INITIALIZER;
-
 bool should_stop_locked(lf_scheduler_t* sched) {
   // If this is not the very first step, check against the stop tag to see whether this is the last step.
   // Also, stop only after completing the stop tag.
-  if (lf_tag_compare(_latest_tag_completed, sched->env->current_tag) == 0) {
+  if (lf_tag_compare(sched->latest_tag_completed, sched->env->current_tag) == 0) {
     // If we are at the stop tag, do not call _lf_next_locked()
     // to prevent advancing the logical time.
     if (lf_tag_compare(sched->env->current_tag, sched->env->stop_tag) >= 0) {
@@ -53,7 +48,7 @@ bool _lf_sched_advance_tag_locked(lf_scheduler_t* sched) {
     return true;
   }
 
-  _latest_tag_completed = env->current_tag;
+  sched->latest_tag_completed = env->current_tag;
 
   // Advance time.
   // _lf_next_locked() may block waiting for real time to pass or events to appear on the event queue.
diff --git a/include/core/threaded/scheduler_instance.h b/include/core/threaded/scheduler_instance.h
index df55a86..8791e6c 100644
--- a/include/core/threaded/scheduler_instance.h
+++ b/include/core/threaded/scheduler_instance.h
@@ -18,6 +18,7 @@
 
 #include <stdbool.h>
 #include <stddef.h> // for size_t
+#include "tag.h"
 
 #define DEFAULT_MAX_REACTION_LEVEL 100
 
@@ -44,6 +45,11 @@ typedef struct lf_scheduler_t {
    */
   volatile bool should_stop;
 
+  /**
+   * @brief The most recent tag for which execution has completed.
+   */
+  tag_t latest_tag_completed;
+
   /**
    * @brief An array of atomic indexes.
    *
-- 
2.43.0


From 63cc1000c87c6c76ee9df10ac34b2e033777338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:21 +0000
Subject: [PATCH 78/78] fix: initialize the tags of all environments before any
 of them executes

Otherwise an enclave may schedule an event in another one whose stop tag is not yet set, which
discards it.
---
 core/threaded/reactor_threaded.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index aefc65f..3303191 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -1074,6 +1074,12 @@ int lf_reactor_c_main(int argc, const char* argv[]) {
   initialize_local_rti(envs, num_envs);
 #endif
 
+  // Initialize the start and stop tags of all environments before any of them starts executing
+  // because an environment that executes may schedule events in the others.
+  for (int i = 0; i < num_envs; i++) {
+    environment_init_tags(&envs[i], start_time, duration);
+  }
+
   // Do environment-specific setup
   for (int i = 0; i < num_envs; i++) {
     environment_t* env = &envs[i];
@@ -1081,8 +1087,6 @@ int lf_reactor_c_main(int argc, const char* argv[]) {
     // Initialize the watchdogs on this environment.
     _lf_initialize_watchdogs(env);
 
-    // Initialize the start and stop tags of the environment
-    environment_init_tags(env, start_time, duration);
 #ifdef MODAL_REACTORS
     // Set up modal infrastructure
     _lf_initialize_modes(env);
-- 
2.43.0


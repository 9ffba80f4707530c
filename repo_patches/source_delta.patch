From 7dc57b89e378d29420f3fb021847d2c98162a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 01/20] fix: lf_time_add saturates without relying on undefined
 signed overflow

---
 core/tag.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/tag.c b/core/tag.c
index c5f8f88..5f1f271 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -46,16 +46,16 @@ instant_t lf_time_add(instant_t a, interval_t b) {
   if (a == FOREVER || b == FOREVER) {
     return FOREVER;
   }
-  instant_t res = a + b;
-  // Check for overflow
-  if (res < a && b > 0) {
+  // Check for overflow before adding because signed overflow is undefined in C,
+  // so that a compiler is free to optimize away a check done on the sum.
+  if (b > 0 && a > FOREVER - b) {
     return FOREVER;
   }
   // Check for underflow
-  if (res > a && b < 0) {
+  if (b < 0 && a < NEVER - b) {
     return NEVER;
   }
-  return res;
+  return a + b;
 }
 
 tag_t lf_tag_add(tag_t a, tag_t b) {
-- 
2.43.0


From abc40a41bcdbdcb0d2e4c0917b0579e014c7294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 02/20] fix: lf_delay_strict leaves the tag unmodified for any
 negative interval

---
 core/tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/tag.c b/core/tag.c
index 5f1f271..95ad1fd 100644
--- a/core/tag.c
+++ b/core/tag.c
@@ -117,7 +117,7 @@ tag_t lf_delay_tag(tag_t tag, interval_t interval) {
 
 tag_t lf_delay_strict(tag_t tag, interval_t interval) {
   tag_t result = lf_delay_tag(tag, interval);
-  if (interval != 0 && interval != NEVER && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
+  if (interval > 0 && interval != FOREVER && result.time != NEVER && result.time != FOREVER) {
     result.time -= 1;
     result.microstep = UINT_MAX;
   }
-- 
2.43.0


From a1d1e6e3777a6a0eb4ecbcf0aa0a032a4ca7f7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 03/20] fix: pqueue_tag_remove_up_to also removes elements with
 the FOREVER tag, as documented

---
 core/utils/pqueue_tag.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/utils/pqueue_tag.c b/core/utils/pqueue_tag.c
index c1abe35..a4128ad 100644
--- a/core/utils/pqueue_tag.c
+++ b/core/utils/pqueue_tag.c
@@ -151,10 +151,11 @@ tag_t pqueue_tag_pop_tag(pqueue_tag_t* q) {
 void pqueue_tag_remove(pqueue_tag_t* q, pqueue_tag_element_t* e) { pqueue_remove((pqueue_t*)q, (void*)e); }
 
 void pqueue_tag_remove_up_to(pqueue_tag_t* q, tag_t t) {
-  tag_t head = pqueue_tag_peek_tag(q);
-  while (lf_tag_compare(head, FOREVER_TAG) < 0 && lf_tag_compare(head, t) <= 0) {
+  // Note that a peek at the tag alone cannot distinguish an empty queue from an element with tag FOREVER_TAG.
+  pqueue_tag_element_t* head = pqueue_tag_peek(q);
+  while (head != NULL && lf_tag_compare(head->tag, t) <= 0) {
     pqueue_tag_pop_tag(q);
-    head = pqueue_tag_peek_tag(q);
+    head = pqueue_tag_peek(q);
   }
 }
 
-- 
2.43.0


From f56e027a68ab62cd5076166f43a72b87aa7a1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 04/20] fix: vector_at fills the slots it adds with NULL, as
 documented

---
 core/utils/vector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/utils/vector.c b/core/utils/vector.c
index 2124f12..43c09f8 100644
--- a/core/utils/vector.c
+++ b/core/utils/vector.c
@@ -101,6 +101,7 @@ void* vector_pop(vector_t* v) {
  * @return A pointer to the element at 'idx', which is itself a pointer.
  */
 void** vector_at(vector_t* v, size_t idx) {
+  size_t old_size = vector_size(v);
   void** vector_position = v->start + idx;
   if ((vector_position + 1) > v->next) {
     v->next = vector_position + 1;
@@ -114,6 +115,10 @@ void** vector_at(vector_t* v, size_t idx) {
     }
     vector_resize(v, new_size);
   }
+  // Fill the slots that were added, if any, with NULL.
+  for (size_t i = old_size; i <= idx; i++) {
+    v->start[i] = NULL;
+  }
   // Note: Can't re-use vector_position because v->start can move after
   // resizing.
   return v->start + idx;
-- 
2.43.0


From 5327b6dbf0becef31de01d7c348ae9d7425a5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 05/20] fix: _lf_get_token makes a newly created token the
 template token, as documented, instead of leaking it

---
 core/lf_token.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index b97a3b3..ce6ebc7 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -247,9 +247,11 @@ lf_token_t* _lf_get_token(token_template_t* tmplt) {
     return tmplt->token;
   }
   LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
-  // If we get here, we need a new token.
+  // If we get here, we need a new token, which becomes the template token.
   lf_token_t* result = _lf_new_token((token_type_t*)tmplt, NULL, 0);
   result->ref_count = 1;
+  _lf_done_using(tmplt->token);
+  tmplt->token = result;
   return result;
 }
 
-- 
2.43.0


From 63f7e54f2809ff8c9abdde9097f1ba2aa088d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 06/20] fix: _lf_free_token_copies does not read a token after
 it has been freed

---
 core/lf_token.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/lf_token.c b/core/lf_token.c
index ce6ebc7..1d6e43d 100644
--- a/core/lf_token.c
+++ b/core/lf_token.c
@@ -367,7 +367,9 @@ token_freed _lf_done_using(lf_token_t* token) {
 
 void _lf_free_token_copies() {
   while (_lf_tokens_allocated_in_reactions != NULL) {
+    // The token may be freed, so get the next one first.
+    lf_token_t* next = _lf_tokens_allocated_in_reactions->next;
     _lf_done_using(_lf_tokens_allocated_in_reactions);
-    _lf_tokens_allocated_in_reactions = _lf_tokens_allocated_in_reactions->next;
+    _lf_tokens_allocated_in_reactions = next;
   }
 }
-- 
2.43.0


From 3722bf0883092ea09c63f39a49ad220f43ad7ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 07/20] fix: lf_schedule_trigger releases the payload of an
 event rejected at the stop tag

---
 lib/schedule.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index 1683523..b68cd87 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -212,6 +212,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
         LF_PRINT_DEBUG("Attempt to schedule an event after stop_tag was rejected.");
         // Scheduling an event will incur a microstep
         // after the stop tag.
+        _lf_done_using(token);
         lf_recycle_event(env, e);
         return 0;
       }
-- 
2.43.0


From c0a4c38a1d0da5ae23fd75a65048a58f0365fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 08/20] fix: lf_schedule_trigger saturates instead of
 overflowing, so that a huge delay does not trigger immediately

---
 lib/schedule.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/schedule.c b/lib/schedule.c
index b68cd87..d2b5649 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -147,7 +147,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // Add the offset if this is not a timer because, in that case,
   // it is the minimum delay.
   if (!trigger->is_timer) {
-    delay += trigger->offset;
+    delay = lf_time_add(delay, trigger->offset);
   }
   tag_t intended_tag = lf_delay_tag(env->current_tag, delay);
 
@@ -169,7 +169,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
   // modify the intended time.
   if (trigger->is_physical) {
     // Get the current physical time and assign it as the intended time.
-    intended_tag.time = lf_time_physical() + delay;
+    intended_tag.time = lf_time_add(lf_time_physical(), delay);
     intended_tag.microstep = 0;
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
@@ -228,7 +228,7 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // scheduled event. It determines the
     // earliest time at which the new event can be scheduled.
     // Check to see whether the event is too early.
-    instant_t earliest_time = trigger->last_tag.time + min_spacing;
+    instant_t earliest_time = lf_time_add(trigger->last_tag.time, min_spacing);
     LF_PRINT_DEBUG("There is a previously scheduled event; earliest possible time "
                    "with min spacing: " PRINTF_TIME,
                    earliest_time);
-- 
2.43.0


From 5ae33cf87419f997def932ab698ade31116bbfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 09/20] fix: a physical action scheduled when physical time
 does not exceed logical time gets a future tag of its own

---
 lib/schedule.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/schedule.c b/lib/schedule.c
index d2b5649..4b627e0 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -171,6 +171,10 @@ trigger_handle_t lf_schedule_trigger(environment_t* env, trigger_t* trigger, int
     // Get the current physical time and assign it as the intended time.
     intended_tag.time = lf_time_add(lf_time_physical(), delay);
     intended_tag.microstep = 0;
+    // The event has to be in the future even if physical time lags behind or equals logical time.
+    if (lf_tag_compare(intended_tag, env->current_tag) <= 0) {
+      intended_tag = lf_delay_tag(env->current_tag, 0);
+    }
   } else {
 // FIXME: We need to verify that we are executing within a reaction?
 // See reactor_threaded.
-- 
2.43.0


From 053ad12814d6aac0fc20d552477cfe19e8370f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 10/20] fix: replacing or dropping a payload identical to the
 pending one does not leak a reference

---
 core/reactor_common.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/core/reactor_common.c b/core/reactor_common.c
index 358480e..0fac84c 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -471,10 +471,9 @@ event_t* _lf_create_dummy_events(environment_t* env, tag_t tag) {
 }
 
 void lf_replace_token(event_t* event, lf_token_t* token) {
-  if (event->token != token) {
-    // Free the existing token, if any.
-    _lf_done_using(event->token);
-  }
+  // Release the event's reference to the existing token, if any.
+  // If it is the same token, then the caller's reference to it takes its place.
+  _lf_done_using(event->token);
   // Replace the token with ours.
   event->token = token;
 }
@@ -525,9 +524,7 @@ trigger_handle_t _lf_schedule_at_tag(environment_t* env, trigger_t* trigger, tag
   if (found != NULL) {
     switch (trigger->policy) {
     case drop:
-      if (found->token != token) {
-        _lf_done_using(token);
-      }
+      _lf_done_using(token);
       lf_recycle_event(env, e);
       return (0);
       break;
-- 
2.43.0


From 4896f61b5986b805d51d1498665d12fe2bff9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 11/20] fix: a huge timeout, timer offset or period saturates
 instead of overflowing

---
 core/environment.c    | 2 +-
 core/reactor_common.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/environment.c b/core/environment.c
index d24de4b..cdf2264 100644
--- a/core/environment.c
+++ b/core/environment.c
@@ -198,7 +198,7 @@ void environment_init_tags(environment_t* env, instant_t start_time, interval_t
   tag_t stop_tag = FOREVER_TAG_INITIALIZER;
   if (duration >= 0LL) {
     // A duration has been specified. Calculate the stop time.
-    stop_tag.time = env->current_tag.time + duration;
+    stop_tag.time = lf_time_add(env->current_tag.time, duration);
     stop_tag.microstep = 0;
   }
   env->stop_tag = stop_tag;
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 0fac84c..1f180b0 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -386,7 +386,7 @@ void _lf_initialize_timer(environment_t* env, trigger_t* timer) {
 
   // Get an event_t struct to put on the event queue.
   // Recycle event_t structs, if possible.
-  tag_t next_tag = (tag_t){.time = lf_time_logical(env) + delay, .microstep = 0};
+  tag_t next_tag = (tag_t){.time = lf_time_add(lf_time_logical(env), delay), .microstep = 0};
   // Do not schedule the next event if it is after the timeout.
   if (!lf_is_tag_after_stop_tag(env, next_tag)) {
     event_t* e = lf_get_new_event(env);
-- 
2.43.0


From c0e395f0b33a3ac2a736b2d0cfe5053eaa27b157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:04 +0000
Subject: [PATCH 12/20] fix: a port written several times at a tag is recorded
 once, so that multiport iteration visits it once

---
 core/reactor.c                   | 4 ++++
 core/threaded/reactor_threaded.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/core/reactor.c b/core/reactor.c
index 6e2fd24..f5254d8 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -49,6 +49,10 @@ void lf_set_present(lf_port_base_t* port) {
     return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
+  if (*is_present_field) {
+    // Already recorded at this tag.
+    return;
+  }
   if (env->is_present_fields_abbreviated_size < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[env->is_present_fields_abbreviated_size] = is_present_field;
   }
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index 82dd2b6..b91419c 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -176,6 +176,10 @@ void lf_set_present(lf_port_base_t* port) {
     return;
   environment_t* env = port->source_reactor->environment;
   bool* is_present_field = &port->is_present;
+  if (*is_present_field) {
+    // Already recorded at this tag.
+    return;
+  }
   int ipfas = lf_atomic_fetch_add(&env->is_present_fields_abbreviated_size, 1);
   if (ipfas < env->is_present_fields_size) {
     env->is_present_fields_abbreviated[ipfas] = is_present_field;
-- 
2.43.0


From d5f8088efd96bd2707b93a476b924cbd85de13a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:54 +0000
Subject: [PATCH 13/20] fix: a huge deadline saturates instead of overflowing
 into an immediate deadline violation

---
 core/reactor.c                   | 2 +-
 core/reactor_common.c            | 2 +-
 core/threaded/reactor_threaded.c | 2 +-
 lib/schedule.c                   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/reactor.c b/core/reactor.c
index f5254d8..9f4c83f 100644
--- a/core/reactor.c
+++ b/core/reactor.c
@@ -162,7 +162,7 @@ int _lf_do_step(environment_t* env) {
       // container deadlines are defined in the container.
       // They can have different deadlines, so we have to check both.
       // Handle the local deadline first.
-      if (reaction->deadline == 0 || physical_time > env->current_tag.time + reaction->deadline) {
+      if (reaction->deadline == 0 || physical_time > lf_time_add(env->current_tag.time, reaction->deadline)) {
         LF_PRINT_LOG("Deadline violation. Invoking deadline handler.");
         tracepoint_reaction_deadline_missed(env, reaction, 0);
         // Deadline violation has occurred.
diff --git a/core/reactor_common.c b/core/reactor_common.c
index 1f180b0..4b3ac6f 100644
--- a/core/reactor_common.c
+++ b/core/reactor_common.c
@@ -828,7 +828,7 @@ void schedule_output_reactions(environment_t* env, reaction_t* reaction, int wor
       instant_t physical_time = lf_time_physical();
       // Check for deadline violation.
       if (downstream_to_execute_now->deadline == 0 ||
-          physical_time > env->current_tag.time + downstream_to_execute_now->deadline) {
+          physical_time > lf_time_add(env->current_tag.time, downstream_to_execute_now->deadline)) {
         // Deadline violation has occurred.
         tracepoint_reaction_deadline_missed(env, downstream_to_execute_now, worker);
         violation = true;
diff --git a/core/threaded/reactor_threaded.c b/core/threaded/reactor_threaded.c
index b91419c..86e798a 100644
--- a/core/threaded/reactor_threaded.c
+++ b/core/threaded/reactor_threaded.c
@@ -688,7 +688,7 @@ bool _lf_worker_handle_deadline_violation_for_reaction(environment_t* env, int w
     // Get the current physical time.
     instant_t physical_time = lf_time_physical();
     // Check for deadline violation.
-    if (reaction->deadline == 0 || physical_time > env->current_tag.time + reaction->deadline) {
+    if (reaction->deadline == 0 || physical_time > lf_time_add(env->current_tag.time, reaction->deadline)) {
       // Deadline violation has occurred.
       tracepoint_reaction_deadline_missed(env, reaction, worker_number);
       violation_occurred = true;
diff --git a/lib/schedule.c b/lib/schedule.c
index 4b627e0..71437a0 100644
--- a/lib/schedule.c
+++ b/lib/schedule.c
@@ -98,7 +98,7 @@ trigger_handle_t lf_schedule_value(void* action, interval_t extra_delay, void* v
  */
 bool lf_check_deadline(void* self, bool invoke_deadline_handler) {
   reaction_t* reaction = ((self_base_t*)self)->executing_reaction;
-  if (lf_time_physical() > (lf_time_logical(((self_base_t*)self)->environment) + reaction->deadline)) {
+  if (lf_time_physical() > lf_time_add(lf_time_logical(((self_base_t*)self)->environment), reaction->deadline)) {
     if (invoke_deadline_handler) {
       reaction->deadline_violation_handler(self);
     }
-- 
2.43.0


From 46cb5b3d2d054adccf49a6b46d2b4fe9a7b1932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:34 +0000
Subject: [PATCH 14/20] fix: a clock synchronization round without its coded
 probe does not count towards the window

---
 core/federated/clock-sync.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/federated/clock-sync.c b/core/federated/clock-sync.c
index b18efb6..477661a 100644
--- a/core/federated/clock-sync.c
+++ b/core/federated/clock-sync.c
@@ -351,6 +351,8 @@ void handle_T4_clock_sync_message(unsigned char* buffer, int socket, instant_t r
     if (read_failed || buffer[0] != MSG_TYPE_CLOCK_SYNC_CODED_PROBE) {
       lf_print_warning("Clock sync: Did not get the expected coded probe message from the RTI. "
                        "Skipping clock synchronization round.");
+      // Decrement the number of received T4 messages
+      _lf_rti_socket_stat.received_T4_messages_in_current_sync_window--;
       return;
     }
     // Filter out noise.
-- 
2.43.0


From 3833796998051cbf8c1f3cb61e197f7ed250f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:02 +0000
Subject: [PATCH 15/20] fix: the RTI accepts a federate only if its federation
 ID is equal to, not a prefix of, its own

---
 core/federated/RTI/rti_remote.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 3daaeff..24b912b 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1229,7 +1229,9 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
       tracepoint_rti_from_federate(receive_FED_ID, fed_id, NULL);
     }
     // Compare the received federation ID to mine.
-    if (strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
+    // The lengths have to match as well because otherwise any prefix of the federation ID would be accepted.
+    if (federation_id_length != strnlen(rti_remote->federation_id, 255) ||
+        strncmp(rti_remote->federation_id, federation_id_received, federation_id_length) != 0) {
       // Federation IDs do not match. Send back a MSG_TYPE_REJECT message.
       lf_print_warning("Federate from another federation %s attempted to connect to RTI in federation %s.",
                        federation_id_received, rti_remote->federation_id);
-- 
2.43.0


From ef9974160b26601efc081a78fd6997681b6bee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 16/20] fix: a federate that departs during a stop negotiation
 is no longer waited for

---
 core/federated/RTI/rti_remote.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 24b912b..298703c 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1006,6 +1006,11 @@ static void handle_federate_failed(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // If a stop negotiation is in progress, this federate will not reply, so do not wait for it.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
@@ -1059,6 +1064,11 @@ static void handle_federate_resign(federate_info_t* my_fed) {
   // We can now safely close the socket.
   close(my_fed->socket); //  from unistd.h
 
+  // If a stop negotiation is in progress, this federate will not reply, so do not wait for it.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
   // Check downstream federates to see whether they should now be granted a TAG.
   // To handle cycles, need to create a boolean array to keep
   // track of which upstream federates have been visited.
-- 
2.43.0


From ca2acf802a0a7fc2cfb12e6145ffe95d7f991aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:48 +0000
Subject: [PATCH 17/20] fix: a federate whose connection is lost no longer
 holds back the others

---
 core/federated/RTI/rti_remote.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 298703c..5e3c5c3 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1095,8 +1095,6 @@ void* federate_info_thread_TCP(void* fed) {
     if (read_failed) {
       // Socket is closed
       lf_print_error("RTI: Socket to federate %d is closed. Exiting the thread.", my_fed->enclave.id);
-      my_fed->enclave.state = NOT_CONNECTED;
-      my_fed->socket = -1;
       // FIXME: We need better error handling here, but do not stop execution here.
       break;
     }
@@ -1147,10 +1145,28 @@ void* federate_info_thread_TCP(void* fed) {
     }
   }
 
-  // Nothing more to do. Close the socket and exit.
+  // The connection is lost. Close the socket and exit.
   // Prevent multiple threads from closing the same socket at the same time.
   LF_MUTEX_LOCK(&rti_mutex);
-  close(my_fed->socket); //  from unistd.h
+  my_fed->enclave.state = NOT_CONNECTED;
+
+  // Indicate that there will no further events from this federate.
+  my_fed->enclave.next_event = FOREVER_TAG;
+
+  if (my_fed->socket >= 0) {
+    close(my_fed->socket); //  from unistd.h
+    my_fed->socket = -1;
+  }
+
+  // If a stop negotiation is in progress, this federate will not reply, so do not wait for it.
+  if (rti_remote->stop_in_progress) {
+    mark_federate_requesting_stop(my_fed);
+  }
+
+  // Check downstream federates to see whether they should now be granted a TAG.
+  bool* visited = (bool*)calloc(rti_remote->base.number_of_scheduling_nodes, sizeof(bool)); // Initializes to 0.
+  notify_downstream_advance_grant_if_safe(&(my_fed->enclave), visited);
+  free(visited);
   LF_MUTEX_UNLOCK(&rti_mutex);
   return NULL;
 }
-- 
2.43.0


From e4ef1b3b72e811a73d7ff920d3b99179cbaeae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:38 +0000
Subject: [PATCH 18/20] fix: a message for a federate that departs while the
 RTI waits for its start time is dropped

---
 core/federated/RTI/rti_remote.c | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 5e3c5c3..6c74fee 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -301,9 +301,17 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning
   // and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
@@ -321,13 +329,6 @@ void handle_port_absent_message(federate_info_t* sending_federate, unsigned char
 
   LF_PRINT_LOG("RTI forwarding port absent message for port %u to federate %u.", reactor_port_id, federate_id);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_PORT_ABS, federate_id, &tag);
   }
@@ -386,9 +387,17 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   // issue a TAG before this message has been forwarded.
   LF_MUTEX_LOCK(&rti_mutex);
 
+  federate_info_t* fed = GET_FED_INFO(federate_id);
+
+  // Need to make sure that the destination federate's thread has already
+  // sent the starting MSG_TYPE_TIMESTAMP message.
+  while (fed->enclave.state == PENDING) {
+    // Need to wait here.
+    lf_cond_wait(&sent_start_time);
+  }
+
   // If the destination federate is no longer connected, issue a warning,
   // remove the message from the socket and return.
-  federate_info_t* fed = GET_FED_INFO(federate_id);
   if (fed->enclave.state == NOT_CONNECTED) {
     lf_print_warning("RTI: Destination federate %d is no longer connected. Dropping message.", federate_id);
     LF_PRINT_LOG("Fed status: next_event " PRINTF_TAG ", "
@@ -418,13 +427,6 @@ void handle_timed_message(federate_info_t* sending_federate, unsigned char* buff
   LF_PRINT_DEBUG("RTI forwarding message to port %d of federate %hu of length %zu.", reactor_port_id, federate_id,
                  length);
 
-  // Need to make sure that the destination federate's thread has already
-  // sent the starting MSG_TYPE_TIMESTAMP message.
-  while (fed->enclave.state == PENDING) {
-    // Need to wait here.
-    lf_cond_wait(&sent_start_time);
-  }
-
   if (rti_remote->base.tracing_enabled) {
     tracepoint_rti_to_federate(send_TAGGED_MSG, federate_id, &intended_tag);
   }
-- 
2.43.0


From bb81be39447235a5a24f38af1c3e96fa404dcc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:54 +0000
Subject: [PATCH 19/20] fix: a federate rejected after its ID was accepted can
 connect again

---
 core/federated/RTI/rti_remote.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index 6c74fee..b8d9aaf 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1323,6 +1323,7 @@ static int32_t receive_and_check_fed_id_message(int* socket_id, struct sockaddr_
   }
   LF_MUTEX_LOCK(&rti_mutex);
   if (write_to_socket_close_on_error(&fed->socket, 1, &ack_message)) {
+    fed->enclave.state = NOT_CONNECTED;
     LF_MUTEX_UNLOCK(&rti_mutex);
     lf_print_error("RTI failed to write MSG_TYPE_ACK message to federate %d.", fed_id);
     return -1;
@@ -1616,6 +1617,10 @@ void lf_connect_to_federates(int socket_descriptor) {
       lf_thread_create(&(fed->thread_id), federate_info_thread_TCP, fed);
     } else {
       // Received message was rejected. Try again.
+      if (fed_id >= 0) {
+        // The federate did not complete its connection, so its ID is not in use.
+        rti_remote->base.scheduling_nodes[fed_id]->state = NOT_CONNECTED;
+      }
       i--;
     }
   }
-- 
2.43.0


From 9621ec291d4cb56a687b6649f7b0df4e5197ff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:00 +0000
Subject: [PATCH 20/20] fix: the RTI rejects a neighbor structure with a
 negative number of neighbors

---
 core/federated/RTI/rti_remote.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/federated/RTI/rti_remote.c b/core/federated/RTI/rti_remote.c
index b8d9aaf..e99ef0c 100644
--- a/core/federated/RTI/rti_remote.c
+++ b/core/federated/RTI/rti_remote.c
@@ -1361,6 +1361,14 @@ static int receive_connection_information(int* socket_id, uint16_t fed_id) {
     LF_PRINT_DEBUG("RTI got %d upstreams and %d downstreams from federate %d.", fed->enclave.num_upstream,
                    fed->enclave.num_downstream, fed_id);
 
+    if (fed->enclave.num_upstream < 0 || fed->enclave.num_downstream < 0) {
+      lf_print_error("RTI received an invalid number of neighbors from federate %d. Rejecting federate.", fed_id);
+      fed->enclave.num_upstream = 0;
+      fed->enclave.num_downstream = 0;
+      send_reject(socket_id, UNEXPECTED_MESSAGE);
+      return 0;
+    }
+
     // Allocate memory for the upstream and downstream pointers
     if (fed->enclave.num_upstream > 0) {
       fed->enclave.upstream = (uint16_t*)malloc(sizeof(uint16_t) * fed->enclave.num_upstream);
-- 
2.43.0


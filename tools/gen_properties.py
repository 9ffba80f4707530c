#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "Tags are totally ordered and time/tag addition saturates",
  "Comparing tags is a total order that is lexicographic in (time, microstep). Adding an interval to a time never wraps around: the result is the exact sum when it is representable, the infinite past or future values absorb whatever is added to them, and an overflowing sum saturates at the infinity on its side. Adding two tags is exact: an interval with a non-zero time replaces the microstep, otherwise microsteps add, and the result saturates at the forever tag.",
  ["inputs"], "all pairs/triples of 64-bit times and 32-bit microsteps, no bound",
  "tag_test.c tries a handful of constants; overflow and infinity corners are a 2^-64 fraction of the inputs.",
  ["core/tag.c", "tag/api/tag.h"],
  [("lf_tag_compare / lf_time_add / lf_tag_add", "core/tag.c"), ("FOREVER/NEVER constants", "tag/api/tag.h")],
  ["return values of lf_tag_compare, lf_time_add, lf_tag_add"])

p("P02", "Delaying a tag is monotone and the strict delay is its tight lower bound",
  "Delaying a tag by a connection delay never produces an earlier tag, leaves the tag unchanged when there is no delay, advances exactly one microstep for a zero delay, and moves to (time+delay, 0) for a positive delay, saturating at forever; a later tag is never delayed to an earlier one. The strict variant yields the latest tag that is strictly earlier than every delayed message that can still follow the given tag, and leaves the tag unmodified when there is no delay.",
  ["inputs"], "all tags and all 64-bit delays (incl. never/forever), no bound",
  "tests only use a few small delays; the safety of every advance grant rests on this algebra at all values.",
  ["core/tag.c", "tag/api/tag.h"], [("lf_delay_tag / lf_delay_strict", "core/tag.c")],
  ["return values of lf_delay_tag, lf_delay_strict"])

p("P03", "Rendering times as text is exact and never overruns the buffer",
  "Writing a non-negative time in the comma-separated or human-readable format stays inside the buffer size documented for it, is NUL terminated and returns the number of characters written. The comma-separated text denotes exactly the input: decimal digits without leading zeros in groups of three separated by single commas, and concatenating the groups gives the number back.",
  ["inputs"], "non-negative 64-bit times: full range for the comma format's buffer bound; stated value ranges for the exactness of the digits",
  "unit tests never call the rendering with values near the extremes of the range where the buffer is nearly full.",
  ["core/tag.c"], [("lf_comma_separated_time / lf_readable_time", "core/tag.c")], ["buffer contents and return value"])

p("P04", "The reaction priority queue always yields a minimum and loses nothing",
  "Whatever sequence of insertions, removals and pops is applied, the priority queue's peek and pop return an element of least priority among those inserted and not yet removed, every inserted element comes out exactly once, and the size reported is the number of elements held. Removing an element or looking up an equal or matching element by priority finds it exactly when it is in the queue, including after the queue has grown beyond its initial capacity.",
  ["histories"], "all sequences of queue operations up to the stated length, over arbitrary 64-bit priorities",
  "pqueue_test.c runs one short fixed sequence; heap-order bugs need particular priority permutations.",
  ["core/utils/pqueue_base.c", "core/utils/pqueue.c"],
  [("pqueue_insert/pop/peek/remove/find_equal", "core/utils/pqueue_base.c"), ("reaction comparison", "core/utils/pqueue.c")],
  ["values returned by pqueue_*"])

p("P05", "The tag queue yields events in tag order and finds events by tag",
  "The tag-ordered queue always returns an element with the least tag, reports the least tag (or the forever tag when empty), loses and duplicates nothing, and finds an element with an exact tag or equal to a given one exactly when one is queued. Insert-if-absent keeps one element per tag, removing everything up to a tag removes exactly the elements at or before it, and emptying one queue into another moves every element.",
  ["histories"], "all sequences of queue operations up to the stated length, over arbitrary tags",
  "the unit tests use a few increasing tags; ordering bugs need particular interleavings of tags and microsteps.",
  ["core/utils/pqueue_tag.c", "core/utils/pqueue_base.c"],
  [("pqueue_tag_*", "core/utils/pqueue_tag.c")], ["values returned by pqueue_tag_*"])

p("P06", "Growable vectors behave like a sequence",
  "A vector returns in last-in-first-out order exactly the elements pushed onto it, whatever mixture of single and bulk pushes, pops and voluntary shrinking is applied, and reports its size correctly. Indexed access returns the slot of the element at that index, grows the vector when the index lies past the end, and reads as null where nothing was stored.",
  ["histories"], "all sequences of vector operations up to the stated length, any initial capacity in the stated range",
  "vector_test.c runs random sequences from a fixed seed; growth/shrink thresholds combine in ways it does not sample.",
  ["core/utils/vector.c"], [("vector_push/pushall/pop/at/vote", "core/utils/vector.c")], ["values returned by vector_*"])

p("P07", "Hash sets and hash maps agree with the mathematical set and map",
  "After any sequence of additions and removals a hash set contains exactly the items added and not removed, reports the right count, returns whether an operation changed it, and its iterator visits each item exactly once, across internal resizing and with arbitrary colliding hashes. A hash map lookup returns the last value put under that key, for every key ever put and however keys collide.",
  ["histories", "inputs"], "all operation sequences up to the stated length over arbitrary 64-bit items/keys",
  "the unit tests use keys that barely collide; probe-chain breakage after a removal needs particular collisions.",
  ["core/utils/hashset/hashset.c", "core/utils/hashset/hashset_itr.c", "include/core/utils/impl/hashmap.h"],
  [("hashset_add/remove/is_member", "core/utils/hashset/hashset.c"), ("hashset_iterator*", "core/utils/hashset/hashset_itr.c"), ("hashmap put/get", "include/core/utils/impl/hashmap.h")],
  ["return values of set/map operations"])

p("P08", "The double-ended queue keeps its elements in order at both ends",
  "The deque offered to user programs returns from either end exactly the values pushed, in the order a double-ended queue prescribes, reports its size and emptiness correctly, and returns null when empty. No sequence of operations reads or frees memory it should not, or leaks a node.",
  ["histories"], "all sequences of operations up to the stated length",
  "there is no test of the deque at all.", ["util/deque.c", "util/deque.h"], [("deque_push_*/pop_*/peek_*", "util/deque.c")], ["values returned by deque_*"])

p("P09", "Mixed-radix counters enumerate every value exactly once",
  "Incrementing a permuted mixed-radix number advances its digits in the order the permutation prescribes and visits every digit combination exactly once before returning to all zeros. Its integer value and the value after dropping low-order digits are the positional values of the digits.",
  ["inputs"], "all radixes, digit values and permutations within the stated size",
  "no test covers it; the generated code relies on it for every interleaved bank/multiport connection.",
  ["core/mixed_radix.c"], [("mixed_radix_incr / mixed_radix_parent / mixed_radix_to_int", "core/mixed_radix.c")], ["digits and return values"])

p("P10", "Iterating a multiport visits exactly the present channels, ascending",
  "Iterating over a multiport input returns each channel on which an output was set at the current tag exactly once, in ascending order, then -1, whether or not the sparse representation is in use or has overflowed, and however often or in whatever order the channels were written. When a tag completes, every port and action set at that tag is absent again and its sparse record is empty.",
  ["inputs", "histories"], "all subsets, orders and repetitions of channel writes within the stated width and sparse capacity",
  "no test covers it; the sparse path only engages for particular widths and counts.",
  ["core/port.c", "core/reactor_common.c"],
  [("_lf_multiport_iterator_impl / lf_multiport_next", "core/port.c"), ("lf_set_present / _lf_start_time_step", "core/reactor_common.c")],
  ["lf_multiport_next results", "is_present fields"])

p("P11", "A scheduled action occurs in the future, at the requested tag, once",
  "Scheduling an action with an extra delay yields exactly one event whose time is the base time plus the action's minimum delay plus the extra delay, where the base is the current logical time for logical actions and the later of logical and physical time for physical actions, and a zero total delay advances the microstep. The event is never at or before the current tag nor after the stop tag, and several events of one action at the same time receive successive microsteps so that no two share a tag.",
  ["inputs", "histories"], "all current tags, offsets, delays and physical times within the stated ranges, queue pre-states up to the stated length",
  "scheduling_api_test.c schedules one action at one delay; collisions, stop-tag and physical-time corners are never reached.",
  ["lib/schedule.c", "core/reactor_common.c"],
  [("lf_schedule_trigger", "lib/schedule.c"), ("event queue insertion", "core/reactor_common.c")],
  ["event queue contents after the call", "handle returned"])

p("P12", "Minimum spacing policies keep an action's events apart",
  "For an action with a minimum spacing, two events it produces are never closer in logical time than that spacing: a violating event is deferred to the earliest allowed time, dropped, or made to replace the payload of the pending previous event, as its policy prescribes. The default is to defer, and a dropped or replaced payload is released.",
  ["inputs", "histories"], "all current tags, spacings, delays and previous event tags within the stated ranges, for each policy",
  "no test exercises a minimum spacing.",
  ["lib/schedule.c"], [("min_spacing handling in lf_schedule_trigger", "lib/schedule.c")], ["event queue contents after the call"])

p("P13", "Message payloads are freed exactly once and never while in use",
  "A payload token stays valid while any port, action or pending event refers to it, is freed exactly once when the last reference is released, and is never used after being freed, whatever the order of scheduling, setting, copying, and end-of-tag cleanup. Tokens recycled internally never alias a token still in use.",
  ["histories"], "all sequences of token operations up to the stated length",
  "no test inspects reference counts; lifetime bugs need particular interleavings of schedule, set and cleanup.",
  ["core/lf_token.c", "include/core/lf_token.h"],
  [("_lf_get_token/_lf_new_token/_lf_done_using/_lf_replace_template_token/_lf_free_token_copies", "core/lf_token.c")],
  ["calls to the payload destructor", "heap accesses"])

p("P14", "A writable copy is private to its owner",
  "Requesting a writable copy of an input's payload returns a payload with the same contents that no other holder can observe being modified: the original itself only if the requester is its sole holder, and otherwise a fresh copy that is released at the end of the tag. Payloads with a custom copy constructor are copied with it, and other holders' payloads and lengths remain unchanged.",
  ["inputs", "histories"], "all reference counts, payload contents and lengths within the stated size",
  "no test covers it.", ["core/lf_token.c"], [("_lf_writable_copy", "core/lf_token.c")], ["payload bytes seen by each holder"])

p("P15", "Tags are processed in strictly increasing order and reactions in level order",
  "A single-threaded execution processes every scheduled event exactly at its tag, in strictly increasing tag order, never before physical time reaches the tag unless fast execution was requested. At each tag a reaction executes at most once, exactly if one of its triggers is present, and only after every triggered reaction it depends on (lower level) has executed.",
  ["programs", "histories"], "all small reactor programs within the stated bounds: arbitrary event tags, triggered reactions, levels and physical clock readings",
  "tests run a single two-reaction stub program; ordering depends on the program and the event history.",
  ["core/reactor.c", "core/reactor_common.c"],
  [("next / _lf_do_step", "core/reactor.c"), ("_lf_pop_events / _lf_trigger_reaction / schedule_output_reactions", "core/reactor_common.c")],
  ["sequence of reaction invocations and their tags"])

p("P16", "Execution stops at the stop tag and shutdown happens exactly once",
  "No reaction is executed at a tag later than the stop tag, which is the requested timeout after the start, or one microstep after the tag at which a stop was requested or the event queue ran dry, whichever is earliest, and it never moves once reached. Shutdown reactions are triggered exactly once, at the stop tag, and execution ends afterwards.",
  ["programs", "histories"], "all stop requests, timeouts and queue contents within the stated bounds",
  "tests stop only by timeout of one stub program.",
  ["core/reactor.c", "core/reactor_common.c", "core/environment.c"],
  [("next / lf_request_stop", "core/reactor.c"), ("lf_set_stop_tag / _lf_is_tag_after_stop_tag / _lf_trigger_shutdown_reactions", "core/reactor_common.c"), ("environment_init_tags", "core/environment.c")],
  ["tags at which reactions run", "return value of the step function"])

p("P17", "Timers fire at start + offset + k*period and nowhere else",
  "A timer with offset o and period p fires at start+o and then every p after that, with no drift and no duplicate or missing firing, regardless of how late physical time is; with a period of zero it fires exactly once, and an offset of zero fires at the start tag.",
  ["inputs", "histories"], "all offsets and periods within the stated ranges, for the stated number of firings",
  "tests observe one timer with one period.",
  ["core/reactor_common.c"], [("_lf_initialize_timer / _lf_pop_events re-insertion", "core/reactor_common.c")], ["event queue contents"])

p("P18", "A deadline handler replaces the reaction exactly when the deadline is missed",
  "If a reaction has a deadline d, then at tag time t its deadline handler is invoked instead of its body exactly when physical time at invocation exceeds t+d (or d is zero), and otherwise the body runs; either way the reactions triggered by the outputs actually produced run and effects of one are not produced by the other. Explicit deadline checks inside a reaction give the same verdict.",
  ["inputs", "schedules"], "all logical and physical times and deadlines within the stated ranges",
  "tests have no deadlines; the outcome depends on the physical clock.",
  ["core/reactor.c", "core/reactor_common.c", "core/threaded/reactor_threaded.c"],
  [("_lf_do_step / _lf_invoke_reaction", "core/reactor.c"), ("_lf_worker_handle_deadline_violation_for_reaction / lf_check_deadline", "core/threaded/reactor_threaded.c, core/reactor_common.c")],
  ["which of the two functions is invoked"])

p("P19", "Reaction priority orders by deadline first, then by level",
  "The priority computed from an inferred deadline and a level sorts a reaction with a smaller deadline (compared at the stored 48-bit resolution, saturating) before one with a larger deadline, and for equal deadlines sorts by level; the level is always recoverable from it.",
  ["inputs"], "all 64-bit deadlines and 16-bit levels",
  "no test covers it.", ["core/reactor_common.c", "include/core/lf_types.h"], [("lf_combine_deadline_and_level", "core/reactor_common.c"), ("LF_LEVEL", "include/core/lf_types.h")], ["return value"])

p("P20", "The worker scheduler hands out every triggered reaction exactly once, by level",
  "For each threaded scheduler, every reaction triggered at a tag is handed to exactly one worker exactly once, no reaction of a later level is handed out while one of an earlier level is still executing or waiting, and the tag advances only after every handed-out reaction has completed. When the stop tag completes every worker is told to stop.",
  ["schedules", "programs"], "all trigger patterns of small reaction graphs within the stated bounds, and the worker interleavings stated per scheduler",
  "tests use one stub program with few reactions; wrong hand-out needs particular trigger and completion orders.",
  ["core/threaded/scheduler_NP.c", "core/threaded/scheduler_GEDF_NP.c", "core/threaded/scheduler_adaptive.c", "core/threaded/scheduler_sync_tag_advance.c"],
  [("lf_sched_get_ready_reaction / lf_scheduler_trigger_reaction / lf_sched_done_with_reaction", "core/threaded/scheduler_*.c"), ("_lf_sched_advance_tag_locked", "core/threaded/scheduler_sync_tag_advance.c")],
  ["reactions returned to workers and calls that advance the tag"])

p("P21", "The tag never advances past an outstanding barrier",
  "While any party holds a tag barrier (a stop request or an arriving network message) the logical tag does not advance to or past the barrier's tag, and a barrier is always placed in the future and never later than requested unless that tag has already been reached. When the last party releases its barrier, every waiter is woken and the tag may advance freely.",
  ["schedules", "histories"], "all current tags, requested barrier tags and numbers of requestors within the stated bounds",
  "no test raises a barrier.", ["core/threaded/reactor_threaded.c"],
  [("_lf_increment_tag_barrier / _lf_decrement_tag_barrier_locked / _lf_wait_on_tag_barrier", "core/threaded/reactor_threaded.c")],
  ["barrier horizon, requestor count, return from waiting"])

p("P22", "The coordinator grants a tag only when no earlier message can still arrive",
  "The coordinator grants a federate an advance to a tag only if, given the completed and next-event tags and delays it knows, no connected federate upstream (directly or transitively) can still cause a message to it with a tag at or before the granted one; messages already in transit count. Grants to a federate never decrease, and provisional grants are given only at the tag of a reported next event (or at the start tag), within zero-delay cycles.",
  ["configurations", "histories"], "all topologies, delays and reported tags within the stated number of nodes",
  "rti_common_test.c checks delays of two fixed graphs, and never a grant decision over arbitrary tags.",
  ["core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c"],
  [("tag_advance_grant_if_safe / earliest_future_incoming_message_tag / notify_advance_grant_if_safe", "core/federated/RTI/rti_common.c"), ("notify_tag_advance_grant / notify_provisional_tag_advance_grant", "core/federated/RTI/rti_remote.c")],
  ["grants issued"], [("last_granted, last_provisionally_granted, completed, next_event", "per-node tags", "core/federated/RTI/rti_common.h")])

p("P23", "A coordination step always lets some waiting federate proceed",
  "When every connected federate has reported its next event and none holds an unused grant, the coordinator's re-evaluation issues a full or provisional grant to at least one federate that has the earliest next event, so that coordination cannot deadlock. A federate with no connected upstream federates is always granted its next event.",
  ["configurations", "histories"], "all topologies, delays and reported tags within the stated number of nodes",
  "no test drives the grant logic.", ["core/federated/RTI/rti_common.c"],
  [("notify_downstream_advance_grant_if_safe / tag_advance_grant_if_safe", "core/federated/RTI/rti_common.c")], ["grants issued"])

p("P24", "Minimum delays between federates are shortest-path delays",
  "For every pair of nodes, the minimum delay the coordinator uses from one to the other is the least total delay over all connection paths between them, no entry exists when there is no path, and a node is flagged as being in a (zero-delay) cycle exactly when such a cycle through it exists. The result does not depend on the order in which connections are listed.",
  ["configurations"], "all graphs within the stated number of nodes with arbitrary delays",
  "rti_common_test.c checks a few fixed topologies.",
  ["core/federated/RTI/rti_common.c"], [("update_min_delays_upstream / get_min_delay", "core/federated/RTI/rti_common.c")], ["min_delays / flags after initialization"])

p("P25", "A federation-wide stop is agreed once, at a tag acceptable to everyone",
  "When a stop is requested, every connected federate receives exactly one stop grant, all carrying the same tag, which is the maximum of the tags proposed by the requesters and repliers, and only after every connected federate has proposed a tag. Later requests are ignored, and departures never cause a duplicate or missing grant.",
  ["histories", "fault_sequences"], "all orders of requests, replies and departures within the stated number of federates and messages, arbitrary tags",
  "no test runs the coordinator's protocol.",
  ["core/federated/RTI/rti_remote.c"],
  [("handle_stop_request_message / handle_stop_request_reply / mark_federate_requesting_stop / broadcast_stop_time_to_federates_locked", "core/federated/RTI/rti_remote.c")],
  ["bytes written to federate sockets"])

p("P26", "All federates receive the same start time, later than every proposal",
  "Every federate is sent the same start time, which is the maximum of the times all federates proposed plus the fixed startup delay, and no federate is sent a start time before all have proposed. The reply is exactly the documented timestamp message.",
  ["inputs", "schedules"], "all proposals (64-bit) and arrival orders within the stated number of federates",
  "no test runs the startup protocol.", ["core/federated/RTI/rti_remote.c"], [("handle_timestamp", "core/federated/RTI/rti_remote.c")], ["bytes written to federate sockets"])

p("P27", "The coordinator forwards messages byte-exact, in order, and remembers them",
  "A tagged message or port-absent notice reaches exactly its destination federate byte for byte, whatever its length relative to the internal buffer, if that federate is connected, and is consumed without desynchronising the sender's stream otherwise. Until the destination reports completing its tag, the message bounds what the coordinator believes the destination's next event may be.",
  ["inputs", "histories"], "all header contents, payload lengths within the stated bound and destination states",
  "no test forwards a message; chunking corners need particular lengths.",
  ["core/federated/RTI/rti_remote.c"], [("handle_timed_message / handle_port_absent_message / handle_latest_tag_confirmed / update_federate_next_event_tag_locked", "core/federated/RTI/rti_remote.c")],
  ["bytes read from the source and written to the destination socket", "in-transit records"])

p("P28", "Only legitimate, distinct federates of this federation are admitted",
  "The coordinator accepts a joining federate only if it presents the coordinator's exact federation identifier and an in-range federate number that is not already in use, and otherwise answers with the documented reject code and closes. An accepted federate is acknowledged and counted as connected once.",
  ["inputs"], "all join messages within the stated identifier length and federate count",
  "no test joins a federation; malformed joins are never tried.",
  ["core/federated/RTI/rti_remote.c"], [("receive_and_check_fed_id_message / send_reject", "core/federated/RTI/rti_remote.c")], ["bytes sent back", "federate state"])

p("P29", "Wire encodings round-trip and are little-endian on the wire",
  "Every integer, time, tag, message header and stop message that the runtime encodes is decoded by the receiving side to the same values, occupies exactly its documented size and byte order, and encoding or decoding touches no byte outside it.",
  ["inputs"], "all field values, no bound",
  "no unit test encodes anything; byte-order and sign-extension slips show only at particular values.",
  ["core/federated/network/net_util.c", "include/core/federated/network/net_common.h"],
  [("encode_*/extract_*", "core/federated/network/net_util.c"), ("ENCODE_STOP_*", "include/core/federated/network/net_common.h")], ["buffer contents and decoded values"])

p("P30", "Socket transfers move every byte despite partial I/O and interruptions",
  "Reading or writing a fixed number of bytes transfers exactly those bytes in order when it reports success, whatever short transfers and transient would-block/interrupt errors the operating system returns, and never touches memory outside the caller's buffer. End of file or a permanent error is always reported, and the closing variants close the socket exactly once and mark it invalid.",
  ["fault_sequences"], "all sequences of short transfers, transient errors, permanent errors and end-of-file within the stated number of calls",
  "no test injects partial I/O.", ["core/federated/network/net_util.c"],
  [("read_from_socket / write_to_socket and variants", "core/federated/network/net_util.c")], ["bytes transferred, return value, descriptor state"])

p("P31", "A centralized federate never advances past its latest grant",
  "Before starting a tag, a federate with upstream federates that its coordinator controls announces its next event and proceeds only to a tag not exceeding its latest (provisional) grant, or to the announced tag; grants received are monotone and take effect for waiting threads. Completed tags are reported at most once each, in increasing order, and only once actually completed.",
  ["histories", "schedules"], "all sequences of grants and next-event queries within the stated length, arbitrary tags and physical times",
  "no test runs a federate.", ["core/federated/federate.c"],
  [("lf_send_next_event_tag / handle_tag_advance_grant / handle_provisional_tag_advance_grant / lf_latest_tag_confirmed", "core/federated/federate.c")],
  ["messages sent to the coordinator", "returned tag"])

p("P32", "Input-port status advances monotonically and unblocks only what is known",
  "The tag up to which a network input's status is known never decreases, and the level up to which reactions may execute is exactly the least level of a network input whose status at the current tag is still unknown. A reaction that depends on a network input with unknown status is not started.",
  ["histories", "schedules"], "all status updates and port states within the stated number of ports, arbitrary tags and levels",
  "no test runs a federate.", ["core/federated/federate.c"],
  [("lf_update_max_level / update_last_known_status_on_input_port(s) / lf_stall_advance_level_federation_locked", "core/federated/federate.c")],
  ["maximum level allowed to advance", "last known status tags"])

p("P33", "A network message takes effect at its intended tag or is recorded as tardy",
  "A message received from another federate triggers its input at exactly its intended tag when that tag is still in the future, immediately when it is the current tag and its input is still awaited, and otherwise at a later microstep with the intended tag recorded as tardy; the payload delivered is byte-exact. A message after the stop tag is discarded.",
  ["inputs", "schedules"], "all current, stop and intended tags, payloads up to the stated length",
  "no test delivers a network message.", ["core/federated/federate.c"],
  [("handle_tagged_message / handle_message_now / schedule_message_received_from_network_locked", "core/federated/federate.c")],
  ["event queue and port state after delivery"])

p("P34", "Outgoing network messages carry the delayed tag and never exceed the stop tag",
  "A message or port-absent notice that a federate sends carries the current tag delayed by the connection's delay, the correct destination port, federate and length, followed by the payload bytes, and goes to the peer's socket or the coordinator as configured. A message whose tag would lie after the stop tag is not sent and the caller is told so.",
  ["inputs"], "all tags, delays, identifiers and payloads up to the stated length",
  "no test sends a network message.", ["core/federated/federate.c"],
  [("lf_send_tagged_message / lf_send_port_absent_to_federate / lf_send_message", "core/federated/federate.c")], ["bytes written to the socket"])

p("P35", "A federate honours the federation's stop protocol",
  "On a stop request a federate answers once with a tag that is not earlier than the request nor any tag it has reached, does not advance past that tag until the stop is granted, and then stops exactly at the granted tag unless that tag has passed, in which case it stops at the next microstep. A locally originated stop request is sent at most once and proposes a future tag.",
  ["histories", "schedules"], "all current and requested tags and orders of the stop messages within the stated length",
  "no test runs the stop protocol.", ["core/federated/federate.c", "core/threaded/reactor_threaded.c"],
  [("handle_stop_request_message / handle_stop_granted_message / lf_send_stop_request_to_rti", "core/federated/federate.c"), ("lf_request_stop", "core/threaded/reactor_threaded.c")],
  ["bytes sent to the coordinator", "stop tag and barrier"])

p("P36", "The runtime clock never runs backwards",
  "Successive readings of the runtime's physical clock never decrease, whatever the operating-system clock and the clock-synchronization offset do, and a failing system clock is reported rather than passed on as a time. A wait until a physical time converts the deadline with the same offset in the opposite direction.",
  ["inputs", "histories"], "all sequences of system-clock readings and offset changes within the stated length",
  "tests read the real clock, which does not jump.", ["core/clock.c", "core/federated/clock-sync.c"],
  [("lf_clock_gettime / lf_clock_cond_timedwait / lf_clock_interruptable_sleep_until_locked", "core/clock.c"), ("clock_sync_add_offset / clock_sync_subtract_offset", "core/federated/clock-sync.c")], ["returned times"])

p("P37", "Clock-sync rounds correct the offset from genuine round trips only",
  "Clock synchronization computes the clock error of a round from its four timestamps as half the difference of the two one-way delays, ignores a round whose coded probe was delayed beyond the guard interval, and adjusts the offset only by the averaged, attenuated error after the configured number of rounds. Initial synchronization sets the offset so that the averaged error becomes zero.",
  ["inputs", "histories"], "all timestamps within the stated ranges and rounds",
  "no test runs clock synchronization.", ["core/federated/clock-sync.c"],
  [("handle_T1_clock_sync_message / handle_T4_clock_sync_message", "core/federated/clock-sync.c")], ["resulting clock offset"])

p("P38", "Only active modes execute, and re-entry continues or resets as declared",
  "A reaction, timer or action inside a mode has effect only while that mode and all enclosing modes are active; on leaving a mode its pending events are suspended, and on re-entry by a history transition each resumes with the delay it had left, while a reset transition discards them, restarts its timers from the entry time and resets nested modes. A mode change takes effect at the next microstep, startup reactions in a mode run at its first entry only, and shutdown reactions only in modes that were entered.",
  ["programs", "histories"], "all small mode structures, transitions and pending events within the stated bounds",
  "no test builds a modal model.", ["core/modal_models/modes.c"],
  [("_lf_process_mode_changes / _lf_mode_is_active / _lf_handle_mode_*_reset", "core/modal_models/modes.c")], ["active modes, event queue after a mode change"])

p("P39", "A watchdog's handler runs exactly when it expires un-renewed",
  "A watchdog started at logical time t with a timeout expires at t + its minimum timeout + the given extra timeout, unless it is stopped or restarted first; its handler runs once for each expiry, never before the expiration time, and never after it was stopped or terminated. Stopping, restarting and terminating take effect in every order relative to the watchdog's thread.",
  ["schedules"], "all interleavings of the watchdog thread's waits with start/stop/terminate calls within the stated number of steps",
  "no test uses a watchdog; its behaviour depends on thread interleaving.", ["core/threaded/watchdog.c"],
  [("watchdog_thread_main / lf_watchdog_start / lf_watchdog_stop", "core/threaded/watchdog.c")], ["handler invocations"])

p("P40", "Trace files contain every recorded event once, intact",
  "Every trace event recorded by a thread appears in the trace file exactly once, unmodified and in the recording thread's order, preceded by one header with the registered object table, however often the buffers fill, unless file access fails. After a file failure or after tracing stops nothing is written and no memory is corrupted.",
  ["histories", "fault_sequences"], "all sequences of events, registrations and flush points within the stated (reduced) buffer capacity",
  "no test enables tracing.", ["trace/impl/src/trace_impl.c"],
  [("lf_tracing_tracepoint / flush_trace / stop_trace", "trace/impl/src/trace_impl.c")], ["bytes passed to the file layer"])

p("P41", "Command-line options configure exactly what they say",
  "Parsing a program's command line sets the timeout to the given number times its unit, and the fast, keepalive, worker-count, federation identifier and coordinator address options to the given values, and leaves other settings unchanged; likewise the coordinator's command line for the federation identifier, number of federates, port, clock synchronization and tracing options. Unknown options, missing arguments, unknown units and timeouts, numbers of federates or ports that are not numbers or out of range are rejected instead of running with a wrong setting (an invalid boolean leaves the setting as it was, an invalid number of workers means one). The order of the options does not matter.",
  ["inputs"], "all argument vectors within the stated length over symbolic option values",
  "tests pass one fixed argument list.", ["core/reactor_common.c", "core/federated/RTI/main.c"], [("process_args", "core/reactor_common.c, core/federated/RTI/main.c")], ["duration, fast, keepalive, worker count after parsing; the coordinator's settings"])

p("P42", "Enclaves coordinate through the same safe grants",
  "An enclave advances to a tag only when the local coordinator's grant logic says that no other enclave can still send it a message at or before that tag, and a next-event query returns a tag not after the requested one unless it was granted more. Completed-tag reports wake exactly the enclaves that may proceed.",
  ["configurations", "schedules"], "all topologies, delays and tags within the stated number of enclaves",
  "no test builds enclaves.", ["core/federated/RTI/rti_local.c", "core/federated/RTI/rti_common.c"],
  [("rti_next_event_tag_locked / rti_logical_tag_complete_locked", "core/federated/RTI/rti_local.c")], ["returned tag"])

p("P43", "A departed federate no longer holds anyone back",
  "When a federate resigns or its connection is lost, the coordinator treats its future output as absent for ever: its downstream federates' grants are re-evaluated and no longer wait for it, nothing further is sent to it, and its socket is closed. Other federates' state is unaffected.",
  ["fault_sequences"], "all federate states and topologies within the stated number of federates at the point of departure",
  "no test disconnects a federate.", ["core/federated/RTI/rti_remote.c"], [("handle_federate_resign / handle_federate_failed", "core/federated/RTI/rti_remote.c")], ["grants issued and socket state after departure"])

p("P44", "Neighbour descriptions are parsed faithfully and never overrun memory",
  "The connectivity a federate sends when joining (its upstream federates with delays and its downstream federates) is stored exactly as sent, for every count it can hold, and malformed or truncated descriptions are rejected without corrupting memory.",
  ["inputs", "fault_sequences"], "all neighbour lists within the stated counts, arbitrary identifiers and delays, truncation anywhere",
  "no test joins a federation.", ["core/federated/RTI/rti_remote.c", "core/federated/federate.c"], [("receive_connection_information", "core/federated/RTI/rti_remote.c")], ["stored neighbour tables"])

p("P45", "Address queries return what was advertised",
  "A federate asking for another's address receives the port that federate last advertised (or -1 while unknown) together with its recorded IP address, in the documented reply format, and an advertisement changes only the advertiser's entry.",
  ["inputs", "histories"], "all identifiers, ports and addresses within the stated number of federates",
  "no test runs the coordinator.", ["core/federated/RTI/rti_remote.c"], [("handle_address_query / handle_address_ad", "core/federated/RTI/rti_remote.c")], ["bytes sent in the reply"])

p("P46", "Peers accept connections only from the intended federation",
  "A federate accepting a peer connection acknowledges it only if the first message carries the documented connection type, an in-range federate number and its own exact federation identifier, and otherwise rejects and closes it without recording the peer.",
  ["inputs"], "all handshake messages within the stated identifier length",
  "no test connects peers.", ["core/federated/federate.c"], [("lf_handle_p2p_connections_from_federates", "core/federated/federate.c")], ["bytes sent back", "recorded sockets"])

p("P47", "Execution is race-free and live under real thread schedules and memory ordering",
  "With any number of worker, network and user threads under the real memory model, executions are free of data races and never deadlock or lose wake-ups, and produce the same logical results as a sequential execution.",
  ["schedules"], "all thread schedules and weak-memory behaviours of the full threaded runtime",
  "tests run a handful of schedules.", ["core/threaded/reactor_threaded.c", "core/threaded/scheduler_NP.c", "low_level_platform/impl/src/lf_unix_clock_support.c"],
  [("mutexes, condition variables, atomics", "core/threaded/*.c")], ["whole program"])

p("P48", "Authenticated federates prove knowledge of the federation key",
  "With authentication enabled, a federate joins only if the message authentication tags it exchanges with the coordinator over both fresh nonces verify under the federation identifier, and any altered tag, nonce or identifier is rejected with the documented code.",
  ["inputs"], "all handshake contents, with the keyed hash as an uninterpreted function",
  "no test enables authentication.", ["core/federated/RTI/rti_remote.c", "core/federated/federate.c"], [("authenticate_federate / perform_hmac_authentication", "core/federated/RTI/rti_remote.c, core/federated/federate.c")], ["accept/reject decision and bytes exchanged"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))

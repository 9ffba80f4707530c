"""Per-property notes for DESIGN.md: the oracle, what is stubbed, why it reaches what tests cannot, cost."""
NOTES = {
"P01": "Complete over the 64-bit/32-bit domains, no loops. Oracle: 128-bit arithmetic written in the harness.",
"P02": "Complete; oracle: the definition of the delayed tag, plus monotonicity and tightness quantified over a second symbolic tag.",
"P03": "Division by constants is the cost; the human-readable format is decided by ranges. The oracle re-reads the produced text and reconstructs the number.",
"P04": "Element handles are opaque integers, priorities are small integers: the queue sees priorities only through the comparison, so every relative order of n elements is covered by values 0..n-1. Sequences of operations from the empty queue, plus one inductive step (insert, remove, pop) from an arbitrary valid heap.",
"P05": "As P04 with arbitrary tags; insert-if-absent, removal up to a tag, emptying one queue into another.",
"P06": "Vector against an array; realloc is modelled by a moving copy (harness/vp_realloc.h).",
"P07": "Hash set and map against a set/map of the operations so far; the prime-modulus hash is left as is, items arbitrary.",
"P08": "Deque against an array, memory leaks and use after free checked.",
"P09": "Mixed-radix counters against positional arithmetic.",
"P10": "Channels written in any order with repetitions through `lf_set_present`, iterated with the public iterator, then a new tag starts; oracle: the set of written channels. qsort is a stub that sorts with the caller's comparison; the vector of sparse records is stubbed (P06).",
"P11": "One call of `lf_schedule_trigger` from an arbitrary event queue of up to the stated length, arbitrary trigger, tag, stop tag and clock; oracle: the formula of the statement computed with 128-bit saturation. One call from an arbitrary state is an inductive step over any history.",
"P12": "As P11 for triggers with a minimum spacing, arbitrary previous tag, pending or handled.",
"P15": "One inductive step: `next()` (and `_lf_do_step` inside it) from any state between two tags of a program with 3 reactions, 2 ports, 2 actions, arbitrary connections, arbitrary event queue. Oracle: the set and order of executed bodies predicted from the program; queue contents afterwards.",
"P16": "The same step decides stop and shutdown; `lf_request_stop`, `lf_set_stop_tag` and the initial tags separately.",
"P17": "First firing, then the inductive step from any pending firing to the next.",
"P18": "A chain of a reaction with deadline and its downstream reaction, immediate execution on and off; all deadlines, tags and clock readings.",
"P19": "Complete for non-negative deadlines and 16-bit levels.",
"P13": "Allocation, scheduling, delivery at a tag, copy-out, release and recycling of tokens, each as an operation from an arbitrary reference count; destructors and frees are counted by stubs. Oracle: one destruction per payload, exactly when the last reference goes.",
"P14": "lf_writable_copy on a token with an arbitrary reference count, with and without copy constructor.",
"P29": "Complete over the value domains: encode, decode, and the documented byte layout, on the real net_util functions.",
"P30": "read()/write() are stubs that return any short count, EINTR/EAGAIN or an error at every call; oracle: the bytes the stub handed out or took, in order.",
"P36": "Any raw readings and offsets; the compare-and-swap stub lets another thread's reading intervene before every attempt.",
"P37": "One T1, one T4 from any state of the window, and the listening loop over any four messages. The standard deviation is an arbitrary number (its only effect, rejecting a window, is allowed).",
"P24": "`is_in_zero_delay_cycle`/`update_min_delays_upstream` on a graph in which every ordered pair is connected with an arbitrary delay or FOREVER (= not connected), any nodes disconnected, two listing orders; oracle: Bellman-Ford over walks in the harness's own delay algebra.",
"P22": "Topology concrete per harness (chain, fork and join, ring, loop then sink, source then loop, full), everything else arbitrary: delays, next events, completed and granted tags, who has left, which grant writes fail. The write stub checks every grant sent against the harness's own fixpoint of 'the earliest tag at which each federate can still act'. One inductive step from any such state, for NET, LTC, the decision alone, and a PTAG with the grants it triggers upstream.",
"P23": "Same worlds. `h_progress`: everyone has reported, the one with the least next event can go on. `h_due_*`: after a report or completion, the real decision function, asked again for everyone downstream, has nothing left to give.",
"P25": "A history of 4 (thorough 5) steps by 3 federates - stop request, stop reply or loss of connection - driven through the real handlers, any federates gone from the start, each federate first in one harness. The write stub counts the stop grants per federate and compares their tag with the harness's own maximum over the proposals; at quiescence everyone who proposed must have been answered. Departures before, during and after the negotiation are included (this found the defect repaired by ef99741).",
"P26": "`handle_timestamp` of 3 (thorough 4) federates; each thread that blocks on the condition variable runs the remaining federates' handlers from inside the wait stub, so that a premature answer, a lost wake-up or a second value would be seen; optionally a spurious wake-up. Proposals are any non-negative times whose sum with the start delay does not overflow.",
"P27": "`handle_timed_message` / `handle_port_absent_message` with every header byte, length and destination state arbitrary; payloads up to 700 bytes (thorough 2500) against a 256-byte internal buffer. What is written must equal what was read, byte for byte (a symbolic index picks the byte), the sender's stream must be consumed exactly, and the destination's recorded next event must be the minimum. The destination may leave while the coordinator waits for its start time (found e4ef1b3). That the record survives until the destination completes the tag is decided by the LTC harness of P22/P23.",
"P28": "`lf_connect_to_federates` with a stub accept(), any bytes sent, cut short anywhere, replies that may fail, federation IDs of 0..3 characters of which the coordinator's is 3, numbers in use or out of range. Oracle: admitted iff the ID is exact, the number in range and free; else the documented code, the socket closed and the state unchanged (found 3833796, bb81be3).",
"P43": "From any state of 3 federates in a concrete topology one of them loses its connection, resigns or reports a failure. Afterwards it is not connected, its socket is closed (on loss), the others' records are untouched, and everyone downstream has been granted all that the harness's fixpoint without it allows (found ca2acf8).",
"P44": "The neighbour description after a valid identification, counts concrete per harness (including negative ones: 9621ec2), all identifiers and delays arbitrary, cut short anywhere; the stored tables must equal what was sent, and malformed or truncated ones end in a rejection with no table attached and no memory error (CBMC's pointer checks).",
"P45": "Histories of 3 (thorough 4) advertisements and queries by 3 federates with any ports and addresses, checked against a reference table; the reply's bytes are compared, and every other entry must be unchanged.",
"P48": "The coordinator's side runs inside the whole joining procedure (rti-auth configuration); the federate's side through `lf_connect_to_rti`. The keyed hash is a stub returning arbitrary tags and recording its key and input, the nonces are arbitrary. A federate joins iff both tags match, byte for byte, over the documented input under the federation identifier; anything else is answered with the documented code.",
"P41": "`process_args` (single-threaded and federated builds): every pair of options (quick: a covering sample of pairs), values arbitrary strings of at most 6 characters, cut short anywhere; and any single argument of at most 12 characters. Oracle: the harness's own reading of the usage text. Reading a number is the C library's (an arbitrary result per argument).",
}

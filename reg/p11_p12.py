SCHED = ["lib/schedule.c", "core/reactor_common.c", "core/tag.c", "@/model_q.c"]
BS = "all 64-bit times, delays, offsets and physical times, all microsteps below 2^31, 0..2 (thorough 3) pending events of this or another action"
H("P11", "h_schedule", "p11_schedule.c", "the event produced by one call, from any queue state", BS, 5, SCHED, quick_defs=["K=2", "QCAP=4"], thorough_defs=["K=3", "QCAP=5"], thorough_unwind=6, flags=["--signed-overflow-check"], san="address,undefined")
H("P11", "h_handle", "p11_schedule.c", "handles", BS, 5, SCHED)
H("P11", "h_null_trigger", "p11_schedule.c", "scheduling on no trigger", BS, 5, SCHED)
H("P12", "h_spacing", "p11_schedule.c", "the effect of one call on an action with a minimum spacing", BS, 5, SCHED, quick_defs=["K=2", "QCAP=4"], thorough_defs=["K=3", "QCAP=5"], thorough_unwind=6, flags=["--signed-overflow-check"], san="address,undefined")

SCHED = ["lib/schedule.c", "core/reactor_common.c", "core/tag.c", "@/model_q.c"]
MP = "4 channels (thorough 5), sparse capacity 0..2 (thorough 3), up to 5 (6) writes in any order with repetitions, sparse or dense, two tags"
for cap in (0, 1, 2):
    H("P10", "h_multiport", "p10_multiport.c", "set, iterate, advance; sparse capacity %d" % cap, MP, 8, ["core/port.c", "core/reactor.c", "core/reactor_common.c", "core/tag.c", "@/model_q.c"],
      defs=["W=4", "L=4", "CAP=%d" % cap], cost=3)
    H("P10", "h_multiport", "p10_multiport.c", "threaded runtime: set, iterate, advance; sparse capacity %d" % cap, MP, 8, ["core/port.c", "core/threaded/reactor_threaded.c", "core/reactor_common.c", "core/tag.c", "@/model_q.c"],
      defs=["W=4", "L=4", "CAP=%d" % cap], config="multi", cost=3)
H("P10", "h_multiport", "p10_multiport.c", "set, iterate, advance; wider", MP, 9, ["core/port.c", "core/reactor.c", "core/reactor_common.c", "core/tag.c", "@/model_q.c"],
      defs=["W=5", "L=6", "CAP=3"], tiers=("thorough",))
RT = ["core/reactor.c", "core/environment.c"] + SCHED
PB = "programs of 3 reactions with any indices, 2 ports, 2 actions triggering 0..2 reactions each, up to 1 shutdown reaction; 0..2 pending events at any future tags; any clock readings, stop tag, fast/keepalive settings"
RTS = [x for x in RT if x != "lib/schedule.c"]
OVF = dict(san="address,undefined")
for p in ("P15", "P16"):
    H(p, "h_step", "p15_step.c", "one call of next() from any state between steps", PB, 4, RTS, nomem=True, hunwind=12, defs=["K=2", "QCAP=4", "STUB_SCHED", "VPQ_CANON"], rec=1, cost=5)
    H(p, "h_step", "p15_step.c", "the same with immediate execution of the sole downstream reaction", PB, 4, RTS, nomem=True, hunwind=12, defs=["K=2", "QCAP=4", "STUB_SCHED", "VPQ_CANON", "DIRECT"], rec=2, cost=5)
H("P16", "h_request", "p15_step.c", "lf_request_stop from any state", PB, 5, RT)
H("P16", "h_set_stop", "p15_step.c", "setting the stop tag", "all tags", 5, RT)
H("P16", "h_init_tags", "p15_step.c", "initial tag and timeout", "all start times from 1970 on and all 64-bit timeouts", 5, RT, flags=["--signed-overflow-check"], **OVF)
H("P17", "h_timer_init", "p15_step.c", "first firing", "all offsets, periods, start and stop tags", 5, RT, flags=["--signed-overflow-check"], **OVF)
H("P17", "h_timer_step", "p15_step.c", "firing and rescheduling from any pending firing", "all periods, tags, stop tags and clock readings; any number of firings by induction", 4, RT, nomem=True, hunwind=12, defs=["QCAP=3"], flags=["--signed-overflow-check"], rec=1, **OVF)
H("P18", "h_deadline", "p15_step.c", "deadline versus clock, reaction and its downstream reaction", "all 64-bit deadlines, tags and clock readings", 4, RT, nomem=True, hunwind=12, defs=["QCAP=3", "VPQ_CANON"], flags=["--signed-overflow-check"], rec=1, **OVF)
H("P18", "h_deadline", "p15_step.c", "the same with immediate execution", "all 64-bit deadlines, tags and clock readings", 4, RT, nomem=True, hunwind=12, defs=["DIRECT", "QCAP=3", "VPQ_CANON"], flags=["--signed-overflow-check"], rec=2, **OVF)
H("P18", "h_check_deadline", "p15_step.c", "lf_check_deadline", "all 64-bit deadlines, tags and clock readings", 5, RT, flags=["--signed-overflow-check"], **OVF)
H("P19", "h_combine", "p15_step.c", "priorities of two reactions", "all non-negative deadlines, all 16-bit levels", 5, RT)

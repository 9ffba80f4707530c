RTI = ["core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c", "core/tag.c"]
TOP = "%d federates, every connection pattern incl. cycles, delays none or 0..3, any of them not connected, either listing order"
H("P24", "h_min_delays", "p24_delays.c", "minimum delays and cycle flags of any node", TOP % 3, 4, RTI, config="rti", hunwind=6, rec=3, defs=["N=3", "E=1"], cost=3)
H("P24", "h_min_delays", "p24_delays.c", "minimum delays and cycle flags of any node", TOP % 4, 5, RTI, config="rti", hunwind=6, rec=4, defs=["N=4", "E=1"], tiers=("thorough",), cost=3)
H("P24", "h_cache", "p24_delays.c", "caching and invalidation", TOP % 3, 4, RTI, config="rti", hunwind=6, rec=3, defs=["N=3", "E=0"])
def topo(*edges): return "TOPO=" + str(sum(1 << (3 * i + j) for i, j in edges))
FULL = topo((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1))
CHAIN = topo((0, 1), (1, 2))
G = dict(config="rti", hunwind=9, rec=3, nomem=True, cost=2, solver=["--sat-solver", "cadical"])
TOPOS = {"chain": topo((0, 1), (1, 2)), "ring": topo((0, 1), (1, 2), (2, 0)), "loop then sink": topo((0, 1), (1, 0), (1, 2)), "source then loop": topo((0, 1), (1, 2), (2, 1)), "fork and join": topo((0, 1), (1, 2), (0, 2)), "full": FULL}
ST = "3 federates, every delay none/0/1..3, any of them gone, any next-event, completed and granted tags (times within 16 ticks, microsteps 0..3, never, forever)"
Q, T = ("quick", "thorough"), ("thorough",)
quick_decide = {("chain", 2), ("ring", 0), ("loop then sink", 0), ("loop then sink", 2), ("source then loop", 1), ("fork and join", 2), ("full", 0)}
quick_ptag = {("ring", 0), ("loop then sink", 0), ("source then loop", 1)}
for n, t in TOPOS.items():
    for e in (0, 1, 2):
        if not (n in ("chain", "fork and join", "source then loop") and e == 0):
            H("P22", "h_decide", "p22_grant.c", "the grant decision for federate %d of a %s" % (e, n), ST, 4, RTI, defs=[t, "E=%d" % e], tiers=Q if (n, e) in quick_decide else T, **G)
        if n not in ("chain", "fork and join") and (n, e) not in (("source then loop", 0), ("loop then sink", 2)):
            H("P22", "h_ptag", "p22_grant.c", "a provisional grant to federate %d of a %s and the grants it triggers" % (e, n), ST, 4, RTI, defs=[t, "E=%d" % e], tiers=Q if (n, e) in quick_ptag else T, **G)
    H("P23", "h_progress", "p22_grant.c", "everyone in a %s has reported" % n, ST, 4, RTI, defs=[t], **G)
    if n in ("chain", "fork and join"):
        for e, w in (("h_net", "a next-event report, messages in transit, failing sockets"), ("h_ltc", "a completion, failing sockets")):
            H("P22", e, "p22_grant.c", "%s in a %s" % (w, n), ST, 4, RTI, defs=[t, "F=0"], **G)
        for e, w in (("h_due_net", "a next-event report"), ("h_due_ltc", "a completion")):
            for f in (0, 1): H("P23", e, "p22_grant.c", "%s from federate %d of a %s re-evaluates everyone affected" % (w, f, n), ST, 4, RTI, defs=[t, "F=%d" % f], **G)

Q, T = ("quick", "thorough"), ("thorough",)
RTI = ["core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c", "core/tag.c"]
IOD = ["read=vp_read", "close=vp_close", "shutdown=vp_shutdown"]
W = "3 federates, concrete sender and destination, any state of the destination, all header contents"
H("P27", "h_message", "p27_forward.c", "tagged messages", W + "; payloads of 0..700 bytes (thorough 2500), against an internal buffer of 256", 6, RTI, config="rti", hunwind=22, flags=["--max-field-sensitivity-array-size", "300"], thorough_defs=["LMAX=2500"], thorough_unwind=12)
H("P27", "h_absent", "p27_forward.c", "port-absent notices", W, 4, RTI, config="rti", hunwind=22)
for f in (0, 1, 2):
    H("P25", "h_stop", "p25_stop.c", "stop requests, replies and departures, federate %d asking first" % f, "3 federates, any of them gone from the start, every sequence of 4 (thorough 5) requests, replies and departures, tags within 8 times and 4 microsteps of a fixed one", 9, RTI, config="rti", hunwind=14, defs=IOD + ["FIRST=%d" % f],
      rec=1, nomem=True, cost=3, flags=["--max-field-sensitivity-array-size", "300", "--object-bits", "10"], thorough_defs=["K=5"])
for n, u, t in ((3, 0, Q), (3, 1, Q), (4, 2, T)):
    for r in (0, 1):
        H("P26", "h_start", "p26_start.c", "the start time, arriving in %s order%s" % ("descending" if r else "ascending", ", a spurious wake-up" if u else ""), "%d federates, any proposals, each thread waiting while the later ones run" % n, 5, RTI, config="rti", hunwind=10, rec=5, defs=["N=%d" % n, "REV=%d" % r, "SPUR=%d" % u], tiers=t)
H("P45", "h_address", "p45_address.c", "advertisements and queries", "3 federates, every sequence of 3 (thorough 4) messages, any ports and addresses", 4, RTI, config="rti", hunwind=10, thorough_defs=["K=4"])
TOPO = lambda *edges: "TOPO=" + str(sum(1 << (3 * i + j) for i, j in edges))
for n, t in (("chain", TOPO((0, 1), (1, 2))), ("fork and join", TOPO((0, 1), (1, 2), (0, 2))), ("ring", TOPO((0, 1), (1, 2), (2, 0))), ("loop then sink", TOPO((0, 1), (1, 0), (1, 2)))):
    for f in (0, 1):
        for w, x in enumerate(("loses its connection", "resigns", "reports a failure")):
            quick = (n == "chain" and f == 0) or (n == "fork and join" and f == 1 - w % 2) or (n == "ring" and f == 0 and w == 0)
            H("P43", "h_depart", "p22_grant.c", "federate %d of a %s %s" % (f, n, x), "3 federates, every delay none/0/1..3, any of them gone, any next-event, completed and granted tags (times within 16 ticks, microsteps 0..3, never, forever)", 4, RTI, config="rti", hunwind=9, rec=3, nomem=True, cost=2,
              solver=["--sat-solver", "cadical"], defs=IOD + [t, "F=%d" % f, "W=%d" % w], tiers=Q if quick else T)
J = dict(config="rti", hunwind=62, flags=["--max-field-sensitivity-array-size", "300"])
JD = IOD + ["accept=vp_accept", "strnlen=vp_strnlen"]
for i, r in ((0, 3), (0, 0), (0, 2), (0, 4), (1, 3), (3, 3)):
    H("P28", "h_join", "p28_join.c", "an attempt to join as %s with %d characters of a federation ID" % ("federate %d" % i if i < 3 else "a federate out of range", r), "3 federates, any of them connected; federation IDs of 0..3 characters; every byte of every message arbitrary; cut short anywhere; replies may fail", 6, RTI, defs=JD + ["VP_JOIN=1", "ID=%d" % i, "RL=%d" % r], **J)
for u, d, t in ((0, 0, Q), (0, 2, Q), (2, 0, Q), (2, 1, Q), (4, 4, T)):
    H("P44", "h_neighbours", "p28_join.c", "%d upstream and %d downstream federates" % (u, d), "all identifiers and delays, cut short anywhere", 10, RTI, solver=["--sat-solver", "cadical"], defs=JD + ["VP_STORED=1", "N=1", "VERDICT=stored", "NU=%d" % u, "ND=%d" % d], tiers=t, **J)
for u, d in ((-1, 6), (3, -15), (-2, 0), (-2147483648, 1)):
    H("P44", "h_neighbours", "p28_join.c", "%d upstream and %d downstream federates, which is malformed" % (u, d), "anything sent after the counts, cut short anywhere", 10, RTI, defs=JD + ["VP_REFUSED=1", "VERDICT=refused", "NU=(%d)" % u, "ND=(%d)" % d, "BODY=16"], **J)
H("P48", "h_auth", "p28_join.c", "the coordinator's side of the handshake", "all handshake contents; the keyed hash returns arbitrary tags", 6, RTI, solver=["--sat-solver", "cadical"], defs=JD + ["memcmp=vp_memcmp", "AUTH=1", "NFED=1", "VERDICT=authenticated"], **{**J, "config": "rti-auth"})

for e, w in (("h_ints", "integers"), ("h_tag", "tags"), ("h_header", "message headers"), ("h_stop_messages", "stop messages")):
    H("P29", e, "p29_wire.c", w, "all values, any alignment (complete)", 25, ["core/federated/network/net_util.c"], config="rti")
IOD = ["read=vp_read", "write=vp_write", "close=vp_close", "shutdown=vp_shutdown"]
for e in ("h_read", "h_write", "h_read_fail", "h_write_fail"):
    H("P30", e, "p30_socket.c", e[2:].replace("_", ", ") + " variants", "transfers of 0..4 (thorough 8) bytes, any splitting, up to 2 (thorough 4) transient errors, any errno", 8, ["core/federated/network/net_util.c"], config="rti",
      defs=IOD, thorough_defs=["N=8", "TR=4"], thorough_unwind=14)

H("P36", "h_monotone", "p36_clock.c", "three readings with arbitrary system clock, offsets, failures and concurrent readers", "system times 0..2^61, offsets within +-2^61, up to 2 interferences per reading; any number of readings by induction on the last value", 5, ["core/clock.c", "core/federated/clock-sync.c", "core/tag.c"], config="fedc")
H("P36", "h_wait", "p36_clock.c", "waiting until a time", "all wake-up times, offsets within +-2^61", 5, ["core/clock.c", "core/federated/clock-sync.c", "core/tag.c"], config="fedc")
SY = dict(config="fedc", quick_defs=["LBITS=34"], thorough_defs=["LBITS=60"], defs=["SYNC", "_LF_CLOCK_SYNC_EXCHANGES_PER_INTERVAL=2", "_LF_CLOCK_SYNC_ATTENUATION=4", "recvfrom=vp_recvfrom", "connect=vp_connect"])
SYB = "times 0..2^34 (thorough 2^60), window of 2 rounds, attenuation 4 (both configurable), any state of the window"
H("P37", "h_t4", "p36_clock.c", "one T4 message from any state", SYB, 10, ["core/federated/clock-sync.c"], **SY)
H("P37", "h_t1", "p36_clock.c", "one T1 message", SYB, 10, ["core/federated/clock-sync.c"], **SY)
H("P37", "h_listen", "p36_clock.c", "the listening thread", "up to 4 messages of any type, replies that fail", 10, ["core/federated/clock-sync.c"], **SY)

A = dict(hunwind=20, defs=["atoll=vp_atoll", "atoi=vp_atoi", "printf=vp_printf"])
H("P41", "h_any", "p41_args.c", "the command line of a program: any argument", "one argument of at most 12 characters", 14, ["core/reactor_common.c"], **A)
OPTS = ["-f", "--fast", "-k", "--keepalive", "-w", "--workers", "-o", "--timeout", "-timeout", "--ros-args", "-i", "--id", "-r", "--rti"]
for a, o in enumerate(OPTS):
    for b, o2 in enumerate(OPTS):
        quick = b == (3 * a + 4) % (14 if a > 9 else 10)
        H("P41", "h_known", "p41_args.c", "the command line of a program: %s followed by %s, cut short anywhere" % (o, o2), "values of at most 6 characters, numbers up to 99", 14, ["core/reactor_common.c"], config="fedc" if a > 9 or b > 9 else "single",
          **{**A, "defs": A["defs"] + ["OPT1=%d" % a, "OPT2=%d" % b]}, tiers=("quick", "thorough") if quick else ("thorough",))

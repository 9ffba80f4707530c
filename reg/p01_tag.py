for e, w in [("h_tag_order", "lf_tag_compare is the lexicographic total order"), ("h_time_add", "lf_time_add exact or saturating"), ("h_tag_add", "lf_tag_add exact or saturating")]:
    H("P01", e, "p01_tag.c", w, "all 64-bit times and 32-bit microsteps (complete)", 2, ["core/tag.c"], flags=["--signed-overflow-check"], san="address,undefined")
for e, w in [("h_delay_value", "lf_delay_tag value"), ("h_delay_monotone", "lf_delay_tag monotone"), ("h_strict_bound", "lf_delay_strict is a strict lower bound of later messages"), ("h_strict_tight", "lf_delay_strict is the greatest such bound")]:
    H("P02", e, "p02_delay.c", w, "all 64-bit times and intervals, microsteps below 2^32-1 (complete)", 2, ["core/tag.c"], flags=["--signed-overflow-check"], san="address,undefined")
ASSUMPTIONS["P02"] = ["microstep 2^32-1 at a finite time does not occur (documented limitation: microsteps wrap)"]

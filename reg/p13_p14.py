TKB = "any consistent state of 3 tokens and up to 2 writable copies, 2 templates, up to 2 event references per token, recycling bin empty or at its limit; any history by induction"
for e, w in (("h_done_using", "releasing a reference"), ("h_replace_template", "setting a token on a port or action"), ("h_set_value", "setting a value on a port or action"),
             ("h_new_token", "a new token"), ("h_free_copies", "end of tag"), ("h_initialize_template", "initializing a template")):
    H("P13", e, "p13_token.c", w, TKB, 9, ["core/lf_token.c"], defs=["free=vp_free"])
H("P13", "h_free_all", "p13_token.c", "end of the program", TKB, 9, ["core/lf_token.c"], defs=["free=vp_free"])
H("P14", "h_writable_copy", "p13_token.c", "writable copy, modification, end of tag", "payloads of up to 2 elements of 0..3 (thorough 6) bytes, any contents, reference counts 1..3, 1..3 destinations, custom and default copying", 14, ["core/lf_token.c"], defs=["free=vp_free"], thorough_defs=["EL=6"])
H("P13", "h_deliver", "p13_token.c", "delivering an event with a payload", TKB, 9, ["core/lf_token.c", "core/reactor_common.c", "core/tag.c", "@/model_q.c"], defs=["free=vp_free", "DELIVER"])

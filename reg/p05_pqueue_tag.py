TQ = ["core/utils/pqueue_base.c", "core/utils/pqueue_tag.c", "core/tag.c"]
B5 = "%d queued elements, every relative order of tags incl. ties, never and forever"
H("P05", "h_tq_sort", "p05_pqueue_tag.c", "insert and drain", B5 % 4, 7, TQ, cost=3)
H("P05", "h_tq_remove", "p05_pqueue_tag.c", "remove any element", B5 % 4, 7, TQ, cost=3)
H("P05", "h_tq_find", "p05_pqueue_tag.c", "lookup by tag and by match", B5 % 4, 7, TQ)
H("P05", "h_tq_remove_up_to", "p05_pqueue_tag.c", "remove up to an arbitrary tag", B5 % 4, 7, TQ)
H("P05", "h_tq_insert_if_absent", "p05_pqueue_tag.c", "insert-if-absent sequences", B5 % 3, 7, TQ, defs=["N=3"])
for k in (1, 2, 3):
    H("P05", "h_tq_empty_into", "p05_pqueue_tag.c", "emptying one queue into another (%d + %d elements)" % (k, 4 - k), B5 % 4, 7, TQ, defs=["SPLIT=%d" % k])
ASSUMPTIONS["P05"] = ["the queue sees tags only through comparison, so small times/microsteps plus the infinite tags cover every order"]

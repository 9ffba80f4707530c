PQ = ["core/utils/pqueue_base.c", "core/utils/pqueue.c"]
H("P04", "h_pq_sort", "p04_pqueue.c", "inserting N arbitrary priorities and draining", "6 (thorough 7) elements, every relative order of priorities, growth from capacity 2", 9, PQ, quick_defs=["N=6", "CAP=2"], thorough_defs=["N=7", "CAP=2"], cost=3)
H("P04", "h_pq_remove", "p04_pqueue.c", "removing any element of a full queue, then draining", "6 elements", 9, PQ, quick_defs=["N=6", "CAP=2"], thorough_defs=["N=7", "CAP=2"], cost=3)
H("P04", "h_pq_ops", "p04_pqueue.c", "arbitrary operations, then draining", "4 elements preloaded of 5, 2 (thorough 3) arbitrary operations", 9, PQ, quick_defs=["N=5", "S=2", "CAP=8", "VP_NO_GROWTH"], thorough_defs=["N=5", "S=3", "CAP=8"], cost=4)
H("P04", "h_pq_reaction_callbacks", "p04_pqueue.c", "the runtime's own comparison and position callbacks", "all 64-bit priorities", 2, PQ, defs=["N=2", "CAP=1"])
H("P04", "h_pq_find", "p04_pqueue.c", "lookup by priority and by match", "5 queued elements of 6", 9, PQ, defs=["N=6", "CAP=2", "SIZE=5"], cost=3)
for e in ("remove", "pop", "insert"):
    H("P04", "h_pq_step_" + e, "p04_pqueue.c", "%s on an arbitrary valid heap (inductive step)" % e, "any heap of up to 14 (thorough 30) elements, every relative order of priorities; any history by induction", 6, PQ,
      hunwind=33, quick_defs=["N=14", "CAP=16"], thorough_defs=["N=30", "CAP=32"], thorough_unwind=7, cost=3)

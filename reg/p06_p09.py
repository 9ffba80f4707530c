for e, w in [("h_vec_push", "a push onto any state"), ("h_vec_pushall", "a bulk push of 0..4 onto any state"), ("h_vec_at", "indexed reads and writes up to 4 past the capacity"), ("h_vec_shrink", "voluntary shrinking")]:
    for c in (1, 2, 3, 4) if e != "h_vec_shrink" else (4,):
        H("P06", e, "p06_vector.c", w + ", then draining", "capacity 2 and 4 (thorough 1..4), every size, contents, voting state (one inductive step from an arbitrary state)", 18, [], defs=["C0=%d" % c, "MAXC=%d" % (16 if c > 2 else 12)], tiers=("quick", "thorough") if c in (2, 4) else ("thorough",))
H("P08", "h_deque", "p08_deque.c", "operation sequences, then draining", "6 (thorough 9) operations", 12, [], quick_defs=["S=6"], thorough_defs=["S=9"], flags=["--memory-leak-check"])
H("P09", "h_incr", "p09_mixed.c", "increment is the successor function of the permuted order", "3 digits, radixes up to 4, every permutation", 6, [], flags=["--signed-overflow-check"])
H("P09", "h_value", "p09_mixed.c", "positional value", "3 digits, radixes up to 6", 6, [], flags=["--signed-overflow-check"])
H("P07", "h_set_ops", "p07_hash.c", "operation sequences from the empty set", "3 (thorough 4) operations over 16 colliding items, initial capacity 4", 9, [], quick_defs=["S=3"], thorough_defs=["S=4"], cost=4)
H("P07", "h_set_any", "p07_hash.c", "one operation from any well-formed table, resizing included", "capacity 4 (8 after resizing), every arrangement of items, deleted and empty slots, 16 colliding items", 9, [], cost=3)
H("P07", "h_set_iterate", "p07_hash.c", "iteration over any well-formed table", "capacity 8, every arrangement", 9, [], defs=["BITS=3"], cost=3)
H("P07", "h_map", "p07_hash.c", "put/get sequences under an arbitrary hash function", "capacity 3, 4 puts over 4 keys", 5, [])
H("P07", "h_map_pointers", "p07_hash.c", "the pointer map instantiation", "capacity 3, 3 keys", 5, [])

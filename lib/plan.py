"""Scenarios (what is symbolic, within which bounds) and the scenarios that decide each property."""

SCEN = {}


def S(name, bound, covers=(1,), parts=1, cost=1, thorough_opts=()):
    SCEN[name] = dict(bound=bound, covers=list(covers), parts=parts, cost=cost, thorough_opts=list(thorough_opts))


# ---------------------------------------------------------------- permutation words
for w in (24, 15, 7, 3):
    n = f"h_p{w}"
    S(n + "_get", f"width {w}: every 64/128-bit word with a size up to {w}; every position")
    S(n + "_mk", f"width {w}: empty and sorted permutations of every size", [1, 2])
    S(n + "_ins", f"width {w}: every permutation word (all slots distinct), every size and position", cost=5)
    S(n + "_rem", f"width {w}: every permutation word, every size and position", cost=23)
    S(n + "_rtb", f"width {w}: every permutation word, every size and position (remove to back)", [1, 2], cost=3)
    S(n + "_re", f"width {w}: every permutation word; exchange, rotate, size changes, swaps, combined moves",
      [1, 2, 3, 4, 5], parts=5)
S("h_freeze_word", "every 128-bit word")
S("h_atomic_perm", "every stored/expected/new word", [1, 2])
# ---------------------------------------------------------------- node lock and version
S("h_ver_flags", "every 32-bit version word")
S("h_ver_many", "every starting word, 200 critical sections one after another in three mixes of marks", [1])
S("h_ver_section", "every starting word of a leaf or internode, every kind of change", [1, 2, 3])
S("h_ver_newborn", "every starting word")
S("h_lock_excl", "two threads, at most 3 preemptions (thorough 5), lock and try-lock with and without timeout", [1, 2],
  thorough_opts=["--preempt", "5"])
S("h_lock_wait", "a held and a free lock, limits of 0, 1 and 2.5 ms on the scenario clock")
S("h_ver_optread", "one writer (two sections), one reader, every interleaving", [1, 2])
S("h_ver_stable", "one writer, one reader, every interleaving", [1, 2])
# ---------------------------------------------------------------- keys, suffixes, searches
S("h_key_slices", "keys of every length 0..=24 and any bytes, every shift", [1, 2])
S("h_key_order", "two keys up to 10 bytes, any bytes", [1, 2])
S("h_key_limit", "every length up to 300", [1, 2])
S("h_suffix_bag", "3 operations (assign, clear, compact) on 3 slots, suffixes up to 40 bytes", [1, 2, 3], parts=3, cost=10)
S("h_suffix_big", "24 suffixes of up to 9000 bytes (first and last byte of each any), clear, compact, clone", parts=4)
S("h_suffix_cmp", "stored and searched suffixes up to 9 bytes, any bytes")
S("h_bound_by", "leaf-like arrays of 0..15 sorted entries with any slices and length classes, any target", [1, 2], parts=16,
  cost=15)
S("h_simd", "any arrays, any target, every instruction-set level (scalar, SSE, AVX2)", [1, 2, 3], parts=3)
S("h_simd_leaf", "any 24 slices, any target, every instruction-set level", parts=3)
# ---------------------------------------------------------------- nodes
S("h_leaf_split", "leaves of 2,3,4,9,23,24 entries, any non-descending slices, 3 slot layouts, any split hint", [1, 2],
  parts=6, cost=18)
S("h_leaf_all_right", "leaves of 1, 9, 24 entries, any slices, 3 slot layouts")
S("h_leaf_freeze", "permutations of every size", [1, 2, 3])
S("h_freeze_needs_lock", "unlocked leaf; locked leaf without announced split", [1, 2])
S("h_leaf_cas", "any stored, expected and new word; any slot", [1, 2])
S("h_link", "three leaves; any pointer word")
S("h_link_race", "two threads link at one leaf, at most 4 preemptions (thorough 8)", [1, 2], thorough_opts=["--preempt", "8"])
S("h_inode_insert", "internodes of width 1, 3, 8, 15 with any keys, every position", cost=2)
S("h_inode_split", "full internode of width 3, 5, 8, 15 with any keys, every insert position", cost=2)
S("h_inode_slots", "internodes of 0..15 keys of any value; every place replaced; runs copied to 3 places", [1, 2, 3], cost=2)
S("h_inode_split_parents", "full internode of internodes (width 3, 8, 15), every insert position")
S("h_inode_route", "internodes of 0..15 strictly ascending keys of any value, any target", parts=16, cost=2)
S("h_leaf_slots", "every pair of slots, any values")
S("h_leaf_match", "any slices and length classes, stored and searched suffixes of 0, 2, 4 bytes, with and without storage", [1, 2])
S("h_leaf_suffix", "3 suffix operations and a compaction on 3 slots of a leaf, suffixes up to 40 bytes", [1, 2, 3], parts=3, cost=4)
# ---------------------------------------------------------------- whole map, one thread
S("h_split_any", "full leaf of 24 keys, one insert of any 8-byte key, one lookup of any 8-byte key", [1, 2, 3])
S("h_map3", "two inserts and a lookup, keys of 8 lengths up to 17, any bytes", [1, 2, 3], cost=5)
S("h_map4", "three inserts and a lookup, keys of 6 lengths up to 18, any bytes", [2, 3], parts=36, cost=4)
S("h_updates", "five inserts of any values over two keys of 5 lengths and any bytes", [1, 2], parts=5)
S("h_equal_group", "0..19 keys below, a run of 6 keys with one 8-byte prefix, keys above up to a full leaf; one insert of any "
  "4-, 8- or 12-byte key", [1, 2], parts=20, cost=3)
S("h_grow", "700 and 2900 inserts in 5 orders (three and four levels of nodes), lookup of any 8-byte key", [1, 2], parts=10, cost=15)
S("h_grow_any", "204-240 keys in 5 orders, one insert of any 8-byte key, every key looked up", [1, 2], parts=5, cost=4)
S("h_deep", "common prefixes of 8..232 bytes, tails of 5 lengths up to 17 and any bytes, three inserts, one lookup", [1, 2, 3],
  parts=6, cost=2)
S("h_longest", "keys of 255/256 bytes that differ in any value of one of 7 byte positions, updates, and a third key cut or "
  "changed in the middle", [1, 2], parts=7)
S("h_layer_grow", "30, 230, 900 or 2700 keys below one prefix in 3 orders, with and without suffix storage, lookup of any key below it",
  [1, 2], parts=9, cost=30)
S("h_layer_mix", "four keys with one 8-byte prefix and tails of 4 lengths up to 10, any bytes, and one shorter key",
  parts=16, cost=2)
S("h_tree_limit", "insert and lookup with every length 250..=300", [1, 2])
S("h_variants", "three inserts, three lookups in the three storage modes, keys of 4 lengths up to 12, any bytes and values",
  [1, 2, 3], parts=4)
S("h_val_types", "values (), u8, u128, (u8, u32), [u64; 3], Option<u64> of any content in the three maps; three inserts, keys of 3 lengths "
  "up to 11 and any bytes", parts=6)
S("h_slot_laws", "both value slots: any contents and pointer words, every conversion", parts=2)
S("h_drop_once", "three inserts, keys of 5 lengths up to 17 and any bytes; results kept or dropped", [1, 2, 3], parts=5)
S("h_guard_ref", "three keys of 5 lengths up to 26 (three slices), any bytes around the slice borders; inserts and updates of "
  "all of them while references to two are held", parts=5, cost=3)
S("h_teardown", "trees of 0..700 keys in 3 orders, with and without a common prefix, and one key of any bytes; both value modes",
  [1, 2], parts=10, cost=30)
S("h_alloc", "0..3 leaves, 0..2 internodes, allocated or adopted; at most one of each retired", [1, 2])
S("h_teardown_any", "three inserts of any keys of 6 lengths up to 25", [1, 2], parts=6, cost=2)
# ---------------------------------------------------------------- whole map, one writer and one reader, every interleaving
RW = "one writer, one reader, every interleaving (symbolic time per read); "
S("h_rw_insert", RW + "0..3 keys, writer inserts/updates any 8-byte key, reader looks up any 8-byte key", [1, 2, 3], parts=4)
S("h_rw_shapes", RW + "one key, one insert, one lookup, keys of 5 lengths up to 17 and any bytes", [], parts=25)
S("h_rw_sublayer", RW + "2 or 24 keys below one prefix, insert at every position, lookup of any key", [1, 2, 3], parts=4, cost=5)
S("h_rw_update", RW + "two updates with any values, two lookups, 4 shapes", [1, 2], parts=4)
S("h_rw_ref", RW + "two updates with any values, without or after a layer creation or a split of the key's leaf; reference and shared "
  "value read under one guard, the reference read again", [1, 2], parts=4)
S("h_rw_wide", "one writer, one reader, every interleaving and every weak-memory execution; two updates of a 24-byte value of any "
  "content, in both storage modes", parts=4)
S("h_rw_order", RW + "two inserts, two lookups, 0/3/23/24 keys, 9 position pairs", [1, 2], parts=4)
S("h_rw_layer", RW + "second key with the same 8-byte prefix and any 9th byte")
S("h_rw_empty", RW + "emptiness, length and a lookup against one insert that starts the map, fills a leaf, grows the root, creates a layer or splits the inner root", [1, 2], parts=5)
S("h_rw_reuse", RW + "2..4 inserts that split a full leaf of 12-byte keys and take the freed slots again, lookup of 5 keys", parts=5,
  cost=15)
S("h_rw_bag", RW + "1..4 inserts that grow the suffix storage of a leaf of up to 4 keys, suffixes up to 120 bytes with any last byte, "
  "lookup of any of the keys and of keys with another last byte", [1, 2], parts=4, cost=3)
S("h_rw_split", RW + "full leaf, insert at each of 25 positions, lookup of any present key", cost=6)
S("h_rw_split2", RW + "13 inserts that split one leaf twice, lookup of 4 keys", cost=3)
S("h_rw_inode", RW + "leaf split below an internode, full root internode, full lower internode, in the main tree and below a "
  "prefix (up to 700 keys), lookup of any present key, by value and by reference", parts=16, cost=40)
# ---------------------------------------------------------------- whole map, two writers
WW = "two writers, at most 2 preemptions (thorough 3); "
T3 = ["--preempt", "3"]
S("h_ww_leaf", WW + "0..2 keys, any two 8-byte keys", [1, 2], parts=3, cost=10, thorough_opts=T3)
S("h_ww_shapes", WW + "one key, two inserts, keys of 4 lengths up to 17, any bytes from the 8th on", [], parts=16, cost=30,
  thorough_opts=T3)
S("h_ww_split", WW + "two inserts around the next split (root leaf, leaf, root internode), in the main tree and below a prefix",
  parts=8, cost=12, thorough_opts=T3)
S("h_ww_bound", WW + "a full leaf and one insert that splits it, another of a key with the slice of an entry next to the boundary "
  "and another length", parts=6, cost=5, thorough_opts=T3)
S("h_ww_many", "one insert that splits a leaf (root leaf, leaf, root internode; main tree or below a prefix); at any one point of it "
  "the other thread makes 26 or 250 inserts above or below the same key or below all", parts=16, cost=15)
S("h_ww_drop", WW + "shared values with counted drops: same fresh key, same present key, two new layers, update against layer, "
  "split against update, main tree or below a prefix", parts=6, cost=20)
S("h_rw_drop", "a reader keeps a shared value with counted drops while a writer updates it, makes a layer of it or splits its leaf, every "
  "interleaving", parts=4)
S("h_rw_many", "one lookup of a present or absent key, by value or by reference (root leaf, leaf, root internode; main tree or "
  "below a prefix); at any one point of it a writer makes 26 inserts above or below the same key or below all", parts=8, cost=6)
S("h_rw_more", "one lookup of a present or absent key, by value or by reference (root leaf, leaf, root internode; main tree or "
  "below a prefix); at any one point of it a writer makes 250 inserts above or below the same key or below all", parts=8, cost=70)
S("h_ww_hops", "one insert of any key beyond 1622 others, in the main tree or below a prefix; at any one point of it the other "
  "thread makes 1620 inserts that split the same leaf over 128 times", parts=2, cost=70)
# ---------------------------------------------------------------- two writers and a reader
RWW = "two writers with at most 1 preemption at any store, one reader, every interleaving with both; "
T2 = ["--preempt", "2"]
S("h_rww_leaf", RWW + "0 or 1 keys, any two 8-byte keys written, any read", [1, 2], parts=4, cost=30)
S("h_rww_split", RWW + "full leaf in the main tree or below a prefix, two inserts at 3 position pairs, lookup of 5 of its keys", parts=6,
  cost=15)
S("h_rww_many", "a writer splits a full leaf (main tree or below a prefix); at any one store of it the other writer makes 14 inserts that "
  "split one of the halves again; one reader of 6 of the keys, by value or by reference, every interleaving with both", parts=8, cost=300)
S("h_rww_layer", RWW + "two keys that share the first slice of the present one, any 9th byte or none; lookup of the present or a new key",
  [1, 2], parts=2, cost=12)
S("h_rww_update", RWW + "two updates of one key of 3 shapes (thorough: 2 preemptions), two lookups", parts=3, cost=15, thorough_opts=T2)
# ---------------------------------------------------------------- weakly ordered processors
WM = "one writer, one reader, every execution the acquire/release orderings of the program allow; "
S("h_wm_insert", WM + "0..3 keys, writer inserts/updates any 8-byte key, reader looks up any 8-byte key, by value and by reference",
  [1, 2, 3], parts=4)
S("h_wm_shapes", WM + "one key, one insert, one lookup, keys of 5 lengths up to 17 and any bytes", [], parts=25)
S("h_wm_layer", WM + "second key with the same 8-byte prefix and any 9th byte")
S("h_wm_update", WM + "two updates with any values, two lookups, 4 shapes", parts=4)
S("h_wm_order", WM + "two inserts, two lookups, 0/3/23/24 keys, 9 position pairs", parts=4)
S("h_wm_split", WM + "full leaf, insert at 3 positions, lookup of any present key", cost=2)
S("h_wm_inode", WM + "leaf split below an internode, full root internode, full lower internode, main tree and below a prefix, lookup "
  "of any present key, by value and by reference", parts=12, cost=20)
S("h_wm_bag", WM + "inserts that grow the suffix storage of a leaf of up to 4 keys, suffixes up to 120 bytes with any last byte", [1, 2],
  parts=4, cost=3)
S("h_wm_reuse", WM + "3 inserts that split a full leaf of 12-byte keys and take the freed slots again, lookup of 5 keys", parts=5, cost=8)
S("h_wm_second", WM + "an insert into 0/3/23/24 keys, main tree or below a prefix, then an insert of any key by a thread that learns "
  "of the first only through the tree", parts=8, cost=2)
S("h_wm_version", WM + "two locked sections that write two unordered words (lock, yielding lock, try-lock), two validated reads",
  [1, 2])

SEQ = ["h_split_any", "h_map3", "h_map4", "h_updates", "h_equal_group", "h_grow", "h_grow_any", "h_deep", "h_longest",
       "h_layer_grow", "h_layer_mix"]
READ = ["h_rw_insert", "h_rw_shapes", "h_rw_sublayer", "h_rw_update", "h_rw_order", "h_rw_layer", "h_rw_split", "h_rw_split2", "h_rw_bag", "h_rw_reuse",
        "h_rw_inode"]
WRITE = ["h_ww_leaf", "h_ww_shapes", "h_ww_split", "h_ww_bound", "h_ww_many", "h_ww_hops"]
WEAK = [n for n in SCEN if n.startswith("h_wm_")]
LIFE = ["h_drop_once", "h_guard_ref", "h_teardown", "h_teardown_any", "h_alloc"]
P24 = [n for n in SCEN if n.startswith("h_p24_")]
PW = [n for n in SCEN if n.startswith(("h_p15_", "h_p7_", "h_p3_"))]

PLAN = {
    "P01": dict(quick=SEQ + ["h_variants"]),
    "P02": dict(quick=["h_updates", "h_map3", "h_map4", "h_split_any", "h_grow_any", "h_layer_mix", "h_deep", "h_variants",
                       "h_equal_group", "h_ww_leaf", "h_rw_empty"]),
    "P03": dict(quick=["h_map3", "h_map4", "h_deep", "h_longest", "h_layer_mix", "h_key_order", "h_equal_group",
                       "h_key_slices"]),
    "P04": dict(quick=["h_split_any", "h_equal_group", "h_leaf_split", "h_leaf_all_right", "h_grow_any", "h_layer_grow"]),
    "P05": dict(quick=["h_grow", "h_grow_any", "h_layer_grow", "h_inode_insert", "h_inode_split", "h_inode_split_parents",
                       "h_inode_route"]),
    "P06": dict(quick=["h_deep", "h_longest", "h_layer_grow", "h_layer_mix", "h_map3", "h_map4"]),
    "P07": dict(quick=["h_rw_insert", "h_rw_shapes", "h_rw_update", "h_rw_order", "h_rw_sublayer", "h_rw_wide", "h_rw_bag", "h_rw_reuse", "h_rww_leaf", "h_rww_layer", "h_rw_many"] + ["h_wm_insert", "h_wm_shapes"]),
    "P08": dict(quick=["h_rww_split", "h_rw_split", "h_rw_reuse", "h_rw_split2", "h_rw_inode", "h_rw_sublayer", "h_rw_order", "h_rw_many"] + ["h_wm_split", "h_wm_inode"],
                thorough=["h_rw_more", "h_rww_many"]),
    "P09": dict(quick=["h_rww_layer", "h_rw_layer", "h_rw_shapes", "h_rw_update", "h_rw_sublayer"] + ["h_wm_layer", "h_wm_shapes"]),
    "P10": dict(quick=WRITE + ["h_wm_second"]),
    "P11": dict(quick=["h_rw_update", "h_rw_order", "h_rw_ref", "h_rw_wide", "h_rww_update"] + ["h_wm_update", "h_wm_order"]),
    "P12": dict(quick=["h_rw_ref", "h_rw_drop", "h_rw_bag", "h_rw_reuse", "h_guard_ref", "h_drop_once", "h_rw_shapes", "h_rw_layer"]),
    "P13": dict(quick=LIFE + ["h_rw_insert", "h_ww_split", "h_ww_shapes", "h_ww_leaf", "h_rw_ref", "h_rw_layer", "h_rw_split", "h_rw_bag", "h_ww_drop", "h_rw_drop",
                              "h_slot_laws", "h_val_types"]),
    "P14": dict(quick=["h_lock_excl", "h_lock_wait", "h_ver_section", "h_ver_flags", "h_ver_newborn"] + ["h_wm_second"]),
    "P15": dict(quick=["h_ver_many", "h_ver_optread", "h_ver_stable", "h_ver_section", "h_ver_flags"] + ["h_wm_version"]),
    "P16": dict(quick=P24 + ["h_atomic_perm"]),
    "P17": dict(quick=PW),
    "P18": dict(quick=["h_freeze_word", "h_leaf_freeze", "h_freeze_needs_lock", "h_leaf_cas", "h_leaf_split", "h_atomic_perm"]),
    "P19": dict(quick=["h_suffix_bag", "h_suffix_big", "h_suffix_cmp", "h_leaf_suffix", "h_leaf_match"]),
    "P20": dict(quick=["h_key_slices", "h_key_order"]),
    "P21": dict(quick=["h_simd", "h_simd_leaf", "h_bound_by", "h_inode_route"]),
    "P22": dict(quick=["h_inode_slots", "h_inode_insert", "h_inode_split", "h_inode_split_parents", "h_inode_route"]),
    "P23": dict(quick=["h_key_limit", "h_tree_limit", "h_longest"]),
    "P24": dict(quick=["h_variants", "h_drop_once", "h_val_types", "h_slot_laws"]),
    "P25": dict(quick=["h_rw_split", "h_rw_split2", "h_rw_inode", "h_rw_sublayer", "h_ww_leaf", "h_ww_shapes", "h_ww_split",
                       "h_ww_bound", "h_ww_many", "h_rw_layer", "h_rw_shapes", "h_rw_many", "h_rww_split", "h_rww_layer",
                       "h_lock_excl", "h_lock_wait", "h_ver_stable", "h_grow"]),
    "P26": dict(quick=["h_leaf_split", "h_leaf_all_right", "h_leaf_slots", "h_link", "h_link_race", "h_leaf_cas"]),
    "P27": dict(quick=WEAK),
}

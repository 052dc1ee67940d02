"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from plan import PLAN

G, T, L = "src/tree/generic.rs", "src/tree.rs", "src/leaf24.rs"
TECH = "symbolic execution of the compiled LLVM IR, assertions decided by z3"
TECHC = TECH + "; schedules are symbolic (time variables / bounded preemptions)"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech=TECH):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), tech))


prop("P01", "The map answers every lookup like an ordered dictionary of byte strings",
     "After any sequence of inserts from one thread, looking up a key returns the value of the last insert under exactly that key, "
     "and nothing if there was none. This holds for every key content and length up to the limit, every value and every tree shape "
     "the inserts build.",
     ["inputs", "histories"], "all keys (bytes and lengths), all values, all insert orders",
     "Tests use a few hundred fixed or random keys; the space of keys, equal prefixes and node shapes is unbounded.",
     [G, T, L, "src/key.rs"], [("lookup", G + " get_concurrent_generic"), ("insert", G + " insert_concurrent_generic")])
prop("P02", "Insert reports the replaced value and the entry count stays exact",
     "An insert returns the value previously stored under that key, or nothing for a fresh key, and after it the lookup yields the "
     "new value. The reported length equals the number of distinct keys, and the map is empty exactly when that number is zero; "
     "a thread that asks during another thread's insert gets the answer from before or after it.",
     ["inputs", "histories", "interleavings"], "all keys, values and sequences of inserts and updates; all interleavings of one insert",
     "Tests check the result of a few updates; the result depends on which of many insert paths is taken.",
     [G, T], [("insert result", G + " insert_concurrent_generic"), ("length", T + " count")])
prop("P03", "Distinct byte strings are distinct keys",
     "Two keys are the same entry exactly when they have the same length and the same bytes. Prefixes of each other, trailing or "
     "embedded zero bytes, the empty key and keys that differ only after a long common prefix never alias.",
     ["inputs"], "all pairs and triples of keys",
     "The 8-byte slicing pads with zeros, so aliases need particular lengths and bytes that samples rarely hit.",
     ["src/key.rs", G, "src/suffix.rs"], [("slice and length class", "src/key.rs Key"), ("suffix comparison", L)])
prop("P04", "Splitting a full leaf loses, duplicates and moves no entry",
     "When an insert splits a leaf, every older key still yields its value and the new key yields its own, wherever the new key "
     "falls and however many keys in the leaf share their first eight bytes. Keys sharing their first eight bytes never end up in "
     "different leaves.",
     ["inputs", "histories"], "all contents of a full leaf, all positions of the new key",
     "The split point depends on the arrangement of equal slices and on the insert position; tests try a handful.",
     [L, G, "src/value.rs"], [("split point", L + " calculate_split_point"), ("split", L + " split_into_preallocated")])
prop("P05", "Growing the tree keeps every key reachable",
     "As inner nodes fill, split and gain levels, every inserted key stays reachable and no other key appears, for any order of "
     "inserts.",
     ["inputs", "histories"], "orders and numbers of inserts, any key looked up or added",
     "Inner-node splits happen only after hundreds of inserts, at positions that depend on the order.",
     ["src/internode.rs", G], [("inner split", "src/internode.rs split_into"), ("propagation", "src/tree/split/propagation.rs make_split_leaf")])
prop("P06", "Long keys with common prefixes are stored at any depth",
     "Keys that share a prefix of any length up to the limit and differ after it are stored and found independently. Adding such a "
     "key leaves every other key as it was, and a proper prefix of a stored key is not found unless it was inserted.",
     ["inputs"], "all common-prefix lengths, tails of any length and bytes",
     "Tests use a few prefixes; each depth and tail length goes through different code paths.",
     [G, "src/key.rs", "src/suffix.rs"], [("layer creation", G + " create_layer_concurrent_generic"), ("shift", "src/key.rs shift")])
prop("P07", "A reader racing an insert or update sees the old or the new state only",
     "A lookup that overlaps an insert or update returns the value before it or the value after it for that key; for every other "
     "key it returns exactly that key's value. No interleaving makes a present key missing, an absent key present or a value mixed.",
     ["schedules", "inputs"], "all interleavings of one writer and one reader, all keys",
     "Test threads reach a handful of interleavings; the windows are a few instructions wide.",
     [G, "src/nodeversion.rs", L], [("optimistic read", G + " get_concurrent_generic"), ("publication", L + " set_permutation")],
     TECHC)
prop("P08", "A reader racing node splits never loses a key",
     "While leaves or inner nodes split and the root grows, a lookup of any present key returns its value, and of any absent key "
     "nothing, whatever the interleaving.",
     ["schedules", "inputs"], "all interleavings of one writer (one or several splits) and one reader, any key",
     "The reader must be stopped between particular loads while a whole split or two run; stress tests rarely do that.",
     [G, L, "src/internode.rs", "src/link.rs"],
     [("sibling walk", G + " advance_to_key_by_bound_generic"), ("descent", G + " reach_leaf_concurrent_generic"),
      ("split", G + " handle_leaf_split_generic")], TECHC)
prop("P09", "A reader racing the creation of a deeper layer never loses a key",
     "While an insert turns an entry into a deeper layer because two keys share their first bytes, lookups of the older key return "
     "its value and lookups of the new key return nothing or its value.",
     ["schedules", "inputs"], "all interleavings of one writer and one reader, any keys with a common prefix",
     "The entry changes kind in several steps; only a reader that hits between two of them can go wrong.",
     [G, L], [("layer creation", G + " create_layer_concurrent_generic"), ("reader validation", G + " get_concurrent_generic")], TECHC)
prop("P10", "Concurrent inserts all take effect",
     "When two threads insert at the same time, both inserts take effect as if one had come first: results, final values and the "
     "entry count agree with one of the two orders. No other key is affected, whether they meet in a leaf, a split, a new layer or "
     "a growing root.",
     ["schedules", "inputs"], "all interleavings with a bounded number of preemptions, any keys",
     "Lost updates need particular interleavings around splits and lock hand-over.",
     [G, T, "src/nodeversion.rs"], [("insert", G + " insert_concurrent_generic"), ("split", G + " handle_leaf_split_generic")],
     TECHC)
prop("P11", "Readers never travel back in time",
     "Once a reader has seen a value, its later reads of that key never return an older value or nothing. If one thread inserts two "
     "keys in turn, a reader that has seen the second sees the first afterwards.",
     ["schedules", "inputs"], "all interleavings of a writer's two operations and a reader's two lookups",
     "Needs two reads placed on both sides of particular writer steps.",
     [G, T], [("optimistic read", G + " get_concurrent_generic")], TECHC)
prop("P12", "What a guard protects stays valid and unchanged",
     "A reference or value obtained from a lookup stays valid and keeps its content for as long as the guard lives, whatever other "
     "threads insert, update or split meanwhile. Nothing reachable under a guard is freed, and nothing freed is read.",
     ["schedules", "inputs"], "all interleavings of a writer and a guarded reader, any keys and values",
     "A use after free needs a free between two loads of a reader and often goes unnoticed when it happens.",
     [G, T, "src/slot.rs", "src/value.rs", "src/leaf24.rs"],
     [("retirement of replaced values", G + " insert_concurrent_generic"), ("suffix retirement", L + " assign_ksuf")], TECHC)
prop("P13", "Every value is dropped once and every block freed once",
     "Each inserted value is dropped exactly once, after the last handle to it is gone and not before. When the map is dropped, "
     "whatever its shape and however it was built, all memory it allocated is freed, each block exactly once.",
     ["inputs", "histories", "schedules"], "all keys and values, shapes up to 700 keys and several layers, two concurrent writers",
     "Leaks and double frees depend on tree shape and on split and layer paths; tests do not count allocations.",
     [T, "src/alloc24.rs", G, "src/value.rs"], [("teardown", "src/alloc24.rs teardown_tree"), ("drop", T + " Drop")])
prop("P14", "The node lock admits one holder",
     "At any time at most one thread holds a node's lock, a try-lock succeeds only when it obtains the lock, and releasing it leaves "
     "the node unlocked with every change announced. No flag or counter other than the announced ones changes.",
     ["schedules", "inputs"], "all interleavings of two threads with bounded preemptions, all 32-bit lock words",
     "Tests try random schedules and a few words.",
     ["src/nodeversion.rs"], [("lock", "src/nodeversion.rs lock/try_lock"), ("unlock", "src/nodeversion.rs unlock")], TECHC)
prop("P15", "Optimistic readers notice every change to a node",
     "A reader that takes a stable snapshot of a node's version, reads the node and finds the version unchanged has read a "
     "consistent state: any insert or split begun in between is noticed. A stable snapshot is never one of a node in the middle of "
     "a change.",
     ["schedules", "inputs"], "all interleavings of writer sections and one reader, all version words",
     "A missed change needs the reader inside a window of two instructions, or a counter at its wrap-around.",
     ["src/nodeversion.rs"], [("stable", "src/nodeversion.rs stable"), ("change test", "src/nodeversion.rs has_changed")], TECHC)
prop("P16", "The 24-slot order word is always a permutation and edits only what it says",
     "Starting from any valid order word, inserting, removing, exchanging or rotating positions yields a word that still holds every "
     "slot once, whose first entries are the expected sequence and whose size is right. Atomic replacement succeeds exactly when the "
     "stored word is the expected one.",
     ["inputs"], "all 24! arrangements, all sizes and positions",
     "Tests check a few arrangements.", ["src/permuter24.rs"], [("operations", "src/permuter24.rs Permuter24")])
prop("P17", "Order words of other widths obey the same algebra",
     "For the configurable widths up to 15, inserting, removing, exchanging or rotating positions of any valid order word keeps it a "
     "permutation, with the expected visible sequence and size.",
     ["inputs", "configurations"], "widths 15, 7 and 3, all arrangements, sizes and positions",
     "Tests check a few arrangements.", ["src/permuter.rs"], [("operations", "src/permuter.rs Permuter")])
prop("P18", "A frozen leaf order is seen by all, cannot be overwritten, is always released",
     "Freezing a leaf's order for a split is seen by every reader, makes every concurrent conditional publication fail, and preserves "
     "the order before the freeze. Ending the split by publishing or by abandoning it always leaves a valid, unfrozen order.",
     ["inputs", "histories"], "all order words and sizes",
     "Tests freeze two or three particular words.",
     ["src/freeze24.rs", "src/leaf24/freeze.rs", "src/leaf24/cas.rs"],
     [("freeze", "src/leaf24/freeze.rs freeze_permutation"), ("guard", "src/leaf24/freeze.rs FreezeGuard24")])
prop("P19", "Suffix storage returns exactly what was stored",
     "After any sequence of storing, replacing, clearing and compacting suffixes, each slot returns exactly the bytes last stored in "
     "it, or none. Equality and order tests against a stored suffix agree with comparing the bytes.",
     ["inputs", "histories"], "all suffix contents, lengths up to 40, sequences of 3 operations",
     "Overlap and stale-offset errors need particular sequences of lengths.",
     ["src/suffix.rs", L], [("bag", "src/suffix.rs SuffixBag"), ("leaf suffixes", L + " assign_ksuf")])
prop("P20", "Keys are cut into eight-byte slices that preserve order",
     "Each slice of a key is its next eight bytes read big-endian and padded with zeros, shifting moves exactly one slice, and "
     "un-shifting restores the key. Comparing slices and lengths in turn gives the lexicographic order of the byte strings.",
     ["inputs"], "all keys up to three slices, all pairs of short keys",
     "Tests check fixed strings.", ["src/key.rs"], [("slicing", "src/key.rs Key")])
prop("P21", "All searches in a node give the same, correct answer",
     "Searching a node's sorted entries returns the matching entry or the position where the key belongs, and routing picks the child "
     "whose range holds the key. Every search variant, including the vectorised ones on every processor level, returns the same "
     "answer as a plain scan.",
     ["inputs", "configurations"], "all node contents up to full size, all targets, three instruction-set levels",
     "Wrong answers appear only for special values such as those with the top bit set; tests run one processor level.",
     ["src/ksearch.rs", "src/ksearch/simd.rs", "src/ksearch/simd_search.rs"],
     [("searches", "src/ksearch.rs"), ("vector searches", "src/ksearch/simd.rs")])
prop("P22", "Inner-node edits keep keys and children aligned",
     "Inserting a key and child into an inner node at any position, or splitting a full one around it, yields exactly the old sequence "
     "with the new pair at its place, split into a left part, one key for the parent and a right part. Children moved to the new node "
     "point to it as their parent, and routing follows the keys.",
     ["inputs"], "all contents and sizes, every insert position",
     "Off-by-one errors show only at certain positions of a full node.",
     ["src/internode.rs"], [("insert", "src/internode.rs insert_key_and_child"), ("split", "src/internode.rs split_into")])
prop("P23", "The key length limit is exact",
     "Keys of up to 256 bytes are accepted and stored faithfully. A longer key is refused before anything is changed.",
     ["inputs"], "every length 0..=300",
     "Tests check one or two lengths.", ["src/key.rs", G], [("limit", "src/key.rs Key::new"), ("insert", G)])
prop("P24", "All storage variants give the same answers",
     "The shared-value map, the inline-value map and the index wrapper give the same results, lookups and lengths for the same "
     "sequence of operations, and reference lookups agree with value lookups.",
     ["inputs", "configurations", "histories"], "all keys, values and short sequences",
     "Variants are tested separately on fixed examples.",
     [T, "src/tree/index.rs", "src/value.rs", "src/slot.rs"], [("variants", T), ("index", "src/tree/index.rs")])
prop("P25", "Every operation finishes once the others pause",
     "No interleaving of lookups and inserts leaves a thread spinning or waiting forever: whenever the other thread stops between two "
     "of its operations, the running one completes. Locks, announced changes and frozen orders are always released.",
     ["schedules", "inputs"], "all interleavings of reader and writer; two writers with bounded preemptions",
     "A hang needs a particular hand-over and shows up in tests as a rare time-out at best.",
     [G, "src/nodeversion.rs", L], [("spin loops", "src/nodeversion.rs stable/lock"), ("wait for split", L + " wait_for_split")],
     TECHC)
prop("P26", "Leaf splits and sibling links keep the leaf chain in order",
     "Splitting a leaf puts each entry with its value, length class and suffix on exactly one side, in order, with the boundary key "
     "reported. Linking siblings, also from two threads at once, leaves one chain with all leaves in it, correct back links and no "
     "leftover mark.",
     ["inputs", "schedules"], "all slices and layouts of 2..24 entries, two linking threads with bounded preemptions",
     "Tests split a few leaves and link from one thread.",
     [L, "src/link.rs"], [("split", L + " split_into_preallocated"), ("link", L + " link_sibling")], TECHC)
prop("P27", "Readers and writers are safe on weakly ordered processors",
     "The locks, version words and published pointers carry all ordering the tree needs: on a processor that reorders plain and "
     "relaxed accesses, lookups racing an insert, update, layer creation or split still return the old or the new state only. A "
     "reader never sees a published node, key or value before its contents, and a thread that follows another sees what it did.",
     ["schedules", "inputs"], "all executions of one writer and one reader that the acquire/release orderings allow, all keys",
     "The processors tests run on reorder little; a missing fence shows up only on others, rarely.",
     ["src/nodeversion.rs", L, G], [("dirty marks", "src/nodeversion.rs lock"), ("validation", "src/nodeversion.rs has_changed"),
                                    ("publication", L + " set_permutation")], TECHC)

NA = []
NOTE = ("Bounded: every value, length and schedule within the bounds listed per scenario in lib/plan.py and in the evidence; the code "
        "is optimised LLVM IR of /repo's current source, executed symbolically by /verif/engine, z3 decides. Counterexamples are "
        "replayed on the compiled code before they are reported. Trusted: rustc/LLVM, the engine, z3, stand-ins for "
        "seize/parking_lot/portable-atomic.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
        for p, r in NA:
            f.write(json.dumps(p) + "\n")
    assert sorted(PLAN) == sorted(p["id"] for p, _ in P)
    m = dict(version=1, setup_cmd="python3 lib/setup.py",
             checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --thorough",
                          evidence_file=f"evidence/{p['id']}.json", technique=t, level="model_checking", level_note=NOTE)
                     for p, t in P],
             not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
             notes="No hooks in /repo: everything the scenarios use is public. Fix commits are listed in KNOWN_FINDINGS.txt.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()

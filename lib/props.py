"""What decides each property: Verus units (proof) and executable contracts (native, bounded)."""
U = ["util"]
X = ["util", "expect"]
S = ["util", "expect", "stackutil"]

# native: (contract, mode, share of the native time budget)
PROPS = {
    "C01": dict(parts=U + ["c01"], verus=["format"], native=[("c01_fixed", "enum", 1), ("c01_record", "random", 3), ("c01_record", "enum", 2), ("c01_long", "random", 2), ("c01_far", "enum", 3)]),
    "C02": dict(parts=U + ["c02"], verus=["keys", "keylist"], support=["finish"], native=[("c02_key", "random", 1), ("c02_key", "enum", 1), ("c02_store", "random", 3)]),
    "C03": dict(parts=U + ["c03"], verus=["keys"], native=[("c03_match", "random", 2), ("c03_match", "enum", 2)]),
    "C04": dict(parts=U + ["c04"], verus=["zoom"], native=[("c04_zoom", "random", 1), ("c04_zoom", "enum", 2)]),
    "C05": dict(parts=U + ["c05"], verus=["nearby"], native=[("c05_nearby", "random", 1), ("c05_nearby", "enum", 2)]),
    "C06": dict(parts=U + ["c06"], verus=["spatial"], native=[("c06_small", "random", 2), ("c06_small", "enum", 2), ("c06_wide", "random", 2), ("c06_all", "enum", 1)]),
    "C07": dict(parts=U + ["c06"], verus=["spatial"], native=[("c07_small", "random", 2), ("c07_small", "enum", 2), ("c07_wide", "random", 2), ("c07_all", "enum", 1)]),
    "C08": dict(parts=U + ["c08"], verus=["relev", "builder", "encode", "decode"], support=["finish", "keylist"], native=[("c08_entries", "random", 3), ("c08_pairs", "enum", 3), ("c08_many", "random", 2)]),
    "C09": dict(parts=U + ["c09"], verus=["relev", "builder", "keylist"], support=["finish"], native=[("c09_ops", "random", 3), ("c09_ops", "enum", 2)]),
    "C10": dict(parts=U + ["expect", "c10"], verus=["finish", "bounds"], support=["lookup"], native=[("c10_bins", "random", 1)]),
    "C11": dict(parts=X + ["c11"], verus=["groups", "matching", "lookup"], native=[("c11_matching", "random", 3), ("c11_limit", "random", 2), ("c11_edge", "enum", 1), ("c11_edge", "random", 1)]),
    "C12": dict(parts=U + ["c12"], verus=["scoring"], native=[("c12_scoring", "random", 2), ("c12_scoring", "enum", 1)]),
    "C13": dict(parts=U + ["c13"], verus=["queue"], native=[("c13_queue", "random", 1), ("c13_queue", "enum", 2), ("c13_long", "random", 1)]),
    "C14": dict(parts=U + ["c14"], verus=["groups"], native=[("c14_groups", "random", 1), ("c14_groups", "enum", 1), ("c14_long", "random", 1)]),
    "C15": dict(parts=S + ["c15"], verus=["stack"], native=[("c15_tree", "random", 2), ("c15_tree", "enum", 1)]),
    "C16": dict(parts=S + ["c16"], verus=["arena", "stack"], native=[("c16_cap", "random", 1)]),
    "C17": dict(parts=S + ["c17"], verus=["single", "whole"], native=[("c17_single", "random", 3), ("c17_many", "random", 2), ("c17_single", "enum", 1)]),
    "C18": dict(parts=S + ["c18"], verus=["multi", "whole"], native=[("c18_pair", "random", 3), ("c18_sound", "random", 2), ("c18_four", "random", 2), ("c18_pair", "enum", 1)]),
    "C19": dict(parts=S + ["c19"], verus=["tree", "walk", "order"], native=[("c19_tree", "random", 3), ("c19_high", "random", 2), ("c19_many", "random", 1)]),
    "C20": dict(parts=S + ["c20"], verus=["collapse"], native=[("c20_collapse", "random", 1), ("c20_collapse", "enum", 2)]),
}

NOT_APPLICABLE = [
    ("C21", "Thread schedules: the parallel steps are rayon iterators inside coalesce.rs; neither Verus (without rewriting the code over its permission types) nor Kani (no threads) can put a contract on the interleavings. C19 runs the real rayon code but decides nothing about schedules."),
    ("C22", "Durability and crash points are promises of rocksdb (a C++ library reached by FFI, not available offline); there is no contract on functions of /repo that could carry them."),
    ("C23", "The JavaScript interface is neon glue over the V8 C++ API; neon does not build here and its handles have no contract a deductive verifier could start from."),
]
PROVED = "contract-based deductive verification of the functions extracted from /repo (Verus/SMT); bounded executable contracts as cross-check and to find failing inputs"
PARTLY = "contract-based deductive verification (Verus) of the parts named in the note; bounded executable contracts on the real code for the rest"
BOUNDED = "executable contracts on the real code, bounded execution"
# (level, technique, note)
LEVELS = {
    "C01": ("proof", PROVED, "Unbounded: writers establish, readers consume 'these bytes represent this list', all lengths and positions up to 2^32 bytes. Assumes VarInt and to_le_bytes as documented."),
    "C02": ("other", PARTLY, "Proved: keys are injective, ordered and decode to themselves; keys(), iter() and get list exactly the stored records (assuming rocksdb is a sorted map that keeps what was put). Bounded: the whole trip from insert to keys()."),
    "C03": ("proof", PROVED, "Unbounded: matches_key, matches_language, write_start_to for all ids, ranges and language sets."),
    "C04": ("proof", PROVED, "Unbounded for all zooms 0..16 and all boxes and points valid at their zoom."),
    "C05": ("proof", PROVED, "Unbounded for zooms 0..16; IEEE-754 division and ceil as rounded reals (float.vspec, trusted)."),
    "C06": ("proof", PROVED, "Unbounded for strictly descending coordinate lists; iterator adapters of std and the morton crate by their documented contracts."),
    "C07": ("proof", PROVED, "As C06; itertools' merge and kmerge by their documented contracts."),
    "C08": ("other", PARTLY, "Proved: insert, encoding of a record and decoding give exactly the distinct entries in order; finish writes the record of each key. Bounded: the trip through a stored file as one statement."),
    "C09": ("other", PARTLY, "Proved: insert, append, compact append and renumber as transitions of the builder's map; finish writes that map; get/iter read the records. Bounded: their composition, seen from a reopened store."),
    "C10": ("other", PARTLY, "Proved: finish writes for each bin the union of its phrases' entries and all plain keys as without bins; load_bin_boundaries reads back what was written. Bounded: that lookups over bins give the same entries."),
    "C11": ("proof", PROVED, "Unbounded for limit >= 1 over any store whose records are readable (orderly); rocksdb as a sorted sequence of pairs, iterator adapters and kmerge as documented."),
    "C12": ("proof", PROVED, "Zoom <= 16, distance 0..200000 tiles, radius 0 or 0.001..1e9 miles; rounding included; exp and powi as stated in scoring.vspec."),
    "C13": ("proof", PROVED, "Unbounded for elements whose order is total; crate min-max-heap by its documented contract."),
    "C14": ("proof", PROVED, "Unbounded, any key function (also one with state), whose key type's == is an equivalence with its meaning."),
    "C15": ("proof", PROVED, "Unbounded; weights 0 or between 1/65536 and 1e6; generational_arena, fixedbitset, HashMap, BTreeMap and OrderedFloat by their documented contracts; the order inside a bin is not looked at."),
    "C16": ("proof", PROVED, "Unbounded; weights multiples of 1/65536 up to 1e6 (exact sums); dependencies as for C15."),
    "C17": ("other", PARTLY, "Proved (weights 0 or 1/65536..1e6): at most 40 results in order, one per feature, each a match with its weight; without a proximity point none far off and every feature of the first 80 at its best, or 40 no worse. Bounded: which features a proximity point leaves out."),
    "C18": ("other", PARTLY, "Proved (weights up to 1): every result consists of stored matches, tiles nested, masks disjoint; mask is the union, relevance the sum less the penalty up to 0.001; order, cut and one per leading feature. Bounded: that no pair is missing."),
    "C19": ("other", PARTLY, "Proved (weights up to 1, a tree as C15 builds it): every result is of stored matches along a path, tiles nested, masks disjoint; mask their union, relevance the sum less the penalty up to 0.001; at most 800, in order. Bounded: that none is missing (real rayon code, one schedule per run)."),
    "C20": ("proof", PROVED, "Unbounded; indexmap by its documented contract, OrderedFloat's equality an equivalence."),
}
for _k, _c in PROPS.items():
    _c["level"], _c["technique"], _c["note"] = LEVELS[_k]

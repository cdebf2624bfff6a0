#!/usr/bin/env python3
"""Writes properties.jsonl (kept as data here so that it stays readable)."""
import json, os
F = "rust-src/src/gridstore/"
P = []

def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": [F + f for f in files],
                    "mechanism": [{"name": n, "where": F + w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

p("C01", "Encoded records read back exactly as written",
  "Whatever lists of numbers, coordinates and relevance/score groups are written to a record, reading the record from its bytes yields the same lists in the same order with the same values, wherever in the record they lie and however long they are (record sizes up to 2^32 bytes).",
  ["inputs"], "all list lengths, element values and positions (offset widths 1..4 bytes) within a record",
  "The one unit test writes one small record; variable-length lengths, offset widths above 2 bytes and empty lists are never met.",
  ["gridstore_format.rs"],
  [("Writer::write_fixed_vec/write_uniform_vec/write_var_vec", "gridstore_format.rs"), ("FixedVec/UniformVec/VarVec::new,get,iter", "gridstore_format.rs"), ("Coord/RelevScore/PhraseRecord/u32 encodings", "gridstore_format.rs")],
  ["gridstore_format::Writer::finish -> Reader"])
p("C02", "Storage keys are unambiguous",
  "Two different (phrase id, language set) keys never share a storage key, a stored key decodes to the phrase id and language set it was made from, and storage keys sort by phrase id. A store therefore lists each inserted key exactly once, in phrase order, finds for each key its own entries, and finds nothing for a key that was not inserted.",
  ["inputs", "histories"], "all phrase ids (u32), all language sets (u128), all sets of keys in a store",
  "Tests use a handful of small phrase ids and language sets; leading zero bytes, 0 and the all-languages marker need every width.",
  ["common.rs", "store.rs", "builder.rs"],
  [("GridKey::write_to", "common.rs"), ("GridStore::keys / iter", "store.rs"), ("GridStoreBuilder::finish", "builder.rs")],
  ["GridStore::get, keys, iter"])
p("C03", "A lookup selects exactly the keys it asks for",
  "A key is selected by a phrase id or half-open phrase id range exactly when its phrase id is that id or lies in that range and it is of the kind (phrase or prefix bin) looked up. A selected key counts as matching the requested languages exactly when it is stored for all languages or shares at least one language with the request.",
  ["inputs"], "all phrase ids and ranges, all requested and stored language sets, both kinds of key",
  "Tests compare a few keys; the comparison is on big-endian bytes of variable length.",
  ["common.rs"],
  [("MatchKey::matches_key", "common.rs"), ("MatchKey::matches_language", "common.rs"), ("MatchKey::write_start_to", "common.rs")],
  ["MatchKey::matches_key, matches_language, write_start_to"])
p("C04", "Moving query options between zooms keeps the same ground",
  "Adjusting a bounding box to a deeper zoom gives exactly the descendants of its tiles, adjusting it to a shallower zoom gives the smallest box of tiles containing it, and adjusting a proximity point goes to the tile containing it or to the tile in the middle of it. For every pair of zooms 0..16 and every valid box and point the result is a valid box and tile of the target zoom; options without a box or a point stay without.",
  ["inputs"], "all source and target zooms 0..16, all boxes and points valid at the source zoom",
  "Tests check a dozen boxes; overflow depends on the zoom difference and on tiles at the edge of the world.",
  ["common.rs", "spatial.rs"],
  [("MatchOpts::adjust_to_zoom", "common.rs"), ("adjust_bbox_zoom, global_bbox_for_zoom", "spatial.rs")],
  ["MatchOpts::adjust_to_zoom, global_bbox_for_zoom"])
p("C05", "Nearby-only restriction is the box around the point, within the old box",
  "Restricting query options to the vicinity of their proximity point sets the box that reaches from the point in each direction by the smallest whole number of tiles spanning 25 miles, cut off at tile 0 and at the largest tile number, intersected with the box already requested. Without a proximity point nothing changes, and zoom and point never change.",
  ["inputs"], "all zooms 0..16, all valid proximity points, with and without any box",
  "Tests check four points; edges of the world and large paddings at deep zooms are not met.",
  ["common.rs"], [("MatchOpts::with_nearby_only", "common.rs")], ["MatchOpts::with_nearby_only"])
p("C06", "Bounding-box retrieval returns exactly the tiles in the box",
  "Retrieving from a coordinate list with a bounding box (with or without a proximity point) yields every listed coordinate whose tile lies in the box, each once, and no other. Without a proximity point they come in list order.",
  ["inputs"], "all descending coordinate lists of any length, all boxes",
  "Tests use three-element lists; the answer depends on where the box falls between z-order neighbours and on list length.",
  ["spatial.rs"],
  [("coord_binary_search", "spatial.rs"), ("bbox_range", "spatial.rs"), ("bbox_filter, bbox_proximity_filter", "spatial.rs")],
  ["spatial::bbox_filter, bbox_proximity_filter"])
p("C07", "Proximity retrieval returns all tiles, nearest in z-order first",
  "Retrieving from a coordinate list with a proximity point yields every listed coordinate (inside the box, if one is given) exactly once, in order of non-decreasing z-order distance from the point.",
  ["inputs"], "all descending coordinate lists of any length, all proximity points, all boxes",
  "Tests use one small list; order depends on where the point falls between neighbours and on points beyond either end.",
  ["spatial.rs"], [("proximity", "spatial.rs"), ("bbox_proximity_filter", "spatial.rs"), ("coord_binary_search", "spatial.rs")],
  ["spatial::proximity, bbox_proximity_filter"])
p("C08", "Entries survive storage exactly",
  "For every key, reading it back yields exactly the distinct entries put in (relevance one of 0.4, 0.6, 0.8, 1; score at most 15; feature id below 2^24): tile, id, source phrase hash, relevance and score unchanged, none lost, none added. They come best relevance first, then best score first.",
  ["inputs", "histories"], "all multisets of representable entries per key",
  "Tests store a few entries; packing of id, hash, relevance and score and sharing of id lists depend on values and collisions.",
  ["builder.rs", "store.rs", "common.rs"],
  [("extend_entries, get_encoded_value", "builder.rs"), ("decode_value", "store.rs"), ("relev_float_to_int / relev_int_to_float", "common.rs")],
  ["GridStoreBuilder::insert, finish -> GridStore::get, iter"])
p("C09", "Building operations compose as documented",
  "After any sequence of building operations a store holds exactly what they describe: insert replaces a key's entries, append and compact append add to them, and renumbering moves each key to its mapped phrase id. Renumbering is refused exactly when some key's phrase id has no mapping or two keys would become one.",
  ["histories", "inputs"], "all sequences of insert, append, compact append and renumber on any keys",
  "Tests use each operation once; replacing, merging and collisions depend on the history.",
  ["builder.rs"], [("insert, append, compact_append, renumber", "builder.rs"), ("copy_entries / extend_entries", "builder.rs")],
  ["GridStoreBuilder operations then GridStore::iter"])
p("C10", "Prefix bins answer like their phrases",
  "In a store built with ascending bin boundaries starting at 0, a lookup of a phrase range between two boundaries yields the same entries as in the same store built without boundaries (entries that several phrases of one bin share may be merged into one). All other lookups, the list of keys and the entries of each key are the same as without boundaries, and the boundaries are read back as loaded.",
  ["inputs", "histories"], "all boundary lists, all contents, all ranges",
  "The test uses one fixed set of boundaries; grouping depends on gaps, empty bins and language sets in a bin.",
  ["builder.rs", "store.rs"], [("GridStoreBuilder::finish (grouping)", "builder.rs"), ("GridStore::streaming_get_matching (bin lookup)", "store.rs"), ("bin_boundaries", "store.rs")],
  ["GridStore::streaming_get_matching, bin_boundaries"])
p("C11", "Matching returns exactly the matching entries, best first",
  "A lookup yields exactly the stored entries of all selected keys that lie in the requested box, each once, with relevance multiplied by 0.96 unless the key matches the requested language or the entry lies within the proximity radius, and with the distance and distance score of its tile and score. Without a proximity point they come by descending relevance, then score; with fewer values requested than keys match (at least one), the first that many results are still the best ones.",
  ["inputs"], "all stored contents, phrase ranges, language sets, boxes, proximity points, radii and limits >= 1",
  "Tests check one store; merging of groups across keys and the limit on open keys depend on the order of values.",
  ["store.rs", "spatial.rs"], [("decode_matching_value", "store.rs"), ("GridStore::streaming_get_matching", "store.rs"), ("QueueElement::sort_key", "store.rs")],
  ["GridStore::streaming_get_matching"])
p("C12", "Distance scoring is monotonic",
  "The distance score is finite and positive, never increases with distance, never decreases with score, and increases strictly with score up to 7; within the radius (and at least one tile away) nearer scores strictly higher, and beyond the radius only the score counts. Tile distance is Euclidean and symmetric, and the proximity radius in tiles is proportional to the radius and grows 1.5-fold per zoom level from 0.8 tiles per mile at zoom 14.",
  ["inputs"], "all zooms 0..16, radii, distances between tiles, scores 0..15",
  "Tests compare single values.",
  ["spatial.rs"], [("scoredist", "spatial.rs"), ("tile_dist, proximity_radius, tiles_per_mile_by_zoom", "spatial.rs")],
  ["spatial::scoredist, tile_dist, proximity_radius"])
p("C13", "The bounded priority queue keeps the best",
  "A queue of capacity n holds, after any sequence of pushes and pops, never more than n elements: pushing onto a full queue keeps the better of the new element and the worst held one and says whether the new element was kept. Its elements come out best first, and the best and worst held are what it reports.",
  ["histories", "inputs"], "all capacities and sequences of pushes and pops, with ties",
  "No test exercises the queue by itself.",
  ["common.rs"], [("ConstrainedPriorityQueue::push", "common.rs"), ("pop_max, peek_min, peek_max, into_vec_desc", "common.rs")],
  ["ConstrainedPriorityQueue"])
p("C14", "Grouping splits a sequence into its runs",
  "Grouping a sequence by a key yields consecutive groups whose concatenation is the sequence, each group's elements all having the group's key, and neighbouring groups having different keys. After the last group it stays finished.",
  ["inputs"], "all sequences of any length",
  "The test groups two lists.",
  ["common.rs"], [("somewhat_eager_groupby", "common.rs")], ["somewhat_eager_groupby"])
p("C15", "The stacking tree holds exactly the possible stacks",
  "With no more stacks than the cap, the tree's paths are exactly the sequences of subqueries of ascending index type whose masks do not overlap and of which none excludes the index of the one right before it, each once. Every node carries the union of masks and of exclusions along its path, its subquery's index and zoom, and the best total weight of any stack through it.",
  ["inputs"], "all lists of subqueries (types, indexes, masks, exclusions, weights)",
  "Tests check a few trees of two or three subqueries.",
  ["stackable.rs"], [("stackable", "stackable.rs"), ("binned_stackable", "stackable.rs")], ["stackable"])
p("C16", "The cap on stacks drops only strictly worse ones",
  "When there are more complete stacks than the cap of 2000, at least 2000 are kept, nothing dropped has a greater total weight than anything kept, and the best stack is kept and its weight reported at the root (weights exactly representable). Everything in the tree is still a possible stack.",
  ["inputs"], "all lists of subqueries with more than 2000 stacks",
  "No test reaches the cap.",
  ["stackable.rs"], [("ArenaManager::add, cull_min, is_full", "stackable.rs"), ("binned_stackable (pruning)", "stackable.rs")], ["stackable"])
p("C17", "One subquery yields its best features, once each",
  "Coalescing one subquery yields at most 40 results, best first, one per feature, each a stored match of the subquery with its weight applied, none less relevant than the best by 0.25 or more. With at most 80 matching entries and no proximity point the results are the best 40 features, each at its best relevance and score; with a proximity point and weight 1, no comparably relevant feature is missing unless there are more than 40.",
  ["inputs"], "all stored contents, keys, options, radii and weights",
  "Tests check a handful of entries; ties, repeats of a feature and id 0 are not met.",
  ["coalesce.rs", "common.rs"], [("coalesce, coalesce_single", "coalesce.rs"), ("tree_coalesce_single", "coalesce.rs"), ("grid_to_coalesce_entry", "coalesce.rs")], ["coalesce, stack_and_coalesce"])
p("C18", "Coalescing a stack combines only nested matches, with summed relevance",
  "Each result of coalescing several subqueries consists of stored matches of different subqueries with disjoint masks whose tiles contain the tile of the leading entry; its mask is their union and its relevance their sum, less 0.01 at most. There are at most 40 results, best first, one per leading feature, none less relevant than the best by 0.25 or more. For two subqueries no leading feature that could be comparably relevant is missing, and each comes with its best combination (0.01 less if the deeper one stands alone or its mask is the greater).",
  ["inputs"], "all stored contents, zooms (ascending with index), masks, weights and options",
  "Tests check a few stacks; combination depends on tile nesting, mask overlap and order of entries.",
  ["coalesce.rs"], [("coalesce_multi", "coalesce.rs"), ("coalesce", "coalesce.rs")], ["coalesce"])
p("C19", "Stack-and-coalesce reports exactly the possible stacked matches",
  "Every result of stacking and coalescing is a stack of stored matches whose tiles are nested, with the union of masks and the sum of relevances as mask and relevance, less 0.01 if it has one entry only (and its subquery can be stacked upon) or its masks ascend. Results come best first, at most 800. As long as no limit (40 results per key and stack, quotas for prefix and high-zoom lookups) is reached, every possible stack of nested matches is reported; at the limit of 40 the best are.",
  ["inputs", "schedules"], "all stored contents, subqueries with disjoint or overlapping masks, zooms ascending with type, keys with ids of their own",
  "Tests check a few stacks; completeness depends on all combinations of tree paths, keys and nested tiles.",
  ["coalesce.rs", "stackable.rs"], [("stack_and_coalesce, tree_coalesce", "coalesce.rs"), ("penalize_multi_context", "coalesce.rs"), ("TreeCoalesceState", "coalesce.rs")], ["stack_and_coalesce"])
p("C20", "Grouping equal subqueries loses no match key",
  "Grouping subqueries yields one subquery per combination of weight, index and mask, in order of first appearance, and each carries all match keys of all the subqueries it stands for, in order.",
  ["inputs"], "all lists of subqueries, each with any number of match keys",
  "The test groups subqueries of one key each.",
  ["coalesce.rs"], [("collapse_phrasematches", "coalesce.rs")], ["collapse_phrasematches"])
p("C21", "Results do not depend on the thread schedule",
  "Stacking and coalescing the same subqueries on the same stores gives the same results however its parallel steps are scheduled.",
  ["schedules"], "all interleavings of the worker threads",
  "Tests run one schedule.",
  ["coalesce.rs"], [("tree_coalesce (into_par_iter)", "coalesce.rs")], ["stack_and_coalesce"])
p("C22", "A finished store survives a crash or reopening",
  "Once finishing a builder has returned, the store's contents survive process exit and crashes, and a store whose building was interrupted is not mistaken for a complete one.",
  ["crash_points"], "all crash points during and after finish",
  "Tests never crash a build.",
  ["builder.rs"], [("GridStoreBuilder::finish (rocksdb)", "builder.rs")], ["GridStore::new"])
P.append({
    "id": "C23", "title": "The JavaScript interface passes values unchanged",
    "statement": "Keys, entries, options and results cross the JavaScript interface without change: language arrays to language sets and back, numbers, boxes and points.",
    "quantifier": {"over": ["inputs"], "text": "all JavaScript values accepted by the interface"},
    "why_tests_cant": "The JavaScript tests sample a few calls.",
    "anchors": {"files": ["native/src/gridstore.rs", "native/src/lib.rs"], "mechanism": [{"name": "langarray_to_langset, deserialize_phrasesubq", "where": "native/src/gridstore.rs"}], "observe_at": ["lib/index.js"], "hook_needed": None}})
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")

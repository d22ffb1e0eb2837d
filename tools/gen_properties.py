#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The list below is the source of the property file."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
        "observe_at": observe,
        "hook_needed": hook,
    }
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why, "anchors": a,
    })


RM = ["rubymap/src/map/core.rs", "rubymap/src/map.rs"]
HB = ["hashbrown/src/raw/mod.rs", "hashbrown/src/table.rs"]

# ----------------------------------------------------------------- ordered hash
prop("H01", "An ordered hash behaves as an insertion-ordered list of key/value pairs",
     "After any sequence of writes, lookups, deletions, pops, truncations, clears, reservations and shrinks, the hash holds exactly the last value written under each live key, in the order the keys were first inserted (as altered by the order-changing deletions used). Every lookup, membership test, positional read, returned old value and reported length agrees with that list. Hash collisions and the capacity of the table never change any of these answers.",
     ["histories", "inputs"],
     "every operation history up to the bound, every assignment of 64-bit hash values to the keys (all collision patterns), every stored value",
     "The unit and quickcheck tests use one fixed hash function and sampled keys; colliding hashes, equal tags in one probe group and the interplay of a deletion with a later probe are reached only by luck.",
     RM + ["hashbrown/src/raw/mod.rs", "hashbrown/src/table.rs"],
     [("index table kept in step with the entry vector", "rubymap/src/map/core.rs insert_full/shift_remove_full/swap_remove_full/pop/truncate"),
      ("lookups compare stored hash then key", "rubymap/src/map/core.rs linear_find/get_index_of")],
     ["get/get_full/get_index_of/get_index/contains_key/len/iter after each operation"],
     [("entries", "dense vector of (hash,key,value) in order", "rubymap/src/map/core.rs"),
      ("indices", "table from hash to position", "rubymap/src/map/core.rs"),
      ("linear", "small-map mode without a table", "rubymap/src/map/core.rs")])

prop("H02", "Small (unindexed) and indexed forms of a hash cannot be told apart",
     "The same operations give the same results, order, reported old values and final contents whether the hash is in its small unindexed form or has been promoted to the indexed form, whatever caused the promotion (growth past the small limit, requested capacity, reservation, entry access) and after returning to the small form by clearing. Crossing the boundary in the middle of a history loses, duplicates or reorders nothing.",
     ["histories", "configurations"],
     "every history within the bound executed on both representations, with the switch at any point, for every assignment of hash values",
     "Tests run one representation at a time and never compare the two for colliding or equal hashes; the switch at exactly the limit is exercised with a single key sequence.",
     RM, [("promotion builds the table from stored hashes", "rubymap/src/map/core.rs ensure_indexed"),
          ("small form scans stored hash then key", "rubymap/src/map/core.rs linear_find"),
          ("clear returns to the small form", "rubymap/src/map/core.rs clear")],
     ["results of every public operation on both maps"])

prop("H03", "Errors raised by key hashing or comparison surface and change nothing",
     "If hashing or comparing a key fails during a lookup, write, deletion, set operation or hash comparison, the operation reports that very error and the collection is exactly as it was before the call. No failing comparison is ever silently treated as 'not equal' or 'found', in any internal form of the collection.",
     ["fault_sequences", "histories", "inputs"],
     "every choice of which hash or comparison call fails, every hash assignment, every state within the bound, in both internal forms",
     "The test keys never fail; the error paths have no test at all.",
     RM + ["rubymap/src/set.rs", "hashbrown/src/raw/mod.rs", "hashbrown/src/table.rs", "hashbrown/src/map.rs", "hashbrown/src/set.rs"],
     [("fallible comparison threaded through probing", "hashbrown/src/raw/mod.rs find/find_or_find_insert_slot"),
      ("error returned before any mutation", "rubymap/src/map/core.rs insert_full")],
     ["Result of each operation; contents afterwards"])

prop("H04", "Deleting during iteration keeps positions stable and loses nothing",
     "While an iteration is in progress, deleting a key hides it from every lookup at once, leaves every other entry at its position and reachable by key, and a second deletion of the same key finds nothing. When the iteration ends and the hash is compacted, exactly the undeleted entries remain, in their order, and later writes and lookups behave as on a hash that never held the deleted ones.",
     ["histories", "inputs"],
     "every set of deletions (by key and by position) in any order over hashes up to the bound, every hash assignment",
     "Tests delete one or two fixed keys with distinct hashes.",
     ["rubymap/src/map/core.rs", "rubymap/src/map.rs", "monoruby/src/value/rvalue/hash.rs"],
     [("index removal leaving a dead slot", "rubymap/src/map/core.rs tombstone_remove_full/tombstone_index"),
      ("compaction rebuilds the index", "rubymap/src/map/core.rs compact_tombstones")],
     ["get/get_index/iter between deletions and after compaction"])

prop("H05", "Positional insert, move, swap and remove keep order and lookup agreeing",
     "Inserting at a position, moving, swapping or removing by position permutes the entries exactly as documented and as a plain list would. Afterwards every key is found at precisely the position where iteration shows it. Out-of-range positions are refused without any change.",
     ["histories", "inputs"],
     "every position pair (including out of range), every size within the bound on both sides of the internal shift heuristics, every hash assignment",
     "Tests use fixed positions and distinct hashes; the two internal strategies for shifting positions (sweep or per-entry search) are chosen by a size heuristic that tests hit on one side only.",
     RM + ["rubymap/src/map/core/entry.rs", "rubymap/src/set.rs"],
     [("position shifting by sweep or by search", "rubymap/src/map/core.rs decrement_indices/increment_indices/move_index"),
      ("swap removal fixes the moved entry", "rubymap/src/map/core.rs swap_remove_finish")],
     ["get_index_of for every key against iteration order"])

prop("H06", "Bulk removal and reordering keep exactly the right entries, all reachable",
     "Draining a range, truncating, splitting, filtering, sorting, reversing and appending leave exactly the entries a list would hold, in the documented order, hand back exactly the removed ones, and every remaining key is still found at its new position. This holds whether or not the caller consumes a drain to the end.",
     ["histories", "inputs"],
     "every range, predicate outcome, ordering and consumption point on hashes up to the bound, every hash assignment",
     "The three strategies for erasing a range of positions are selected by size; tests cover a handful of ranges with distinct hashes.",
     RM, [("three strategies for erasing positions", "rubymap/src/map/core.rs erase_indices"),
          ("index rebuilt after reorder", "rubymap/src/map/core.rs rebuild_hash_table/reverse/split_off")],
     ["contents, removed values and lookups afterwards"])

prop("H07", "An entry handle acts on exactly the entry it designates",
     "Obtaining an entry for a key says occupied exactly when the key is present, and reports the position where it is or would be stored. Reading, replacing, defaulting, modifying, moving or removing through the handle has the same effect as the corresponding direct operation and touches no other entry.",
     ["histories", "inputs"],
     "every key (present or absent), every handle operation, every hash assignment, hashes up to the bound",
     "Tests try a few handles on maps without collisions.",
     ["rubymap/src/map/core/entry.rs", "rubymap/src/map/core.rs", "hashbrown/src/table.rs"],
     [("entry lookup reserves then locates a slot", "rubymap/src/map/core/entry.rs entry, hashbrown/src/table.rs entry")],
     ["entry kind, index, value; contents afterwards"])

prop("H08", "Fast-path lookups and stores agree with the general ones",
     "Storing or looking up with a precomputed hash, with a caller-supplied equality, or with a symbol key gives the same result and leaves the same hash as the general operation for the same key, in any interleaving of the two. In particular a key stored through one path is found, replaced and deleted through the other.",
     ["histories", "inputs"],
     "every interleaving of fast and general operations within the bound, every hash assignment, both internal forms",
     "Tests check a few single calls of the fast path.",
     RM, [("fast paths share the stored-hash probe", "rubymap/src/map/core.rs insert_full_sym/insert_full_prehashed/get_index_of_prehashed(_with)")],
     ["results of both paths and contents"])

prop("H09", "Copies are equal and independent; equality ignores order and history",
     "A copy of a hash or set (fresh, or copied over an existing one) has the same entries, order and lookups as the original and shares no later change with it. Two hashes compare equal exactly when they hold equal values under the same keys, whatever their order, capacity, internal form or history. Building from or extending with a sequence of pairs equals writing them one by one.",
     ["histories", "inputs"],
     "every pair of hashes within the bound, every hash assignment, every overlap of keys",
     "Tests compare a few literal maps built the same way.",
     RM + ["rubymap/src/set.rs", "hashbrown/src/raw/mod.rs"],
     [("copy of table and entries", "rubymap/src/map/core.rs Clone"), ("equality by size and lookup", "rubymap/src/map.rs PartialEq/RubyEql")],
     ["eql, ==, iteration and lookups of both after further changes"])

prop("H10", "Ordered sets obey set semantics and keep insertion order",
     "After any sequence of set operations a set holds each added and not since removed member exactly once, in insertion order as altered by the removals used, and reports correctly whether each add or remove changed it. Subset, superset, disjointness and equality answers are those of mathematical sets, and positional reads agree with iteration.",
     ["histories", "inputs"],
     "every operation history within the bound, every hash assignment",
     "Sampled histories with one hash function.",
     ["rubymap/src/set.rs", "rubymap/src/map/core.rs"],
     [("set is a map with unit values", "rubymap/src/set.rs")],
     ["contains/get_index_of/iter/len and the relation predicates"])

prop("H11", "Iterators, ranges and ordered searches agree with the entry order",
     "Forward, backward, skipping and owning iteration over entries, keys and values yields exactly the entries in order (or reverse order), each once, with exact remaining counts at every point, whatever mix of front and back steps is used. Sub-ranges, first/last, splits and binary searches return exactly the corresponding part or position of that order, and refuse out-of-range requests.",
     ["inputs", "histories"],
     "every mix of front/back/nth steps, every range and split point, every monotone key arrangement, on collections within the bound",
     "Tests walk one collection in one direction.",
     ["rubymap/src/map/iter.rs", "rubymap/src/set/iter.rs", "rubymap/src/map/slice.rs", "rubymap/src/set/slice.rs", "rubymap/src/util.rs"],
     [("iterators wrap slice iterators over the entries", "rubymap/src/map/iter.rs"), ("range clamping", "rubymap/src/util.rs")],
     ["items yielded and size hints"])

prop("H12", "The published entry layout describes the entries actually stored",
     "Generated machine code that reads a hash through the published offsets (entry array pointer, length, entry size, key and value positions) sees exactly the entries, in order, that the safe interface reports, whichever internal form the hash has and whatever operation preceded.",
     ["inputs", "histories"],
     "every number of entries within the bound in both internal forms, every value, every preceding operation of the kinds listed",
     "Tests check the offsets on one map; a layout error shows only for other forms, types or after operations that move storage.",
     ["rubymap/src/lib.rs", "rubymap/src/map/core.rs"],
     [("offset computation", "rubymap/src/lib.rs entries_layout")],
     ["entries read through raw offsets against the safe interface"])

# ----------------------------------------------------------------- unordered table
prop("T01", "A hash table finds exactly its live elements for any hash values",
     "After any sequence of inserts and removals (including those that leave reusable slots, trigger in-place cleaning, growth or shrinking), looking up a hash with an equality test finds an element exactly when an equal element with that hash was inserted and not removed, and never an element that was removed. Every probe ends.",
     ["histories", "inputs"],
     "every assignment of 64-bit hashes to the elements (every bucket position and tag collision), histories within the bound, including tables with reusable slots at their fullest",
     "Tests use a single well-distributed hash; clusters that wrap around the table end, equal tags in one group and chains through deleted slots are improbable under it.",
     HB, [("triangular probing over groups", "hashbrown/src/raw/mod.rs ProbeSeq/find_inner"),
          ("deleted marker only where a probe may have passed", "hashbrown/src/raw/mod.rs erase"),
          ("in-place rehash and resize", "hashbrown/src/raw/mod.rs rehash_in_place/resize_inner")],
     ["find/find_entry/entry/len after each operation"])

prop("T02", "Every traversal of a table visits each live element exactly once",
     "Iterating, mutably iterating, draining, filtering in place, extracting and consuming a table each see every live element exactly once and no removed one, report exact remaining counts, and per-hash iteration yields every element stored under that hash. Filtering keeps exactly the elements the predicate accepted; a drain leaves the table empty and reusable even if abandoned early.",
     ["histories", "inputs"],
     "every occupancy pattern and hash assignment within the bound, every predicate outcome, every abandonment point",
     "Tests traverse tables with one layout.",
     HB, [("group-wise bitmask iteration", "hashbrown/src/raw/mod.rs RawIterRange/RawIter/RawIterHash"),
          ("extract and drain guards", "hashbrown/src/raw/mod.rs RawDrain, hashbrown/src/table.rs ExtractIf")],
     ["multiset of elements seen; contents afterwards"])

prop("T03", "Unordered maps and sets behave as finite maps and sets",
     "After any history an unordered map returns for each key the last value stored and not removed, an unordered set contains exactly the members added and not removed, and every returned old value, entry kind, and changed/unchanged report agrees. Subset, superset and equality answers are the mathematical ones.",
     ["histories", "inputs"],
     "every operation history within the bound, every hash assignment",
     "Sampled histories with one hash function.",
     ["hashbrown/src/map.rs", "hashbrown/src/set.rs", "hashbrown/src/raw/mod.rs"],
     [("map operations over the raw table", "hashbrown/src/map.rs"), ("set operations over the map", "hashbrown/src/set.rs")],
     ["return values and membership after each operation"])

prop("T04", "Reserved room is honoured and impossible sizes are rejected cleanly",
     "After reserving room for n more elements, n inserts succeed without moving existing elements and without further allocation, and capacity never reports less than the number of elements; shrinking never drops an element. A request too large for the address space is refused (by error or panic) rather than yielding a table smaller than promised, for every requested size.",
     ["inputs", "histories"],
     "every requested size over the whole machine-word range; every fill level within the bound",
     "Tests try a few sizes; the size arithmetic has overflow corners at word-size boundaries.",
     HB + ["rubymap/src/map/core.rs"],
     [("capacity to bucket count", "hashbrown/src/raw/mod.rs capacity_to_buckets/bucket_mask_to_capacity"),
      ("layout computation with overflow checks", "hashbrown/src/raw/mod.rs TableLayout::calculate_layout_for"),
      ("entry vector kept in step with the table", "rubymap/src/map/core.rs reserve/reserve_entries")],
     ["capacity(), element addresses, allocation calls"])

prop("T05", "All group-scanning back ends implement the same byte-wise matching",
     "For every contents of a group of control bytes, searching for a tag, for empty slots, for empty-or-deleted slots and for full slots reports exactly the matching positions, in ascending order (a tag search may report extra candidates only where the portable back end documents it, and never misses one). The portable and the vector back ends therefore give tables the same behaviour.",
     ["inputs", "configurations"],
     "all 2^128 (vector) and 2^64 (portable) group contents and all tags",
     "Tests only run on the build machine's back end and a few contents.",
     ["hashbrown/src/control/group/sse2.rs", "hashbrown/src/control/group/generic.rs", "hashbrown/src/control/bitmask.rs", "hashbrown/src/control/tag.rs"],
     [("vector compare and movemask", "hashbrown/src/control/group/sse2.rs"), ("word-parallel arithmetic", "hashbrown/src/control/group/generic.rs")],
     ["positions reported"])

# ----------------------------------------------------------------- resource safety
prop("M01", "No element is leaked, dropped twice or read outside its storage",
     "Whatever history of operations a collection goes through, every key and value handed to it is dropped exactly once or handed back exactly once, all memory obtained is released when the collection is dropped, and no access leaves the storage it owns. This includes partially consumed drains and iterators, replaced values, failed writes and copies.",
     ["histories", "inputs"],
     "every operation history and every consumption point within the bound, every hash assignment",
     "Tests run without memory checking and only count drops in a few scenarios.",
     HB + RM + ["hashbrown/src/map.rs", "rubymap/src/set.rs"],
     [("raw table ownership", "hashbrown/src/raw/mod.rs Drop/RawIntoIter/RawDrain"), ("entry vector ownership", "rubymap/src/map/core.rs")],
     ["drop counts, live allocation count, memory faults"])

prop("M02", "A panic in caller code leaves a collection valid and leaks nothing twice",
     "If caller-supplied code (hash, comparison, predicate, copy, default producer, destructor) panics at any call during any operation, the collection remains usable: every element it still holds is found and dropped exactly once, no element is dropped twice, and no memory fault follows. Entries not involved in the interrupted operation are not lost, except where the operation documents that it empties the collection.",
     ["fault_sequences", "histories"],
     "every call position at which the caller's code panics, every operation, every hash assignment within the bound",
     "Two tests inject a panic at one point of copying and growing.",
     HB + RM,
     [("scope guards in rehash, clone, drain, clear", "hashbrown/src/raw/mod.rs, hashbrown/src/scopeguard.rs")],
     ["contents, drop counts and memory faults after catching the panic"])

prop("R01", "Equal keys hash equally and key equality is an equivalence",
     "For every provided key type, two keys that compare equal feed the same data to the hasher, comparison is reflexive, symmetric and transitive, and comparing through a borrowed form gives the same answer as comparing the keys. For sequences, equality means same length and equal elements in order, and the first failing element comparison is reported as the error.",
     ["inputs"],
     "all values of the scalar key types, all sequences and strings within the bound",
     "Tests compare a few literals.",
     ["ruby_traits/src/lib.rs"], [("equality and hashing implementations", "ruby_traits/src/lib.rs impl_ruby!, Option, Vec, slice")],
     ["eql results and bytes written to the hasher"])

# ----------------------------------------------------------------- interpreter kernels
prop("G01", "Garbage collection never frees an object that is still reachable",
     "After any sequence of allocations, reference stores made through the write barrier, root changes and minor or major collections, every object reachable from the roots is still allocated with its contents intact. An object unreachable from the roots is reclaimed by the next full collection and its slot reused at most once.",
     ["histories", "inputs"],
     "every object graph and mutation/collection history within the bound",
     "Program-level tests collect at arbitrary points on particular heaps; a missed remembered-set entry needs a specific age, store and collection order.",
     ["monoruby/src/alloc.rs", "monoruby/src/value/rvalue.rs", "monoruby/src/value/rvalue/array.rs", "monoruby_attr/src/lib.rs"],
     [("write barrier and stores", "monoruby/src/value/rvalue.rs write_barrier/set_ivar_by_ivarid; monoruby/src/value/rvalue/array.rs Array"), ("mark, remembered set, aging, sweep", "monoruby/src/alloc.rs gc/gc_check_and_mark/mark_remembered/apply_aging/reclassify_remembered/sweep")],
     ["objects handed to free, contents of live objects"])

prop("U01", "A Hash keeps its pairs, its order and its lock through every change of form",
     "Whatever operations are applied, a Hash holds exactly the pairs its history says, in insertion order, finds each under every key that is eql? (or identical, after compare_by_identity) and nothing else, whether it is stored inline, boxed, by identity, or holds slots of deleted entries. Inside an iteration new keys, clear, replace and compare_by_identity are refused and deletion keeps the positions of the others; when the last iteration ends the hash can be changed again. Copies are independent, the default survives every change of form, and every reference is seen by the collector.",
     ["histories", "inputs", "faults"],
     "every operation sequence within the bound over every storage form of the hash, with unknown keys and values",
     "Each form change (inline to boxed, tombstones to compaction, equality to identity) has its own copy of the invariants; tests meet a few orders of operations, and the wrong ones need a deletion inside a nested loop followed by a change of form.",
     ["monoruby/src/value/rvalue/hash.rs", "monoruby/src/builtins/hash.rs"],
     [("storage forms and tombstones", "monoruby/src/value/rvalue/hash.rs HashmapInner, Hashmap, HashContent"), ("iteration protocol and refusals", "monoruby/src/builtins/hash.rs iter_begin/iter_end/replace/clear/compare_by_identity")],
     ["pairs, order, lookups, default, refusals, references marked"])

prop("K01", "Values that are eql? have equal digests and are one Hash key",
     "For any two values, eql? as used by Hash is symmetric and has the answer their contents dictate, and whenever it is true the two digests are equal; hence a pair stored under one is found under the other. Hashes are eql? when they hold the same pairs in any order and whatever was deleted from them before. Values that contain themselves can be compared and hashed, and an error raised by an element leaves no trace in the recursion guards.",
     ["inputs", "faults"],
     "all pairs of values of the builtin kinds within the bound",
     "Equality and digest are written apart, per kind and again in fast paths for immediates; tests compare literals built the same way.",
     ["monoruby/src/value.rs", "monoruby/src/value/rvalue/hash.rs", "monoruby/src/value/rvalue/array.rs", "monoruby/src/value/rvalue/range.rs"],
     [("eql? and digest by kind", "monoruby/src/value.rs RubyEql/RubyHash for Value, calculate_hash"), ("containers", "monoruby/src/value/rvalue/hash.rs ruby_hash/eql; array.rs, range.rs")],
     ["eql? results, digests, lookups"])

prop("W01", "A String's validity and ASCII-ness always match its bytes",
     "However a String came about, what it reports about itself (ascii_only?, valid_encoding?, encoding) is what its bytes and encoding dictate: the classification cached to avoid rescanning is never stale or wrong. Appending or splicing keeps the bytes of both strings, and two strings of different encodings are combined exactly when the bytes keep their meaning.",
     ["inputs", "sequences"], "all byte strings and encodings within the bound, all single edits of them",
     "Each editing function derives the new classification from the old ones by its own shortcut; a wrong shortcut needs a particular mixture of encodings and bytes that tests written by example miss.",
     ["monoruby/src/value/rvalue/string.rs"],
     [("code range cache", "monoruby/src/value/rvalue/string.rs RStringInner, Encoding::classify/compatible")],
     ["bytes, encoding and code range"])
prop("W02", "The characters of a String partition its bytes and all counts agree",
     "Iterating over a String yields its valid characters and each invalid byte by itself, in order and without gaps; length, ranges of characters, negative and large indices, reversal, scrubbing, byte-to-character positions and the first code point all agree with that iteration; nothing that is not UTF-8 is ever read as UTF-8; order and equality are those of the bytes.",
     ["inputs"], "all byte strings and encodings within the bound, all indices",
     "Every function has shortcuts per encoding and per cached classification; their agreement on malformed input is rarely tested.",
     ["monoruby/src/value/rvalue/string.rs"],
     [("characters", "monoruby/src/value/rvalue/string.rs CharByteIter, get_range, char_length, reverse, scrub, check_utf8")],
     ["characters, positions and counts"])
prop("W03", "Strings sharing a buffer never see each other's changes",
     "Substrings, snapshots and copies that share a buffer with their origin keep their bytes whatever is done to the others; the shared buffer belongs to a frozen string, is never freed twice and never read after being freed; freezing is neither lost nor gained.",
     ["sequences", "inputs"], "all sequences of sharing and editing operations within the bound",
     "Copy-on-write breaks only for particular orders of sharing and changing.",
     ["monoruby/src/value/rvalue/string.rs"],
     [("shared buffers", "monoruby/src/value/rvalue/string.rs string_substring, string_snapshot, share_string_buffer, uniquify")],
     ["bytes of every string after every step"])
prop("W04", "String#dump and String#inspect read back as the same string",
     "The text dump produces is ASCII and, read as a double-quoted literal, gives the same bytes; what inspect produces reads back likewise. In particular quotes, backslashes, control characters, invalid bytes and anything that would start an interpolation are escaped.",
     ["inputs"], "all byte strings within the bound",
     "Escapes depend on neighbouring bytes and on the encoding; tests list examples.",
     ["monoruby/src/value/rvalue/string.rs", "monoruby/src/value/rvalue/string/printable.rs"],
     [("escaping", "monoruby/src/value/rvalue/string.rs dump, inspect")],
     ["escaped text"])

prop("N01", "Immediate values decode to exactly what was encoded",
     "Every integer, float, symbol and constant that the tagged representation accepts as immediate decodes to the identical value, every value it cannot hold is kept in a heap object instead of being altered, and no two different kinds of value share a representation.",
     ["inputs"], "all 64-bit integers, all float bit patterns, all symbol ids",
     "Tests round-trip chosen constants.",
     ["monoruby/src/value.rs"], [("fixnum/flonum/symbol tagging", "monoruby/src/value.rs")],
     ["decoded value, kind predicates"])

prop("N02", "Integer arithmetic is exact whatever the size of the numbers",
     "Sum, difference, product, floored quotient and remainder, bitwise operations, shifts, powers, bit references and comparisons of integers give the mathematically exact result for every pair of operands, moving between the immediate and the heap form as needed; a result that fits is always in immediate form, so that equal integers are identical. Division by zero and unrepresentably large shifts are reported as errors, and comparison with a float is by exact value.",
     ["inputs"], "all immediate integers and all larger ones within the bound, as either operand",
     "Tests compute chosen examples; the failures sit on word-size boundaries.",
     ["monoruby/src/value/numeric.rs", "monoruby/src/executor/op.rs", "monoruby/src/executor/op/binary_ops.rs"],
     [("overflow checks, floored division, shift distances, normalisation", "monoruby/src/executor/op/binary_ops.rs")],
     ["result value, its form, error raised"])

prop("N03", "Rational arithmetic is exact and in lowest terms",
     "Sum, difference, product, quotient, integer power, negation and comparison of rationals with rationals and integers give the exact result, always in lowest terms with a positive denominator, so that equal rationals have equal parts. floor, ceil, truncate and round (half up, down or to even) give the nearest multiple of the requested power of ten in the requested direction, for any number of digits. A float converts to exactly its value, and rationalize returns the fraction with the smallest denominator within the tolerance. Division by zero and unrepresentable powers are errors.",
     ["inputs"], "all operands within the bound, all signs, digits and rounding modes",
     "Tests compute chosen examples; the failures sit at negative halves and at digits to the left of the point.",
     ["monoruby/src/value/rvalue/rational.rs", "monoruby/src/builtins/numeric/rational.rs"],
     [("cross-multiplication and reduction, rounding by floored division, continued fractions", "monoruby/src/value/rvalue/rational.rs"),
      ("operand dispatch, powers", "monoruby/src/builtins/numeric/rational.rs")],
     ["numerator and denominator of the result, error raised"])

prop("X01", "JSON texts are read as the values they denote and written values read back",
     "Every text that is JSON is read as the value it denotes: nesting, order and repetition of keys, escapes and surrogate pairs, integers of any size. A text that is not, including one with something left after the value, is refused. Writing a value gives a JSON text that reads back as the same value. No input makes the reader panic or leave the text.",
     ["inputs"], "all byte texts within the bound; all values within the bound",
     "Tests parse listed examples; the failures sit in unusual escapes, leftovers and large integers.",
     ["monoruby/src/builtins/json.rs"], [("recursive descent reader, writer", "monoruby/src/builtins/json.rs")],
     ["parsed value or error; written text"])

prop("N04", "Digits and bits of integers and floats",
     "floor, ceil, truncate and round of an Integer or Float to any number of digits give the multiple of that power of ten on the requested side, or the nearest with ties as requested, exactly also for floats too large to have fractions; counts no number has are zero, unchanged or a RangeError, never nonsense. A bit field n[place, length] is those bits of the two's complement, a modular power is the remainder with the sign of the modulus, radix notation reads back, bit_length is the length, next_float and prev_float are the neighbours, and the shifts folded at compile time agree with those executed.",
     ["inputs"], "all values within the bound, all digit counts, places, lengths and modes listed",
     "Tests compute chosen examples; the failures sit at ties, negative values, the 63-bit limit and counts far out.",
     ["monoruby/src/builtins/numeric/integer.rs", "monoruby/src/builtins/numeric/float.rs"],
     [("rounding through big integers, bit fields, modular powers, constant folding of shifts", "monoruby/src/builtins/numeric/integer.rs"),
      ("rounding of floats", "monoruby/src/builtins/numeric/float.rs")],
     ["value returned, error raised"])

prop("D01", "Array methods that take positions act on exactly the designated elements",
     "Reading, slicing, assigning, inserting, removing, filling, rotating and taking from the ends act on exactly the elements the index, length or range designates, counting negative positions from the end; what lies outside is nil, padded with nil or an error as documented, and the other elements keep their order. flatten, transpose, product, compact and reverse give the list they describe. A filtering method whose block raises has removed exactly the elements decided so far; one whose block shortens the array ends without a panic. Huge positions raise an error.",
     ["inputs", "fault_sequences"], "all positions, lengths and ranges on arrays up to the bound; every block outcome and failure point",
     "Tests try chosen positions; the failures sit where ends, signs and exclusion meet, and in blocks that raise or change the array.",
     ["monoruby/src/value/rvalue/array.rs", "monoruby/src/builtins/array.rs"],
     [("index normalisation, splice, resize", "monoruby/src/value/rvalue/array.rs"), ("argument forms of each method", "monoruby/src/builtins/array.rs")],
     ["array afterwards, value returned, error raised"])

prop("Z01", "Formatted text is what the directives describe",
     "format, sprintf and String#% give for every directive the text its flags, width and precision describe: sign, prefix, digits in the base (two's complement dots for negative numbers), zero or space padding measured in characters, on the right side. Widths and precisions may come from arguments, arguments may be numbered or named, and everything else is copied. A malformed directive or a missing argument is an ArgumentError or KeyError, never a panic.",
     ["inputs"], "all values, flag sets, widths and precisions within the bound; all format texts within the bound",
     "Tests list examples; the number of flag, width, precision and sign combinations is beyond listing.",
     ["monoruby/src/executor/format.rs"],
     [("directive parser, integer and string rendering, %a", "monoruby/src/executor/format.rs")],
     ["resulting text or error"])

prop("S01", "Sorting returns a stable ordered permutation, even if comparison fails",
     "Sorting an array yields the same elements in non-descending order with equal elements in their original order. If the comparison fails part-way, the error is reported and the array still holds exactly its original elements; a comparison that is inconsistent never loses, duplicates or corrupts an element.",
     ["inputs", "fault_sequences"],
     "every comparison outcome sequence and failure point on arrays up to the bound, including the lengths that switch to merging",
     "Tests sort particular arrays with well-behaved comparisons.",
     ["monoruby/src/executor/op/sort.rs"],
     [("insertion and merge with holes restored on early exit", "monoruby/src/executor/op/sort.rs insert_head/merge/merge_sort")],
     ["array contents after success and after failure"])

prop("B01", "Buffered output reaches the descriptor complete, in order and once",
     "Whatever the sequence of writes, flushes and mode changes, and however the kernel splits, interrupts, defers or refuses each write, the bytes accepted by the descriptor are a prefix of the bytes written, in order and without repetition, and the rest is still pending. Retrying after an interruption or a would-block continues exactly where it stopped, and a failed unbuffered write leaves nothing pending.",
     ["histories", "fault_sequences"],
     "every sequence of write sizes around the buffer limit and every kernel response sequence within the bound",
     "Tests script one response sequence each.",
     ["monoruby/src/value/rvalue/io/buf.rs"], [("drain/write with progress", "monoruby/src/value/rvalue/io/buf.rs WriteBuf")],
     ["bytes accepted by the sink, pending count, progress"])

prop("B02", "Buffered input delivers the stream exactly, whatever the read chunking",
     "However the descriptor splits its data over reads and whatever mix of reads, peeks, consumes and seeks is used, the bytes delivered are exactly the stream's bytes from the logical position, which each seek reports and moves as for an unbuffered stream. A failed read loses nothing.",
     ["histories", "fault_sequences"],
     "every chunking, every mix of operations and seek offsets within the bound",
     "Tests use one chunking.",
     ["monoruby/src/value/rvalue/io/buf.rs"], [("refill, bypass and logical seek", "monoruby/src/value/rvalue/io/buf.rs IoReader")],
     ["bytes delivered, positions reported"])

prop("F01", "Filename pattern matching follows the documented pattern language",
     "For every pattern, name and flag combination, the match answer is the one the documented pattern language defines (literals, ?, *, **/, bracket sets and ranges, escapes, alternation, leading-period, case-folding and path rules), and matching always finishes without crashing.",
     ["inputs"], "all patterns and names up to the bound over all bytes, all flags",
     "Tests list a few dozen pattern/name pairs.",
     ["monoruby/src/builtins/fnmatch.rs"], [("backtracking matcher", "monoruby/src/builtins/fnmatch.rs")], ["match result"])

prop("P01", "Binary packing codecs decode what they encode and never overrun",
     "For every byte string or number, decoding the encoded form (base64, quoted-printable, uuencode, variable-length integers, UTF-8 code points, fixed-width integers and floats in either byte order, bit and hex strings) gives back the original in the documented layout. Decoding arbitrary input with any template finishes with values or an error, without crashing or reading past the end.",
     ["inputs"], "all inputs up to the bound", "Tests encode a few literals.",
     ["monoruby/src/value/rvalue/string/pack.rs"], [("codecs", "monoruby/src/value/rvalue/string/pack.rs")], ["decoded bytes"])

prop("P02", "Serialized numbers read back exactly",
     "Every integer and float written in the serialized form reads back as the same number, using the documented length-prefixed layout with no byte more than needed. Reading arbitrary bytes as a number, string or symbol yields a value or an error but never a crash, whatever length they declare.",
     ["inputs"], "all integers the format admits within the bound; all byte strings up to the bound", "Tests dump and load chosen values.",
     ["monoruby/src/builtins/marshal.rs"], [("integer writer and reader", "monoruby/src/builtins/marshal.rs")], ["value read back"])

prop("A01", "The compiler never assigns one register to two live values",
     "Whatever sequence of allocations, releases, spills and pins code generation performs, a machine register is held by at most one value at a time, a register asked for is free or properly evicted, and every value still needed is findable where the bookkeeping says.",
     ["histories"], "every operation history within the bound", "Program tests exercise typical pressure only.",
     ["monoruby/src/codegen/jitgen/gp_alloc.rs"], [("pool bookkeeping", "monoruby/src/codegen/jitgen/gp_alloc.rs")], ["ownership maps after each operation"])

prop("L01", "Reported line numbers are those of the source text",
     "For every source text and position, the reported line is one plus the number of line breaks before that position (the last line for positions past the end), shifted by the declared starting line.",
     ["inputs"], "all texts up to the bound, all positions and offsets", "A test compares on one text.",
     ["monoruby/src/ast/source_info.rs"], [("line start index with binary search", "monoruby/src/ast/source_info.rs LineTops")], ["reported line"])

prop("Q01", "Random numbers stay in range and a seed determines the sequence",
     "The same seed always gives the same sequence, which is that of the reference generator. Bounded integers are within their bound for every bound and every generator state, and floats lie in [0,1).",
     ["inputs", "histories"], "all seeds and bounds; all generator outputs", "Tests draw samples.",
     ["monoruby/src/globals/prng.rs"], [("generator and range reduction", "monoruby/src/globals/prng.rs")], ["numbers drawn"])

prop("V01", "Instance-variable storage keeps every value through growth and copying",
     "After any sequence of appends, resizes and copies the storage reads back every stored value, unset positions read as unset, copies are independent, and no access leaves the storage or leaks it.",
     ["histories"], "every operation history within the bound", "Program tests only.",
     ["monoruby/src/value/rvalue/ivar_table.rs"], [("growable raw buffer", "monoruby/src/value/rvalue/ivar_table.rs")], ["contents; memory faults"])

# ----------------------------------------------------------------- stated, not decided here
prop("J01", "Compiled code and interpreted code compute the same results",
     "A program produces the same results, side effects and exceptions whether its methods run interpreted, compiled, or switch between the two at any point.",
     ["programs", "configurations"], "all programs and compilation/deoptimization points", "Tests run particular programs long enough to compile.",
     ["monoruby/src/codegen/jitgen.rs", "monoruby/src/codegen/arch/x86_64/compile/mod.rs"], [("guards and deoptimization", "monoruby/src/codegen/jitgen")], ["program output"])
prop("C01", "Redefining a method or constant takes effect at every later call",
     "After a method, constant or operator is redefined, included or refined, every later use sees the new definition, regardless of caches and compiled code.",
     ["programs", "histories"], "all redefinition histories", "Tests redefine in a few shapes.",
     ["monoruby/src/globals/store.rs", "monoruby/src/globals/store/basic_op.rs", "monoruby/src/codegen/patch.rs"], [("version checks and invalidation", "monoruby/src/globals/store.rs")], ["method called"])
prop("E01", "Ensure blocks run exactly once on every exit path",
     "Leaving a protected region by completion, exception, break, return, next, throw or fiber switch runs its cleanup exactly once, in order, and continues to the right target.",
     ["programs", "fault_sequences"], "all nestings and exit paths", "Tests cover listed shapes.",
     ["monoruby/src/bytecodegen/statement.rs", "monoruby/src/executor.rs"], [("exception table", "monoruby/src/bytecodegen")], ["order of effects"])
prop("Y01", "Green threads and fibers lose no wake-up and corrupt no stack",
     "Under every preemption and I/O readiness order, each runnable thread or fiber eventually resumes with its own stack and values, and a wake-up delivered before a wait is not lost.",
     ["schedules"], "all schedules", "Tests run a few timings.",
     ["monoruby/src/scheduler.rs", "monoruby/src/poll_flag.rs"], [("scheduler and poll word", "monoruby/src/scheduler.rs")], ["program progress"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

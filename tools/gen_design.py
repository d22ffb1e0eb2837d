#!/usr/bin/env python3
"""Rewrites the per-property part of DESIGN.md from props.py, properties.jsonl, the notes below and the last evidence."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props  # noqa: E402

# What the harness takes as specification, and what it compares the code with.
NOTES = {
    "H01": "Oracle: an array of (key, value) pairs in insertion order, searched linearly. Keys are ids with an unknown hash each, so that collisions, equal tags and wrap-around are path "
           "conditions. After the operations every key is looked up, every position read, and the length and order compared.",
    "H02": "The same unknown operation sequence is run on a map in the small form and on one forced into the indexed form; results, order and final contents must agree, and agree with the list "
           "model. The switch is provoked by growth, capacity, reservation, bulk insertion and clearing.",
    "H03": "Hashing and equality of the key type fail at an unknown call. The specification: the operation returns that error and the map, read back position by position and by key, is "
           "unchanged; without a failure the result is the model's.",
    "H04": "Model: the list with tombstones. Deletions inside a traversal at unknown positions, then the compaction that ends it; positions, lookups and order are compared before and after.",
    "H05": "Model: the list operation of the same name on the array. Positions are unknown, in and out of range; sizes lie on both sides of the size heuristic that selects a sweep or single searches.",
    "H06": "Model: the array after the list operation; what is handed back is compared as well. The three erase strategies are each entered (cover points).",
    "H07": "Model: the list; a handle is taken for an unknown key and used in every way it offers. Position and kind are compared before, the map after.",
    "H08": "Each fast path is followed by general operations on the same key and the other way round; both must agree with the list model.",
    "H09": "Clone and clone_from onto maps of both forms and other sizes; equality against the list model's set equality; later changes on one side must not show on the other.",
    "H10": "Model: ordered list without repetitions; algebra against membership formulas over four unknown members.",
    "H11": "Model: the array and two indices; unknown mixes of next, next_back, nth and len. Slices, binary searches and ranges against a linear scan.",
    "H12": "The entries are read through the published constants with raw loads, as the JIT does, and compared with the safe interface.",
    "T01": "Model: a multiset of (hash, id). The 64-bit hashes are unknown in the bits that select position and tag. Tables of 4 to 64 buckets, with reusable slots, in-place rehash and growth.",
    "T02": "Model: the set of live ids; every traversal must meet each exactly once; counts are compared at each step.",
    "T03": "Model: array indexed by key id. Two unordered maps or sets with unknown hashes.",
    "T04": "Sizes are full 64-bit unknowns in the arithmetic; for the behavioural part the allocation counter of the executor is the oracle.",
    "T05": "Each back end's group type is compiled by itself (the portable ones through path inclusion) and compared with a byte loop for any 16 (8) control bytes.",
    "M01": "The executor's own memory model is the oracle: every block freed once, every access inside a live block; a counter per element records drops.",
    "M02": "Caller code panics at an unknown call; unwinding is executed; afterwards the collection is used again and the drop counters compared.",
    "R01": "For all pairs (triples) of unknown values of each key type: equality laws and equality of the bytes handed to a recording hasher.",
    "G01": "Model: a graph of objects with unknown references, roots and ages, reachability computed by closure. alloc.rs and the tracing, barrier and header code of rvalue.rs, array.rs and "
           "struct_inner.rs are compiled together with monoruby_attr's barrier-inserting macro; page and arena constants are made small in the generated text. Checked after each collection: "
           "reachable objects live and unchanged, after a full one all others gone, the free list and the old-generation count exact, no cell handed out twice, no buffer leaked or freed twice.",
    "U01": "Model: a list of slots (pair or hole), an identity flag, a default and a stack of iteration guards; each operation is applied to both. hash.rs of the interpreter is compiled on top "
           "of the real rubymap and hashbrown; objects, strings, the collector's header and the builtin calling convention are stand-ins. Keys with their own hash count and can refuse the calls.",
    "K01": "Specification: eql? holds exactly when kind and contents are equal, in both directions; eql? implies equal digests. The dispatch of value.rs and the code of hash.rs, array.rs and "
           "range.rs are real; the digest function itself is a stand-in that keeps everything written to it.",
    "W01": "Oracle: the validity rules of each encoding written anew (Unicode table 3-7, the EUC-JP and Shift_JIS lead and trail ranges) applied to the model's bytes; the cached value must equal it. The file is compiled "
           "as it is, over stand-ins for the object header, the error type and the small-vector library (same layout, inline capacity 4).",
    "W02": "Oracle: the list of characters computed by the same rules; every count, range and position is read off that list.",
    "W03": "Oracle: one byte list per string. The executor tracks every allocation, so reading a freed buffer or freeing it twice is a violation by itself; all objects are freed at the end of each path.",
    "W04": "Oracle: a reader of double-quoted literals that undoes the escapes and rejects quotes and interpolations.",
    "N01": "Specification: decode(encode(x)) = x bit for bit, and the kind predicates are mutually exclusive. Arithmetic rounding of the float form is compared with the IEEE theory of the solver.",
    "N02": "Oracle: 128-bit two's complement arithmetic on the same unknowns (64-bit for products), floor division by definition. A 128-bit stand-in replaces the big-integer library.",
    "N03": "Oracle: cross-multiplication over the same unknown numerators and denominators; a rounding result r is right when its distance to the value is on the right side and below one unit (half a "
           "unit), which needs no division. rational.rs and the builtins run over a narrow stand-in for the big-integer library.",
    "X01": "Oracle: a reader of RFC 8259 written from its grammar, over the same unknown bytes; acceptance and value must agree. For writing, both readers must return the value written.",
    "N04": "Oracle: a rounding result is right when it is a multiple, on the right side and nearer than one unit (half a unit, with the rule for ties); bit fields by shift and mask in 128 bits; notation "
           "read back digit by digit; the neighbours of a float through the order of the bit patterns. None of it divides the way the code does.",
    "D01": "Oracle: the documented meaning written over a plain list: which positions the arguments designate, then one splice. Array and its builtins run on a model of Value; unknown block "
           "answers, and a block that raises or shortens the array at an unknown call. One verdict covers all values of the elements and positions, which is where tests have to choose.",
    "Z01": "Oracle: a renderer written from the documentation that works on the unknown value: digits by repeated division, padding by counting; for %a the printed text is read back and compared with the "
           "mantissa bits, rounded to the precision. The whole of format.rs is executed, with a stand-in for conversions.",
    "S01": "Specification only: output is a permutation, ordered, stable; on a failing comparison still a permutation. The comparison is an unknown relation or an unknown key order.",
    "B01": "The kernel is an unknown: each write accepts any number of bytes, is interrupted, would block or fails. Oracle: the concatenation of what was accepted is a prefix of what was written.",
    "B02": "Each read returns an unknown number of bytes, an interruption or the end. Oracle: the stream as an array and one position.",
    "F01": "Oracle: a recursive matcher written from the documented pattern language over the same unknown pattern and name bytes.",
    "P01": "Oracle: decode after encode is the identity, and the documented layout computed bit by bit; decoders of unknown bytes must end in a value or an error.",
    "P02": "Oracle: the published length-prefixed layout; read after write is the identity; unknown bytes never panic.",
    "A01": "Invariant over all sequences of pool operations within the bound: a register has at most one holder and what the pool reports is what was granted.",
    "L01": "Oracle: counting line breaks before the position, byte by byte.",
    "Q01": "Oracle: MT19937 written from its definition, seeded with the same unknowns; bounds by direct comparison.",
    "V01": "Model: an array of options.",
}


COMMON = os.path.commonprefix([props.PROPS["H01"]["bounds"], props.PROPS["H05"]["bounds"]])
COMMON = COMMON[:COMMON.rindex(". ") + 1]


def main():
    d = {}
    for ln in open(os.path.join(HERE, "properties.jsonl")):
        x = json.loads(ln)
        d[x["id"]] = x
    out = ["For the collections (H, T): " + COMMON + "\n"]
    for i in d:
        x = d[i]
        out.append("### %s — %s\n" % (i, x["title"]))
        if i not in props.PROPS:
            out.append("Not applicable: %s\n" % props.NOT_APPLICABLE[i])
            continue
        p = props.PROPS[i]
        out.append("- Specification and oracle: %s" % NOTES[i])
        out.append("- Bounds: %s" % p["bounds"].replace(COMMON, "").strip())
        out.append("- Outside: %s" % p["outside"])
        ev = os.path.join(HERE, "evidence", i + ".json")
        if os.path.exists(ev):
            e = json.load(open(ev))
            s = e.get("coverage", {})
            cost = "%s paths, %s instructions" % (format(s.get("states", 0), ","), format(s.get("transitions", 0), ","))
            w = e.get("wall_s") or s.get("wall_s")
            if w:
                cost += ", about %d s on 8 cores" % max(1, round(w))
            out.append("- Cost (quick tier): %s." % cost)
        out.append("- What tests miss: %s\n" % x["why_tests_cant"])
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    a = s.index("<!-- PROPS -->")
    b = s.index("<!-- END PROPS -->")
    open(p, "w").write(s[:a] + "<!-- PROPS -->\n" + "\n".join(out) + s[b:])


main()

"""Configuration of the checks: which harness entries decide which property, and their bounds."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))
import kernels  # noqa: E402

MR = "monoruby/src/"
SRC = ["hashbrown", "rubymap", "ruby_traits", "Cargo.toml"]
VALUE = {
    "roots": "nil bool symbol flonum float float_heap fixnum is_i63 check_fixnum i32 integer integer_from_u64 integer_from_f64 bigint try_fixnum try_float "
             "try_symbol as_bool is_nil unpack is_packed_value from_ord ord_from is_immediate class class_for_ic is_fixnum is_float is_integer "
             "from_hash_digest".split(),
    "deny": r"\b(Store|Globals|Executor|GC|Node|NodeKind|HashSet|HASH_STATE|RandomState|Captures|fmt|thread_local|LazyLock|RubySymHash|RubySymEql|RubySymbol|"
            r"Encoding|rational_from_inner|RoundHalf|IntegerBase|AtomicBool)\b|^\s*(?:pub(?:\([^)]*\))?\s+)?(?:use|mod)\b",
}
USES = r"^\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([^)]*\))?\s+)?(?:use|mod)\b"
PASTE = [(r"\[<\s*([^>]*?)\s*>\]", lambda m: "${concat(%s)}" % ", ".join(m.group(1).split()))]
NUMERIC = {"roots": "*", "deny": r"\b(GC|fmt|Num|NReal|Store|RubyEql|Hasher|dup|deep_copy)\b|" + USES}
OPS = {"roots": "bigint_cmp_float compare_values_inner eq_values_vis ne_values_vis neg_value pos_value bitnot_value not_value_raw integer_index1".split(),
       "deny": r"\b(teq_values|ruby_warn|exit_handlers)\b|" + USES}
BINARY = {"roots": [], "deny": USES, "drop": ["try_coerce_and_apply", "try_coerce_and_apply_bit", "complex_real_op", "rhs_is_real_numeric"]}
GC_ALLOC = [(r"(?m)^(?:pub(?:\([^)]*\))? )?const %s: (\w+) = [^;]*;" % n, r"const %s: \1 = %s;" % (n, v))
            for n, v in (("SIZE", "4"), ("MAX_PAGES", "4"), ("MARK_RECURSION_LIMIT", "2"), ("FREE_LOG_CAP", "16"))]
CRATE_HASH = [(r"\bcrate::", "crate::k_hash::")]
CRATE_RAT = [(r"\bcrate::", "crate::k_rat::"), (r"#\[monoruby_builtin\]", ""), (r"(?:\w+::)*parse_half_mode\b", "half_mode"),
             (r"\bnum::", "super::shim::num::")]
CRATE_ARY = [(r"\bcrate::", "crate::k_ary::"), (r"#\[monoruby_builtin\]", "")]
CRATE_INT = [(r"\bcrate::", "crate::k_int::"), (r"#\[monoruby_builtin\]", "")]
CRATE_GC = [(r"\bcrate::", "crate::k_gc::")]
CRATES = {
    "hc": {
        "dir": "harness/containers",
        "sources": SRC,
    },
    # hashbrown with its portable control group
    "hp": {"dir": "harness/portable", "sources": SRC + [HERE + "/harness/containers/src"]},
    # the control module alone, both versions
    "hg": {"dir": "harness/group", "sources": ["hashbrown", HERE + "/harness/containers/src"]},
    # self-contained pieces of the interpreter, see kernels.py
    "k_buf": {"dir": "harness/kernels", "features": ["buf"], "sources": [MR + "value/rvalue/io/buf.rs"]},
    "k_sort": {"dir": "harness/kernels", "features": ["sort"], "sources": [MR + "executor/op/sort.rs"], "gen": ["sort.rs"],
               "prepare": kernels.slicer(MR + "executor/op/sort.rs", "sort.rs", r"\b(Executor|Globals|Store|MonorubyErr)\b")},
    "k_ivar": {"dir": "harness/kernels", "features": ["ivar"], "sources": [MR + "value/rvalue/ivar_table.rs"]},
    "k_fnm": {"dir": "harness/kernels", "features": ["fnm"], "sources": [MR + "builtins/fnmatch.rs"]},
    "k_prng": {"dir": "harness/kernels", "features": ["prng"], "sources": [MR + "globals/prng.rs"], "gen": ["prng.rs"],
               "prepare": kernels.slicer(MR + "globals/prng.rs", "prng.rs", r"\b(Value|BigInt|num|getrandom)\b|use crate::")},
    "k_lines": {"dir": "harness/kernels", "features": ["lines"], "sources": [MR + "ast/source_info.rs"], "gen": ["lines.rs"],
                "prepare": kernels.slicer(MR + "ast/source_info.rs", "lines.rs", r"$^")},
    "k_gp": {"dir": "harness/kernels", "features": ["gp"], "sources": [MR + "codegen/jitgen/gp_alloc.rs"], "gen": ["gp.rs"],
             "prepare": kernels.slicer(MR + "codegen/jitgen/gp_alloc.rs", "gp.rs", r"^\s*use crate::", subst=[(r"pub\(in [\w:]+\)", "pub")])},
    "k_pack": {"dir": "harness/kernels", "features": ["pack"], "sources": [MR + "value/rvalue/string/pack.rs"], "gen": ["pack.rs"],
               "prepare": kernels.slicer(MR + "value/rvalue/string/pack.rs", "pack.rs", r"^\s*use super::\*;",
                                         subst=[(r"crate::value::rvalue::string::", ""), (r"crate::value::", "")])},
    "k_marshal": {"dir": "harness/kernels", "features": ["marshal"], "sources": [MR + "builtins/marshal.rs"], "gen": ["marshal.rs"],
                  "prepare": kernels.slicer(MR + "builtins/marshal.rs", "marshal.rs",
                                            r"\b(Executor|Globals|Lfp|Module|ClassId|Store|monoruby_builtin)\b|^\s*use super|^\s*use num::BigInt",
                                            drop=["read_regexp", "marshal_write_symbol", "marshal_emit_link"])},
    "k_value": {"dir": "harness/kernels", "features": ["value"], "sources": [MR + "value.rs"], "gen": ["value.rs"],
                "prepare": kernels.reacher([(MR + "value.rs", "value.rs", VALUE, [])])},
    "k_num": {"dir": "harness/kernels", "features": ["num"],
              "sources": [MR + f for f in ("value.rs", "value/numeric.rs", "executor/op.rs", "executor/op/binary_ops.rs")],
              "gen": ["num_value.rs", "num_numeric.rs", "num_op.rs", "num_binary.rs"],
              "prepare": kernels.reacher([(MR + "value.rs", "num_value.rs", dict(VALUE, roots=VALUE["roots"] + ["complex"]), []),
                                          (MR + "value/numeric.rs", "num_numeric.rs", NUMERIC, PASTE),
                                          (MR + "executor/op.rs", "num_op.rs", OPS, PASTE),
                                          (MR + "executor/op/binary_ops.rs", "num_binary.rs", BINARY, PASTE)])},
    "k_rat": {"dir": "harness/kernels", "features": ["rat"],
              "sources": [MR + f for f in ("value/rvalue/rational.rs", "builtins/numeric/rational.rs")],
              "gen": ["rat_inner.rs", "rat_calls.rs"],
              "prepare": kernels.several(
                  kernels.slicer(MR + "value/rvalue/rational.rs", "rat_inner.rs", USES, subst=CRATE_RAT),
                  kernels.reacher([(MR + "builtins/numeric/rational.rs", "rat_calls.rs", {
                      "roots": "eq ne cmp add sub mul div pow neg abs zero_ positive_ negative_ eql_ numerator denominator to_i rat_floor rat_ceil "
                               "rat_truncate rat_round".split(),
                      "deny": r"\b(define_class|define_builtin_func)\b|" + USES}, CRATE_RAT)]))},
    "k_json": {"dir": "harness/kernels", "features": ["json"], "sources": [MR + "builtins/json.rs"], "gen": ["json.rs"],
               "prepare": kernels.slicer(MR + "builtins/json.rs", "json.rs", r"\bdefine_builtin_class_func\b|" + USES, subst=[
                   (r"#\[monoruby_builtin\]", ""), (r"\bcrate::", "crate::k_json::")])},
    "k_ary": {"dir": "harness/kernels", "features": ["ary"],
              "sources": [MR + f for f in ("value/rvalue/array.rs", "builtins/array.rs")] + ["monoruby_attr"],
              "gen": ["ary_inner.rs", "ary_calls.rs"],
              "prepare": kernels.several(
                  kernels.reacher([(MR + "value/rvalue/array.rs", "ary_inner.rs", {
                      "roots": "*", "deny": r"\b(Store|fmt|RubyEql|RubyHash|RubySet)\b|" + USES}, CRATE_ARY)]),
                  kernels.reacher([(MR + "builtins/array.rs", "ary_calls.rs", {
                      "roots": "index index_assign slice_ insert delete_at delete first last take drop shift pop push unshift concat fetch rotate "
                               "rotate_ fill reverse reverse_ compact compact_ transpose product flatten flatten_ filter_ keep_if reject_ "
                               "delete_if".split(),
                      "deny": r"\b(define_class|define_builtin_class|AbstractState|JitContext|random)\b|" + USES,
                      "drop": ["array_enumerator", "try_convert_to_array", "cmp", "eq", "eql", "hash", "inspect", "sum", "min", "max", "sort", "join", "clone",
                               "dup", "clear", "replace", "filter"]}, CRATE_ARY)]))},
    "k_fmt": {"dir": "harness/kernels", "features": ["fmt"], "sources": [MR + "executor/format.rs"], "gen": ["fmt.rs"],
              "prepare": kernels.slicer(MR + "executor/format.rs", "fmt.rs", USES, subst=[(r"\bcrate::", "crate::k_fmt::")])},
    "k_int": {"dir": "harness/kernels", "features": ["int"],
              "sources": [MR + f for f in ("builtins/numeric/integer.rs", "builtins/numeric/float.rs")],
              "gen": ["int_integer.rs", "int_float.rs"],
              "prepare": kernels.several(
                  kernels.reacher([(MR + "builtins/numeric/integer.rs", "int_integer.rs", {
                      "roots": "int_floor int_ceil int_truncate int_round index pow abs succ bit_length to_s even_ odd_ zero_ nonzero_ fold_shl "
                               "fold_shr".split(),
                      "deny": r"\b(define_class|AbstractState|JitContext|paste|binop|cmpop)\b|" + USES}, CRATE_INT)]),
                  kernels.reacher([(MR + "builtins/numeric/float.rs", "int_float.rs", {
                      "roots": "floor ceil truncate round toi next_float prev_float parse_half_mode".split(),
                      "deny": r"\b(define_class|AbstractState|JitContext)\b|" + USES, "drop": ["abs", "div_floor"]}, CRATE_INT)]))},
    "k_gc": {"dir": "harness/kernels", "features": ["gc"],
             "sources": [MR + f for f in ("alloc.rs", "value.rs", "value/rvalue.rs", "value/rvalue/array.rs", "value/rvalue/struct_inner.rs",
                                          "value/rvalue/ivar_table.rs")] + ["monoruby_attr"],
             "gen": ["gc_alloc.rs", "gc_rvalue.rs", "gc_array.rs", "gc_struct.rs", "gc_value.rs"],
             "prepare": kernels.several(
                 kernels.slicer(MR + "alloc.rs", "gc_alloc.rs", r"\b(GlobalAlloc for|RurubyAlloc|malloc_hard_limit|report_stale|malloc_stats)\b",
                                drop=["free_log_enabled", "all_major_forced", "tracked_addr"], subst=GC_ALLOC + CRATE_GC, trans=False),
                 kernels.reacher([
                     (MR + "value/rvalue.rs", "gc_rvalue.rs", {
                         "roots": "write_barrier write_barrier_bulk set_ivar_by_ivarid get_ivar_by_ivarid remove_ivar_by_ivarid swap_kind pack".split(),
                         "deny": r"\b(Store|Globals|Executor|fmt|RubyEql|RubyHash|HashId|inspect)\b|" + USES}, CRATE_GC),
                     (MR + "value/rvalue/array.rs", "gc_array.rs", {
                         "roots": "*", "deny": r"\b(Store|Globals|Executor|fmt|RubyEql|RubyHash|RubySet)\b|" + USES}, CRATE_GC),
                     (MR + "value/rvalue/struct_inner.rs", "gc_struct.rs", {
                         "roots": "*", "deny": r"\b(Store|Globals|Executor|fmt|RubyEql|RubyHash|RubySet)\b|" + USES}, CRATE_GC),
                     (MR + "value.rs", "gc_value.rs", {
                         "roots": ["write_barrier", "write_barrier_bulk", "set_struct_slot"],
                         "deny": r"^(?!\s*impl Value\b)(?![\s\S]*\bfn (?:write_barrier|write_barrier_bulk|set_struct_slot)\b)"}, CRATE_GC)]))},
    "k_hash": {"dir": "harness/kernels", "features": ["hash"],
               "sources": [MR + f for f in ("value.rs", "value/rvalue/hash.rs", "value/rvalue/array.rs", "value/rvalue/range.rs", "builtins/hash.rs")]
               + ["rubymap", "ruby_traits", "hashbrown"],
               "gen": ["hash.rs", "hash_value.rs", "hash_array.rs", "hash_range.rs", "hash_builtins.rs"],
               "prepare": kernels.several(
                   kernels.slicer(MR + "value/rvalue/hash.rs", "hash.rs", r"\b(Store|HashSet|RandomState|fmt)\b", trans=False,
                                  subst=CRATE_HASH + [(r"RubyMap::with_capacity\(", "map_with_capacity(")]),
                   kernels.reacher([
                       (MR + "value.rs", "hash_value.rs", {
                           "roots": ["ruby_hash_packed", "calculate_hash", "exec_recursive_paired", "from_hash_digest"],
                           "drop": kernels.names("value_fns.txt"),
                           "deny": r"^(?!\s*impl\b)(?![\s\S]*\bfn\b)|^\s*impl(?!\s+Ruby(?:Hash|Eql)<Executor, Globals, MonorubyErr> for Value\b|\s+Value\b)"}, CRATE_HASH),
                       (MR + "value/rvalue/array.rs", "hash_array.rs", {
                           "roots": [], "deny": r"^(?!\s*impl Ruby(?:Hash|Eql)<Executor, Globals, MonorubyErr> for ArrayInner\b)"}, CRATE_HASH),
                       (MR + "value/rvalue/range.rs", "hash_range.rs", {
                           "roots": [], "deny": r"^(?!\s*impl Ruby(?:Hash|Eql)<Executor, Globals, MonorubyErr> for RangeInner\b)"}, CRATE_HASH),
                       (MR + "builtins/hash.rs", "hash_builtins.rs", {
                           "roots": "index_assign clear replace delete shift compare_by_identity compare_by_identity_ iter_begin iter_end key_at value_at entry_component entry_count live_at dup_table set_value_at size keys values pairs get_or_key new_hash_with_capacity default_assign".split(),
                           "drop": kernels.names("hash_fns.txt"), "deny": r"^(?![\s\S]*\bfn\b)"},
                        CRATE_HASH + [(r"#\[monoruby_builtin\]", ""), (r"(?m)^fn ", "pub fn ")])]))},
    "k_str": {"dir": "harness/kernels", "features": ["str"],
              "sources": [MR + "value/rvalue/string.rs", MR + "value/rvalue/string/printable.rs"], "gen": ["string.rs"],
              "prepare": kernels.slicer(MR + "value/rvalue/string.rs", "string.rs", r"\b(monoruby_object|Globals|Executor)\b|^\s*pub mod pack;", trans=False,
                                        subst=[(r"(?m)^mod printable;", '#[path = "/repo/monoruby/src/value/rvalue/string/printable.rs"]\nmod printable;'),
                                               (r"\bcrate::", "crate::k_str::")])},
    "hg8": {"dir": "harness/group8", "sources": ["hashbrown", HERE + "/harness/containers/src", HERE + "/harness/group/src"]},
}

TRUST = ("rustc's lowering to LLVM IR, the executor's IR semantics (cross-checked by replaying solved paths natively), "
         "Z3, and the list/set models in the harness.")
COMMON_ASSUMPTIONS = [
    "the IR is what rustc (nightly-2026-10-29, opt-level 1, overflow checks on) emits for /repo's current sources",
    "allocations above 4 MB fail; smaller ones succeed",
    "single-threaded execution",
]
NOTES = "All checks share one engine (engine/) and are driven by vf.py; see DESIGN.md."

PROPS = {}


def prop(pid, parts, bounds, outside, assumptions=()):
    PROPS[pid] = {"parts": parts, "bounds": bounds, "outside": outside, "assumptions": list(assumptions)}


def hc(quick, thorough=(), covers=None, **kw):
    return [dict(crate="hc", quick=list(quick), thorough=list(thorough), covers=covers or {}, **kw)]


def part(crate, quick, thorough=(), covers=None, **kw):
    return [dict(crate=crate, quick=list(quick), thorough=list(thorough), covers=covers or {}, **kw)]


T05 = ["t05_" + x for x in ("empty", "special", "full", "convert", "tag", "aligned", "list0", "list1", "list2", "list3", "static")]

HASHES = ("Hash values are unknowns: 'full' = all 64 bits; 'pos4' = 4 position bits and 7 tag bits; 'edge' = position 0, 1, 62 or 63 "
          "and all 7 tag bits; 'narrow' = edge positions and 1 tag bit; 'planned' = fixed layouts (spread, all equal, one position, "
          "one tag) with one key unknown (edge). Values are 16-bit unknowns. ")

prop("H01",
     hc(["h01_lin_full", "h01_lin_full2", "h01_lin_edge", "h01_idx_full", "h01_idx_edge", "h01_idx_edge2", "h01_big_lin", "h01_big_idx"],
        ["h01_idx_edge3", "h01_big_idx2"]),
     HASHES + "Maps of 0-3 entries in both forms, any one of 23 operations after the build (edge), any two operations (edge, full for the "
     "small form; three in the thorough tier); maps of 7, 8, 9, 13, 14, 15 entries of the planned layouts (both sides of the small-form "
     "limit and of the first growth) and any one of 23 operations.",
     "longer histories, maps above 17 entries, keys whose eql? or hash is inconsistent.")
prop("H02",
     hc(["h02_diff_full", "h02_diff_pos", "h02_diff_edge", "h02_diff_edge2", "h02_cross", "h02_reuse", "h02_reuse_big"],
        ["h02_diff_pos2", "h02_diff_edge4", "h02_diff_edge22", "h02_cross4", "h02_cross2"]),
     HASHES + "The same history applied to a map in the small form and to one forced into the indexed form (six ways of forcing it): "
     "1-3 entries and one or two operations; a map crossing from 8 to 9 and back compared with one that never was small; maps cleared "
     "or emptied and refilled.",
     "longer histories; more than 11 keys.")
prop("H03",
     hc(["h03_lin_full", "h03_idx_edge", "h03_lin_collide", "h03_lin_cross", "h03_idx_collide", "h03_bulk_lin", "h03_bulk_idx",
         "h03_set_lin", "h03_set_idx", "h03_hb_full", "h03_hb_edge", "h03_hb_deep", "h03_hb_set", "h03_table"], covers={}),
     HASHES + "The n-th call (n unknown, 1..4, or none) of the key's eql? or hash raises an error with an unknown 64-bit code; maps of 2, 3, "
     "7, 8 and 9 entries, every fallible operation of RubyMap, RubySet and of hashbrown's HashMap, HashSet and HashTable; afterwards the "
     "collection is compared with the state before the call.",
     "errors raised by hashing while a table grows (the rehash callback cannot fail in this code base), two errors in one operation.")
prop("H04",
     hc(["h04_lin_full", "h04_idx_full", "h04_lin_edge", "h04_lin_edge3", "h04_idx_edge", "h04_idx_after", "h04_idx_deep", "h04_large_lin",
         "h04_large_idx", "h04_large_idx2", "h04_refill"]),
     HASHES + "Up to three steps of a traversal body (delete by key, by position, shift, overwrite, look up) on maps of 1-3 entries, one or "
     "two on maps of 8, 9, 14 entries, then compaction and a further operation; 13 of 14 entries deleted, compacted and refilled past the "
     "growth point.",
     "the Ruby-level bookkeeping in monoruby that decides when to compact; longer bodies.")
prop("H05",
     hc(["h05_lin_edge", "h05_lin_full", "h05_idx_edge", "h05_idx_edge2", "h05_sorted_lin", "h05_sorted_idx", "h05_wide_idx", "h05_wide_lin"],
        ["h05_idx_edge22", "h05_idx_mix", "h05_wide_all"]),
     HASHES + "Any one (edge) or two (narrow) positional operations with every pair of positions on maps of 0-3 entries in both forms; one on maps of 8, 9, 14 "
     "entries with boundary positions, where the index is updated by sweeping instead of by probing.",
     "maps above 15 entries; longer histories.")

prop("H06",
     hc(["h06_lin_edge", "h06_idx_full", "h06_idx_edge", "h06_idx_after", "h06_lin_sort", "h06_idx_sort", "h06_lin_join", "h06_idx_join",
         "h06_wide_lin", "h06_wide_idx", "h06_sort_lin", "h06_sort_idx", "h06_wide14"],
        ["h06_wide_all"]),
     HASHES + "One bulk operation (drain of any range and bound kind with up to two items consumed, split, truncate, retain with any predicate "
     "outcome, reverse, eight sorts, append, extend) on maps of 0-3 entries in any of three orders and both forms; on maps of 7, 8, 9 and 14 "
     "entries every range, with every key looked up afterwards and one further operation.",
     "maps above 15 entries; comparators that are not orders.")
prop("H07",
     hc(["h07_lin_full", "h07_lin_edge", "h07_idx_edge", "h07_two", "h07_pos_lin", "h07_pos_idx", "h07_pos_after", "h07_sorted", "h07_big_lin",
         "h07_big_idx", "h07_big_pos"]),
     HASHES + "Every handle operation (key handles, vacant and occupied, positional, first and last, conversions between them) on maps of 0-3 "
     "entries of both forms; two in a row on 1-2 entries; one on maps of 7, 8, 9 and 14 entries.",
     "longer sequences of handle operations.")
prop("H08",
     hc(["h08_lin_full", "h08_idx_full", "h08_lin_edge", "h08_idx_edge", "h08_lin_mix", "h08_idx_mix", "h08_built_lin", "h08_built_idx"],
        ["h08_idx_mix3"]),
     HASHES + "One fast operation on maps of 0-3 entries; fast, general, fast in a row on 0-2 entries (thorough: four in a row); maps of 7, 8, 9, "
     "14, 15 entries built entirely by a fast path, then one operation.",
     "callers that pass a hash or an equality inconsistent with the key's own (excluded by the documented contract).")

prop("H09",
     hc(["h09_lin_full", "h09_lin_edge", "h09_idx_edge", "h09_big_lin", "h09_big_idx", "h09_eq", "h09_eq_big", "h09_eq_cross", "h09_sets",
         "h09_sets_big", "h09_pairs"]),
     HASHES + "Six copy forms (clone, clone_from over an empty, an indexed and a larger map, map_keys, extend) of maps of 0-3 entries and of 7-14 "
     "entries, then one operation on either side; equality of every pair of sub-maps over 3 keys with unknown 8-bit values, of larger maps of "
     "different form and history; sets likewise; from_iter and extend with repeated keys.",
     "maps above 15 entries; equality under key types other than the harness key and u8.",
     ["equality entries use std's RandomState with its seed fixed to one value"])
prop("H10",
     hc(["h10_lin_full", "h10_lin_edge", "h10_idx_edge", "h10_two", "h10_big_lin", "h10_big_idx", "h10_rel", "h10_rel_idx", "h10_rel_mix", "h10_rel_big"]),
     HASHES + "Any one of 29 set operations on sets of 0-3 members in both forms, two in a row, one on sets of 7-14 members; subset, superset, "
     "disjointness and equality for every pair of subsets of 3 keys in every combination of forms, and for larger sets differing in one member.",
     "sets above 15 members; longer histories.")
prop("H11",
     hc(["h11_walk", "h11_walk4", "h11_set", "h11_rest", "h11_ranges", "h11_indices", "h11_search", "h11_search7", "h11_disjoint",
         "h11_disjoint_lin", "h11_slices"], ["h11_set3", "h11_walk44"]),
     "Every iterator of RubyMap and RubySet over 0-4 entries: any three (thorough: four) steps among next, next_back, nth(n), nth_back(n) with n any 64-bit "
     "value, then count, last, collect or rev; ranges with any two 64-bit bounds of any kind over 0-3 entries through six interfaces; any 64-bit "
     "position for reads, writes and splits; ordered searches over 0-7 ascending unknown 8-bit values.",
     "collections above 7 entries; rayon and serde adaptors (not compiled by this workspace).")
prop("H12",
     hc(["h12_small", "h12_indexed", "h12_niche"]),
     "Maps of 0-8 entries in the small form and 0-10 in the indexed form with unknown values, after any one of five kinds of operation; two "
     "key types (a plain struct and one with unused bit patterns).",
     "other key types; layouts chosen by other compiler versions (the check uses the one installed).")

T01_Q = ["t01_full", "t01_full2", "t01_four", "t01_four2", "t01_eight", "t01_pos", "t01_grow8", "t01_grow16", "t01_dense32", "t01_rehash32",
         "t01_clone32", "t01_dense64", "t01_deep32q"]
prop("T01",
     hc(T01_Q, ["t01_deep32"]) +
     part("hp", ["t01_grow8", "t01_grow16", "t01_dense32", "t01_rehash32"],
          ["t01_full", "t01_full2", "t01_clone32", "t01_dense64", "t01_deep32q"]),
     HASHES + "Tables of 4, 8, 16, 32 and 64 buckets: 1-4 elements with unknown hashes and one or two of 14 operations; full tables of 32 and 64 "
     "buckets with deleted slots (planned layouts), in-place rehash, clone and up to four further operations. The same entries are also run "
     "on the table compiled with its portable (non-SSE2) control group.",
     "tables above 64 buckets, histories above the stated lengths.")
prop("T02",
     hc(["t02_full", "t02_four", "t02_eight", "t02_hash", "t02_after", "t02_sixteen", "t02_dense32", "t02_dense64"]) +
     part("hp", ["t02_full", "t02_hash"], ["t02_eight", "t02_after", "t02_sixteen"]),
     HASHES + "Every traversal (iter, iter_mut, iter_hash, drain, retain, extract_if, into_iter), abandoned at any point, with any predicate "
     "outcome, over tables of 1-4 elements with unknown hashes, and over 8 to 64 buckets of planned layouts with deleted slots; the table is used again afterwards.",
     "tables above 64 buckets.")
prop("T03",
     hc(["t03_full", "t03_edge", "t03_four", "t03_two", "t03_big", "t03_set", "t03_set2", "t03_rel", "t03_eq"], ["t03_big32q", "t03_big32"]),
     HASHES + "HashMap: any one of 29 operations (every entry, entry_ref and try_insert form, clone, clone_from, retain, extract_if, extend, "
     "from_iter, drain) on maps of 0-3 keys, two operations from 6x7 kinds, one on a full map of 14 (thorough: two on 28). HashSet: one or two of 13 "
     "operations; subset, superset and equality of every pair of sets over 3 keys; equality of every pair of maps over 2 keys with unknown values.",
     "longer histories, larger maps.")
prop("T04",
     hc(["t04_with", "t04_huge3", "t04_huge_new", "t04_huge_zst", "t04_rhuge3", "t04_rnew", "t04_fill", "t04_fill32",
         "t04_shrink", "t04_shrink9", "t04_shrink0", "t04_rshrink", "t04_rshrink9", "t04_rreserve"],
        ["t04_huge0", "t04_huge_map", "t04_rhuge0", "t04_rhuge9", "t04_rexact", "t04_rreserve9"]),
     "Requested sizes are 64-bit unknowns from 2^17 up for HashTable (element sizes 0 and 24) and from 2^18 up for RubyMap, 16-bit unknowns for "
     "with_capacity, 6-bit ones for RubyMap::reserve followed by that many inserts; fill levels 0-15 and 28 with 1-28 further inserts and "
     "unknown hashes; every shrink target.",
     "other element sizes; RubyMap sizes between 64 and 2^18.")
prop("T05",
     part("hg", T05, optional=True) + part("hg8", T05, optional=True) + part("hp", ["t01_grow8", "t02_full"]),
     "Groups whose bytes are all unknown among the valid control bytes (full, deleted, empty), all 7-bit tags, both back ends: emptiness, first "
     "match, leading and trailing run lengths, conversion for rehash; complete match lists with three unknown bytes at any positions over three "
     "backgrounds. The control module is compiled from /repo as a part of the harness crate because its items are private.",
     "the NEON and LSX back ends (other architectures).")

prop("M01",
     hc(["m01_lin", "m01_idx", "m01_two", "m01_two_idx", "m01_err", "m01_err_idx", "m01_big", "m01_big_idx", "m01_set", "m01_set_err", "m01_hmap",
         "m01_hmap2", "m01_hmap_err", "m01_hbig", "m01_hbig32", "m01_hrehash", "m01_table", "m01_zero"],
        ["m01_four", "m01_hmap4", "m01_hmap23"]),
     HASHES + "Keys and values that each own a heap block. RubyMap: any one of 36 operations on 0-2 entries in both forms (thorough: 0-3), any two on 0-1, bulk "
     "operations on 7, 8, 9 and 14; HashMap: any one of 24 on 0-2 (thorough 0-3), any two on 0-1, 14 entries and 18 of 28 with deleted slots; HashTable, both "
     "sets and elements of size zero; the same with an error raised by the n-th eql? or hash call, n any 8-bit value. Every access is checked against "
     "the bounds and lifetime of its block and the number of live blocks must return to its start.",
     "longer histories; leaks through mem::forget of the iterators; data races.")
prop("M02",
     hc(["m02_lin", "m02_idx", "m02_big", "m02_big_idx", "m02_set", "m02_hmap", "m02_hbig", "m02_hbig32", "m02_hrehash", "m02_table"], ["m02_hmap4"],
        {e: [1, 2] for e in ("m02_lin", "m02_idx", "m02_big", "m02_big_idx", "m02_hmap", "m02_hbig", "m02_hbig32", "m02_hrehash")}) +
     hc(["m02_known"]),
     HASHES + "The operations of M01 with the n-th call into caller code (hash, eql?, comparison, predicate, clone, default, drop) panicking, n any 8-bit "
     "value; small collections of 0-2 entries, 8, 9, 14 and 18 of 28 entries with deleted slots; afterwards every element held is found, the others "
     "kept, and the collection accepts an insert.",
     "a second panic while unwinding; leaks after a panic (allowed).")
prop("R01",
     hc(["r01_ints", "r01_others", "r01_strings", "r01_strings8", "r01_vecs", "r01_nested", "r01_errors", "r01_symbols"]),
     "All values of the ten integer types, bool, char and (), by value, by reference and inside Option; strings of 0-8 bytes of any one- and "
     "two-byte characters; vectors and slices of 0-5 32-bit elements, nested vectors of options; the n-th element comparison or hashing raising an "
     "error, n any 64-bit value. What is written to the hasher is recorded byte for byte.",
     "longer strings and vectors.")

# id -> one-line reason, for everything not claimed
# ---------------------------------------------------------------- kernels of the interpreter crate
KERNEL = ("The file is compiled as it stands in /repo (or, where it also holds code that needs the rest of the interpreter, those items are left out) "
          "into a crate of its own.")

prop("B01",
     part("k_buf", ["b01_paired", "b01_hist2", "b01_hist3", "b01_hist3q", "b01_hist4", "b01_edge"]),
     "Up to four steps (write of 0-3 unknown bytes, flush, mode change) on a stream that is or is not a terminal and is or is not in sync mode; "
     "writes that leave the buffer 2 or 1 below, at, or above its capacity of 8192, or more than twice as long; each call retried up to three "
     "times. Up to two kernel entries take any part (for long data: one or two bytes, all but one), take nothing, are interrupted, would block or fail; up to "
     "three polls find a signal pending; after that the environment behaves.",
     "the system calls themselves, what Ruby code does with the errors, descriptors shared between streams, more misbehaviours in one history.",
     [KERNEL])
prop("B02",
     part("k_buf", ["b02_hist2", "b02_hist3", "b02_hist3e", "b02_long", "b02_hist4"]),
     "Files of 0-3 unknown bytes, up to four operations (read, peek, consume, seek from the start, the end or here by any 64-bit distance in the last "
     "operation and by -4..4 before), up to two short or interrupted reads; a file longer than the buffer read in pieces around its capacity.",
     "the file changing while it is read; the system calls themselves.",
     [KERNEL])
prop("S01",
     part("k_sort", ["s01_0", "s01_1", "s01_2", "s01_3", "s01_5", "s01_6", "s01_l20", "s01_l21", "s01_l21m", "s01_l22", "s01_l33", "s01_l41", "s01_l41f",
                     "s01_l64", "s01_l90", "s01_raise5", "s01_raise21", "s01_raise40", "s01_any6", "s01_lie1", "s01_lie2"],
          ["s01_7", "s01_l21f"]),
     "Every arrangement of up to six keys (seven in the thorough tier) with every pattern of ties; slices of 20, 21, 22, 33, 41, 64 and 90 "
     "elements in known patterns with one or two unknown keys at the places where runs are cut and merged (the sort merges above 20). The comparator raises at any one "
     "call for slices of 5, 21 and 40. A comparator that answers anything for up to six elements; one that lies at one or two unknown calls for "
     "33 and 22.",
     "slices above 90 elements; comparators that change the array they are called for.",
     [KERNEL])
prop("V01",
     part("k_ivar", ["v01_hist3", "v01_hist4", "v01_hist5", "v01_big"]),
     "Up to five operations (store with growth, read, resize, copy, drop of a copy) with unknown 64-bit values at positions 0-17.",
     "the inline slots and the class-level numbering of variables; tables above 32 slots; copying a table that was never grown, which the interpreter does not do.",
     [KERNEL])
prop("F01",
     part("k_fnm", ["f01_1x2", "f01_2x2", "f01_3x2", "f01_3x3", "f01_4x2", "f01_4x3", "f01_5x3", "f01_5x4", "f01_star", "f01_star2", "f01_star3", "f01_q",
                    "f01_set4", "f01_set5", "f01_set5f", "f01_setn", "f01_setr", "f01_setr2", "f01_esc", "f01_path22", "f01_path33", "f01_brace1",
                    "f01_brace2", "f01_brace4", "f01_brace5"],
          ["f01_path34", "f01_brace3"]),
     "Patterns of 1-5 unknown ASCII characters against strings of 2-4, all flags; patterns of shapes *.*. .*.*. *.*.* ?*.? [...] [....] [!..]. [.-.] "
     ".[.-..] and escapes with the dots unknown, against strings of 1-6; paths of up to three segments, each a wildcard, **, or a letter, against up to "
     "three segments (four in the thorough tier); five brace patterns against every short string.",
     "non-ASCII characters, longer patterns, and stars followed by a literal period matched against a leading period, where the rules can be read two ways.",
     [KERNEL])
prop("Q01",
     part("k_prng", ["q01_seed", "q01_stream", "q01_stream2", "q01_key1", "q01_key2", "q01_key3", "q01_key624", "q01_key626", "q01_lim1", "q01_lim1d",
                     "q01_lim2", "q01_lim3", "q01_ulong", "q01_global", "q01_bytes", "q01_reali", "q01_realg"],
          ["q01_real"]),
     "All 32-bit seeds and the first 1300 draws; all keys of 1, 2 and 3 words and 626 draws, of 624 and 626 words and 3 draws; limits of one to three words (any value) with two to four "
     "draws of any value; 0-9 random bytes; floats from two draws with eight unknown bits each at any of several places, the rest all 0 or all 1.",
     "floats with more unknown bits; bounds above three words; the Ruby-level conversion of bounds.",
     [KERNEL])
prop("L01",
     part("k_lines", ["l01_0", "l01_1", "l01_3", "l01_5", "l01_6", "l01_show2", "l01_show3", "l01_show3w", "l01_show4", "l01_merge"], ["l01_8"]),
     "All UTF-8 texts of 0, 1, 3, 5 and 6 bytes (8 in the thorough tier) that are ASCII or have one longer character, any position, any declared first line; "
     "excerpts of texts of 2-4 bytes for any location within the text and two terminal widths; merging of any two locations.",
     "longer texts; locations beyond the end of the text.",
     [KERNEL])

prop("A01",
     part("k_gp", ["a01_run1", "a01_run2", "a01_run2s", "a01_run3", "a01_expr3t", "a01_expr5", "a01_hist1", "a01_hist2", "a01_fill3", "a01_fill4"],
          ["a01_expr3", "a01_expr4", "a01_fill32", "a01_fill42"]),
     "Blocks of one to three instructions (move, load, arithmetic of any kind, stores and kills) and expressions of three to five operations on two "
     "to four slots, played on a model machine with the registers and stack homes; one or two of any of the allocator's operations with "
     "the file empty, with three or with four slots already cached; slot numbers of any 16-bit value in the last operation.",
     "what the code generator does with the advice; floating-point registers; longer blocks.",
     [KERNEL])
prop("P01",
     part("k_pack", ["p01_m1", "p01_m2", "p01_m3w", "p01_m4", "p01_m_lines", "p01_m_lines6", "p01_u1", "p01_u3", "p01_u4", "p01_u_lines", "p01_u_lines7",
                     "p01_qp1", "p01_qp2", "p01_qp3", "p01_qp_short", "p01_qp_lines", "p01_ber", "p01_uleb", "p01_sleb", "p01_utf8", "p01_two", "p01_ints",
                     "p01_floats", "p01_floats32", "p01_texts", "p01_bits", "p01_hex", "p01_positions", "p01_buffer", "p01_dec_t4", "p01_dec_t5",
                     "p01_dec_n3", "p01_dec_n11", "p01_tmpl2"],
          ["p01_m3", "p01_m5"]) +
     part("k_pack", ["p01_ber_known", "p01_utf8_known"]),
     "Base64 of 1-5 bytes (of three to five two are unknown; thorough: any three), uuencoding of 1-4 unknown bytes, quoted-printable of 1-3; the line lengths of all three around their "
     "limits; variable-length integers of up to 63 bits and code points up to 0x1fffff; every fixed-width integer and float format in "
     "both byte orders with any value; texts of 3 bytes, bit and hex strings; moves and absolute positions; decoding of any 3-5 bytes with "
     "every text format and 3 and 11 bytes with number formats; any template of two characters against any two bytes.",
     "longer data, templates of more than two directives, native pointers (p, P).",
     [KERNEL])
prop("P02",
     part("k_marshal", ["p02_int", "p02_any0", "p02_any1", "p02_any3", "p02_any6", "p02_big0", "p02_big64", "p02_read2", "p02_read4", "p02_read7",
                        "p02_readneg", "p02_special", "p02_f11", "p02_f12", "p02_f21", "p02_f13", "p02_f31", "p02_f22", "p02_e11", "p02_e12"],
          covers={"p02_any0": [3], "p02_readneg": [3]}),
     "All 32-bit integers; integers of any 63-bit and of 64-127-bit magnitude; reading of any 0-7 bytes as an integer, string, symbol, float or bignum; "
     "floats of up to four digits on each of several exponents, infinities, NaN and both zeros.",
     "the shortest-digits conversion itself (library); objects, arrays, hashes and links between them, which need the interpreter.",
     [KERNEL])
prop("N01",
     part("k_value", ["n01_int", "n01_wide", "n01_float", "n01_symbol", "n01_consts", "n01_apart", "n01_round_small", "n01_round_mid", "n01_round_big",
                      "n01_round_huge"]),
     "All 64-bit integers, signed and unsigned, all 128-bit big integers, all 2**64 float bit patterns, all symbol numbers, the constants, and any two "
     "of these together; rounding of floats with 14 unknown fraction bits at 19 exponents.",
     "the heap objects behind what is not immediate, which are stand-ins; the same encoding as emitted by the JIT.",
     [KERNEL])
prop("N02",
     part("k_num", ["n02_add_ff", "n02_add_fb", "n02_add_bf", "n02_add_bb", "n02_neg_f", "n02_neg_b", "n02_bits_ff", "n02_bits_fb", "n02_bits_bf",
                    "n02_bits_bb", "n02_mul", "n02_mul_big", "n02_mul_small", "n02_div_1", "n02_div_2", "n02_div_3", "n02_div_small", "n02_div_big",
                    "n02_shift_f", "n02_shift_b", "n02_shift_edge", "n02_shift_far_ff", "n02_shift_far_fb", "n02_shift_far_bf", "n02_shift_far_bb",
                    "n02_cmp_ff", "n02_cmp_fb", "n02_cmp_bf", "n02_cmp_bb", "n02_cmpf_near", "n02_cmpf_fix", "n02_cmpf_big", "n02_cmpf_special",
                    "n02_index_ff", "n02_index_fb", "n02_index_bf", "n02_index_bb", "n02_range_f", "n02_range_b", "n02_open_f", "n02_open_b",
                    "n02_pow", "n02_pow_unit_f", "n02_pow_unit_b"]) +
     part("k_num", ["n02_cmpf_known"]),
     "Operands of any 63-bit value and any value outside that range up to 100 bits, for + - & | ^ ~ unary minus, comparison and single bits; products of any 63-bit value with 16 "
     "boundary values and of two 6-bit values at four scales; quotients of any 63-bit value by 0, 1, -1 and powers of two, of values within 16 of "
     "the powers of two by 3, 10 and the largest, of all 5-bit values; 14 shift distances around the word size, 57-66, and any beyond 2**32; 11 starts and "
     "11 widths of bit ranges; powers of 4-bit values up to the 8th and of 0, 1, -1 with any large exponent; comparison with floats of few "
     "significant bits at 9 exponents, infinities and NaN.",
     "floating-point remainder and power; Rational and Complex operands; the fast paths emitted by the JIT; the big-integer library, for which a "
     "128-bit stand-in is used.",
     [KERNEL])
prop("N03",
     part("k_rat", ["n03_made", "n03_add", "n03_add_fix", "n03_add_big", "n03_sub", "n03_sub_fix", "n03_mul", "n03_mul_fix", "n03_div", "n03_div_fix",
                    "n03_cmp", "n03_cmp_fix", "n03_cmp_big", "n03_pow", "n03_pow_far",
                    "n03_floor0", "n03_floor1", "n03_floor2", "n03_floor_1", "n03_ceil0", "n03_ceil1", "n03_ceil2", "n03_ceil_1",
                    "n03_trunc0", "n03_trunc1", "n03_trunc2", "n03_trunc_1", "n03_up0", "n03_up1", "n03_up_1", "n03_down0", "n03_down1", "n03_down_1",
                    "n03_even0", "n03_even1", "n03_even_1", "n03_from_f", "n03_from_f1", "n03_from_f2", "n03_from_f3", "n03_to_f",
                    "n03_simple_1", "n03_simple_2", "n03_simple_3", "n03_simple_4"]),
     "Numerators of 5 bits (4 for products, up to 9 elsewhere) over denominators 1 to 12, with a Rational, a small Integer or one outside the immediate range as the other "
     "operand; powers from -4 to 4 and any exponent beyond 2**32; floor, ceil, truncate and the three ways to round at -1, 0, 1 and 2 digits; "
     "floats of 4 significant bits at four exponents; the simplest fraction near n/7, n, n/16 and n/5 for any 6-bit n.",
     "larger numerators; Float and Complex operands; the big-integer library, for which a narrow stand-in is used.",
     [KERNEL])
prop("X01",
     part("k_json", ["x01_array_3", "x01_array_4", "x01_array_6", "x01_array_8", "x01_object_3", "x01_object_5", "x01_object_7", "x01_object_8", "x01_mixed_6",
                     "x01_object_dup", "x01_number_3", "x01_number_4", "x01_number_5", "x01_number_in", "x01_int", "x01_word_3", "x01_word_4", "x01_false",
                     "x01_any_1", "x01_any_2", "x01_any_end", "x01_str_1", "x01_str_2", "x01_str_3", "x01_str_5", "x01_esc_u", "x01_esc_v", "x01_esc_pair",
                     "x01_uni_1", "x01_uni_2", "x01_uni_3", "x01_uni_pair", "x01_uni_hi", "x01_uni_cut", "x01_char_2", "x01_char_3", "x01_char_4",
                     "x01_raw_1", "x01_raw_2", "x01_raw_3", "x01_max", "x01_min", "x01_max_more", "x01_round_str", "x01_round_str_3", "x01_round_char",
                     "x01_round_int", "x01_round_far", "x01_round_float", "x01_round_ary", "x01_round_hash"],
          ["x01_any_3", "x01_raw_4"], covers={"x01_uni_cut": [2]}),
     "Texts of up to 8 unknown bytes over the structural characters, 3 over all ASCII ones; strings of up to 5 unknown bytes, every \\u escape and surrogate pair, every "
     "character; numbers of up to 5 unknown characters and integers around the 64-bit limits; bytes that are not UTF-8; written values nested "
     "three deep with unknown strings and integers.",
     "floats whose nearest value needs more than 53-bit arithmetic; nesting beyond 8; the text of a written float (five known ones); what becomes of control "
     "characters, unknown escapes and lone low surrogates, in which readers differ; the pure Ruby parser used with options.",
     [KERNEL])
prop("D01",
     part("k_ary", ["d01_read_3", "d01_read_5", "d01_slice_3", "d01_assign_3", "d01_assign_5", "d01_assign_range_3", "d01_store_3",
                    "d01_store_6", "d01_ends_4", "d01_single_4", "d01_rotate_5", "d01_fill_3", "d01_fill_5",
                    "d01_fill_block", "d01_whole_4", "d01_transpose", "d01_product", "d01_flatten_2", "d01_flatten1",
                    "d01_filter_4", "d01_filter_6", "d01_shrinking", "d01_delete_4"],
          ["d01_slice_5", "d01_assign_range_5"]),
     "Arrays of up to 3 unknown elements, up to 5 for the simpler methods and 6 for writes at one place, which covers the inline and the heap representation; every index and "
     "length from below -(n+1) to beyond n+1 and the extremes of 64 bits, every range with either end open or absent, exclusive or not; "
     "assignments of lists of up to 3; blocks that raise at any call, blocks and == that shorten the array to any length at any call; nested "
     "arrays three deep.",
     "longer arrays; indices given by objects that convert themselves; frozen arrays; methods that go through Enumerable; sort (S01).",
     [KERNEL])
prop("Z01",
     part("k_fmt", ["z01_d", "z01_x", "z01_upx", "z01_o", "z01_b", "z01_upb", "z01_far_d", "z01_far_x", "z01_far_upx", "z01_far_o",
                    "z01_far_b", "z01_str", "z01_str_wide", "z01_insp", "z01_curly", "z01_angle", "z01_binary",
                    "z01_broken", "z01_chr", "z01_star", "z01_plain_4", "z01_plain_6", "z01_any_3", "z01_any_4",
                    "z01_absent", "z01_mixed", "z01_a", "z01_a_far", "z01_a_big", "z01_a0", "z01_a1", "z01_a2",
                    "z01_a3", "z01_a15", "z01_tiny", "z01_endless"]),
     "Integers of 3 to 6 bits and others next to 2**32, 2**62 and beyond the immediate range, under all 32 combinations of flags, widths none, 4 and 9 (24 and 70) and precisions "
     "none, 0, 2 and 6 (20 and 68), for d x X o b B; strings of up to 3 unknown characters of any length in bytes, binary and broken strings; any character code for "
     "%c; * as width and precision; any directive of up to 4 unknown characters; any text of up to 6; floats with 13 unknown mantissa bits "
     "and subnormal ones for %a.",
     "the digits of %e, %f and %g, which the Rust library makes; encodings other than UTF-8 and binary; the direction of an exact tie in %a; "
     "the big-integer library, for which a stand-in is used.",
     [KERNEL])
prop("N04",
     part("k_int", ["n04_floor", "n04_ceil", "n04_truncate", "n04_round", "n04_beyond_floor", "n04_beyond_ceil", "n04_beyond_truncate",
                    "n04_beyond_round", "n04_bits_f", "n04_bits_b", "n04_power", "n04_simple_f", "n04_simple_b",
                    "n04_length_f", "n04_length_b", "n04_fold_shl", "n04_fold_shr", "n04_radix_2", "n04_radix_3",
                    "n04_radix_10", "n04_radix_16", "n04_radix_36", "n04_radix_bad", "n04_float_floor0",
                    "n04_float_floor1", "n04_float_floor2", "n04_float_ceil0", "n04_float_ceil1", "n04_float_ceil2",
                    "n04_float_trunc0", "n04_float_trunc1", "n04_float_trunc2", "n04_float_round0", "n04_float_round1",
                    "n04_float_round2", "n04_far_floor", "n04_far_ceil", "n04_far_trunc", "n04_far_round",
                    "n04_right_floor1", "n04_right_floor2", "n04_right_ceil1", "n04_right_ceil2", "n04_right_trunc1",
                    "n04_right_trunc2", "n04_more_floor", "n04_more_ceil", "n04_more_trunc", "n04_more_round",
                    "n04_left_floor", "n04_left_ceil", "n04_left_trunc", "n04_left_round", "n04_special", "n04_next",
                    "n04_prev"],
          ["n04_right_round1", "n04_right_round2"]),
     "Any 63-bit integer and any up to 100 bits outside that range for bit length, absolute value, successor and the predicates; 12 places and 11 lengths of bit fields around the "
     "word size; every folded shift; modular powers of 4-bit bases up to the 4th with 7 moduli; 11-bit integers and those next to 2**62 rounded at "
     "0 to 3 digits in all modes, and at counts beyond 30 digits and beyond 32 bits; radix notation of 5 to 8 bits in bases 2, 3, 10, 16, 36; "
     "floats that are multiples of 1/8 with up to 5 significant bits below 2**9, and whole ones up to 2**62, rounded left and right of the point; "
     "the neighbours of any float.",
     "floats that are not multiples of 1/8 to digits right of the point; the big-integer library, for which a 128-bit stand-in is used; methods "
     "written in Ruby (gcd, digits, sqrt).",
     [KERNEL])
prop("G01",
     part("k_gc", ["g01_graph_1", "g01_graph_2", "g01_graph_3", "g01_barrier_object", "g01_barrier_array", "g01_barrier_struct", "g01_barrier_other",
                   "g01_chain", "g01_pages_1", "g01_pages_2", "g01_pages_3", "g01_buffers", "g01_policy"]),
     "Three objects of six kinds with unknown ages, references and roots, one or two rearrangements, minor and full collections between them "
     "and a new object in the cell of a dead one; each of 19 ways to store a reference into an object, array or struct of unknown generation; a chain of eight "
     "objects against a recursion limit of two; up to 390 objects over three pages with survivors at the word and page borders; 66 collections in a row.",
     "pages of 192 cells instead of 4032 and an arena of four pages; the payloads of the other object kinds, strings and hashes are stand-ins; roots on "
     "the machine stack; barriers emitted by the JIT; more than eight objects that refer to each other.",
     [KERNEL])

prop("U01",
     part("k_hash", ["u01_steps_%d" % i for i in range(13)] + ["u01_depth_1", "u01_depth_2", "u01_depth_3", "u01_big_8", "u01_big_9", "u01_big_i9", "u01_sized_9"],
          ["u01_more_%d" % i for i in range(13)] + ["u01_big_15", "u01_big_i8", "u01_sized_8", "u01_sized_i9"]),
     "13 forms of a Hash (inline with 0-3 pairs, boxed, by identity, with a default, with entries deleted in a loop that is over), possibly inside a loop, "
     "then every pair of 25 operations with keys that are unknown fixnums, equal but distinct strings and objects with their own hash and eql?, and unknown values "
     "(thorough: a third one); up to six loops within each other; tables of 8 and 9 pairs (thorough: 15) with entries deleted inside and outside a loop, "
     "then copied, grown or rebuilt by identity. After that size, order, every lookup, default, lock state, marking and write barriers are compared and all memory is accounted for.",
     "the Ruby-level methods other than []=, delete, clear, replace, compare_by_identity and the iteration primitives; keys changed after insertion; more than 17 pairs; "
     "more than six nested loops in the inline form and the limit of 2**32 in the boxed one.",
     [KERNEL])
prop("K01",
     part("k_hash", ["k01_values_%d" % i for i in range(12)] + ["k01_hashes_0", "k01_hashes_1", "k01_hashes_2", "k01_hashes_5", "k01_order_2", "k01_order_3",
                    "k01_order_9", "k01_cyclic"]) +
     part("k_hash", ["k01_zero_known"]),
     "Pairs of values of 12 kinds: any 62-bit fixnum, any immediate float, any bignum within 2**64 of 2**64, the floats outside the immediate form (-0.0 and infinity), strings with any 64-bit "
     "content, symbols, nil and booleans, ranges and arrays of unknown 8-bit fixnums, objects with and without their own hash; hashes of 0-5 and 9 pairs with unknown "
     "values in any two of six forms, in the same and in opposite order, alone, inside an array and as keys; an array and a hash that contain themselves; an error raised by an element's hash or eql?.",
     "structs, sets, procs and other objects; string encodings; nesting deeper than three; the quality of the digest (that different values seldom collide).",
     [KERNEL])
prop("W01",
     part("k_str", ["w01_made", "w01_edit_w", "w01_edit_4", "w01_edit_n", "w01_app_w", "w01_app_n", "w01_ext_u", "w01_ext_wn", "w01_ext_nw", "w01_ext_ww", "w01_ext_nn", "w01_spl_u", "w01_spl_ww", "w01_spl_nn",
                    "w01_spl_wn", "w01_spl_nw", "w01_part_w", "w01_part_4", "w01_part_n", "w01_part6", "w01_rep_w", "w01_rep_n", "w01_cstr", "w01_gsub"],
          ["w01_made4", "w01_app_w3", "w01_ext_uu", "w01_ext_ww3", "w01_spl_uu", "w01_part_w5", "w01_rep_w4"]),
     "Strings of up to 3-6 unknown bytes in twelve encodings (UTF-8, EUC-JP, Shift_JIS, US-ASCII, ASCII-8BIT, UTF-16LE/BE, UTF-32LE/BE, ISO-8859, a national byte encoding, a dummy encoding), classified before or not, "
     "through every constructor and one of: byte replaced, encoding changed, copied, raw bytes appended (three ways), another such string of any encoding appended or spliced in anywhere, part taken, repeated up to three times.",
     "ISO-2022-JP (its decoder is not available); the classification kept up to date by JIT-emitted setbyte and <<; longer strings; the inline capacity is 4 bytes instead of 32.",
     [KERNEL])
prop("W02",
     part("k_str", ["w02_char_u", "w02_char_4", "w02_char_w", "w02_char_n", "w02_read_w", "w02_read_4", "w02_read_n", "w02_order", "w02_scrub_w", "w02_scrub_4", "w02_scrub_n"],
          ["w02_char_u4", "w02_char_w5", "w02_read_w4", "w02_order5", "w02_scrub_w4"]) +
     part("k_str", ["w02_pair_known"]),
     "Strings of up to 3-5 unknown bytes in the twelve encodings, valid or not: iteration, character count, every range of characters, any 64-bit index, reversal, reading as UTF-8, byte to character positions, first code point, scrub, order.",
     "ISO-2022-JP; characters outside the basic plane in UTF-16 other than the one known finding; Ruby-level methods built on these; the inline capacity is 4 bytes instead of 32.",
     [KERNEL])
prop("W03",
     part("k_str", ["w03_share", "w03_share3", "w03_part", "w03_clone"]),
     "A string of seven bytes, frozen or not, two unknown; any three of: substring, snapshot, buffer sharing and copy, byte replaced, bytes appended, each applied to any of the strings so far; then all are freed.",
     "when the collector frees a root (G01 has the tracing); substrings of other lengths; the inline capacity is 4 bytes instead of 32.",
     [KERNEL])
prop("W04",
     part("k_str", ["w04_dump_u", "w04_dump_n", "w04_insp_u", "w04_insp_n"], ["w04_dump_3", "w04_insp_3"]),
     "Up to 2 (3 for UTF-8, thorough) unknown bytes; dump in UTF-8, US-ASCII, ASCII-8BIT, ISO-8859, UTF-16LE and a dummy encoding; inspect in UTF-8, US-ASCII, ASCII-8BIT, ISO-8859 and a national byte encoding.",
     "inspect of UTF-16/32 and of EUC-JP/Shift_JIS (their notation is not a literal); which characters count as printable; longer strings.",
     [KERNEL])

NOT_APPLICABLE = {
    "J01": "needs the JIT's machine code and the interpreter executed together; the monoruby crate cannot be built here (dependencies "
           "missing) and executing emitted x86 symbolically for whole methods is out of reach of this technique.",
    "C01": "the invalidation protocol spans JIT-emitted code, global version words and the interpreter; no function of it decides the "
           "property on its own and the crate cannot be compiled here.",
    "E01": "ensure/rescue control flow exists only as bytecode and generated machine code; there is no Rust function whose result it is.",
    "Y01": "green-thread switching is assembly stack switching plus timer signals; the IR has no meaning for it.",
}
PENDING = "no check is built for it yet."
for _i in ["H06", "H07", "H08", "H09", "H10", "H11", "H12", "T01", "T02", "T03", "T04", "T05", "M01", "M02", "R01", "G01", "N01", "N02", "S01", "B01", "B02",
           "F01", "P01", "P02", "A01", "L01", "Q01", "V01"]:
    if _i not in PROPS:
        NOT_APPLICABLE[_i] = PENDING

//! Harnesses over self-contained pieces of the interpreter crate.
#![cfg_attr(feature = "num", feature(macro_metavar_expr_concat))]
#![cfg_attr(feature = "gc", feature(coverage_attribute, offset_of_enum))]
#![allow(dead_code, unused_imports, unused_macros)]
pub mod v;

/// Declares symbolic-execution entry points.
macro_rules! entries {
    ($($name:ident => $e:expr;)*) => {
        $(
            #[unsafe(no_mangle)]
            pub extern "C-unwind" fn $name() {
                $e
            }
        )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

macro_rules! kernels {
    ($($feat:literal $m:ident),*) => {
        $(#[cfg(feature = $feat)] pub mod $m;)*
        pub fn tables() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
            #[allow(unused_mut)]
            let mut t: Vec<&'static [(&'static str, extern "C-unwind" fn())]> = vec![];
            $(#[cfg(feature = $feat)] t.push($m::TABLE);)*
            t
        }
    };
}
kernels!("buf" k_buf, "sort" k_sort, "ivar" k_ivar, "fnm" k_fnm, "prng" k_prng, "lines" k_lines, "gp" k_gp, "pack" k_pack, "marshal" k_marshal, "value" k_value, "num" k_num, "gc" k_gc, "hash" k_hash, "str" k_str, "rat" k_rat, "json" k_json, "fmt" k_fmt, "ary" k_ary, "int" k_int);

//! Harness over the table's control module, included from /repo as a part of this crate (its items
//! are private to hashbrown).
#[path = "../../containers/src/v.rs"]
pub mod v;

/// Declares symbolic-execution entry points.
macro_rules! entries {
    ($($name:ident => $e:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name() {
                $e
            }
        )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

#[macro_use]
#[path = "/repo/hashbrown/src/macros.rs"]
mod macros;
#[allow(dead_code, unused_imports)]
#[path = "/repo/hashbrown/src/control/mod.rs"]
mod control;
#[path = "../../group/src/t05.rs"]
pub mod t05;

pub fn tables() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
    vec![t05::TABLE]
}

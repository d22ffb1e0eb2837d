//! The table harnesses over hashbrown compiled with its portable control group.
#[path = "../../containers/src/common.rs"]
pub mod common;
#[path = "../../containers/src/v.rs"]
pub mod v;

/// Declares symbolic-execution entry points.
macro_rules! entries {
    ($($name:ident => $e:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name() {
                $e
            }
        )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

#[path = "../../containers/src/t01.rs"]
pub mod t01;

pub fn tables() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
    vec![t01::TABLE]
}

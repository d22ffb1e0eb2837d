//! Harnesses over the collection crates.  Each entry is executed symbolically from the compiler's
//! IR; the same code runs natively to replay counterexamples.
pub mod common;
pub mod v;

/// Declares symbolic-execution entry points.
macro_rules! entries {
    ($($name:ident => $e:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name() {
                $e
            }
        )*
        pub const TABLE: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}

pub mod h01;
pub mod h02;
pub mod h03;
pub mod h04;
pub mod h05;
pub mod h06;
pub mod h07;
pub mod h08;
pub mod h09;
pub mod h10;
pub mod h11;
pub mod m01;
pub mod ops;
pub mod r01;
pub mod t01;
pub mod t03;
pub mod t04;

pub fn tables() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
    vec![h01::TABLE, h02::TABLE, h03::TABLE, h04::TABLE, h05::TABLE, h06::TABLE, h07::TABLE, h08::TABLE, h09::TABLE, h10::TABLE, h11::TABLE, m01::TABLE, r01::TABLE, t01::TABLE, t03::TABLE, t04::TABLE]
}

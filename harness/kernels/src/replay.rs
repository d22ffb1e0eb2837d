//! Runs one harness entry natively on recorded inputs (see ../native.rs).
include!("../../native.rs");

fn table() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
    hk::tables()
}

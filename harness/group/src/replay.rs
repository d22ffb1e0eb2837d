//! Runs one harness entry natively on recorded inputs:  replay ENTRY in,in,... [lo|hi]
//! Prints the trace (cover/obs) and how the run ended.  Allocations are fenced with inaccessible
//! pages (after the block in mode `hi`, before it in mode `lo`) and freed blocks stay unmapped, so
//! an out-of-bounds or dangling access faults.
include!("../../native.rs");

fn table() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
    hg::tables()
}

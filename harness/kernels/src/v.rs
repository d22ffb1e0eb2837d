//! Interface between a harness and whatever runs it: the symbolic executor (which implements
//! these symbols itself) or the native replayer (src/replay.rs).
use std::ffi::c_void;

mod raw {
    use std::ffi::c_void;
    unsafe extern "C-unwind" {
        pub fn vsym(bits: u32) -> u64;
        pub fn vassume(c: bool);
        pub fn vassert(c: bool, id: u32);
        pub fn vcover(id: u32);
        pub fn vpick(n: u32) -> u32;
        pub fn vconc(x: u64) -> u64;
        pub fn vobs(x: u64);
        pub fn vexpect_panic(on: bool);
        pub fn v_live_heap() -> u64;
        pub fn vcatch(f: extern "C-unwind" fn(*mut c_void), data: *mut c_void) -> i32;
        pub fn vpanic() -> !;
    }
}

/// A fresh unknown of `bits` bits.
#[inline(always)]
pub fn sym(bits: u32) -> u64 {
    unsafe { raw::vsym(bits) }
}
#[inline(always)]
pub fn sym8() -> u8 {
    sym(8) as u8
}
#[inline(always)]
pub fn sym_bool() -> bool {
    sym(1) != 0
}
/// Restrict the paths considered.
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::vassume(c) }
}
/// The obligation: must hold for every value of the unknowns on this path.
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { raw::vassert(c, id) }
}
/// Marks a point that must be reachable (vacuity control).
#[inline(always)]
pub fn cover(id: u32) {
    unsafe { raw::vcover(id) }
}
/// One path per value in 0..n.
#[inline(always)]
pub fn pick(n: usize) -> usize {
    unsafe { raw::vpick(n as u32) as usize }
}
/// Split the path on the possible values of x.
#[inline(always)]
pub fn conc(x: u64) -> u64 {
    unsafe { raw::vconc(x) }
}
/// Recorded in the trace that native replay must reproduce.
#[inline(always)]
pub fn obs(x: u64) {
    unsafe { raw::vobs(x) }
}
/// From here on, a panic of the code under test ends the path without being a violation.
#[inline(always)]
pub fn expect_panic(on: bool) {
    unsafe { raw::vexpect_panic(on) }
}
/// Number of live heap allocations.
#[inline(always)]
pub fn live() -> u64 {
    unsafe { raw::v_live_heap() }
}
#[inline(always)]
pub fn inject_panic() -> ! {
    unsafe { raw::vpanic() }
}
/// 0: returned, 1: injected panic, 2: panic raised by the code under test.
#[inline(always)]
pub fn catch<F: FnOnce()>(f: F) -> i32 {
    extern "C-unwind" fn tramp<F: FnOnce()>(d: *mut c_void) {
        let f = unsafe { (*(d as *mut Option<F>)).take() };
        if let Some(f) = f {
            f()
        }
    }
    let mut s = Some(f);
    unsafe { raw::vcatch(tramp::<F>, &mut s as *mut Option<F> as *mut c_void) }
}

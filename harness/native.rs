// Native implementation of the harness interface; included by each harness crate's replay binary.
use std::alloc::{GlobalAlloc, Layout};
use std::ffi::c_void;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

unsafe extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    fn _exit(c: i32) -> !;
}

struct Fenced;
static LIVE: AtomicU64 = AtomicU64::new(0);
static LOW: AtomicBool = AtomicBool::new(false);
static FENCE: AtomicBool = AtomicBool::new(false);
const PG: usize = 4096;
const HDR: u64 = 0x5afe_b10c_0000_0000;
/// sizes above this are refused, as in the symbolic executor
const MAX: usize = 1 << 22;

unsafe impl GlobalAlloc for Fenced {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !FENCE.load(SeqCst) {
            return std::alloc::System.alloc(l);
        }
        if l.size() > MAX || l.align() > PG {
            return std::ptr::null_mut();
        }
        // [fence][header page][body][fence]; the header page remembers the layout
        let body = (l.size() + PG - 1) / PG * PG;
        let body = body.max(PG);
        let p = mmap(std::ptr::null_mut(), body + 4 * PG, 3, 0x22, -1, 0) as usize;
        if p as isize == -1 {
            return std::ptr::null_mut();
        }
        mprotect(p as *mut c_void, PG, 0);
        mprotect((p + 2 * PG) as *mut c_void, PG, 0);
        let b = p + 3 * PG;
        // the page after the body
        let end = b + body;
        mprotect(end as *mut c_void, PG, 0);
        let a = if LOW.load(SeqCst) { b } else { (end - l.size()) & !(l.align() - 1) };
        std::ptr::write_bytes(b as *mut u8, 0xc7, body);
        let h = (p + PG) as *mut u64;
        *h = HDR;
        *h.add(1) = l.size() as u64;
        *h.add(2) = l.align() as u64;
        *h.add(3) = a as u64;
        *h.add(4) = body as u64;
        LIVE.fetch_add(1, SeqCst);
        a as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !FENCE.load(SeqCst) {
            return; // process-lifetime allocations of the runner itself
        }
        let b = (p as usize) & !(PG - 1);
        let b = if LOW.load(SeqCst) {
            b
        } else {
            // body start: last page of the block holds its end
            let body = ((l.size() + PG - 1) / PG * PG).max(PG);
            let endp = if l.size() == 0 { p as usize + PG } else { (p as usize + l.size() + PG - 1) & !(PG - 1) };
            endp - body
        };
        let h = (b - 2 * PG) as *mut u64;
        if *h != HDR || *h.add(1) != l.size() as u64 || *h.add(2) != l.align() as u64 || *h.add(3) != p as u64 {
            finish("MEMORY bad free");
        }
        *h = 0;
        let body = *h.add(4) as usize;
        mprotect((b - 2 * PG) as *mut c_void, body + 3 * PG, 0);
        LIVE.fetch_sub(1, SeqCst);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: Fenced = Fenced;

static mut INPUTS: [u64; 4096] = [0; 4096];
static NIN: AtomicUsize = AtomicUsize::new(0);
static POS: AtomicUsize = AtomicUsize::new(0);
static mut TRACE: [u8; 1 << 16] = [0; 1 << 16];
static TLEN: AtomicUsize = AtomicUsize::new(0);
static EXPECT: AtomicBool = AtomicBool::new(false);
static DEPTH: AtomicUsize = AtomicUsize::new(0);
static INJECTED: AtomicBool = AtomicBool::new(false);

fn put(s: &str) {
    unsafe {
        let n = TLEN.load(SeqCst);
        let b = s.as_bytes();
        if n + b.len() < 1 << 16 {
            let t = &raw mut TRACE as *mut u8;
            std::ptr::copy_nonoverlapping(b.as_ptr(), t.add(n), b.len());
            TLEN.store(n + b.len(), SeqCst);
        }
    }
}
fn put_hex(tag: u8, x: u64) {
    let mut b = [0u8; 20];
    let mut n = 0;
    b[n] = tag;
    n += 1;
    let mut started = false;
    for i in (0..16).rev() {
        let d = ((x >> (4 * i)) & 15) as usize;
        if d != 0 || started || i == 0 {
            started = true;
            b[n] = b"0123456789abcdef"[d];
            n += 1;
        }
    }
    b[n] = b' ';
    n += 1;
    put(std::str::from_utf8(&b[..n]).unwrap());
}
fn finish(how: &str) -> ! {
    unsafe {
        FENCE.store(false, SeqCst);
        let t = std::slice::from_raw_parts(&raw const TRACE as *const u8, TLEN.load(SeqCst));
        let mut o = std::io::stdout().lock();
        let _ = o.write_all(b"TRACE ");
        let _ = o.write_all(t);
        let _ = o.write_all(b"\nEND ");
        let _ = o.write_all(how.as_bytes());
        let _ = o.write_all(b"\n");
        let _ = o.flush();
        let _exit = |c: i32| -> ! {
            #[cfg(miri)]
            std::process::exit(c);
            #[cfg(not(miri))]
            _exit(c)
        };
        _exit(if how == "ok" || how == "assumed" || how == "expected panic" { 0 } else { 3 })
    }
}

fn input() -> u64 {
    let i = POS.fetch_add(1, SeqCst);
    if i >= NIN.load(SeqCst) {
        return 0;
    }
    unsafe { INPUTS[i] }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn vsym(bits: u32) -> u64 {
    let x = input();
    if bits >= 64 { x } else { x & ((1u64 << bits) - 1) }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vpick(n: u32) -> u32 {
    let x = input();
    if x >= n as u64 {
        finish("bad pick");
    }
    x as u32
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vassume(c: bool) {
    if !c {
        finish("assumed")
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vassert(c: bool, id: u32) {
    if !c {
        finish(&format!("ASSERT {id}"))
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vcover(id: u32) {
    put_hex(b'c', id as u64)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vobs(x: u64) {
    put_hex(b'o', x)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vconc(x: u64) -> u64 {
    x
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vexpect_panic(on: bool) {
    EXPECT.store(on, SeqCst)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn v_live_heap() -> u64 {
    LIVE.load(SeqCst)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vpanic() -> ! {
    INJECTED.store(true, SeqCst);
    std::panic::panic_any(7u8)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vcatch(f: extern "C-unwind" fn(*mut c_void), d: *mut c_void) -> i32 {
    DEPTH.fetch_add(1, SeqCst);
    INJECTED.store(false, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(d)));
    DEPTH.fetch_sub(1, SeqCst);
    match r {
        Ok(()) => 0,
        Err(p) => {
            drop(p);
            if INJECTED.load(SeqCst) { 1 } else { 2 }
        }
    }
}

extern "C" fn on_fault(_s: i32) {
    finish("MEMORY fault")
}
extern "C" fn on_alarm(_s: i32) {
    finish("HANG")
}
extern "C" fn on_abort(_s: i32) {
    finish("ABORT")
}
unsafe extern "C" {
    fn signal(s: i32, h: extern "C" fn(i32)) -> usize;
    fn alarm(s: u32) -> u32;
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let name = &a[1];
    let ins = a.get(2).map(|s| s.as_str()).unwrap_or("");
    let mut n = 0;
    for x in ins.split(',').filter(|x| !x.is_empty()) {
        unsafe { INPUTS[n] = u64::from_str_radix(x, 16).unwrap() };
        n += 1;
    }
    NIN.store(n, SeqCst);
    LOW.store(a.get(3).map(|s| s == "lo").unwrap_or(false), SeqCst);
    let mut f = None;
    for t in table() {
        for (k, g) in t.iter() {
            if k == name {
                f = Some(*g);
            }
        }
    }
    let Some(f) = f else {
        println!("END no such entry");
        std::process::exit(4)
    };
    #[cfg(not(miri))]
    unsafe {
        signal(11, on_fault);
        signal(7, on_fault);
        signal(4, on_abort);
        signal(6, on_abort);
        signal(5, on_abort);
        signal(14, on_alarm);
        alarm(20);
    }
    std::panic::set_hook(Box::new(|i| {
        if INJECTED.load(SeqCst) && DEPTH.load(SeqCst) > 0 {
            return;
        }
        if DEPTH.load(SeqCst) > 0 {
            return;
        }
        if EXPECT.load(SeqCst) {
            finish("expected panic");
        }
        FENCE.store(false, SeqCst);
        let m = format!("PANIC {}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
        finish(&m)
    }));
    FENCE.store(true, SeqCst);
    f();
    finish("ok")
}

//! V01: the table of instance variables beyond the inline ones
//! (monoruby/src/value/rvalue/ivar_table.rs), against an array of what was stored.
use crate::v::*;

mod shim {
    /// A value is never all zeroes, which is what an absent one is.
    #[derive(Clone, Copy, PartialEq, Eq)]
    #[repr(transparent)]
    pub struct Value(pub std::num::NonZeroU64);

    #[path = "/repo/monoruby/src/value/rvalue/ivar_table.rs"]
    pub mod ivar_table;
}
use shim::ivar_table::*;
use shim::Value;

type Slot = Option<Value>;
const MAX: usize = 40;

fn val() -> Value {
    let x = sym(64);
    assume(x != 0);
    Value(std::num::NonZeroU64::new(x).unwrap())
}

struct Model {
    s: [Slot; MAX],
    n: usize,
}

fn agree(t: &MonoVec<Slot>, m: &Model) {
    check(t.len() == m.n, 1);
    let mut same = true;
    for i in 0..m.n {
        same &= t[i] == m.s[i];
    }
    check(same, 2);
    // what compiled code reads through the published offsets
    let base = t as *const _ as *const u8;
    unsafe {
        let len = *(base.add(MONOVEC_LEN) as *const usize);
        let cap = *(base.add(MONOVEC_CAPA) as *const usize);
        let ptr = *(base.add(MONOVEC_PTR) as *const *const Slot);
        check(len == m.n, 3);
        check(cap >= len, 4);
        check(m.n == 0 || ptr == t.as_ptr(), 5);
    }
}

/// `set_ivar` of the interpreter: grow on demand, then store.
fn store(t: &mut MonoVec<Slot>, m: &mut Model, i: usize, v: Value) {
    if t.len() <= i {
        t.resize(i + 1);
        while m.n <= i {
            m.s[m.n] = None;
            m.n += 1;
        }
        agree(t, m);
    }
    t[i] = Some(v);
    m.s[i] = Some(v);
}

fn hist(ops: usize, sizes: &[usize]) {
    let live0 = live();
    {
        let cap = sizes[pick(sizes.len())];
        let mut t: MonoVec<Slot> = MonoVec::with_capacity(cap);
        let mut m = Model { s: [None; MAX], n: 0 };
        agree(&t, &m);
        let mut used = cap > 0;
        for _ in 0..ops {
            match pick(5) {
                0 => {
                    let v = if sym_bool() { Some(val()) } else { None };
                    t.push(v);
                    m.s[m.n] = v;
                    m.n += 1;
                    used = true;
                }
                1 => {
                    let i = sizes[pick(sizes.len())];
                    store(&mut t, &mut m, i, val());
                    used = true;
                }
                2 => {
                    // growing only
                    let n = sizes[pick(sizes.len())];
                    t.resize(n);
                    while m.n < n {
                        m.s[m.n] = None;
                        m.n += 1;
                    }
                    used |= n > 0;
                }
                3 => {
                    let k = sizes[pick(sizes.len())];
                    t.reserve(k);
                    used |= k > 0;
                }
                _ => {
                    // an empty table without memory is never copied by the interpreter
                    if used {
                        let mut c = t.clone();
                        agree(&c, &m);
                        if m.n > 0 {
                            // copies are independent
                            let (i, v) = (m.n - 1, val());
                            c[i] = Some(v);
                            agree(&t, &m);
                            check(c[i] == Some(v), 6);
                            c.push(None);
                            check(c.len() == m.n + 1, 7);
                        }
                        cover(2);
                    }
                }
            }
            agree(&t, &m);
            obs(m.n as u64);
        }
        cover(1);
    }
    check(live() == live0, 8);
}

entries! {
    v01_hist3 => hist(3, &[0, 1, 2, 3, 5]);
    v01_hist4 => hist(4, &[0, 1, 4, 7]);
    v01_hist5 => hist(5, &[1, 2, 6]);
    v01_big => hist(3, &[1, 8, 15, 16, 17]);
}

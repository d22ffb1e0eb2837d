//! S01: the interpreter's merge sort (monoruby/src/executor/op/sort.rs) behind Array#sort,
//! #sort_by, #min(n) ...: `sort_by` with a comparator that may be anything a Ruby block may be.
use crate::v::*;
use std::cell::Cell;
use std::cmp::Ordering;

mod shim {
    /// An element: `id` is its identity, `key` what is compared.
    #[derive(Clone, Copy)]
    pub struct Value {
        pub id: u32,
        pub key: u32,
    }
    pub struct Raised;
    pub type Result<T> = std::result::Result<T, Raised>;

    pub mod sort {
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/sort.rs"));
    }
}
use shim::sort::{merge_scratch_len, sort_by};
use shim::{Raised, Value};

const NIL: Value = Value { id: u32::MAX, key: 0 };

fn scratch(n: usize) -> Vec<Value> {
    vec![NIL; merge_scratch_len(n)]
}

fn elems(keys: &[u32]) -> Vec<Value> {
    keys.iter().enumerate().map(|(i, k)| Value { id: i as u32, key: *k }).collect()
}

/// Every element is still there exactly once.
fn permutation(v: &[Value]) -> bool {
    let mut seen = [0u64; 3];
    for x in v {
        let (w, b) = ((x.id / 64) as usize, x.id % 64);
        if x.id as usize >= v.len() || seen[w] >> b & 1 != 0 {
            return false;
        }
        seen[w] |= 1 << b;
    }
    true
}

fn sorted_stable(v: &[Value]) -> bool {
    let mut ok = true;
    for i in 1..v.len() {
        let (a, b) = (v[i - 1], v[i]);
        ok &= a.key < b.key || (a.key == b.key && a.id < b.id);
    }
    ok
}

fn key_order(keys: &[u32]) {
    let mut v = elems(keys);
    let mut buf = scratch(v.len());
    let n = v.len();
    let r = sort_by(&mut v, buf.as_mut_ptr(), |a, b| {
        // an ordering like any <=>; the sort must not assume which of Greater/Equal it gets
        Ok(a.key.cmp(&b.key))
    });
    check(r.is_ok(), 1);
    check(v.len() == n && permutation(&v), 2);
    check(sorted_stable(&v), 3);
    for x in &v {
        obs(x.id as u64);
    }
    cover(1);
}

fn free_keys(n: usize, bits: u32) -> Vec<u32> {
    (0..n).map(|_| sym(bits) as u32).collect()
}

const PATTERNS: usize = 7;
/// Known keys, all even, leaving room between them for unknown ones.
fn pattern(p: usize, n: usize) -> Vec<u32> {
    (0..n as u32)
        .map(|i| {
            2 + 2 * match p {
                0 => i,
                1 => n as u32 - i,
                2 => i % 7,
                3 => 5,
                4 => (i * 7) % 11,
                5 => if i < n as u32 / 2 { i } else { n as u32 - i },
                _ => if i < n as u32 / 3 { n as u32 - i } else { i },
            }
        })
        .collect()
}

/// Long slices: a known pattern with some unknown keys in it.
fn long(n: usize, free: &[usize]) {
    let mut k = pattern(pick(PATTERNS), n);
    for f in free {
        k[*f] = sym(7) as u32;
    }
    key_order(&k);
}

/// The comparator raises at some call: the elements must all still be there, and the error be
/// passed on.  At every call each element is in the slice, in the scratch buffer or an argument
/// (nothing else is seen by the garbage collector).
fn raising(keys: &[u32], max_calls: u64) {
    let mut v = elems(keys);
    let mut buf = scratch(v.len());
    let n = v.len();
    let (vp, bp, bl) = (v.as_mut_ptr(), buf.as_mut_ptr(), buf.len());
    let at = sym(16);
    assume(at < max_calls);
    let at = conc(at);
    let calls = Cell::new(0u64);
    let r = sort_by(&mut v, bp, |a, b| {
        let c = calls.get();
        calls.set(c + 1);
        let mut seen = [0u64; 3];
        let mut mark = |x: Value| {
            if x.id != u32::MAX {
                check((x.id as usize) < n, 10);
                seen[(x.id / 64) as usize] |= 1 << (x.id % 64);
            }
        };
        for i in 0..n {
            mark(unsafe { std::ptr::read_volatile(vp.add(i)) });
        }
        for i in 0..bl {
            mark(unsafe { std::ptr::read_volatile(bp.add(i)) });
        }
        mark(a);
        mark(b);
        let mut all = true;
        for i in 0..n {
            all &= seen[i / 64] >> (i % 64) & 1 != 0;
        }
        check(all, 11);
        if c == at { Err(Raised) } else { Ok(a.key.cmp(&b.key)) }
    });
    check(permutation(&v), 12);
    if calls.get() > at {
        check(r.is_err(), 13);
        check(calls.get() == at + 1, 14);
        cover(2);
    } else {
        check(r.is_ok(), 15);
        check(sorted_stable(&v), 16);
        cover(1);
    }
    obs(calls.get());
}

/// A comparator that answers anything, consistently or not: no element is lost, nothing outside
/// the slice and the scratch buffer is touched, the sort ends.
fn lawless(n: usize) {
    let mut v = elems(&vec![0; n]);
    let mut buf = scratch(n);
    let r = sort_by(&mut v, buf.as_mut_ptr(), |_, _| {
        Ok(if sym_bool() { Ordering::Less } else { Ordering::Greater })
    });
    check(r.is_ok(), 20);
    check(permutation(&v), 21);
    cover(1);
}

/// A comparator that lies at some calls while sorting a long slice.
fn lying(n: usize, lies: usize, max_calls: u64) {
    let k = pattern(pick(PATTERNS), n);
    let mut v = elems(&k);
    let mut buf = scratch(n);
    let mut at = [u64::MAX; 2];
    for i in 0..lies {
        let a = sym(16);
        assume(a < max_calls && (i == 0 || a > at[i - 1]));
        at[i] = conc(a);
    }
    let mut c = 0;
    let r = sort_by(&mut v, buf.as_mut_ptr(), |a, b| {
        c += 1;
        let o = a.key.cmp(&b.key);
        Ok(if at.contains(&(c - 1)) {
            if o == Ordering::Less { Ordering::Greater } else { Ordering::Less }
        } else {
            o
        })
    });
    check(r.is_ok(), 30);
    check(permutation(&v), 31);
    cover(1);
    obs(c);
}

entries! {
    s01_0 => key_order(&free_keys(0, 4));
    s01_1 => key_order(&free_keys(1, 4));
    s01_2 => key_order(&free_keys(2, 32));
    s01_3 => key_order(&free_keys(3, 32));
    // enough bits for every weak order of that many keys
    s01_5 => key_order(&free_keys(5, 3));
    s01_6 => key_order(&free_keys(6, 3));
    s01_7 => key_order(&free_keys(7, 3));
    s01_l20 => long(20, &[3, 19]);
    s01_l21 => long(21, &[0, 20]);
    s01_l21m => long(21, &[10, 11]);
    s01_l22 => long(22, &[1, 10]);
    s01_l33 => long(33, &[9, 23]);
    s01_l41 => long(41, &[20]);
    s01_l64 => long(64, &[40]);
    s01_l90 => long(90, &[45]);
    s01_l21f => long(21, &[0, 12, 20]);
    s01_l41f => long(41, &[10, 30]);
    s01_raise5 => raising(&free_keys(5, 3), 12);
    s01_raise21 => raising(&pattern(pick(PATTERNS), 21), 110);
    s01_raise40 => raising(&pattern(pick(PATTERNS), 40), 260);
    s01_any6 => lawless(6);
    s01_lie1 => lying(33, 1, 200);
    s01_lie2 => lying(22, 2, 110);
}

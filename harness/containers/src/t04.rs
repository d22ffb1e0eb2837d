//! T04: reserved room and impossible sizes.
use crate::common::*;
use crate::t01::{fnd, It, T};
use crate::v::*;
use hashbrown::{HashMap, HashTable};
use rubymap::RubyMap;

/// any size from 2^17 up, by its leading bit
fn big() -> usize {
    let p = 17 + pick(47);
    (1 << p | sym(p as u32)) as usize
}
fn hs(x: &It) -> u64 {
    x.k.h
}
/// a table made for `n`, for every `n` the allocator can serve: holds n without growing
fn with_cap(bits: u32) {
    let n = sym(bits) as usize;
    let mut t: T = HashTable::with_capacity(n);
    check(t.capacity() >= n, 1);
    check(t.len() == 0, 2);
    let a = t.allocation_size();
    check((a == 0) == (n == 0), 3);
    t.reserve(n, hs);
    check(t.allocation_size() == a, 4);
    cover(1);
}
/// any 64-bit request on a table with `k` elements: honoured or refused
fn huge(k: usize, what: usize) {
    let n = big();
    let mut t: T = HashTable::new();
    let mut i = 0;
    while i < k {
        t.insert_unique(0, It { k: K { id: i as u8, h: 0 }, v: 7 }, hs);
        i += 1;
    }
    cover(1);
    let r = catch(|| match what {
        0 => t.reserve(n, hs),
        1 => {
            let u: T = HashTable::with_capacity(n);
            check(u.capacity() >= n, 10);
        }
        2 => {
            let mut m: HashMap<K, u64, (), (), (), BH> = HashMap::with_hasher(BH);
            m.reserve(n);
            check(m.capacity() >= n, 11);
        }
        _ => {
            // zero-sized elements need control bytes only
            let u: HashTable<(), (), (), ()> = HashTable::with_capacity(n);
            check(u.capacity() >= n, 12);
        }
    });
    if r == 0 {
        check(what != 0 || t.capacity() >= n, 13);
    } else {
        cover(2);
    }
    check(t.len() == k, 14);
    let mut i = 0;
    while i < k {
        check(matches!(fnd(&t, K { id: i as u8, h: 0 }), Some(7)), 15);
        i += 1;
    }
}
/// ordered maps: every requested size
fn rhuge(k: usize, what: usize) {
    let n = big();
    assume(n >= 1 << 18);
    let mut m: RubyMap<K, u64, (), (), (), BH> = RubyMap::with_hasher(BH);
    let mut i = 0;
    while i < k {
        let _ = m.insert(K { id: i as u8, h: i as u64 }, 7, &mut (), &mut ());
        i += 1;
    }
    cover(1);
    let r = catch(|| match what {
        0 => m.reserve(n),
        1 => m.reserve_exact(n),
        _ => {
            let u: RubyMap<K, u64, (), (), (), BH> = RubyMap::with_capacity_and_hasher(n, BH);
            check(u.capacity() >= n, 20);
        }
    });
    if r == 0 {
        check(what > 1 || m.capacity() >= n, 21);
    }
    check(m.len() == k, 22);
    let mut i = 0;
    while i < k {
        check(matches!(m.get(&K { id: i as u8, h: i as u64 }, &mut (), &mut ()), Ok(Some(7))), 23);
        i += 1;
    }
}
/// room for n more really is room for n more
fn fill(ks: &[usize], ns: &[usize]) {
    let k = ks[pick(ks.len())];
    let n = ns[pick(ns.len())];
    let h0 = hash(Hs::Edge);
    let mut t: T = HashTable::new();
    let mut i = 0;
    while i < k {
        t.insert_unique(h0, It { k: K { id: i as u8, h: h0 }, v: i as u64 }, hs);
        i += 1;
    }
    // some removals first, so that slots are reusable
    let d = pick(3);
    let mut gone = 0;
    while gone < d && gone < k {
        if let Ok(Ok(o)) = t.find_entry(h0, |x, _, _| Ok(x.k.id as usize == gone), &mut (), &mut ()) {
            o.remove();
        }
        gone += 1;
    }
    t.reserve(n, hs);
    check(t.capacity() >= t.len() + n, 30);
    let a = t.allocation_size();
    let live0 = live();
    let base = t.len();
    let p0 = t.iter().next().map(|x| x as *const It as usize);
    let mut i = 0;
    while i < n {
        let h = if i > 1 || pick(2) == 0 { h0 } else { hash(Hs::Edge) };
        t.insert_unique(h, It { k: K { id: (64 + i) as u8, h }, v: 0 }, |_| {
            check(false, 31);
            0
        });
        check(t.allocation_size() == a, 32);
        i += 1;
    }
    check(t.len() == base + n && live() == live0, 33);
    if base == 1 {
        let mut found = false;
        for x in t.iter() {
            found |= Some(x as *const It as usize) == p0;
        }
        check(found, 34);
    }
    cover(1);
}
/// shrinking to any target keeps every element and never goes below what was asked
fn shrink(k: usize, cap: usize) {
    let n = sym(64) as usize;
    let mut t: T = HashTable::with_capacity(cap);
    let mut i = 0;
    while i < k {
        t.insert_unique(i as u64, It { k: K { id: i as u8, h: i as u64 }, v: i as u64 }, hs);
        i += 1;
    }
    let c = t.capacity();
    t.shrink_to(n, hs);
    check(t.capacity() >= k && t.capacity() <= c, 40);
    check(t.capacity() >= n || t.capacity() == c, 41);
    check(t.len() == k, 42);
    let mut i = 0;
    while i < k {
        check(opt_eq(fnd(&t, K { id: i as u8, h: i as u64 }), Some(i as u64)), 43);
        i += 1;
    }
    cover(1);
}
/// the same for ordered maps, small and indexed
fn rshrink(k: usize, cap: usize) {
    let n = sym(64) as usize;
    let mut m: RubyMap<K, u64, (), (), (), BH> = RubyMap::with_capacity_and_hasher(cap, BH);
    let mut i = 0;
    while i < k {
        let _ = m.insert(K { id: i as u8, h: i as u64 }, i as u64, &mut (), &mut ());
        i += 1;
    }
    let c = m.capacity();
    match pick(2) {
        0 => m.shrink_to(n),
        _ => m.shrink_to_fit(),
    }
    check(m.capacity() >= k && m.capacity() <= c, 50);
    check(m.len() == k, 51);
    let mut i = 0;
    while i < k {
        check(matches!(m.get(&K { id: i as u8, h: i as u64 }, &mut (), &mut ()), Ok(Some(x)) if *x == i as u64), 52);
        i += 1;
    }
    cover(1);
}
fn rreserve(k: usize, exact: bool) {
    let n = sym(6) as usize;
    let mut m: RubyMap<K, u64, (), (), (), BH> = RubyMap::with_hasher(BH);
    let mut i = 0;
    while i < k {
        let _ = m.insert(K { id: i as u8, h: i as u64 }, i as u64, &mut (), &mut ());
        i += 1;
    }
    if exact {
        m.reserve_exact(n)
    } else {
        m.reserve(n)
    }
    check(m.capacity() >= k + n, 60);
    let c = m.capacity();
    // one unknown number of inserts within the reservation
    let j = conc(n as u64) as usize;
    let l0 = live();
    let mut i = 0;
    while i < j {
        let id = (k + i) as u8;
        let _ = m.insert(K { id, h: id as u64 }, id as u64, &mut (), &mut ());
        i += 1;
    }
    check(m.len() == k + j && m.capacity() >= c && live() <= l0 + 1, 61);
    check(matches!(m.get(&K { id: (k + j) as u8 - 1, h: (k + j) as u64 - 1 }, &mut (), &mut ()), Ok(Some(_))), 62);
    cover(1);
}

entries! {
    t04_with => with_cap(16);
    t04_huge0 => huge(0, 0);
    t04_huge3 => huge(3, 0);
    t04_huge_new => huge(0, 1);
    t04_huge_map => huge(0, 2);
    t04_huge_zst => huge(0, 3);
    t04_rhuge0 => rhuge(0, 0);
    t04_rhuge3 => rhuge(3, 0);
    t04_rhuge9 => rhuge(9, 0);
    t04_rexact => rhuge(9, 1);
    t04_rnew => rhuge(0, 2);
    t04_fill => fill(&[0, 1, 3, 4, 7, 8, 14, 15], &[1, 2, 3, 4, 7, 8, 14]);
    t04_fill32 => fill(&[28], &[1, 2, 28]);
    t04_shrink => shrink(3, 20);
    t04_shrink9 => shrink(9, 60);
    t04_shrink0 => shrink(0, 20);
    t04_rshrink => rshrink(3, 6);
    t04_rshrink9 => rshrink(9, 40);
    t04_rreserve => rreserve(2, false);
    t04_rreserve9 => rreserve(9, true);
}

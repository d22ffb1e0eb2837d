//! H09: copies, equality, construction from pairs.
use crate::common::*;
use crate::ops::*;
use crate::v::*;
use rubymap::{RubyEql, RubyMap, RubySet};
use std::collections::hash_map::RandomState;

/// `n` keys, a copy made in one of several ways, one operation on the original or on the copy
fn copies(m: &mut M, md: &mut Md, ks: &[K], kinds: &[usize], hows: usize, nidx: usize) {
    let how = pick(hows);
    let mut c: M = match how {
        0 => m.clone(),
        1 => {
            let mut c: M = RubyMap::with_hasher(BH);
            c.clone_from(m);
            c
        }
        2 => {
            // over a map of the indexed form with other contents
            let mut c: M = RubyMap::with_capacity_and_hasher(9, BH);
            ok(c.insert(ks[ks.len() - 1], 77, &mut (), &mut ()));
            ok(c.insert(ks[0], 78, &mut (), &mut ()));
            c.clone_from(m);
            c
        }
        3 => {
            // over a larger map of the small form
            let mut c: M = RubyMap::with_hasher(BH);
            let mut i = 0;
            while i < ks.len() && i < 8 {
                ok(c.insert(ks[ks.len() - 1 - i], 79, &mut (), &mut ()));
                i += 1;
            }
            c.clone_from(m);
            c
        }
        4 => m.clone().map_keys(|k| k),
        _ => {
            let o = m.clone();
            let mut c: M = RubyMap::with_hasher(BH);
            ok(c.extend(o, &mut (), &mut ()));
            c
        }
    };
    let mut cd = *md;
    if pick(2) == 0 {
        step(m, md, kinds, ks, nidx);
    } else {
        step(&mut c, &mut cd, kinds, ks, nidx);
    }
    let p = ks[pick(ks.len())];
    agree_at(&c, &cd, p);
    if pick(2) == 0 {
        drop(c);
        agree_at(m, md, p);
    }
}
fn small<const U: usize>(h: Hs, indexed: bool, n0: usize, n1: usize, kinds: &[usize]) {
    let ks = Keys::<U>::new(h);
    let n = n0 + pick(n1 - n0 + 1);
    let (mut m, mut md) = build(n, indexed, &ks.0);
    copies(&mut m, &mut md, &ks.0, kinds, 6, n1 + 1);
    cover(1);
}
fn big<const U: usize>(plans: usize, indexed: bool, ns: &[usize], kinds: &[usize]) {
    let n = ns[pick(ns.len())];
    let plan = pick(plans);
    let ks = Keys::<U>::plan(plan, &[[0, n][pick(2)]]);
    let ks = &ks.0[..n + 1];
    let (mut m, mut md) = build(n, indexed, ks);
    copies(&mut m, &mut md, ks, kinds, 6, 2);
    cover(1);
}

/// a value with its own equality
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V(pub u64);
impl RubyEql<(), (), ()> for V {
    fn eql(&self, o: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
        Ok(self.0 == o.0)
    }
}
type RM = RubyMap<K, V, (), (), (), RandomState>;
type RS = RubySet<K, (), (), (), RandomState>;

/// two maps over `u` keys, any subsets and values, any order and history
fn equal(u: usize, extra: usize) {
    let mut a: RM = if pick(2) == 0 { RubyMap::new() } else { RubyMap::with_capacity(9) };
    let mut b: RM = if pick(2) == 0 { RubyMap::new() } else { RubyMap::with_capacity(9) };
    let (x, y) = (pick(1 << u), pick(1 << u));
    let mut same = x == y;
    let (e, g) = (&mut (), &mut ());
    let key = |i: usize| K { id: i as u8, h: i as u64 * 3 };
    let mut va = [0; 4];
    let mut i = 0;
    while i < u {
        if x >> i & 1 == 1 {
            va[i] = sym(8);
            ok(a.insert(key(i), V(va[i]), e, g));
        }
        i += 1;
    }
    // the other in reverse order, with detours
    let mut i = u;
    while i > 0 {
        i -= 1;
        let j = i;
        if y >> j & 1 == 1 {
            let v = sym(8);
            ok(b.insert(key(j), V(v ^ 1), e, g));
            if pick(2) == 0 {
                ok(b.shift_remove(&key(j), e, g));
            }
            ok(b.insert(key(j), V(v), e, g));
            if x >> j & 1 == 1 {
                same &= v == va[j];
            }
        }
    }
    let mut i = 0;
    while i < extra {
        ok(a.insert(key(10 + i), V(i as u64), e, g));
        ok(b.insert(key(10 + extra - 1 - i), V((extra - 1 - i) as u64), e, g));
        i += 1;
    }
    check((a == b) == same, 1);
    check((b == a) == same, 2);
    check(ok(a.eql(&b, e, g)) == same, 3);
    check(ok(b.eql(&a, e, g)) == same, 4);
    check(a == a.clone(), 5);
    cover(1);
}
/// sets: copies and equality
fn sets(u: usize, extra: usize) {
    let mut a: RS = if pick(2) == 0 { RubySet::new() } else { RubySet::with_capacity(9) };
    let mut b: RS = RubySet::new();
    let (x, y) = (pick(1 << u), pick(1 << u));
    let (e, g) = (&mut (), &mut ());
    let key = |i: usize| K { id: i as u8, h: i as u64 * 3 };
    let mut i = 0;
    while i < u {
        if x >> i & 1 == 1 {
            ok(a.insert(key(i), e, g));
        }
        let j = u - 1 - i;
        if y >> j & 1 == 1 {
            ok(b.insert(key(j), e, g));
        }
        i += 1;
    }
    let mut i = 0;
    while i < extra {
        ok(a.insert(key(10 + i), e, g));
        ok(b.insert(key(10 + extra - 1 - i), e, g));
        i += 1;
    }
    check((a == b) == (x == y), 10);
    check(ok(a.eql(&b, e, g)) == (x == y), 11);
    let mut c = a.clone();
    if pick(2) == 1 {
        c = b.clone();
        c.clone_from(&a);
    }
    check(c == a && c.len() == a.len(), 12);
    let mut i = 0;
    for k in c.iter() {
        check(a.get_index(i).map(|q| q.id) == Some(k.id), 13);
        check(ok(c.get_index_of(k, e, g)) == Some(i), 14);
        i += 1;
    }
    // independent afterwards
    let n = a.len();
    ok(c.insert(key(40), e, g));
    check(a.len() == n && !ok(a.contains(&key(40), e, g)), 15);
    cover(1);
}
/// building from pairs with repeated keys equals writing them one by one
fn pairs<const U: usize>(h: Hs, n: usize) {
    let ks = Keys::<U>::new(h);
    let mut l = Vec::new();
    let mut md = Md::new();
    let n = pick(n + 1);
    let mut i = 0;
    while i < n {
        let k = ks.0[pick(U)];
        let v = sym(16);
        l.push((k, v));
        md.put(k.id, v);
        i += 1;
    }
    let m: M = match pick(2) {
        0 => ok(RubyMap::from_iter(l, &mut (), &mut ())),
        _ => {
            let mut m: M = RubyMap::with_hasher(BH);
            ok(m.extend(l, &mut (), &mut ()));
            m
        }
    };
    agree(&m, &md, &ks.0);
    cover(1);
}
entries! {
    h09_lin_full => small::<2>(Hs::Full, false, 0, 2, &[0, 2]);
    h09_lin_edge => small::<3>(Hs::Narrow, false, 0, 3, MUT);
    h09_idx_edge => small::<3>(Hs::Narrow, true, 0, 3, &[0, 2, 3]);
    h09_big_lin => big::<10>(2, false, &[8], &[0, 2, 6]);
    h09_big_idx => big::<16>(2, true, &[9, 14], &[0, 3, 6]);
    h09_eq => equal(3, 0);
    h09_eq_big => equal(2, 9);
    h09_eq_cross => equal(3, 6);
    h09_sets => sets(3, 0);
    h09_sets_big => sets(3, 7);
    h09_pairs => pairs::<3>(Hs::Edge, 4);
}

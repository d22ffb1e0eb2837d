//! H08: fast paths (precomputed hash, caller's equality, symbol keys) against the general ones.
use crate::common::*;
use crate::ops::*;
use crate::v::*;
use rubymap::{RubySymEql, RubySymHash};
use std::hash::Hasher;

impl RubySymEql for K {
    fn eql(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl RubySymHash for K {
    fn ruby_hash<HH: Hasher>(&self, s: &mut HH) {
        s.write_u64(self.h)
    }
}
fn fast(m: &mut M, md: &mut Md, ks: &[K], kind: usize) {
    let k = ks[pick(ks.len())];
    let at = md.find(k.id);
    let (e, g) = (&mut (), &mut ());
    let v = sym(16);
    let old = at.map(|i| md.v[i]);
    match kind {
        0 => {
            check(opt_eq(m.insert_sym(k, v), old), 1);
            md.put(k.id, v);
        }
        1 => {
            let (i, r) = m.insert_sym_full(k, v);
            check(i == at.unwrap_or(md.n) && opt_eq(r, old), 2);
            md.put(k.id, v);
        }
        2 => {
            check(opt_eq(m.insert_prehashed(k.h as usize, k, v), old), 3);
            md.put(k.id, v);
        }
        3 => {
            let r = m.insert_prehashed_with(k.h as usize, k, v, |q| q.id == k.id);
            check(opt_eq(r, old), 4);
            md.put(k.id, v);
        }
        4 => check(opt_eq(ok(m.get_prehashed(k.h as usize, &k, e, g)).copied(), old), 5),
        _ => check(
            opt_eq(ok(m.get_prehashed_with(k.h as usize, |q| q.id == k.id, e, g)).copied(), old),
            6,
        ),
    }
}
const FAST: &[usize] = &[0, 1, 2, 3, 4, 5];
/// fast operation(s) around a general one
fn mix<const U: usize>(h: Hs, indexed: bool, n0: usize, n1: usize, seq: &[(bool, &[usize])]) {
    let ks = Keys::<U>::new(h);
    let n = n0 + pick(n1 - n0 + 1);
    let (mut m, mut md) = build(n, indexed, &ks.0);
    let mut i = 0;
    while i < seq.len() {
        if seq[i].0 {
            fast(&mut m, &mut md, &ks.0, seq[i].1[pick(seq[i].1.len())]);
        } else {
            step(&mut m, &mut md, seq[i].1, &ks.0, n);
        }
        i += 1;
    }
    agree(&m, &md, &ks.0);
    cover(1);
}
/// a map built by the fast paths only, across the small-form limit or the growth point
fn built<const U: usize>(plans: usize, indexed: bool, ns: &[usize]) {
    let n = ns[pick(ns.len())];
    let plan = pick(plans);
    let free = [0, n / 2, n][pick(3)];
    let ks = Keys::<U>::plan(plan, &[free]);
    let ks = &ks.0[..n + 1];
    let (mut m, mut md) = build(0, indexed, ks);
    let how = pick(4);
    let mut i = 0;
    while i < n {
        let v = sym(16);
        let r = match how {
            0 => m.insert_sym(ks[i], v),
            1 => m.insert_prehashed(ks[i].h as usize, ks[i], v),
            2 => m.insert_prehashed_with(ks[i].h as usize, ks[i], v, |q| q.id == ks[i].id),
            _ => {
                if i & 1 == 0 {
                    ok(m.insert(ks[i], v, &mut (), &mut ()))
                } else {
                    m.insert_sym(ks[i], v)
                }
            }
        };
        check(r.is_none(), 10);
        md.put(ks[i].id, v);
        i += 1;
    }
    if pick(2) == 0 {
        fast(&mut m, &mut md, ks, FAST[pick(6)]);
    } else {
        step(&mut m, &mut md, &[0, 2, 3], ks, n);
    }
    let mut j = 0;
    while j < ks.len() {
        check(ok(m.get_index_of(&ks[j], &mut (), &mut ())) == md.find(ks[j].id), 11);
        j += 1;
    }
    agree_at(&m, &md, ks[n]);
    cover(1);
}
entries! {
    h08_lin_full => mix::<3>(Hs::Full, false, 0, 2, &[(true, FAST)]);
    h08_idx_full => mix::<3>(Hs::Full, true, 0, 2, &[(true, FAST)]);
    h08_lin_edge => mix::<4>(Hs::Edge, false, 0, 3, &[(true, FAST)]);
    h08_idx_edge => mix::<4>(Hs::Edge, true, 0, 3, &[(true, FAST)]);
    h08_lin_mix => mix::<3>(Hs::Narrow, false, 0, 2, &[(true, &[0, 2, 3]), (false, &[0, 2, 3]), (true, FAST)]);
    h08_idx_mix => mix::<3>(Hs::Narrow, true, 0, 2, &[(true, &[0, 2, 3]), (false, &[0, 2, 3]), (true, FAST)]);
    h08_idx_mix3 => mix::<3>(Hs::Narrow, true, 0, 2, &[(false, &[2, 3, 6]), (true, FAST), (false, MUT), (true, FAST)]);
    h08_built_lin => built::<12>(2, false, &[7, 8, 9]);
    h08_built_idx => built::<16>(4, true, &[14, 15]);
}

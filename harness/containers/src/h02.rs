//! H02: the small and the indexed form cannot be told apart.
use crate::common::*;
use crate::ops::*;
use crate::v::*;
use rubymap::RubyMap;

/// Ways a small map becomes indexed without changing its contents.
fn promote(m: &mut M, how: usize, ks: &[K]) {
    match how {
        0 => m.reserve(9),
        1 => m.reserve_exact(9),
        2 => {
            // looking at a handle changes nothing
            let _ = ok(m.entry(ks[0], &mut (), &mut ())).index();
        }
        3 => {
            let _ = m.get_index_entry(0).is_some();
        }
        4 => {
            let _ = m.last_entry().is_some();
        }
        _ => {
            // capacity asked for at creation, contents copied over
            let mut n: M = RubyMap::with_capacity_and_hasher(9, BH);
            ok(n.extend(m.iter().map(|(k, v)| (*k, *v)), &mut (), &mut ()));
            *m = n;
        }
    }
}

fn same(a: &M, b: &M, ks: &[K]) {
    check(a.len() == b.len(), 1);
    let mut i = a.iter();
    let mut j = b.iter();
    obs(a.len() as u64);
    loop {
        match (i.next(), j.next()) {
            (Some((k, v)), Some((l, w))) => {
                check(k.id == l.id && *v == *w, 2);
                obs(*v);
            }
            (None, None) => break,
            _ => check(false, 3),
        }
    }
    let k = ks[pick(ks.len())];
    let x = ok(a.get_full(&k, &mut (), &mut ())).map(|(i, _, v)| (i, *v));
    let y = ok(b.get_full(&k, &mut (), &mut ())).map(|(i, _, v)| (i, *v));
    match (x, y) {
        (Some((i, v)), Some((j, w))) => check(i == j && v == w, 4),
        (None, None) => {}
        _ => check(false, 5),
    }
}

fn both(a: &mut M, b: &mut M, kinds: &[usize], ks: &[K], nidx: usize) {
    let op = draw(kinds, ks, nidx);
    let x = apply(a, &op);
    let y = apply(b, &op);
    x.same(&y, 100 + op.kind as u32);
}

/// the same history on a small map and on one promoted after `n` insertions
fn diff<const U: usize>(hs: Hs, nmax: usize, hows: usize, kinds: &[&[usize]]) {
    let ks = Keys::<U>::new(hs);
    let n = pick(nmax + 1);
    let (mut a, _) = build(n, false, &ks.0);
    let mut b = a.clone();
    promote(&mut b, pick(hows), &ks.0);
    let mut i = 0;
    while i < kinds.len() {
        both(&mut a, &mut b, kinds[i], &ks.0, nmax + 2);
        i += 1;
    }
    same(&a, &b, &ks.0);
    cover(1);
}

/// crossing the small limit: `n` keys, then more, with the promotion before, at, or by the growth
fn cross<const U: usize>(plans: usize, kinds: &[&[usize]]) {
    let plan = pick(plans);
    let free = [0, 7, 8][pick(3)];
    let ks = Keys::<U>::plan(plan, &[free]);
    let ks = &ks.0[..];
    let n = 7 + pick(3);
    let (mut a, mut md) = build(n, false, ks);
    let (mut b, _) = build(0, true, ks);
    let mut i = 0;
    while i < n {
        ok(b.insert(ks[i], md.v[i], &mut (), &mut ()));
        i += 1;
    }
    let mut i = 0;
    while i < kinds.len() {
        let op = draw(kinds[i], ks, n + 2);
        let w = spec(&mut md, &op);
        apply(&mut a, &op).same(&w, 200 + op.kind as u32);
        apply(&mut b, &op).same(&w, 300 + op.kind as u32);
        i += 1;
    }
    check(a.len() == b.len(), 1);
    let mut i = 0;
    while i < b.len() {
        let (k, v) = b.get_index(i).unwrap();
        check(i < md.n && k.id == md.k[i] && *v == md.v[i], 2);
        i += 1;
    }
    agree(&a, &md, ks);
    cover(1);
}

/// back to the small form by clearing, then reused
fn reuse<const U: usize>(hs: Hs, kinds: &[&[usize]]) {
    let ks = Keys::<U>::new(hs);
    let (mut a, _) = build(2, true, &ks.0);
    a.clear();
    let (mut b, mut md) = build(0, false, &ks.0);
    let n = pick(3);
    let mut i = 0;
    while i < n {
        let v = sym(16);
        ok(a.insert(ks.0[i], v, &mut (), &mut ()));
        ok(b.insert(ks.0[i], v, &mut (), &mut ()));
        md.put(ks.0[i].id, v);
        i += 1;
    }
    if pick(2) == 1 {
        promote(&mut a, pick(3), &ks.0);
    }
    let mut i = 0;
    while i < kinds.len() {
        let op = draw(kinds[i], &ks.0, 4);
        let w = spec(&mut md, &op);
        apply(&mut a, &op).same(&w, 400 + op.kind as u32);
        apply(&mut b, &op).same(&w, 500 + op.kind as u32);
        i += 1;
    }
    same(&a, &b, &ks.0);
    cover(1);
}

/// clearing a map that had outgrown the small form, then growing past the limit again
fn reuse_big(plans: usize) {
    let plan = pick(plans);
    let free = [0, 8][pick(2)];
    let ks = Keys::<11>::plan(plan, &[free]);
    let ks = &ks.0[..];
    let (mut a, mut md) = build(10, false, ks);
    match pick(2) {
        0 => {
            a.clear();
            md.n = 0;
        }
        _ => {
            let (b, bd) = build(0, true, ks);
            a = b;
            md = bd;
        }
    }
    let n = 7 + pick(3);
    fill(&mut a, &mut md, 0, n, ks);
    step(&mut a, &mut md, &[0, 2, 3, 4, 5, 8, 20], ks, n + 2);
    agree(&a, &md, ks);
    cover(1);
}

const ALLMUT: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 20, 30, 31, 32, 33, 34, 37];

entries! {
    h02_diff_full => diff::<2>(Hs::Full, 1, 3, &[MUT]);
    h02_diff_pos => diff::<3>(Hs::Pos(4), 1, 2, &[ALLMUT]);
    h02_diff_edge => diff::<3>(Hs::Edge, 2, 6, &[ALLMUT]);
    h02_diff_edge2 => diff::<3>(Hs::Narrow, 2, 2, &[MUT, MUT]);
    h02_cross => cross::<11>(2, &[ALLMUT]);
    h02_reuse => reuse::<3>(Hs::Narrow, &[ALLMUT]);
    h02_reuse_big => reuse_big(4);
    // thorough
    h02_diff_pos2 => diff::<3>(Hs::Pos(4), 2, 3, &[ALLMUT]);
    h02_diff_edge4 => diff::<4>(Hs::Edge, 3, 3, &[ALLMUT]);
    h02_diff_edge22 => diff::<3>(Hs::Narrow, 2, 3, &[MUT, ALLMUT]);
    h02_cross4 => cross::<11>(4, &[ALLMUT]);
    h02_cross2 => cross::<11>(2, &[MUT, &[0, 2, 4]]);
}

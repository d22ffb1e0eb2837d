//! H05: positional insert, move, swap and remove.
use crate::common::*;
use crate::ops::*;
use crate::v::*;

/// keys stored in id order, then inserted by sort order
fn sorted<const U: usize>(hs: Hs, indexed: bool, nmax: usize) {
    let ks = Keys::<U>::new(hs);
    let (mut m, mut md) = build(0, indexed, &ks.0);
    let n = pick(nmax + 1);
    let mut i = 0;
    let mut j = 0;
    while i < n {
        // skip some keys so that there are gaps
        j += pick(2);
        if j >= U {
            break;
        }
        let v = sym(16);
        ok(m.insert(ks.0[j], v, &mut (), &mut ()));
        md.put(ks.0[j].id, v);
        j += 1;
        i += 1;
    }
    step(&mut m, &mut md, &[35], &ks.0, 0);
    agree(&m, &md, &ks.0);
    cover(1);
}

/// positions of every size, on both sides of the sweep/search choice
fn wide(indexed: bool, ns: &[usize], plans: usize, kinds: &[usize]) {
    let n = ns[pick(ns.len())];
    let plan = pick(plans);
    let free = match pick(2) {
        0 => 0,
        _ => n - 1,
    };
    let ks = Keys::<17>::plan(plan, &[free]);
    let ks = &ks.0[..n + 1];
    let (mut m, mut md) = build(n, indexed, ks);
    step(&mut m, &mut md, kinds, ks, n + 2);
    // every key is where iteration shows it
    let mut i = 0;
    check(m.len() == md.n, 800);
    for (k, v) in m.iter() {
        check(k.id == md.k[i] && *v == md.v[i], 801);
        obs(k.id as u64);
        i += 1;
    }
    let mut j = 0;
    while j < ks.len() {
        let got = ok(m.get_index_of(&ks[j], &mut (), &mut ()));
        check(got == md.find(ks[j].id), 802);
        j += 1;
    }
    cover(1);
}

entries! {
    h05_lin_edge => history::<4>(Hs::Narrow, false, 0, 3, &[POSITIONAL]);
    h05_lin_full => history::<3>(Hs::Full, false, 0, 2, &[&[33, 34, 32]]);
    h05_idx_edge => history::<4>(Hs::Edge, true, 0, 3, &[POSITIONAL]);
    h05_idx_edge2 => history::<3>(Hs::Narrow, true, 2, 2, &[&[30, 31, 32, 33, 34], &[30, 31, 32, 33, 34]]);
    h05_idx_edge22 => history::<3>(Hs::Narrow, true, 1, 2, &[POSITIONAL, POSITIONAL]);
    h05_idx_mix => history::<3>(Hs::Narrow, true, 1, 2, &[POSITIONAL, MUT, POSITIONAL]);
    h05_sorted_lin => sorted::<4>(Hs::Edge, false, 3);
    h05_sorted_idx => sorted::<4>(Hs::Edge, true, 3);
    h05_wide_idx => wide(true, &[9, 14], 2, &[30, 31, 32, 33, 34, 37]);
    h05_wide_all => wide(true, &[7, 8, 9, 10, 13, 14, 15], 4, POSITIONAL);
    h05_wide_lin => wide(false, &[8], 2, POSITIONAL);
}

//! H04: deleting while a traversal is running.
use crate::common::*;
use crate::ops::{build, ok, M};
use crate::v::*;

const DEAD: K = K { id: 200, h: 0 };

/// Slots as a running traversal sees them: positions are stable, deleted ones are marked.
struct Slots<const N: usize> {
    n: usize,
    k: [u8; N],
    v: [u64; N],
    live: [bool; N],
}
impl<const N: usize> Slots<N> {
    fn find(&self, id: u8) -> Option<usize> {
        let mut i = 0;
        while i < self.n {
            if self.live[i] && self.k[i] == id {
                return Some(i);
            }
            i += 1;
        }
        None
    }
}

fn agree<const N: usize>(m: &M, s: &Slots<N>, k: K) {
    check(m.len() == s.n, 1);
    let mut i = 0;
    for (k, v) in m.iter() {
        if s.live[i] {
            check(k.id == s.k[i] && *v == s.v[i], 2);
            obs(*v);
        } else {
            check(k.id == DEAD.id && *v == 0, 3);
        }
        i += 1;
    }
    check(i == s.n, 4);
    let got = ok(m.get_full(&k, &mut (), &mut ())).map(|x| (x.0, *x.2));
    match (got, s.find(k.id)) {
        (Some((i, v)), Some(j)) => check(i == j && v == s.v[j], 5),
        (None, None) => {}
        _ => check(false, 6),
    }
}

/// one step of a traversal body
fn body<const N: usize>(m: &mut M, s: &mut Slots<N>, ks: &[K], kinds: &[usize]) {
    let (e, g) = (&mut (), &mut ());
    match kinds[pick(kinds.len())] {
        0 => {
            // delete by key
            let k = ks[pick(ks.len())];
            let r = ok(m.tombstone_remove(&k, DEAD, 0, e, g));
            match (r, s.find(k.id)) {
                (Some((i, rk, rv)), Some(j)) => {
                    check(i == j && rk.id == k.id && rv == s.v[j], 10);
                    s.live[j] = false;
                }
                (None, None) => {}
                _ => check(false, 11),
            }
        }
        1 => {
            // shift: the first live position
            let mut i = 0;
            while i < s.n && !s.live[i] {
                i += 1;
            }
            if i < s.n {
                match ok(m.tombstone_index(i, DEAD, 0, e, g)) {
                    Some((k, v)) => check(k.id == s.k[i] && v == s.v[i], 12),
                    None => check(false, 13),
                }
                s.live[i] = false;
            } else {
                check(ok(m.tombstone_index(s.n, DEAD, 0, e, g)).is_none(), 14);
            }
        }
        2 => {
            // delete by any live position
            let i = pick(s.n + 1);
            if i < s.n && s.live[i] {
                match ok(m.tombstone_index(i, DEAD, 0, e, g)) {
                    Some((k, v)) => check(k.id == s.k[i] && v == s.v[i], 15),
                    None => check(false, 16),
                }
                s.live[i] = false;
            }
        }
        3 => {
            // write to an existing key
            let k = ks[pick(ks.len())];
            if let Some(j) = s.find(k.id) {
                let v = sym(16);
                check(opt_eq(ok(m.insert(k, v, e, g)), Some(s.v[j])), 17);
                s.v[j] = v;
            }
        }
        _ => {
            let k = ks[pick(ks.len())];
            let r = ok(m.get_mut(&k, e, g)).is_some();
            check(r == s.find(k.id).is_some(), 18);
        }
    }
}

fn run<const U: usize>(ks: &[K], n: usize, indexed: bool, steps: usize, kinds: &[usize], after: &[usize]) {
    let (mut m, md) = build(n, indexed, ks);
    let mut s = Slots::<U> { n, k: [0; U], v: [0; U], live: [true; U] };
    let mut i = 0;
    while i < n {
        s.k[i] = md.k[i];
        s.v[i] = md.v[i];
        i += 1;
    }
    let mut i = 0;
    while i < steps {
        body(&mut m, &mut s, ks, kinds);
        i += 1;
    }
    let k = ks[pick(ks.len())];
    agree(&m, &s, k);
    // the traversal is over: what is left is the live entries in order
    m.compact_tombstones(|k| k.id == DEAD.id);
    let mut md = crate::ops::Md::new();
    let mut i = 0;
    while i < s.n {
        if s.live[i] {
            md.put(s.k[i], s.v[i]);
        }
        i += 1;
    }
    if !after.is_empty() {
        crate::ops::step(&mut m, &mut md, after, ks, 3);
    }
    crate::ops::agree_at(&m, &md, k);
    cover(1);
}

fn small<const U: usize>(hs: Hs, nmax: usize, indexed: bool, steps: usize, kinds: &[usize], after: &[usize]) {
    let ks = Keys::<U>::new(hs);
    let n = 1 + pick(nmax);
    run::<U>(&ks.0, n, indexed, steps, kinds, after);
}
fn large(plans: usize, ns: &[usize], indexed: bool, steps: usize, kinds: &[usize], after: &[usize]) {
    let n = ns[pick(ns.len())];
    let plan = pick(plans);
    let free = [0, n - 1][pick(2)];
    let ks = Keys::<16>::plan(plan, &[free]);
    run::<16>(&ks.0[..n], n, indexed, steps, kinds, after);
}
/// everything deleted, then compacted and refilled across the growth point
fn refill(plans: usize) {
    let plan = pick(plans);
    let ks = Keys::<16>::plan(plan, &[15]);
    let ks = &ks.0[..];
    let n = 14;
    let (mut m, md) = build(n, true, ks);
    let keep = pick(n);
    let mut i = 0;
    while i < n {
        if i != keep {
            check(ok(m.tombstone_index(i, DEAD, 0, &mut (), &mut ())).is_some(), 30);
        }
        i += 1;
    }
    // writing to the surviving key while deleted slots are around
    let v = sym(16);
    check(opt_eq(ok(m.insert(ks[keep], v, &mut (), &mut ())), Some(md.v[keep])), 31);
    m.compact_tombstones(|k| k.id == DEAD.id);
    let mut md = crate::ops::Md::new();
    md.put(ks[keep].id, v);
    let mut i = 0;
    while i < 16 {
        if i != keep {
            let v = sym(16);
            check(ok(m.insert(ks[i], v, &mut (), &mut ())).is_none(), 32);
            md.put(ks[i].id, v);
        }
        i += 1;
    }
    crate::ops::agree(&m, &md, ks);
    cover(1);
}

const ALL: &[usize] = &[0, 1, 2, 3, 4];
const THEN: &[usize] = &[0, 2, 3, 4, 5, 31];

entries! {
    h04_lin_full => small::<2>(Hs::Full, 2, false, 1, ALL, THEN);
    h04_idx_full => small::<2>(Hs::Full, 2, true, 1, ALL, &[]);
    h04_lin_edge => small::<2>(Hs::Edge, 2, false, 2, ALL, &[0, 3]);
    h04_lin_edge3 => small::<3>(Hs::Narrow, 3, false, 2, ALL, &[]);
    h04_idx_edge => small::<3>(Hs::Edge, 3, true, 2, ALL, &[]);
    h04_idx_after => small::<2>(Hs::Edge, 2, true, 1, ALL, THEN);
    h04_idx_deep => small::<3>(Hs::Narrow, 3, true, 3, &[0, 1, 3], &[]);
    h04_large_lin => large(2, &[8], false, 1, ALL, &[0, 3]);
    h04_large_idx => large(4, &[9, 14], true, 1, &[0, 2], &[]);
    h04_large_idx2 => large(2, &[9], true, 2, &[0], &[]);
    h04_refill => refill(4);
}

//! H06: bulk removal and reordering.
use crate::common::*;
use crate::ops::*;
use crate::v::*;
use rubymap::RubyMap;
use std::ops::Bound;

fn bound(start: bool, n: usize) -> (Bound<usize>, usize) {
    // (bound, position it stands for)
    match pick(3) {
        0 => {
            let i = pick(n + 2);
            (Bound::Included(i), if start { i } else { i + 1 })
        }
        1 => {
            let i = pick(n + 2);
            (Bound::Excluded(i), if start { i + 1 } else { i })
        }
        _ => (Bound::Unbounded, if start { 0 } else { n }),
    }
}
fn cut(md: &mut Md, a: usize, b: usize) {
    let mut i = a;
    while i < b {
        md.shift_remove_at(a);
        i += 1;
    }
}
/// drain a range, taking `f` from the front and `b` from the back before dropping the drain
fn drain(m: &mut M, md: &mut Md, a: (Bound<usize>, usize), b: (Bound<usize>, usize), most: usize) {
    let n = md.n;
    let valid = a.1 <= b.1 && b.1 <= n;
    let mut done = false;
    let mut want = *md;
    let r = catch(|| {
        let mut d = ok(m.drain((a.0, b.0), &mut (), &mut ()));
        let (mut lo, mut hi) = (a.1, b.1);
        check(d.len() == hi - lo, 100);
        let f = pick(most + 1);
        let g = pick(most + 1);
        let mut i = 0;
        while i < f {
            match d.next() {
                Some((k, v)) => {
                    check(lo < hi && k.id == want.k[lo] && v == want.v[lo], 101);
                    lo += 1;
                }
                None => check(lo == hi, 102),
            }
            i += 1;
        }
        let mut i = 0;
        while i < g {
            match d.next_back() {
                Some((k, v)) => {
                    check(lo < hi, 103);
                    hi -= 1;
                    check(k.id == want.k[hi] && v == want.v[hi], 104);
                }
                None => check(lo == hi, 105),
            }
            i += 1;
        }
        check(d.len() == hi - lo, 106);
        drop(d);
        done = true;
    });
    check(done == valid && (r == 0) == valid, 107);
    if valid {
        cut(&mut want, a.1, b.1);
        *md = want;
    }
}
fn split(m: &mut M, md: &mut Md, ks: &[K], full: bool) {
    let at = pick(md.n + 2);
    let mut rest = None;
    catch(|| rest = Some(ok(m.split_off(at, &mut (), &mut ()))));
    check(rest.is_some() == (at <= md.n), 110);
    if let Some(r) = rest {
        let mut o = Model::new();
        let mut i = at;
        while i < md.n {
            o.put(md.k[i], md.v[i]);
            i += 1;
        }
        md.n = at;
        see(&r, &o, ks, full);
    }
}
/// contents and lookups; all keys when `full`, otherwise one picked key
fn see(m: &M, md: &Md, ks: &[K], full: bool) {
    if full {
        let mut j = 1;
        while j < ks.len() {
            check(ok(m.get_index_of(&ks[j], &mut (), &mut ())) == md.find(ks[j].id), 120);
            j += 1;
        }
        agree_at(m, md, ks[0]);
    } else {
        agree(m, md, ks);
    }
}
fn filter(m: &mut M, md: &mut Md, masks: &[usize]) {
    let mask = masks[pick(masks.len())];
    let x = sym(16);
    let mut at = 0;
    m.retain(|k, v| {
        check(k.id == md.k[at] && *v == md.v[at], 130);
        at += 1;
        *v ^= x;
        mask >> (at - 1) & 1 == 1
    });
    check(at == md.n, 131);
    let mut o = Model::new();
    let mut i = 0;
    while i < md.n {
        if mask >> i & 1 == 1 {
            o.put(md.k[i], md.v[i] ^ x);
        }
        i += 1;
    }
    *md = o;
}
fn by(a: u64, b: u64) -> std::cmp::Ordering {
    a.cmp(&b)
}
/// every sort; values are 2-bit unknowns so that ties occur
fn sort(m: &mut M, md: &mut Md) {
    let kind = pick(8);
    // stable insertion sort of the model
    let keys = matches!(kind, 0 | 1);
    let mut i = 1;
    while i < md.n {
        let mut j = i;
        while j > 0 && if keys { md.k[j - 1] > md.k[j] } else { md.v[j - 1] > md.v[j] } {
            md.swap(j - 1, j);
            j -= 1;
        }
        i += 1;
    }
    match kind {
        0 => m.sort_keys(),
        1 => m.sort_unstable_keys(),
        2 => m.sort_by(|_, a, _, b| by(*a, *b)),
        // equal values are kept apart by the key, the order being total
        3 => m.sort_unstable_by(|k, a, l, b| by(*a, *b).then(rank(md, k).cmp(&rank(md, l)))),
        4 => m.sort_by_cached_key(|_, v| *v),
        5 => {
            let o = std::mem::replace(m, RubyMap::with_hasher(BH));
            for (k, v) in o.sorted_by(|_, a, _, b| by(*a, *b)) {
                ok(m.insert(k, v, &mut (), &mut ()));
            }
        }
        6 => {
            let o = std::mem::replace(m, RubyMap::with_hasher(BH));
            for (k, v) in o.sorted_unstable_by(|k, a, l, b| by(*a, *b).then(rank(md, k).cmp(&rank(md, l)))) {
                ok(m.insert(k, v, &mut (), &mut ()));
            }
        }
        _ => {
            m.reverse();
            m.sort_by(|k, a, l, b| by(*a, *b).then(rank(md, k).cmp(&rank(md, l))));
        }
    }
}
fn rank(md: &Md, k: &K) -> usize {
    md.find(k.id).unwrap_or(99)
}
fn shuffled(n: usize, indexed: bool, ks: &[K], bits: u32) -> (M, Md) {
    let (mut m, mut md) = build(0, indexed, ks);
    let perm = pick(if n < 3 { n.max(1) } else { 3 });
    let mut i = 0;
    while i < n {
        let j = match perm {
            0 => i,
            1 => n - 1 - i,
            _ => (i + 1) % n,
        };
        let v = sym(bits);
        ok(m.insert(ks[j], v, &mut (), &mut ()));
        md.put(ks[j].id, v);
        i += 1;
    }
    (m, md)
}
/// append a second map sharing some keys; extend with pairs
fn join(m: &mut M, md: &mut Md, ks: &[K], from: usize, n2: usize, indexed2: bool) {
    let (mut o, od) = build(0, indexed2, ks);
    let mut od = od;
    let mut i = 0;
    while i < n2 {
        let v = sym(16);
        ok(o.insert(ks[from + i], v, &mut (), &mut ()));
        od.put(ks[from + i].id, v);
        i += 1;
    }
    match pick(2) {
        0 => {
            ok(m.append(&mut o, &mut (), &mut ()));
            // the source is left empty and usable
            check(o.len() == 0, 140);
            ok(o.insert(ks[0], 5, &mut (), &mut ()));
            check(matches!(ok(o.get(&ks[0], &mut (), &mut ())), Some(5)), 141);
        }
        _ => {
            let mut l = Vec::new();
            let mut i = 0;
            while i < n2 {
                l.push((ks[from + i], od.v[i]));
                i += 1;
            }
            ok(m.extend(l, &mut (), &mut ()));
        }
    }
    let mut i = 0;
    while i < n2 {
        md.put(od.k[i], od.v[i]);
        i += 1;
    }
}
fn one(m: &mut M, md: &mut Md, ks: &[K], kind: usize, full: bool) {
    let n = md.n;
    match kind {
        0 => {
            let a = bound(true, n);
            let b = bound(false, n);
            drain(m, md, a, b, 1)
        }
        1 => split(m, md, ks, full),
        2 => {
            let at = pick(n + 2);
            ok(m.truncate(at, &mut (), &mut ()));
            md.n = md.n.min(at);
        }
        3 => {
            let mask = pick(1 << n);
            filter(m, md, &[mask])
        }
        4 => {
            m.reverse();
            md.reverse();
        }
        _ => sort(m, md),
    }
}
fn small<const U: usize>(h: Hs, indexed: bool, n0: usize, n1: usize, kinds: &[usize], after: &[usize]) {
    let ks = Keys::<U>::new(h);
    let n = n0 + pick(n1 - n0 + 1);
    let (mut m, mut md) = shuffled(n, indexed, &ks.0, 16);
    one(&mut m, &mut md, &ks.0, kinds[pick(kinds.len())], false);
    if !after.is_empty() {
        step(&mut m, &mut md, after, &ks.0, n);
    }
    agree(&m, &md, &ks.0);
    cover(1);
}
fn sorts<const U: usize>(indexed: bool, n: usize, bits: u32) {
    let ks = Keys::<U>::new(Hs::Narrow);
    let (mut m, mut md) = shuffled(n, indexed, &ks.0, bits);
    sort(&mut m, &mut md);
    agree(&m, &md, &ks.0);
    cover(1);
}
fn joins<const U: usize>(h: Hs, indexed: bool, nmax: usize) {
    let ks = Keys::<U>::new(h);
    let n = pick(nmax + 1);
    let (mut m, mut md) = build(n, indexed, &ks.0);
    let from = pick(n + 1);
    let n2 = pick(nmax + 1).min(U - from);
    let i2 = pick(2) == 1;
    join(&mut m, &mut md, &ks.0, from, n2, i2);
    agree(&m, &md, &ks.0);
    cover(1);
}
/// large maps: every range, so that each way of erasing positions is taken; every key is looked up
fn wide<const U: usize>(plans: usize, indexed: bool, ns: &[usize], kinds: &[usize]) {
    let n = ns[pick(ns.len())];
    let plan = pick(plans);
    let free = [0, n / 2, n - 1][pick(3)];
    let ks = Keys::<U>::plan(plan, &[free]);
    let ks = &ks.0[..n + 2];
    let (mut m, mut md) = build(n, indexed, ks);
    match kinds[pick(kinds.len())] {
        0 => {
            let a = pick(n + 1);
            let b = pick(n + 1);
            assume(a <= b);
            drain(&mut m, &mut md, (Bound::Included(a), a), (Bound::Excluded(b), b), 1)
        }
        3 => filter(&mut m, &mut md, &[0, 1, 0x5555, 0xaaaa, 0xff, 0xff00, 0xfffe, 0x7fff, 0xffff, 0x1111]),
        6 => {
            let n2 = [1, 4, 9][pick(3)];
            let from = n + 2 - [1, 3, 11][pick(3)].min(n + 2);
            let n2 = n2.min(n + 2 - from);
            let i2 = pick(2) == 1;
            join(&mut m, &mut md, ks, from, n2, i2)
        }
        k => one(&mut m, &mut md, ks, k, true),
    }
    see(&m, &md, ks, true);
    // and one more write and delete
    step(&mut m, &mut md, &[0, 2], &ks[n - 1..], 0);
    agree_at(&m, &md, ks[n]);
    cover(1);
}
fn wide_sort(indexed: bool, n: usize) {
    let ks = Keys::<16>::plan(pick(2), &[n - 1]);
    let (mut m, mut md) = build(0, indexed, &ks.0);
    let perm = pick(3);
    let mut i = 0;
    while i < n {
        let j = [n - 1 - i, (i + 5) % n, i][perm];
        // concrete values with ties, except one
        let v = if i == n / 2 { sym(3) } else { (i % 3) as u64 };
        ok(m.insert(ks.0[j], v, &mut (), &mut ()));
        md.put(ks.0[j].id, v);
        i += 1;
    }
    sort(&mut m, &mut md);
    see(&m, &md, &ks.0, true);
    cover(1);
}

entries! {
    h06_lin_edge => small::<4>(Hs::Narrow, false, 0, 3, &[0, 1, 2, 3, 4], &[]);
    h06_idx_full => small::<2>(Hs::Full, true, 0, 2, &[0, 1, 2, 3, 4], &[]);
    h06_idx_edge => small::<3>(Hs::Edge, true, 0, 3, &[0, 1, 2, 3, 4], &[]);
    h06_idx_after => small::<3>(Hs::Narrow, true, 2, 2, &[1, 2, 3, 4], &[0, 2, 3]);
    h06_lin_sort => sorts::<3>(false, 3, 2);
    h06_idx_sort => sorts::<3>(true, 3, 2);
    h06_lin_join => joins::<4>(Hs::Narrow, false, 3);
    h06_idx_join => joins::<4>(Hs::Edge, true, 3);
    h06_wide_lin => wide::<10>(2, false, &[7, 8], &[0, 1, 2, 3, 4, 6]);
    h06_wide_idx => wide::<11>(2, true, &[9], &[0, 1, 2, 3, 4, 6]);
    h06_wide14 => wide::<16>(2, true, &[14], &[0, 1, 2, 3, 4, 6]);
    h06_wide_all => wide::<17>(4, true, &[8, 10, 13, 15], &[0, 1, 2, 3, 4, 6]);
    h06_sort_lin => wide_sort(false, 7);
    h06_sort_idx => wide_sort(true, 14);
}

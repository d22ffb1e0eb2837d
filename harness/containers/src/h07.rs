//! H07: entry handles.
use crate::common::*;
use crate::ops::*;
use crate::v::*;
use rubymap::map::{Entry, IndexedEntry, OccupiedEntry};

fn act(m: &mut M, md: &mut Md, ks: &[K], kind: usize, nidx: usize) {
    let k = ks[pick(ks.len())];
    let at = md.find(k.id);
    let v = sym(16);
    let (e, g) = (&mut (), &mut ());
    let h = ok(m.entry(k, e, g));
    check(h.key().id == k.id, 1);
    check(h.index() == at.unwrap_or(md.n), 2);
    check(matches!(h, Entry::Occupied(_)) == at.is_some(), 3);
    let old = at.map(|i| md.v[i]);
    match kind {
        0 => {
            let r = h.or_insert(v);
            check(*r == old.unwrap_or(v), 4);
            *r ^= 1;
            md.put(k.id, old.unwrap_or(v) ^ 1);
        }
        1 => {
            let r = h.or_insert_with(|| v);
            check(*r == old.unwrap_or(v), 5);
            md.put(k.id, old.unwrap_or(v));
        }
        2 => {
            let r = h.or_insert_with_key(|q| q.id as u64);
            check(*r == old.unwrap_or(k.id as u64), 6);
            md.put(k.id, old.unwrap_or(k.id as u64));
        }
        3 => {
            let r = h.and_modify(|x| *x ^= 6).or_default();
            let w = old.map_or(0, |x| x ^ 6);
            check(*r == w, 7);
            md.put(k.id, w);
        }
        4 => {
            let mut o = h.insert_entry(v);
            check(o.index() == at.unwrap_or(md.n) && o.key().id == k.id && *o.get() == v, 8);
            *o.get_mut() ^= 3;
            check(o.insert(v) == v ^ 3, 9);
            check(*o.into_mut() == v, 10);
            md.put(k.id, v);
        }
        5..=12 => {
            // removal forms
            match h {
                Entry::Occupied(o) => {
                    let i = at.unwrap_or(0);
                    check(at.is_some() && o.index() == i && opt_eq(Some(*o.get()), old), 11);
                    remove(o, md, i, kind);
                }
                Entry::Vacant(x) => {
                    check(x.key().id == k.id && x.index() == md.n, 12);
                    check(x.into_key().id == k.id, 13);
                }
            }
        }
        13 => match h {
            Entry::Occupied(o) => {
                let to = pick(nidx);
                let i = at.unwrap_or(0);
                let r = catch(|| ok(o.move_index(to, &mut (), &mut ())));
                check((r == 0) == (to < md.n), 14);
                if r == 0 {
                    md.move_to(i, to);
                }
            }
            Entry::Vacant(x) => {
                let r = x.insert(v);
                check(*r == v, 15);
                *r ^= 1;
                md.put(k.id, v ^ 1);
            }
        },
        14 => match h {
            Entry::Occupied(mut o) => {
                check(opt_eq(Some(o.insert(v)), old), 16);
                md.put(k.id, v);
            }
            Entry::Vacant(x) => {
                let to = pick(nidx);
                let mut good = false;
                catch(|| {
                    let r = ok(x.shift_insert(to, v, &mut (), &mut ()));
                    check(*r == v, 17);
                    good = true;
                });
                check(good == (to <= md.n), 18);
                if good {
                    md.insert_at(to, k.id, v);
                }
            }
        },
        _ => match h {
            Entry::Occupied(o) => {
                // by way of a positional handle
                let i = at.unwrap_or(0);
                let mut p: IndexedEntry<'_, K, u64, (), (), ()> = o.into();
                check(p.index() == i && p.key().id == k.id && opt_eq(Some(*p.get()), old), 19);
                check(opt_eq(Some(p.insert(v)), old), 20);
                *p.get_mut() ^= 1;
                md.put(k.id, v ^ 1);
                match pick(4) {
                    0 => {
                        check(*p.into_mut() == v ^ 1, 21);
                    }
                    1 => {
                        check(ok(p.swap_remove(e, g)) == v ^ 1, 22);
                        md.swap_remove_at(i);
                    }
                    2 => {
                        check(ok(p.shift_remove(e, g)) == v ^ 1, 23);
                        md.shift_remove_at(i);
                    }
                    _ => {
                        let q = ok(OccupiedEntry::from_index(p, e, g));
                        check(q.index() == i && q.key().id == k.id && *q.get() == v ^ 1, 24);
                        check(ok(q.swap_remove_entry(e, g)).1 == v ^ 1, 25);
                        md.swap_remove_at(i);
                    }
                }
            }
            Entry::Vacant(x) => {
                let o = x.insert_entry(v);
                check(o.index() == md.n && *o.get() == v && o.key().id == k.id, 26);
                md.put(k.id, v);
                let i = md.n - 1;
                if pick(2) == 1 {
                    remove(o, md, i, 6 + pick(2));
                }
            }
        },
    }
}
#[allow(deprecated)]
fn remove(o: OccupiedEntry<'_, K, u64, (), (), ()>, md: &mut Md, i: usize, kind: usize) {
    let (e, g) = (&mut (), &mut ());
    let (rk, rv) = (md.k[i], md.v[i]);
    let kv = match kind {
        5 => (rk, ok(o.remove(e, g))),
        6 => (rk, ok(o.swap_remove(e, g))),
        7 => (rk, ok(o.shift_remove(e, g))),
        8 => {
            let r = ok(o.remove_entry(e, g));
            (r.0.id, r.1)
        }
        9 => {
            let r = ok(o.swap_remove_entry(e, g));
            (r.0.id, r.1)
        }
        _ => {
            let r = ok(o.shift_remove_entry(e, g));
            (r.0.id, r.1)
        }
    };
    check(kv.0 == rk && kv.1 == rv, 30);
    if matches!(kind, 7 | 10..) {
        md.shift_remove_at(i);
    } else {
        md.swap_remove_at(i);
    }
}
/// handles obtained by position, first and last
fn positional(m: &mut M, md: &mut Md, nidx: usize) {
    let n = md.n;
    let (i, h) = match pick(3) {
        0 => (0, m.first_entry()),
        1 => (n.wrapping_sub(1), m.last_entry()),
        _ => {
            let i = pick(nidx);
            (i, m.get_index_entry(i))
        }
    };
    check(h.is_some() == (i < n), 40);
    let Some(mut h) = h else { return };
    check(h.index() == i && h.key().id == md.k[i] && *h.get() == md.v[i], 41);
    let v = sym(16);
    check(h.insert(v) == md.v[i], 42);
    md.v[i] = v;
    let (e, g) = (&mut (), &mut ());
    match pick(6) {
        0 => {
            let r = ok(h.swap_remove_entry(e, g));
            check(r.0.id == md.k[i] && r.1 == v, 43);
            md.swap_remove_at(i);
        }
        1 => {
            let r = ok(h.shift_remove_entry(e, g));
            check(r.0.id == md.k[i] && r.1 == v, 44);
            md.shift_remove_at(i);
        }
        2 => {
            check(ok(h.swap_remove(e, g)) == v, 45);
            md.swap_remove_at(i);
        }
        3 => {
            check(ok(h.shift_remove(e, g)) == v, 46);
            md.shift_remove_at(i);
        }
        4 => {
            let to = pick(nidx);
            let r = catch(|| ok(h.move_index(to, &mut (), &mut ())));
            check((r == 0) == (to < n), 47);
            if r == 0 {
                md.move_to(i, to);
            }
        }
        _ => {
            *h.into_mut() ^= 1;
            md.v[i] ^= 1;
        }
    }
}
/// insert at its place among sorted keys through a vacant handle
fn sorted(m: &mut M, md: &mut Md, ks: &[K]) {
    let k = ks[pick(ks.len())];
    let v = sym(16);
    if let Entry::Vacant(x) = ok(m.entry(k, &mut (), &mut ())) {
        let mut at = 0;
        while at < md.n && md.k[at] < k.id {
            at += 1;
        }
        let (i, r) = ok(x.insert_sorted(v, &mut (), &mut ()));
        check(i == at && *r == v, 50);
        md.insert_at(at, k.id, v);
    }
}
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15];
fn small<const U: usize>(h: Hs, indexed: bool, n0: usize, n1: usize, kinds: &[&[usize]], pos: bool) {
    let ks = Keys::<U>::new(h);
    let n = n0 + pick(n1 - n0 + 1);
    let (mut m, mut md) = build(n, indexed, &ks.0);
    let mut i = 0;
    while i < kinds.len() {
        act(&mut m, &mut md, &ks.0, kinds[i][pick(kinds[i].len())], n1 + 2);
        i += 1;
    }
    if pos {
        positional(&mut m, &mut md, n1 + 2);
    }
    agree(&m, &md, &ks.0);
    cover(1);
}
fn big<const U: usize>(plans: usize, indexed: bool, ns: &[usize], kinds: &[usize], pos: bool) {
    let n = ns[pick(ns.len())];
    let plan = pick(plans);
    let free = [0, n][pick(2)];
    let ks = Keys::<U>::plan(plan, &[free]);
    let ks = &ks.0[..n + 1];
    let (mut m, mut md) = build(n, indexed, ks);
    if pos {
        positional(&mut m, &mut md, n + 1);
    } else {
        act(&mut m, &mut md, ks, kinds[pick(kinds.len())], n + 2);
    }
    agree(&m, &md, ks);
    cover(1);
}
fn sort1<const U: usize>(h: Hs, indexed: bool) {
    let ks = Keys::<U>::new(h);
    let (mut m, mut md) = build(0, indexed, &ks.0);
    let mask = pick(1 << U);
    let mut i = 0;
    while i < U {
        if mask >> i & 1 == 1 {
            let v = sym(16);
            ok(m.insert(ks.0[i], v, &mut (), &mut ()));
            md.put(i as u8, v);
        }
        i += 1;
    }
    sorted(&mut m, &mut md, &ks.0);
    agree(&m, &md, &ks.0);
    cover(1);
}
entries! {
    h07_lin_full => small::<2>(Hs::Full, false, 0, 2, &[ALL], false);
    h07_lin_edge => small::<4>(Hs::Edge, false, 0, 3, &[ALL], false);
    h07_idx_edge => small::<4>(Hs::Edge, true, 0, 3, &[ALL], false);
    h07_two => small::<3>(Hs::Narrow, true, 1, 2, &[&[4, 7, 9, 13, 14, 15], &[0, 4, 7, 9, 13, 14]], false);
    h07_pos_lin => small::<3>(Hs::Narrow, false, 0, 3, &[], true);
    h07_pos_idx => small::<4>(Hs::Edge, true, 0, 3, &[], true);
    h07_pos_after => small::<3>(Hs::Narrow, false, 1, 2, &[&[0, 6, 7, 13]], true);
    h07_sorted => sort1::<4>(Hs::Narrow, true);
    h07_big_lin => big::<9>(2, false, &[7, 8], &[0, 4, 6, 7, 13, 14, 15], false);
    h07_big_idx => big::<15>(4, true, &[9, 14], &[0, 4, 6, 7, 13, 14, 15], false);
    h07_big_pos => big::<15>(2, true, &[9, 14], &[], true);
}

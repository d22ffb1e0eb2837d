//! H10: ordered sets.
use crate::common::*;
use crate::v::*;
use rubymap::{RubyEql, RubySet};

type S = RubySet<K, (), (), (), BH>;
type Md = Model<24>;

fn ok<T>(r: Result<T, ()>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, 900);
            loop {}
        }
    }
}
fn build(n: usize, indexed: bool, ks: &[K]) -> (S, Md) {
    let mut s: S = if indexed { RubySet::with_capacity_and_hasher(9, BH) } else { RubySet::with_hasher(BH) };
    let mut md = Md::new();
    let mut i = 0;
    while i < n {
        check(ok(s.insert(ks[i], &mut (), &mut ())), 1);
        md.put(ks[i].id, 0);
        i += 1;
    }
    (s, md)
}
fn id(k: Option<K>) -> Option<u64> {
    k.map(|k| k.id as u64)
}
fn at(md: &Md, i: usize) -> Option<u64> {
    if i < md.n {
        Some(md.k[i] as u64)
    } else {
        None
    }
}
fn op(s: &mut S, md: &mut Md, ks: &[K], kind: usize, nidx: usize) {
    let (e, g) = (&mut (), &mut ());
    let k = if kind < 16 { ks[pick(ks.len())] } else { ks[0] };
    let p = md.find(k.id);
    match kind {
        0 => {
            check(ok(s.insert(k, e, g)) == p.is_none(), 10);
            md.put(k.id, 0);
        }
        1 => {
            let r = ok(s.insert_full(k, e, g));
            check(r.0 == p.unwrap_or(md.n) && r.1 == p.is_none(), 11);
            md.put(k.id, 0);
        }
        2 => {
            check(id(ok(s.replace(k, e, g))).is_some() == p.is_some(), 12);
            md.put(k.id, 0);
        }
        3 => {
            let r = ok(s.replace_full(k, e, g));
            check(r.0 == p.unwrap_or(md.n) && r.1.is_some() == p.is_some(), 13);
            md.put(k.id, 0);
        }
        4 => {
            check(ok(s.swap_remove(&k, e, g)) == p.is_some(), 14);
            if let Some(i) = p {
                md.swap_remove_at(i);
            }
        }
        5 => {
            check(ok(s.shift_remove(&k, e, g)) == p.is_some(), 15);
            if let Some(i) = p {
                md.shift_remove_at(i);
            }
        }
        6 => {
            check(opt_eq(id(ok(s.swap_take(&k, e, g))), p.map(|_| k.id as u64)), 16);
            if let Some(i) = p {
                md.swap_remove_at(i);
            }
        }
        7 => {
            check(opt_eq(id(ok(s.shift_take(&k, e, g))), p.map(|_| k.id as u64)), 17);
            if let Some(i) = p {
                md.shift_remove_at(i);
            }
        }
        8 => {
            let r = ok(s.swap_remove_full(&k, e, g));
            check(r.map(|x| x.0) == p && id(r.map(|x| x.1)).is_none() == p.is_none(), 18);
            if let Some(i) = p {
                md.swap_remove_at(i);
            }
        }
        9 => {
            let r = ok(s.shift_remove_full(&k, e, g));
            check(r.map(|x| x.0) == p && id(r.map(|x| x.1)).is_none() == p.is_none(), 19);
            if let Some(i) = p {
                md.shift_remove_at(i);
            }
        }
        10 => {
            let i = pick(nidx);
            let mut r = None;
            catch(|| r = Some(ok(s.insert_before(i, k, &mut (), &mut ()))));
            check(r.is_some() == (i <= md.n), 20);
            if let Some((j, new)) = r {
                check(new == p.is_none(), 21);
                match p {
                    Some(q) => {
                        let to = if i > q { i - 1 } else { i };
                        check(j == to, 22);
                        md.move_to(q, to);
                    }
                    None => {
                        check(j == i, 23);
                        md.insert_at(i, k.id, 0);
                    }
                }
            }
        }
        11 => {
            let i = pick(nidx);
            let mut r = None;
            catch(|| r = Some(ok(s.shift_insert(i, k, &mut (), &mut ()))));
            let lim = if p.is_some() { i < md.n } else { i <= md.n };
            check(r.is_some() == lim, 24);
            if let Some(new) = r {
                check(new == p.is_none(), 25);
                match p {
                    Some(q) => md.move_to(q, i),
                    None => md.insert_at(i, k.id, 0),
                }
            }
        }
        12 => {
            check(ok(s.contains(&k, e, g)) == p.is_some(), 26);
            check(ok(s.get(&k, e, g)).map(|x| x.id as u64).is_some() == p.is_some(), 27);
            let r = ok(s.get_full(&k, e, g));
            check(r.map(|x| x.0) == p && r.map(|x| x.1.id).is_some() == p.is_some(), 28);
            check(ok(s.get_index_of(&k, e, g)) == p, 29);
        }
        13 => {
            let l = [k, ks[0]];
            ok(s.extend(l, e, g));
            md.put(k.id, 0);
            md.put(ks[0].id, 0);
        }
        14 => {
            let (mut o, _) = build(0, pick(2) == 1, ks);
            ok(o.insert(k, e, g));
            ok(o.insert(ks[ks.len() - 1], e, g));
            ok(s.append(&mut o, e, g));
            check(o.is_empty(), 30);
            md.put(k.id, 0);
            md.put(ks[ks.len() - 1].id, 0);
        }
        15 => {
            // among sorted members
            let mut i = 1;
            while i < md.n {
                assume(md.k[i - 1] < md.k[i]);
                i += 1;
            }
            let mut j = 0;
            while j < md.n && md.k[j] < k.id {
                j += 1;
            }
            let r = ok(s.insert_sorted(k, e, g));
            check(r.0 == p.unwrap_or(j) && r.1 == p.is_none(), 31);
            if p.is_none() {
                md.insert_at(j, k.id, 0);
            }
        }
        16 => {
            let r = id(ok(s.pop(e, g)));
            check(opt_eq(r, at(md, md.n.wrapping_sub(1))), 32);
            md.n = md.n.saturating_sub(1);
        }
        17 => {
            let i = pick(nidx);
            check(opt_eq(id(ok(s.swap_remove_index(i, e, g))), at(md, i)), 33);
            if i < md.n {
                md.swap_remove_at(i);
            }
        }
        18 => {
            let i = pick(nidx);
            check(opt_eq(id(ok(s.shift_remove_index(i, e, g))), at(md, i)), 34);
            if i < md.n {
                md.shift_remove_at(i);
            }
        }
        19 => {
            let (i, j) = (pick(nidx), pick(nidx));
            let r = catch(|| ok(s.move_index(i, j, &mut (), &mut ())));
            check((r == 0) == (i < md.n && j < md.n), 35);
            if r == 0 {
                md.move_to(i, j);
            }
        }
        20 => {
            s.clear();
            md.n = 0;
        }
        21 => {
            let i = pick(nidx);
            ok(s.truncate(i, e, g));
            md.n = md.n.min(i);
        }
        22 => {
            let i = pick(nidx);
            let mut rest = None;
            catch(|| rest = Some(ok(s.split_off(i, &mut (), &mut ()))));
            check(rest.is_some() == (i <= md.n), 36);
            if let Some(r) = rest {
                check(r.len() == md.n - i, 37);
                let mut j = i;
                for q in r.iter() {
                    check(q.id == md.k[j], 38);
                    check(ok(r.get_index_of(q, e, g)) == Some(j - i), 39);
                    j += 1;
                }
                md.n = i;
            }
        }
        23 => {
            let a = pick(nidx);
            let b = pick(nidx);
            let mut done = false;
            let used = pick(2);
            let want = *md;
            catch(|| {
                let mut d = ok(s.drain(a..b, &mut (), &mut ()));
                check(d.len() == b - a, 40);
                if used == 1 {
                    check(d.next().map(|k| k.id as u64).unwrap_or(99) == if a < b { want.k[a] as u64 } else { 99 }, 41);
                }
                drop(d);
                done = true;
            });
            check(done == (a <= b && b <= md.n), 42);
            if done {
                let mut i = a;
                while i < b {
                    md.shift_remove_at(a);
                    i += 1;
                }
            }
        }
        24 => {
            let mask = pick(1 << md.n.min(4));
            let mut i = 0;
            s.retain(|_| {
                i += 1;
                i > 4 || mask >> (i - 1) & 1 == 1
            });
            let mut o = Md::new();
            let mut i = 0;
            while i < md.n {
                if i >= 4 || mask >> i & 1 == 1 {
                    o.put(md.k[i], 0);
                }
                i += 1;
            }
            *md = o;
        }
        25 => {
            s.reverse();
            md.reverse();
        }
        26 => {
            match pick(5) {
                0 => s.sort(),
                1 => s.sort_unstable(),
                2 => s.sort_by(|a, b| a.cmp(b)),
                3 => s.sort_unstable_by(|a, b| a.cmp(b)),
                _ => s.sort_by_cached_key(|a| a.id),
            }
            let mut i = 1;
            while i < md.n {
                let mut j = i;
                while j > 0 && md.k[j - 1] > md.k[j] {
                    md.swap(j - 1, j);
                    j -= 1;
                }
                i += 1;
            }
        }
        27 => {
            s.reserve([1, 9, 20][pick(3)]);
            s.shrink_to_fit();
        }
        _ => {
            // reads by position
            let i = pick(nidx);
            check(opt_eq(id(s.get_index(i).copied()), at(md, i)), 43);
            check(opt_eq(id(s.first().copied()), at(md, 0)), 44);
            check(opt_eq(id(s.last().copied()), at(md, md.n.wrapping_sub(1))), 45);
            let mut x = None;
            catch(|| x = Some(s.as_slice()[i].id as u64));
            check(opt_eq(x, at(md, i)), 46);
        }
    }
}
fn agree(s: &S, md: &Md, k: K) {
    check(s.len() == md.n && s.is_empty() == (md.n == 0) && s.capacity() >= md.n, 50);
    let mut i = 0;
    for q in s.iter() {
        check(i < md.n && q.id == md.k[i], 51);
        obs(q.id as u64);
        i += 1;
    }
    check(i == md.n, 52);
    check(ok(s.get_index_of(&k, &mut (), &mut ())) == md.find(k.id), 53);
}
const ALL: &[usize] =
    &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28];
fn small<const U: usize>(h: Hs, indexed: bool, n0: usize, n1: usize, kinds: &[&[usize]]) {
    let ks = Keys::<U>::new(h);
    let n = n0 + pick(n1 - n0 + 1);
    let (mut s, mut md) = build(n, indexed, &ks.0);
    let mut i = 0;
    while i < kinds.len() {
        op(&mut s, &mut md, &ks.0, kinds[i][pick(kinds[i].len())], n1 + 2);
        i += 1;
    }
    agree(&s, &md, ks.0[pick(U)]);
    cover(1);
}
fn big<const U: usize>(plans: usize, indexed: bool, ns: &[usize], kinds: &[usize]) {
    let n = ns[pick(ns.len())];
    let plan = pick(plans);
    let ks = Keys::<U>::plan(plan, &[[0, n][pick(2)]]);
    let ks = &ks.0[..n + 1];
    let (mut s, mut md) = build(n, indexed, ks);
    op(&mut s, &mut md, ks, kinds[pick(kinds.len())], n + 1);
    let mut j = 1;
    while j < ks.len() {
        check(ok(s.get_index_of(&ks[j], &mut (), &mut ())) == md.find(ks[j].id), 54);
        j += 1;
    }
    agree(&s, &md, ks[0]);
    cover(1);
}
fn relations<const U: usize>(h: Hs, ia: bool, ib: bool) {
    let ks = Keys::<U>::new(h);
    let (e, g) = (&mut (), &mut ());
    let (mut a, _) = build(0, ia, &ks.0);
    let (mut b, _) = build(0, ib, &ks.0);
    let (x, y) = (pick(1 << U), pick(1 << U));
    let mut i = 0;
    while i < U {
        if x >> i & 1 == 1 {
            ok(a.insert(ks.0[i], e, g));
        }
        let j = U - 1 - i;
        if y >> j & 1 == 1 {
            ok(b.insert(ks.0[j], e, g));
        }
        i += 1;
    }
    check(ok(a.is_disjoint(&b, e, g)) == (x & y == 0), 60);
    check(ok(a.is_subset(&b, e, g)) == (x & !y == 0), 61);
    check(ok(a.is_superset(&b, e, g)) == (y & !x == 0), 62);
    check(ok(a.eql(&b, e, g)) == (x == y), 63);
    cover(1);
}
/// relations of larger sets: one element differs
fn relbig<const U: usize>(plans: usize, n: usize) {
    let plan = pick(plans);
    let ks = Keys::<U>::plan(plan, &[n]);
    let (e, g) = (&mut (), &mut ());
    let (mut a, _) = build(n, true, &ks.0);
    let (mut b, _) = build(0, false, &ks.0);
    let mut i = n;
    while i > 0 {
        i -= 1;
        ok(b.insert(ks.0[i], e, g));
    }
    check(ok(a.eql(&b, e, g)) && ok(a.is_subset(&b, e, g)) && ok(a.is_superset(&b, e, g)), 64);
    let gone = pick(n);
    match pick(3) {
        0 => {
            ok(b.shift_remove(&ks.0[gone], e, g));
            check(!ok(a.eql(&b, e, g)) && !ok(a.is_subset(&b, e, g)) && ok(a.is_superset(&b, e, g)), 65);
        }
        1 => {
            ok(b.swap_remove(&ks.0[gone], e, g));
            ok(b.insert(ks.0[n], e, g));
            check(!ok(a.eql(&b, e, g)) && !ok(a.is_subset(&b, e, g)) && !ok(a.is_superset(&b, e, g)), 66);
            check(!ok(a.is_disjoint(&b, e, g)), 67);
        }
        _ => {
            ok(a.insert(ks.0[n], e, g));
            check(!ok(a.eql(&b, e, g)) && !ok(a.is_subset(&b, e, g)) && ok(b.is_subset(&a, e, g)), 68);
            let (c, _) = build(0, pick(2) == 1, &ks.0);
            check(ok(c.is_disjoint(&a, e, g)) && ok(c.is_subset(&a, e, g)) && !ok(c.is_superset(&a, e, g)), 69);
        }
    }
    cover(1);
}
entries! {
    h10_lin_full => small::<2>(Hs::Full, false, 0, 2, &[ALL]);
    h10_lin_edge => small::<4>(Hs::Narrow, false, 0, 3, &[ALL]);
    h10_idx_edge => small::<3>(Hs::Edge, true, 0, 3, &[ALL]);
    h10_two => small::<3>(Hs::Narrow, true, 1, 2, &[&[1, 4, 5, 10, 18, 22, 23, 24, 25], &[0, 3, 8, 9, 13, 19]]);
    h10_big_lin => big::<10>(2, false, &[7, 8], ALL);
    h10_big_idx => big::<15>(2, true, &[9, 14], &[0, 3, 4, 5, 10, 11, 14, 17, 18, 22, 23, 24, 25, 26]);
    h10_rel => relations::<3>(Hs::Narrow, false, false);
    h10_rel_idx => relations::<2>(Hs::Edge, true, true);
    h10_rel_mix => relations::<3>(Hs::Narrow, true, false);
    h10_rel_big => relbig::<10>(2, 9);
}

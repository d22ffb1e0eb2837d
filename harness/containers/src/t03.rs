//! T03: unordered maps and sets.
use crate::common::*;
use crate::t01::Set;
use crate::v::*;
use hashbrown::hash_map::{Entry, EntryRef};
use hashbrown::{HashMap, HashSet};

pub type UM = HashMap<K, u64, (), (), (), BH>;
pub type US = HashSet<K, (), (), (), BH>;

fn ok<T>(r: Result<T, ()>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, 998);
            loop {}
        }
    }
}
fn was<const U: usize>(s: &Set<U>, i: usize) -> Option<u64> {
    if s.has[i] {
        Some(s.v[i])
    } else {
        None
    }
}
impl From<&K> for K {
    fn from(k: &K) -> K {
        *k
    }
}

pub const NOPS: usize = 29;
pub fn op<const U: usize>(m: &mut UM, s: &mut Set<U>, ks: &[K], kind: usize) {
    let (e, g) = (&mut (), &mut ());
    let i = if matches!(kind, 0..=18) { pick(ks.len()) } else { 0 };
    let k = ks[i];
    let old = was(s, i);
    let v = sym(16);
    match kind {
        0 => {
            check(opt_eq(ok(m.insert(k, v, e, g)), old), 100);
            s.put(i, v);
        }
        1 => {
            check(opt_eq(ok(m.remove(&k, e, g)), old), 101);
            s.del(i);
        }
        2 => {
            match ok(m.remove_entry(&k, e, g)) {
                Some((rk, rv)) => check(rk.id == k.id && opt_eq(Some(rv), old), 102),
                None => check(old.is_none(), 103),
            }
            s.del(i);
        }
        3 => match ok(m.try_insert(k, v, e, g)) {
            Ok(x) => {
                check(old.is_none() && *x == v, 104);
                s.put(i, v);
            }
            Err(x) => {
                check(opt_eq(Some(*x.entry.get()), old) && x.value == v, 105);
            }
        },
        4 => match ok(m.get_mut(&k, e, g)) {
            Some(x) => {
                check(opt_eq(Some(*x), old), 106);
                *x = v;
                s.put(i, v);
            }
            None => check(old.is_none(), 107),
        },
        5 => match ok(m.get_key_value_mut(&k, e, g)) {
            Some((rk, x)) => {
                check(rk.id == k.id && opt_eq(Some(*x), old), 108);
                *x = v;
                s.put(i, v);
            }
            None => check(old.is_none(), 109),
        },
        6 => match ok(m.get_key_value(&k, e, g)) {
            Some((rk, x)) => check(rk.id == k.id && opt_eq(Some(*x), old), 110),
            None => check(old.is_none(), 111),
        },
        7 => {
            // entry: insert, then act through the handle
            let en = ok(m.entry(k, e, g));
            check(en.key().id == k.id, 112);
            check(matches!(en, Entry::Occupied(_)) == old.is_some(), 113);
            let mut o = en.insert(v);
            check(*o.get() == v && o.key().id == k.id, 114);
            let w = sym(16);
            check(o.insert(w) == v, 115);
            s.put(i, w);
        }
        8 => {
            let r = ok(m.entry(k, e, g)).or_insert(v);
            check(*r == old.unwrap_or(v), 116);
            s.put(i, old.unwrap_or(v));
        }
        9 => {
            let r = ok(m.entry(k, e, g)).or_insert_with(|| v);
            check(*r == old.unwrap_or(v), 117);
            *r ^= 1;
            s.put(i, old.unwrap_or(v) ^ 1);
        }
        10 => {
            let r = ok(m.entry(k, e, g)).or_insert_with_key(|q| v ^ q.id as u64);
            let w = old.unwrap_or(v ^ k.id as u64);
            check(*r == w, 118);
            s.put(i, w);
        }
        11 => {
            let r = ok(m.entry(k, e, g)).and_modify(|x| *x ^= 5).or_default();
            let w = old.map(|x| x ^ 5).unwrap_or(0);
            check(*r == w, 119);
            s.put(i, w);
        }
        12 => {
            // and_replace_entry_with: drop or keep
            let keep = pick(2) == 0;
            let en = ok(m.entry(k, e, g)).and_replace_entry_with(|q, x| {
                check(q.id == k.id && opt_eq(Some(x), old), 120);
                if keep {
                    Some(v)
                } else {
                    None
                }
            });
            check(matches!(en, Entry::Occupied(_)) == (old.is_some() && keep), 121);
            if pick(2) == 0 {
                // the handle left behind is usable
                let w = en.insert(7);
                check(*w.get() == 7, 122);
                s.put(i, 7);
            } else if old.is_some() {
                if keep {
                    s.put(i, v);
                } else {
                    s.del(i);
                }
            }
        }
        13 => match ok(m.entry(k, e, g)) {
            Entry::Occupied(o) => {
                check(old.is_some(), 123);
                let (rk, rv) = o.remove_entry();
                check(rk.id == k.id && opt_eq(Some(rv), old), 124);
                s.del(i);
            }
            Entry::Vacant(x) => {
                check(old.is_none() && x.key().id == k.id, 125);
                let o = x.insert_entry(v);
                check(*o.get() == v, 126);
                s.put(i, v);
            }
        },
        14 => match ok(m.entry(k, e, g)) {
            Entry::Occupied(mut o) => {
                *o.get_mut() = v;
                check(o.remove() == v, 127);
                s.del(i);
            }
            Entry::Vacant(x) => check(x.into_key().id == k.id, 128),
        },
        15 => {
            let en = ok(m.entry_ref(&k, e, g));
            check(en.key().id == k.id, 129);
            check(matches!(en, EntryRef::Occupied(_)) == old.is_some(), 130);
            let r = en.or_insert(v);
            check(*r == old.unwrap_or(v), 131);
            s.put(i, old.unwrap_or(v));
        }
        16 => {
            let o = ok(m.entry_ref(&k, e, g)).and_modify(|x| *x ^= 1).insert(v);
            check(*o.get() == v, 132);
            s.put(i, v);
        }
        17 => match ok(m.entry_ref(&k, e, g)) {
            EntryRef::Occupied(o) => {
                check(opt_eq(Some(o.remove()), old), 133);
                s.del(i);
            }
            EntryRef::Vacant(x) => {
                check(old.is_none() && x.key().id == k.id, 134);
                check(*x.insert(v) == v, 135);
                s.put(i, v);
            }
        },
        18 => {
            check(ok(m.contains_key(&k, e, g)) == old.is_some(), 136);
        }
        19 => {
            m.clear();
            *s = Set::new();
        }
        20 => m.reserve([1, 4, 20][pick(3)]),
        21 => m.shrink_to_fit(),
        22 => {
            let c = m.clone();
            *m = c;
        }
        23 => {
            let mut o: UM = HashMap::with_capacity_and_hasher([0, 7][pick(2)], BH);
            ok(o.insert(K { id: 99, h: 1 }, 5, e, g));
            o.clone_from(m);
            *m = o;
        }
        24 => {
            m.retain(|q, x| {
                *x ^= 1;
                q.id & 1 == 0
            });
            let mut j = 0;
            while j < U {
                s.v[j] ^= 1;
                if j & 1 == 1 {
                    s.del(j);
                }
                j += 1;
            }
        }
        25 => {
            let mut n = 0;
            for (q, x) in m.extract_if(|q, _| q.id & 1 == 0) {
                check(s.has[q.id as usize] && s.v[q.id as usize] == x && q.id & 1 == 0, 137);
                n += 1;
            }
            let mut j = 0;
            while j < U {
                if s.has[j] && j & 1 == 0 {
                    s.del(j);
                    n -= 1;
                }
                j += 1;
            }
            check(n == 0, 138);
        }
        26 => {
            let o = std::mem::replace(m, HashMap::with_hasher(BH));
            ok(m.extend(o, e, g));
        }
        27 => {
            let d = m.drain();
            let n = d.len();
            check(n == s.n, 139);
            *m = ok(HashMap::from_iter(d.collect::<Vec<_>>(), e, g));
        }
        _ => {
            for x in m.values_mut() {
                *x ^= 9;
            }
            for (_, x) in m.iter_mut() {
                *x ^= 2;
            }
            let mut j = 0;
            while j < U {
                s.v[j] ^= 11;
                j += 1;
            }
        }
    }
}

pub fn agree<const U: usize>(m: &UM, s: &Set<U>, ks: &[K]) {
    check(m.len() == s.n, 1);
    check(m.is_empty() == (s.n == 0), 2);
    check(m.capacity() >= s.n, 3);
    let mut seen = [false; U];
    let mut n = 0;
    let mut kk = m.keys();
    let mut vv = m.values();
    for (k, v) in m.iter() {
        let i = k.id as usize;
        check(i < U && s.has[i] && !seen[i] && *v == s.v[i], 4);
        check(matches!(kk.next(), Some(q) if q.id == k.id), 8);
        check(matches!(vv.next(), Some(x) if *x == *v), 9);
        seen[i] = true;
        n += 1;
        obs(*v);
    }
    check(n == s.n && kk.next().is_none() && vv.next().is_none(), 5);
    let p = pick(ks.len());
    check(opt_eq(ok(m.get(&ks[p], &mut (), &mut ())).copied(), was(s, p)), 6);
    cover(1);
}
fn map<const U: usize>(h: Hs, cap: usize, nmin: usize, nmax: usize, kinds: &[&[usize]]) {
    let ks = Keys::<U>::new(h);
    run::<U>(&ks.0, cap, nmin + pick(nmax + 1 - nmin), kinds);
}
fn mapbig<const U: usize>(plans: usize, cap: usize, n: usize, kinds: &[&[usize]]) {
    let plan = pick(plans);
    let ks = Keys::<U>::plan(plan, &[n]);
    run::<U>(&ks.0, cap, n, kinds);
}
fn run<const U: usize>(ks: &[K], cap: usize, n: usize, kinds: &[&[usize]]) {
    let mut m: UM = HashMap::with_capacity_and_hasher(cap, BH);
    let mut s = Set::<U>::new();
    let mut i = 0;
    while i < n {
        let v = sym(16);
        check(ok(m.insert(ks[i], v, &mut (), &mut ())).is_none(), 7);
        s.put(i, v);
        i += 1;
    }
    let mut i = 0;
    while i < kinds.len() {
        op(&mut m, &mut s, ks, kinds[i][pick(kinds[i].len())]);
        i += 1;
    }
    agree(&m, &s, ks);
}
const EVERY: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28,
];

/// unordered sets: one operation, both membership views
fn set<const U: usize>(h: Hs, nmax: usize, steps: usize) {
    let ks = Keys::<U>::new(h);
    let ks = &ks.0[..];
    let n = pick(nmax + 1);
    let mut t: US = HashSet::with_hasher(BH);
    let mut has = [false; U];
    let (e, g) = (&mut (), &mut ());
    let mut i = 0;
    while i < n {
        check(ok(t.insert(ks[i], e, g)), 200);
        has[i] = true;
        i += 1;
    }
    let mut st = 0;
    while st < steps {
        st += 1;
        let kind = pick(13);
        let i = if kind < 8 { pick(U) } else { 0 };
        let k = ks[i];
        match kind {
            0 => {
                check(ok(t.insert(k, e, g)) == !has[i], 201);
                has[i] = true;
            }
            1 => {
                check(ok(t.remove(&k, e, g)) == has[i], 202);
                has[i] = false;
            }
            2 => {
                check(matches!(ok(t.take(&k, e, g)), Some(x) if x.id == k.id) == has[i], 203);
                has[i] = false;
            }
            3 => {
                check(ok(t.replace(k, e, g)).is_some() == has[i], 204);
                has[i] = true;
            }
            4 => {
                check(ok(t.get_or_insert(k, e, g)).id == k.id, 205);
                has[i] = true;
            }
            5 => {
                let h0 = has[i];
                check(
                    ok(t.get_or_insert_with(
                        &k,
                        |q| {
                            check(!h0, 206);
                            *q
                        },
                        e,
                        g,
                    ))
                    .id == k.id,
                    207,
                );
                has[i] = true;
            }
            6 => match ok(t.entry(k, e, g)) {
                hashbrown::hash_set::Entry::Occupied(o) => {
                    check(has[i] && o.get().id == k.id, 208);
                    check(o.remove().id == k.id, 209);
                    has[i] = false;
                }
                hashbrown::hash_set::Entry::Vacant(x) => {
                    check(!has[i] && x.get().id == k.id, 210);
                    x.insert();
                    has[i] = true;
                }
            },
            7 => {
                ok(t.entry(k, e, g)).or_insert();
                has[i] = true;
            }
            8 => {
                t.retain(|q| q.id & 1 == 0);
                let mut j = 1;
                while j < U {
                    has[j] = false;
                    j += 2;
                }
            }
            9 => {
                let mut j = 0;
                for q in t.extract_if(|q| q.id & 1 == 1) {
                    check(has[q.id as usize] && q.id & 1 == 1, 211);
                    has[q.id as usize] = false;
                    j += 1;
                }
                obs(j);
            }
            10 => {
                let mut j = 0;
                for q in t.drain() {
                    check(has[q.id as usize], 212);
                    has[q.id as usize] = false;
                    j += 1;
                }
                obs(j);
            }
            11 => {
                let c = t.clone();
                t = c;
            }
            _ => {
                t.shrink_to_fit();
            }
        }
    }
    let mut n = 0;
    let mut seen = [false; U];
    for q in t.iter() {
        let i = q.id as usize;
        check(has[i] && !seen[i], 213);
        seen[i] = true;
        n += 1;
    }
    check(n == t.len(), 214);
    let mut c = 0;
    let mut i = 0;
    while i < U {
        if has[i] {
            c += 1;
        }
        i += 1;
    }
    check(c == n, 215);
    let p = pick(U);
    check(ok(t.contains(&ks[p], e, g)) == has[p], 216);
    check(ok(t.get(&ks[p], e, g)).is_some() == has[p], 217);
    cover(1);
}
/// subset, superset, equality of two sets with independent members
fn rel<const U: usize>(h: Hs) {
    let ks = Keys::<U>::new(h);
    let (e, g) = (&mut (), &mut ());
    let mut a: US = HashSet::with_hasher(BH);
    let mut b: US = HashSet::with_capacity_and_hasher([0, 7][pick(2)], BH);
    let (x, y) = (pick(1 << U), pick(1 << U));
    let mut i = 0;
    while i < U {
        if x >> i & 1 == 1 {
            ok(a.insert(ks.0[i], e, g));
        }
        let j = U - 1 - i;
        if y >> j & 1 == 1 {
            ok(b.insert(ks.0[j], e, g));
        }
        i += 1;
    }
    check(ok(a.is_subset(&b, e, g)) == (x & !y == 0), 220);
    check(ok(a.is_superset(&b, e, g)) == (y & !x == 0), 221);
    check(ok(ruby_traits::RubyEql::eql(&a, &b, e, g)) == (x == y), 222);
    cover(1);
}
/// equality of two maps: same keys and equal values, whatever the history
fn mapeq<const U: usize>(h: Hs) {
    let ks = Keys::<U>::new(h);
    let (e, g) = (&mut (), &mut ());
    let mut a: HashMap<K, W, (), (), (), BH> = HashMap::with_hasher(BH);
    let mut b: HashMap<K, W, (), (), (), BH> = HashMap::with_capacity_and_hasher([0, 7][pick(2)], BH);
    let (x, y) = (pick(1 << U), pick(1 << U));
    let mut same = x == y;
    let mut i = 0;
    while i < U {
        let j = U - 1 - i;
        let (v, w) = (sym(8), sym(8));
        if x >> i & 1 == 1 {
            ok(a.insert(ks.0[i], W(v), e, g));
            if y >> i & 1 == 1 {
                ok(b.insert(ks.0[i], W(w), e, g));
                same &= v == w;
            }
        } else if y >> i & 1 == 1 {
            ok(b.insert(ks.0[i], W(w), e, g));
        }
        if j > i {
            // some history
            ok(b.insert(K { id: 90, h: ks.0[j].h }, W(0), e, g));
        }
        i += 1;
    }
    ok(b.remove(&K { id: 90, h: ks.0[U - 1].h }, e, g));
    if U > 1 {
        let mut i = 1;
        while i < U {
            ok(b.remove(&K { id: 90, h: ks.0[i].h }, e, g));
            i += 1;
        }
    }
    check(ok(ruby_traits::RubyEql::eql(&a, &b, e, g)) == same, 230);
    check(ok(ruby_traits::RubyEql::eql(&b, &a, e, g)) == same, 231);
    cover(1);
}
#[derive(Clone, Copy)]
pub struct W(pub u64);
impl rubymap::RubyEql<(), (), ()> for W {
    fn eql(&self, o: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
        Ok(self.0 == o.0)
    }
}

entries! {
    t03_full => map::<2>(Hs::Full, 0, 0, 2, &[EVERY]);
    t03_edge => map::<3>(Hs::Edge, 0, 0, 3, &[EVERY]);
    t03_four => map::<4>(Hs::Edge, 0, 3, 3, &[&[0, 1, 7, 8, 12, 13, 14, 17, 22, 23, 24, 26]]);
    t03_two => map::<3>(Hs::Narrow, 0, 1, 3, &[&[1, 7, 12, 13, 17, 24], &[0, 2, 3, 12, 16, 22, 27]]);
    t03_big => mapbig::<15>(4, 14, 14, &[EVERY]);
    t03_big32 => mapbig::<29>(4, 28, 28, &[&[1, 12, 13, 17, 24, 25], &[0, 7, 12, 15]]);
    t03_big32q => mapbig::<29>(4, 28, 28, &[&[1, 17, 24], &[0, 12]]);
    t03_set => set::<3>(Hs::Edge, 2, 1);
    t03_set2 => set::<3>(Hs::Narrow, 3, 2);
    t03_rel => rel::<3>(Hs::Edge);
    t03_eq => mapeq::<2>(Hs::Edge);
}

//! T01/T02/T04: the raw hash table through `HashTable`.
use crate::common::*;
use crate::v::*;
use hashbrown::hash_table::Entry;
use hashbrown::HashTable;

#[derive(Clone, Copy)]
pub struct It {
    pub k: K,
    pub v: u64,
}
pub type T = HashTable<It, (), (), ()>;

/// The specification: which keys are present, with which value.
#[derive(Clone, Copy)]
pub struct Set<const U: usize> {
    pub has: [bool; U],
    pub v: [u64; U],
    pub n: usize,
}
impl<const U: usize> Set<U> {
    pub fn new() -> Self {
        Set { has: [false; U], v: [0; U], n: 0 }
    }
    pub fn put(&mut self, i: usize, v: u64) {
        if !self.has[i] {
            self.n += 1;
        }
        self.has[i] = true;
        self.v[i] = v;
    }
    pub fn del(&mut self, i: usize) {
        if self.has[i] {
            self.n -= 1;
        }
        self.has[i] = false;
    }
}
fn hs(x: &It) -> u64 {
    x.k.h
}
pub fn fnd(t: &T, k: K) -> Option<u64> {
    match t.find(k.h, |x, _, _| Ok(x.k.id == k.id), &mut (), &mut ()) {
        Ok(o) => o.map(|x| x.v),
        Err(_) => None,
    }
}

pub const INS: usize = 0;
pub const ENTRY: usize = 1;
pub const REM: usize = 2;
pub const REMINS: usize = 3;
pub const MUTATE: usize = 4;
pub const SYM: usize = 5;
pub const CLEAR: usize = 6;
pub const RESERVE: usize = 7;
pub const FIT: usize = 8;
pub const SHRINK: usize = 9;
pub const CLONE: usize = 10;
pub const CLONEFROM: usize = 11;
pub const RETAIN: usize = 12;
pub const EXTRACT: usize = 13;
pub const DRAIN: usize = 14;
pub const ITERHASH: usize = 15;
pub const ITERMUT: usize = 16;
pub const INTO: usize = 17;
pub const EXTRACT1: usize = 18;
pub const DRAIN1: usize = 19;
pub const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
pub const WALK: &[usize] = &[12, 13, 14, 15, 16, 17, 18, 19];
pub const MUT: &[usize] = &[1, 2, 3, 7, 8, 12];

pub fn op<const U: usize>(t: &mut T, s: &mut Set<U>, ks: &[K], kind: usize) {
    let (e, g) = (&mut (), &mut ());
    match kind {
        INS | SYM | ENTRY => {
            let i = pick(ks.len());
            let k = ks[i];
            let v = sym(16);
            if kind == INS {
                if s.has[i] {
                    return;
                }
                let r = t.insert_unique(k.h, It { k, v }, hs);
                check(r.get().v == v, 10);
                s.put(i, v);
                return;
            }
            let en = if kind == SYM {
                t.entry_sym(k.h, |x| x.k.id == k.id, hs)
            } else {
                match t.entry(k.h, |x, _, _| Ok(x.k.id == k.id), hs, e, g) {
                    Ok(x) => x,
                    Err(_) => return check(false, 11),
                }
            };
            match en {
                Entry::Occupied(mut o) => {
                    check(s.has[i] && o.get().v == s.v[i], 12);
                    o.get_mut().v = v;
                }
                Entry::Vacant(x) => {
                    check(!s.has[i], 13);
                    check(x.insert(It { k, v }).get().v == v, 14);
                }
            }
            s.put(i, v);
        }
        REM | REMINS => {
            let i = pick(ks.len());
            let k = ks[i];
            match t.find_entry(k.h, |x, _, _| Ok(x.k.id == k.id), e, g) {
                Ok(Ok(o)) => {
                    check(s.has[i], 20);
                    let (x, vac) = o.remove();
                    check(x.k.id == k.id && x.v == s.v[i], 21);
                    if kind == REMINS {
                        let v = sym(16);
                        check(vac.insert(It { k, v }).get().v == v, 22);
                        s.put(i, v);
                    } else {
                        s.del(i);
                    }
                }
                Ok(Err(_)) => check(!s.has[i], 23),
                Err(_) => check(false, 24),
            }
        }
        MUTATE => {
            let i = pick(ks.len());
            let k = ks[i];
            match t.find_mut(k.h, |x, _, _| Ok(x.k.id == k.id), e, g) {
                Ok(Some(x)) => {
                    check(s.has[i] && x.v == s.v[i], 30);
                    x.v = sym(16);
                    s.put(i, x.v);
                }
                Ok(None) => check(!s.has[i], 31),
                Err(_) => check(false, 32),
            }
        }
        CLEAR => {
            let c = t.capacity();
            t.clear();
            check(t.capacity() >= c, 33);
            *s = Set::new();
        }
        RESERVE => {
            let n = [0, 1, 2, 5, 20][pick(5)];
            t.reserve(n, hs);
            check(t.capacity() >= t.len() + n, 34);
        }
        FIT => {
            let c = t.allocation_size();
            t.shrink_to_fit(hs);
            check(t.capacity() >= t.len() && t.allocation_size() <= c, 35);
            check(s.n > 0 || t.allocation_size() == 0, 38);
        }
        SHRINK => {
            let n = pick(10);
            let c = t.capacity();
            let a = t.allocation_size();
            t.shrink_to(n, hs);
            check(t.capacity() >= t.len() && t.allocation_size() <= a && t.capacity() >= if n < c { n } else { c }, 36);
        }
        CLONE => {
            let u = t.clone();
            let old = std::mem::replace(t, u);
            check(old.len() == s.n, 37);
        }
        CLONEFROM => {
            let mut u: T = HashTable::with_capacity([0, 3, 20][pick(3)]);
            u.insert_unique(0, It { k: K { id: 99, h: 0 }, v: 0 }, hs);
            u.clone_from(t);
            *t = u;
        }
        RETAIN => {
            let m = pick(3);
            let j = if m == 2 { pick(ks.len()) } else { 0 };
            let keep = |i: usize| match m {
                0 => i & 1 == 0,
                1 => i & 2 != 0,
                _ => i != j,
            };
            let mut seen = [false; U];
            t.retain(|x| {
                let i = x.k.id as usize;
                check(s.has[i] && !seen[i] && x.v == s.v[i], 40);
                seen[i] = true;
                x.v = x.v ^ 1;
                keep(i)
            });
            let mut i = 0;
            while i < U {
                check(seen[i] == s.has[i], 41);
                if s.has[i] {
                    s.v[i] ^= 1;
                    if !keep(i) {
                        s.del(i);
                    }
                }
                i += 1;
            }
        }
        EXTRACT | EXTRACT1 => {
            // all of it, or dropped after the first item
            let m = pick(2);
            let want = |i: usize| (i & 1 == 0) == (m == 0);
            let mut seen = [false; U];
            let mut out = [false; U];
            {
                let mut it = t.extract_if(|x| {
                    let i = x.k.id as usize;
                    check(s.has[i] && !seen[i] && x.v == s.v[i], 42);
                    seen[i] = true;
                    want(i)
                });
                while let Some(x) = it.next() {
                    let i = x.k.id as usize;
                    check(x.v == s.v[i] && !out[i] && want(i), 43);
                    out[i] = true;
                    if kind == EXTRACT1 {
                        break;
                    }
                }
            }
            let mut i = 0;
            while i < U {
                if kind == EXTRACT {
                    check(seen[i] == s.has[i] && out[i] == (s.has[i] && want(i)), 44);
                } else {
                    check(out[i] == (seen[i] && want(i)), 45);
                }
                if out[i] {
                    s.del(i);
                }
                i += 1;
            }
        }
        DRAIN | DRAIN1 => {
            let c = t.capacity();
            let mut out = [false; U];
            let mut n = 0;
            {
                let mut it = t.drain();
                check(it.len() == s.n, 46);
                while let Some(x) = it.next() {
                    let i = x.k.id as usize;
                    check(s.has[i] && !out[i] && x.v == s.v[i], 47);
                    out[i] = true;
                    n += 1;
                    check(it.len() == s.n - n, 48);
                    if kind == DRAIN1 {
                        break;
                    }
                }
            }
            if kind == DRAIN {
                check(n == s.n, 49);
            }
            check(t.capacity() >= c, 50);
            *s = Set::new();
        }
        ITERHASH => {
            let i = pick(ks.len());
            let mut seen = [false; U];
            for x in t.iter_hash(ks[i].h) {
                let j = x.k.id as usize;
                check(s.has[j] && !seen[j] && x.v == s.v[j], 51);
                seen[j] = true;
            }
            let mut seen2 = [false; U];
            for x in t.iter_hash_mut(ks[i].h) {
                seen2[x.k.id as usize] = true;
                x.v ^= 1;
            }
            let mut j = 0;
            while j < ks.len() {
                check(seen[j] == seen2[j], 52);
                if s.has[j] && ks[j].h == ks[i].h {
                    check(seen[j], 53);
                }
                if seen[j] {
                    s.v[j] ^= 1;
                }
                j += 1;
            }
        }
        ITERMUT => {
            let mut seen = [false; U];
            let mut n = 0;
            let mut it = t.iter_mut();
            check(it.len() == s.n, 54);
            while let Some(x) = it.next() {
                let i = x.k.id as usize;
                check(s.has[i] && !seen[i] && x.v == s.v[i], 55);
                seen[i] = true;
                x.v ^= 2;
                s.v[i] ^= 2;
                n += 1;
                check(it.len() == s.n - n, 56);
            }
            check(n == s.n, 57);
            // the tail of a partly consumed iterator, by fold
            let mut it = t.iter();
            let first = it.next().is_some();
            check(first == (s.n > 0), 58);
            let r = it.fold(0, |a, _| a + 1);
            check(r == s.n - first as usize, 59);
        }
        _ => {
            let u = std::mem::replace(t, HashTable::new());
            let mut it = u.into_iter();
            let mut out = [false; U];
            check(it.len() == s.n, 60);
            let stop = pick(2) == 0;
            let mut n = 0;
            while let Some(x) = it.next() {
                let i = x.k.id as usize;
                check(s.has[i] && !out[i] && x.v == s.v[i], 61);
                out[i] = true;
                n += 1;
                if stop {
                    break;
                }
            }
            check(stop || n == s.n, 62);
            *s = Set::new();
        }
    }
}

/// the whole state: every present key exactly once, and one unknown probe key
pub fn agree<const U: usize>(t: &T, s: &Set<U>, ks: &[K]) {
    check(t.len() == s.n, 1);
    check(t.is_empty() == (s.n == 0), 2);
    check(t.capacity() >= s.n, 3);
    let mut seen = [false; U];
    let mut n = 0;
    for x in t.iter() {
        let i = x.k.id as usize;
        check(i < U && s.has[i] && !seen[i] && x.v == s.v[i], 4);
        seen[i] = true;
        n += 1;
        obs(x.v);
    }
    check(n == s.n, 5);
    let p = pick(ks.len());
    match fnd(t, ks[p]) {
        Some(v) => check(s.has[p] && v == s.v[p], 6),
        None => check(!s.has[p], 7),
    }
    cover(1);
}

pub fn build<const U: usize>(t: &mut T, s: &mut Set<U>, ks: &[K], n: usize) {
    let mut i = 0;
    while i < n {
        let v = sym(16);
        t.insert_unique(ks[i].h, It { k: ks[i], v }, hs);
        s.put(i, v);
        i += 1;
    }
}

/// `n` keys in a table made for `cap`, then any of `kinds[0]`, any of `kinds[1]`, ...
pub fn small<const U: usize>(h: Hs, cap: usize, nmin: usize, nmax: usize, kinds: &[&[usize]]) {
    let ks = Keys::<U>::new(h);
    let ks = &ks.0[..];
    let n = nmin + pick(nmax + 1 - nmin);
    let mut t: T = HashTable::with_capacity(cap);
    let mut s = Set::<U>::new();
    build(&mut t, &mut s, ks, n);
    let mut i = 0;
    while i < kinds.len() {
        op(&mut t, &mut s, ks, kinds[i][pick(kinds[i].len())]);
        i += 1;
    }
    agree(&t, &s, ks);
}
/// A table of `n` planned keys of which some are deleted again, then operations on a few keys, one
/// of them with an unknown hash.
pub fn large<const U: usize>(plans: &[usize], cap: usize, n: usize, dels: &[usize], kinds: &[&[usize]]) {
    let plan = plans[pick(plans.len())];
    let ks = Keys::<U>::plan(plan, &[n]);
    let ks = &ks.0[..];
    let mut t: T = HashTable::with_capacity(cap);
    let mut s = Set::<U>::new();
    build(&mut t, &mut s, ks, n);
    let d = dels[pick(dels.len())];
    let mut i = 0;
    while i < n {
        let gone = match d {
            0 => false,
            1 => i & 1 == 0,
            2 => i < n / 2 + 1,
            3 => i >= n / 2 - 1,
            4 => i > 0,
            _ => i + 1 < n,
        };
        if gone {
            match t.find_entry(ks[i].h, |x, _, _| Ok(x.k.id == ks[i].id), &mut (), &mut ()) {
                Ok(Ok(o)) => {
                    check(o.remove().0.v == s.v[i], 8);
                }
                _ => check(false, 9),
            }
            s.del(i);
        }
        i += 1;
    }
    // operations see the unknown key, the first, a middle and the last one
    let few = [ks[n], ks[0], ks[n / 2], ks[n - 1]];
    let ids = [n, 0, n / 2, n - 1];
    let mut i = 0;
    while i < kinds.len() {
        few_op(&mut t, &mut s, &few, &ids, ks, kinds[i][pick(kinds[i].len())]);
        i += 1;
    }
    agree(&t, &s, ks);
}
/// `op` restricted to a few keys
fn few_op<const U: usize>(t: &mut T, s: &mut Set<U>, few: &[K; 4], ids: &[usize; 4], ks: &[K], kind: usize) {
    match kind {
        INS | ENTRY | SYM => {
            let j = pick(4);
            let (i, k) = (ids[j], few[j]);
            let v = sym(16);
            match t.entry(k.h, |x, _, _| Ok(x.k.id == k.id), hs, &mut (), &mut ()) {
                Ok(Entry::Occupied(mut o)) => {
                    check(s.has[i] && o.get().v == s.v[i], 70);
                    o.get_mut().v = v;
                }
                Ok(Entry::Vacant(x)) => {
                    check(!s.has[i], 71);
                    x.insert(It { k, v });
                }
                Err(_) => check(false, 72),
            }
            s.put(i, v);
        }
        REM | REMINS => {
            let j = pick(4);
            let (i, k) = (ids[j], few[j]);
            match t.find_entry(k.h, |x, _, _| Ok(x.k.id == k.id), &mut (), &mut ()) {
                Ok(Ok(o)) => {
                    check(s.has[i], 73);
                    let (x, vac) = o.remove();
                    check(x.v == s.v[i], 74);
                    s.del(i);
                    if kind == REMINS {
                        let v = sym(16);
                        vac.insert(It { k, v });
                        s.put(i, v);
                    }
                }
                Ok(Err(_)) => check(!s.has[i], 75),
                Err(_) => check(false, 76),
            }
        }
        RETAIN => {
            t.retain(|x| x.k.id & 1 == 1);
            let mut i = 0;
            while i < U {
                if i & 1 == 0 {
                    s.del(i);
                }
                i += 1;
            }
        }
        _ => op(t, s, ks, kind),
    }
}

entries! {
    t01_full => small::<2>(Hs::Full, 0, 0, 1, &[ALL, &[1, 2]]);
    t01_full2 => small::<3>(Hs::Full, 0, 2, 2, &[&[0, 2, 3, 7, 8]]);
    t01_four => small::<4>(Hs::Edge, 3, 0, 3, &[ALL]);
    t01_four2 => small::<4>(Hs::Narrow, 3, 3, 3, &[&[2, 3, 7, 12], &[0, 3, 5, 8, 10]]);
    t01_eight => small::<4>(Hs::Edge, 7, 2, 3, &[ALL]);
    t01_pos => small::<3>(Hs::Pos(4), 10, 2, 2, &[&[1, 2, 3, 9, 11]]);
    t01_grow8 => large::<8>(&[0, 1, 2, 3], 7, 7, &[0, 1], &[ALL]);
    t01_grow16 => large::<16>(&[0, 1, 2, 3], 14, 14, &[0, 1], &[ALL]);
    t01_dense32 => large::<29>(&[0, 1, 2, 3], 28, 28, &[0, 1, 2, 3, 4, 5], &[&[1, 2, 3, 7]]);
    t01_rehash32 => large::<29>(&[0, 1, 2, 3], 28, 28, &[1, 2, 3, 4, 5], &[&[7], &[1, 2]]);
    t01_clone32 => large::<29>(&[1, 2], 28, 28, &[0, 1, 3], &[&[6, 8, 9, 10, 11], &[1]]);
    t01_dense64 => large::<57>(&[1, 2], 56, 56, &[1, 2, 4], &[&[7], &[1, 2]]);
    t01_deep32q => large::<29>(&[1, 2], 28, 28, &[2, 4, 5], &[&[7, 1], &[1, 2], &[2, 12]]);
    t01_deep32 => large::<29>(&[1, 2, 3], 28, 28, &[1, 2, 3, 4, 5], &[&[1, 2, 7], &[1, 2, 3], &[1, 2, 12]]);

    t02_full => small::<2>(Hs::Full, 0, 0, 2, &[WALK]);
    t02_four => small::<3>(Hs::Edge, 3, 0, 3, &[WALK, &[1]]);
    t02_eight => small::<4>(Hs::Edge, 7, 2, 4, &[&[12, 13, 14, 16, 17, 18, 19]]);
    t02_hash => small::<3>(Hs::Narrow, 7, 2, 3, &[&[15]]);
    t02_after => small::<3>(Hs::Narrow, 3, 3, 3, &[&[2, 3], WALK, &[1, 16]]);
    t02_sixteen => large::<15>(&[0, 1, 2, 3], 14, 14, &[0, 1, 2, 4], &[WALK, &[1]]);
    t02_dense32 => large::<29>(&[0, 1, 2, 3], 28, 28, &[0, 1, 3, 5], &[WALK, &[1]]);
    t02_dense64 => large::<57>(&[0, 2], 56, 56, &[0, 2, 4], &[WALK, &[1]]);
}

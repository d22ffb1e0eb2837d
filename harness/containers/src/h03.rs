//! H03: an error raised by a key's `hash` or `eql?` reaches the caller and leaves no trace.
use crate::common::*;
use crate::v::*;
use hashbrown::{HashMap, HashSet, HashTable};
use rubymap::map::Entry;
use rubymap::{RubyEql, RubyHash, RubyMap, RubySet};
use std::hash::Hasher;

/// Counts the calls made on keys; the `at`-th one fails.
pub struct Env {
    pub n: u32,
    pub at: u32,
    pub code: u64,
    pub hashes: u32,
    pub eqls: u32,
}
impl Env {
    pub fn new(at: u32, code: u64) -> Env {
        Env { n: 0, at, code, hashes: 0, eqls: 0 }
    }
    fn tick(&mut self) -> Result<(), u64> {
        self.n += 1;
        if self.n == self.at {
            return Err(self.code);
        }
        // a failed operation must stop asking the keys
        check(self.at == 0 || self.n < self.at, 950);
        Ok(())
    }
    pub fn fired(&self) -> bool {
        self.at != 0 && self.n >= self.at
    }
}
/// key whose calls can fail
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct F {
    pub id: u8,
    pub h: u64,
}
impl RubyEql<Env, (), u64> for F {
    fn eql(&self, o: &Self, e: &mut Env, _: &mut ()) -> Result<bool, u64> {
        e.eqls += 1;
        e.tick()?;
        Ok(self.id == o.id)
    }
}
impl RubyHash<Env, (), u64> for F {
    fn ruby_hash<HH: Hasher>(&self, s: &mut HH, e: &mut Env, _: &mut ()) -> Result<(), u64> {
        e.hashes += 1;
        e.tick()?;
        s.write_u64(self.h);
        Ok(())
    }
}
impl std::hash::Hash for F {
    fn hash<HH: Hasher>(&self, s: &mut HH) {
        s.write_u64(self.h)
    }
}
fn fk(k: K) -> F {
    F { id: k.id, h: k.h }
}

type FM = RubyMap<F, u64, Env, (), u64, BH>;
type Md = Model<24>;

fn fill(m: &mut FM, md: &mut Md, n: usize, ks: &[K]) {
    let mut env = Env::new(0, 0);
    let mut i = 0;
    while i < n {
        let v = sym(16);
        check(m.insert(fk(ks[i]), v, &mut env, &mut ()).is_ok(), 951);
        md.put(ks[i].id, v);
        i += 1;
    }
}
fn agree(m: &FM, md: &Md, ks: &[K]) {
    check(m.len() == md.n, 952);
    let mut i = 0;
    for (k, v) in m.iter() {
        check(i < md.n && k.id == md.k[i] && *v == md.v[i], 953);
        obs(*v);
        i += 1;
    }
    let k = ks[pick(ks.len())];
    let mut env = Env::new(0, 0);
    match m.get_full(&fk(k), &mut env, &mut ()) {
        Ok(r) => {
            let want = md.find(k.id);
            check(r.map(|x| x.0) == want, 954);
            if let (Some((_, _, v)), Some(j)) = (r, want) {
                check(*v == md.v[j], 955);
            }
        }
        Err(_) => check(false, 956),
    }
}

/// one keyed operation; the result as (present/position, value) and what the list says
const OPS: usize = 18;
fn op(m: &mut FM, md: &mut Md, kind: usize, k: K, v: u64, i: usize, env: &mut Env) -> Result<(), u64> {
    let g = &mut ();
    let f = fk(k);
    let at = md.find(k.id);
    let before = m.len();
    // (what was reported, what the list says)
    let (got, want): (Option<u64>, Option<u64>) = match kind {
        0 => (m.insert(f, v, env, g)?, md.put(k.id, v).1),
        1 => {
            let r = m.insert_full(f, v, env, g)?;
            let w = md.put(k.id, v);
            check(r.0 == w.0, 960);
            (r.1, w.1)
        }
        2 => (m.get(&f, env, g)?.copied(), at.map(|i| md.v[i])),
        3 => (m.contains_key(&f, env, g)?.then_some(1), at.map(|_| 1)),
        4 => (m.get_index_of(&f, env, g)?.map(|x| x as u64), at.map(|x| x as u64)),
        5 => (m.get_mut(&f, env, g)?.map(|x| *x), at.map(|i| md.v[i])),
        6 => (m.shift_remove(&f, env, g)?, at.map(|i| md.shift_remove_at(i).1)),
        7 => (m.swap_remove(&f, env, g)?, at.map(|i| md.swap_remove_at(i).1)),
        8 => (m.remove_entry(&f, env, g)?.map(|x| x.1), at.map(|i| md.swap_remove_at(i).1)),
        9 => {
            let r = match m.entry(f, env, g)? {
                Entry::Occupied(o) => Some(*o.get()),
                Entry::Vacant(_) => None,
            };
            (r, at.map(|i| md.v[i]))
        }
        10 => {
            *m.entry(f, env, g)?.or_insert(v) = v;
            md.put(k.id, v);
            (None, None)
        }
        11 => match m.entry(f, env, g)? {
            Entry::Occupied(o) => (Some(o.shift_remove(env, g)?), at.map(|i| md.shift_remove_at(i).1)),
            Entry::Vacant(_) => (None, at.map(|_| 0)),
        },
        12 => match m.entry(f, env, g)? {
            Entry::Occupied(_) => (Some(0), at.map(|_| 0)),
            Entry::Vacant(h) => {
                let r = *h.shift_insert(0, v, env, g)?;
                if at.is_none() {
                    md.insert_at(0, k.id, v);
                }
                (Some(r), if at.is_none() { Some(v) } else { None })
            }
        },
        13 => {
            let r = m.insert_before(0, f, v, env, g)?;
            let o = at.map(|i| {
                let o = md.v[i];
                md.v[i] = v;
                md.move_to(i, 0);
                o
            });
            if at.is_none() {
                md.insert_at(0, k.id, v);
            }
            check(r.0 == 0, 961);
            (r.1, o)
        }
        14 => {
            let r = m.shift_insert(0, f, v, env, g)?;
            let o = at.map(|i| {
                let o = md.v[i];
                md.v[i] = v;
                md.move_to(i, 0);
                o
            });
            if at.is_none() {
                md.insert_at(0, k.id, v);
            }
            (r, o)
        }
        15 => (m.pop(env, g)?.map(|x| x.1), if md.n == 0 { None } else { md.n -= 1; Some(md.v[md.n]) }),
        16 => (m.shift_remove_index(i, env, g)?.map(|x| x.1), if i < md.n { Some(md.shift_remove_at(i).1) } else { None }),
        _ => (m.swap_remove_index(i, env, g)?.map(|x| x.1), if i < md.n { Some(md.swap_remove_at(i).1) } else { None }),
    };
    check(opt_eq(got, want), 962 + kind as u32);
    // an operation by key on a non-empty map asks the key for its hash
    if kind < 15 && before > 0 {
        check(env.hashes > 0, 990);
    }
    Ok(())
}

/// the operation either completes as the list does, or fails with exactly the error raised and
/// changes nothing
fn one<const U: usize>(ks: &[K; U], n: usize, indexed: bool, kinds: &[usize], maxat: usize) {
    let mut m: FM = if indexed { RubyMap::with_capacity_and_hasher(9, BH) } else { RubyMap::with_hasher(BH) };
    let mut md = Model::new();
    fill(&mut m, &mut md, n, &ks[..]);
    let kind = kinds[pick(kinds.len())];
    let k = ks[pick(ks.len())];
    let at = pick(maxat + 1) as u32;
    let code = sym(16);
    let v = sym(16);
    let mut env = Env::new(at, code);
    let old = md;
    let r = op(&mut m, &mut md, kind, k, v, 0, &mut env);
    match r {
        Ok(()) => check(!env.fired(), 991),
        Err(c) => {
            check(env.fired() && c == code, 992);
            cover(2);
            md = old;
        }
    }
    agree(&m, &md, &ks[..]);
    cover(1);
}
fn err_map<const U: usize>(hs: Hs, nmax: usize, indexed: bool, maxat: usize) {
    let ks = Keys::<U>::new(hs);
    let n = pick(nmax + 1);
    one(&ks.0, n, indexed, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17][..OPS], maxat);
}
/// all keys collide, so every stored key is asked; the `at`-th call fails
fn err_collide(indexed: bool, n: usize) {
    let ks = Keys::<10>::plan(1, &[0]);
    one(&ks.0, n, indexed, &[0, 2, 3, 6, 7, 10, 13, 14], 10);
}

/// bulk operations: the error comes out, what is stored stays findable
fn err_bulk(indexed: bool) {
    let ks = Keys::<4>::new(Hs::Narrow);
    let mut m: FM = if indexed { RubyMap::with_capacity_and_hasher(9, BH) } else { RubyMap::with_hasher(BH) };
    let mut md = Model::new();
    fill(&mut m, &mut md, 2, &ks.0);
    let code = sym(16);
    let at = pick(7) as u32;
    let mut env = Env::new(at, code);
    let g = &mut ();
    let a = ks.0[1 + pick(3)];
    let b = ks.0[1 + pick(3)];
    let (va, vb) = (sym(16), sym(16));
    let r = match pick(3) {
        0 => m.extend([(fk(a), va), (fk(b), vb)], &mut env, g),
        1 => {
            let mut o: FM = RubyMap::with_hasher(BH);
            let mut e0 = Env::new(0, 0);
            check(o.insert(fk(a), va, &mut e0, g).is_ok(), 1000);
            check(o.insert(fk(b), vb, &mut e0, g).is_ok(), 1000);
            m.append(&mut o, &mut env, g)
        }
        _ => match FM::from_iter([(fk(a), va), (fk(b), vb)], &mut env, g) {
            Ok(x) => {
                m = x;
                md.n = 0;
                Ok(())
            }
            Err(c) => Err(c),
        },
    };
    match r {
        Ok(()) => {
            check(!env.fired(), 1001);
            md.put(a.id, va);
            md.put(b.id, vb);
            agree(&m, &md, &ks.0);
        }
        Err(c) => {
            check(env.fired() && c == code, 1002);
            cover(2);
            // whatever is stored is complete and findable
            let mut e0 = Env::new(0, 0);
            let mut i = 0;
            while i < m.len() {
                let (k, _) = m.get_index(i).unwrap();
                let k = *k;
                check(matches!(m.get_index_of(&k, &mut e0, g), Ok(Some(j)) if j == i), 1003);
                i += 1;
            }
            check(m.len() >= 2 && m.len() <= 4, 1004);
        }
    }
    cover(1);
}

/// ordered sets
fn err_set(indexed: bool) {
    type S = RubySet<F, Env, (), u64, BH>;
    let ks = Keys::<3>::new(Hs::Narrow);
    let mut s: S = if indexed { RubySet::with_capacity_and_hasher(9, BH) } else { RubySet::with_hasher(BH) };
    let mut o: S = RubySet::with_hasher(BH);
    let g = &mut ();
    let n = pick(3);
    let mut e0 = Env::new(0, 0);
    let mut i = 0;
    while i < n {
        check(s.insert(fk(ks.0[i]), &mut e0, g).is_ok(), 1010);
        i += 1;
    }
    check(o.insert(fk(ks.0[0]), &mut e0, g).is_ok(), 1010);
    check(o.insert(fk(ks.0[2]), &mut e0, g).is_ok(), 1010);
    let f = fk(ks.0[pick(3)]);
    let code = sym(16);
    let at = pick(5) as u32;
    let mut env = Env::new(at, code);
    let e = &mut env;
    let len = s.len();
    let mut change = true;
    let r: Result<(), u64> = match pick(15) {
        0 => s.insert(f, e, g).map(|_| ()),
        1 => s.insert_full(f, e, g).map(|_| ()),
        2 => s.contains(&f, e, g).map(|_| change = false),
        3 => s.get(&f, e, g).map(|_| change = false),
        4 => s.get_index_of(&f, e, g).map(|_| change = false),
        5 => s.shift_remove(&f, e, g).map(|_| ()),
        6 => s.swap_remove(&f, e, g).map(|_| ()),
        7 => s.shift_take(&f, e, g).map(|_| ()),
        8 => s.swap_take(&f, e, g).map(|_| ()),
        9 => s.replace(f, e, g).map(|_| ()),
        10 => s.is_subset(&o, e, g).map(|_| change = false),
        11 => s.is_disjoint(&o, e, g).map(|_| change = false),
        12 => o.is_superset(&s, e, g).map(|_| change = false),
        13 => s.eql(&o, e, g).map(|_| change = false),
        _ => s.insert_before(0, f, e, g).map(|_| ()),
    };
    match r {
        Ok(()) => check(!env.fired(), 1011),
        Err(c) => {
            change = false;
            check(env.fired() && c == code, 1012);
            cover(2);
        }
    }
    if !change {
        check(s.len() == len, 1013);
        let mut i = 0;
        while i < len {
            check(s.get_index(i).unwrap().id == i as u8, 1014);
            i += 1;
        }
    }
    let k = fk(ks.0[pick(3)]);
    let want = s.iter().position(|x| x.id == k.id);
    check(matches!(s.get_index_of(&k, &mut e0, g), Ok(x) if x == want), 1015);
    cover(1);
}

/// the unordered containers
fn err_hb<const U: usize>(hs: Hs, nmax: usize) {
    let ks = Keys::<U>::new(hs);
    let mut m: HashMap<F, u64, Env, (), u64, BH> = HashMap::with_hasher(BH);
    let g = &mut ();
    let n = pick(nmax + 1);
    let mut vals = [0u64; U];
    let mut has = [false; U];
    let mut e0 = Env::new(0, 0);
    let mut i = 0;
    while i < n {
        vals[i] = sym(16);
        has[i] = true;
        check(m.insert(fk(ks.0[i]), vals[i], &mut e0, g).is_ok(), 1020);
        i += 1;
    }
    let j = pick(U);
    let f = fk(ks.0[j]);
    let code = sym(16);
    let mut env = Env::new(pick(4) as u32, code);
    let e = &mut env;
    let v = sym(16);
    let r: Result<Option<u64>, u64> = match pick(9) {
        0 => m.insert(f, v, e, g).map(|o| {
            check(o.is_some() == has[j], 1021);
            has[j] = true;
            vals[j] = v;
            None
        }),
        1 => m.get(&f, e, g).map(|o| o.copied()),
        2 => m.contains_key(&f, e, g).map(|b| {
            check(b == has[j], 1022);
            None
        }),
        3 => m.get_mut(&f, e, g).map(|o| o.map(|x| *x)),
        4 => m.remove(&f, e, g).map(|o| {
            check(opt_eq(o, if has[j] { Some(vals[j]) } else { None }), 1023);
            has[j] = false;
            None
        }),
        5 => m.remove_entry(&f, e, g).map(|o| {
            check(o.is_some() == has[j], 1024);
            has[j] = false;
            None
        }),
        6 => m.entry(f, e, g).map(|x| {
            *x.or_insert(v) = v;
            has[j] = true;
            vals[j] = v;
            None
        }),
        7 => m.entry_ref(&f, e, g).map(|x| {
            check(matches!(x, hashbrown::hash_map::EntryRef::Occupied(_)) == has[j], 1025);
            None
        }),
        _ => m.try_insert(f, v, e, g).map(|x| {
            match x {
                Ok(_) => {
                    check(!has[j], 1026);
                    vals[j] = v;
                }
                Err(_) => check(has[j], 1027),
            }
            has[j] = true;
            None
        }),
    };
    match r {
        Ok(x) => {
            check(!env.fired(), 1028);
            if let Some(x) = x {
                check(has[j] && x == vals[j], 1029);
            }
        }
        Err(c) => {
            check(env.fired() && c == code, 1030);
            cover(2);
        }
    }
    let p = pick(U);
    match m.get(&fk(ks.0[p]), &mut e0, g) {
        Ok(x) => check(opt_eq(x.copied(), if has[p] { Some(vals[p]) } else { None }), 1031),
        Err(_) => check(false, 1032),
    }
    check(m.len() == has.iter().filter(|x| **x).count(), 1033);
    cover(1);
}
fn err_hb_set() {
    type S = HashSet<F, Env, (), u64, BH>;
    let ks = Keys::<3>::new(Hs::Edge);
    let mut s: S = HashSet::with_hasher(BH);
    let mut o: S = HashSet::with_hasher(BH);
    let g = &mut ();
    let mut e0 = Env::new(0, 0);
    let mut has = [true, true, false];
    check(s.insert(fk(ks.0[0]), &mut e0, g).is_ok(), 1040);
    check(s.insert(fk(ks.0[1]), &mut e0, g).is_ok(), 1040);
    check(o.insert(fk(ks.0[1]), &mut e0, g).is_ok(), 1040);
    check(o.insert(fk(ks.0[2]), &mut e0, g).is_ok(), 1040);
    check(o.insert(fk(ks.0[0]), &mut e0, g).is_ok(), 1040);
    let j = pick(3);
    let f = fk(ks.0[j]);
    let code = sym(16);
    let mut env = Env::new(pick(4) as u32, code);
    let e = &mut env;
    let r: Result<(), u64> = match pick(12) {
        0 => s.insert(f, e, g).map(|b| {
            check(b == !has[j], 1041);
            has[j] = true
        }),
        1 => s.contains(&f, e, g).map(|b| check(b == has[j], 1042)),
        2 => s.get(&f, e, g).map(|x| check(x.is_some() == has[j], 1043)),
        3 => s.remove(&f, e, g).map(|b| {
            check(b == has[j], 1044);
            has[j] = false
        }),
        4 => s.take(&f, e, g).map(|x| {
            check(x.is_some() == has[j], 1045);
            has[j] = false
        }),
        5 => s.replace(f, e, g).map(|x| {
            check(x.is_some() == has[j], 1046);
            has[j] = true
        }),
        6 => s.get_or_insert(f, e, g).map(|_| has[j] = true),
        7 => s.get_or_insert_with(&f, |q| *q, e, g).map(|_| has[j] = true),
        8 => s.is_subset(&o, e, g).map(|b| check(b, 1047)),
        9 => s.is_superset(&o, e, g).map(|b| check(!b, 1048)),
        10 => s.eql(&o, e, g).map(|b| check(!b, 1049)),
        _ => s.entry(f, e, g).map(|x| {
            let _ = x.insert();
            has[j] = true
        }),
    };
    match r {
        Ok(()) => check(!env.fired(), 1050),
        Err(c) => {
            check(env.fired() && c == code, 1051);
            cover(2);
        }
    }
    let p = pick(3);
    check(matches!(s.contains(&fk(ks.0[p]), &mut e0, g), Ok(b) if b == has[p]), 1052);
    cover(1);
}
fn err_table() {
    let mut t: HashTable<(u64, u8), (), (), u64> = HashTable::new();
    let h = [hash(Hs::Edge), hash(Hs::Edge), hash(Hs::Edge)];
    t.insert_unique(h[0], (h[0], 0), |x| x.0);
    t.insert_unique(h[1], (h[1], 1), |x| x.0);
    let j = pick(3);
    let code = sym(16);
    let at = pick(4);
    let mut n = 0;
    let mut fired = false;
    let eq = |x: &(u64, u8), _: &mut (), _: &mut ()| {
        n += 1;
        if n == at {
            fired = true;
            return Err(code);
        }
        Ok(x.1 == j as u8)
    };
    let r: Result<bool, u64> = match pick(4) {
        0 => t.find(h[j], eq, &mut (), &mut ()).map(|x| x.is_some()),
        1 => t.find_mut(h[j], eq, &mut (), &mut ()).map(|x| x.is_some()),
        2 => t.find_entry(h[j], eq, &mut (), &mut ()).map(|x| x.is_ok()),
        _ => t
            .entry(h[j], eq, |x| x.0, &mut (), &mut ())
            .map(|x| matches!(x, hashbrown::hash_table::Entry::Occupied(_))),
    };
    match r {
        Ok(b) => check(!fired && b == (j < 2), 1060),
        Err(c) => {
            check(fired && c == code, 1061);
            cover(2);
        }
    }
    check(t.len() == 2, 1062);
    cover(1);
}

entries! {
    h03_lin_full => err_map::<3>(Hs::Full, 2, false, 3);
    h03_idx_edge => err_map::<3>(Hs::Edge, 2, true, 3);
    h03_lin_collide => err_collide(false, 8);
    h03_lin_cross => err_collide(false, 7);
    h03_idx_collide => err_collide(true, 9);
    h03_bulk_lin => err_bulk(false);
    h03_bulk_idx => err_bulk(true);
    h03_set_lin => err_set(false);
    h03_set_idx => err_set(true);
    h03_hb_full => err_hb::<2>(Hs::Full, 1);
    h03_hb_edge => err_hb::<3>(Hs::Edge, 2);
    h03_hb_deep => err_hb::<4>(Hs::Narrow, 3);
    h03_hb_set => err_hb_set();
    h03_table => err_table();
}

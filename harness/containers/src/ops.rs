//! Operations of the ordered hash, run on the real map and on the list model.
use crate::common::*;
use crate::v::*;
use rubymap::map::Entry;
use rubymap::RubyMap;

pub type M = RubyMap<K, u64, (), (), (), BH>;
pub type Md = Model<24>;

pub const NONE: u64 = 0xdead_0000_0000_0001;
pub const PANIC: u64 = 0xdead_0000_0000_0002;
pub const ERR: u64 = 0xdead_0000_0000_0003;

/// What an operation reported.
#[derive(Clone, Copy)]
pub struct Res {
    pub n: usize,
    pub a: [u64; 8],
}
impl Res {
    pub fn new() -> Res {
        Res { n: 0, a: [0; 8] }
    }
    pub fn p(mut self, x: u64) -> Res {
        self.a[self.n] = x;
        self.n += 1;
        self
    }
    pub fn o(self, x: Option<u64>) -> Res {
        self.p(x.unwrap_or(NONE))
    }
    pub fn none() -> Res {
        Res::new().p(NONE)
    }
    pub fn same(&self, o: &Res, id: u32) {
        check(self.n == o.n, id);
        let mut i = 0;
        while i < self.n {
            check(self.a[i] == o.a[i], id);
            i += 1;
        }
    }
}

#[derive(Clone, Copy)]
pub struct Op {
    pub kind: usize,
    pub k: K,
    pub i: usize,
    pub j: usize,
    pub v: u64,
}

/// What an operation kind takes.
const KEY: u8 = 1;
const VAL: u8 = 2;
const IDX: u8 = 4;
const JDX: u8 = 8;
const SMALL: u8 = 16;
fn takes(kind: usize) -> u8 {
    match kind {
        0 | 1 | 7 | 18 => KEY | VAL,
        2 | 3 | 13 | 14 | 15 | 16 | 17 | 20 | 22 => KEY,
        5 | 11 | 33 | 34 | 38 | 39 => IDX,
        8 | 10 | 12 => SMALL,
        19 => IDX | VAL,
        30 | 31 | 40 => IDX | KEY | VAL,
        32 | 36 => IDX | JDX,
        35 => KEY | VAL,
        37 => KEY | IDX,
        _ => 0,
    }
}
pub fn draw(kinds: &[usize], ks: &[K], nidx: usize) -> Op {
    let kind = kinds[pick(kinds.len())];
    let t = takes(kind);
    let mut op = Op { kind, k: ks[0], i: 0, j: 0, v: 0 };
    if t & KEY != 0 {
        op.k = ks[pick(ks.len())];
    }
    if t & VAL != 0 {
        op.v = sym(16);
    }
    if t & IDX != 0 {
        op.i = pick(nidx);
    }
    if t & JDX != 0 {
        op.j = pick(nidx);
    }
    if t & SMALL != 0 {
        op.i = pick(3);
    }
    op
}

pub fn ok<T>(r: Result<T, ()>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, 900);
            unreachable!()
        }
    }
}

/// writes, lookups, deletions, capacity
pub const BASIC: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22];
/// BASIC without the aliases of other operations and without promotions
pub const CORE: &[usize] = &[0, 2, 3, 4, 5, 6, 7, 9, 11];
/// state-changing core
pub const MUT: &[usize] = &[0, 2, 3, 4, 5, 6];
/// positional
pub const POSITIONAL: &[usize] = &[30, 31, 32, 33, 34, 36, 37, 38, 39];

fn e3(r: Option<(usize, K, u64)>) -> Res {
    match r {
        Some((i, k, v)) => Res::new().p(i as u64).p(k.id as u64).p(v),
        None => Res::none(),
    }
}
fn e2(r: Option<(K, u64)>) -> Res {
    match r {
        Some((k, v)) => Res::new().p(k.id as u64).p(v),
        None => Res::none(),
    }
}

#[allow(deprecated)]
pub fn apply(m: &mut M, op: &Op) -> Res {
    let (e, g) = (&mut (), &mut ());
    let k = op.k;
    match op.kind {
        0 => Res::new().o(ok(m.insert(k, op.v, e, g))),
        1 => {
            let r = ok(m.insert_full(k, op.v, e, g));
            Res::new().p(r.0 as u64).o(r.1)
        }
        2 => e3(ok(m.shift_remove_full(&k, e, g))),
        3 => e3(ok(m.swap_remove_full(&k, e, g))),
        4 => e2(ok(m.pop(e, g))),
        5 => {
            ok(m.truncate(op.i, e, g));
            Res::new()
        }
        6 => {
            m.clear();
            Res::new()
        }
        7 => match ok(m.get_mut(&k, e, g)) {
            Some(r) => {
                let o = *r;
                *r = op.v;
                Res::new().p(o)
            }
            None => Res::none(),
        },
        8 => {
            m.reserve(op.i * 7);
            check(m.capacity() - m.len() >= op.i * 7, 930);
            Res::new()
        }
        9 => {
            m.shrink_to_fit();
            Res::new()
        }
        10 => {
            m.shrink_to(op.i * 5);
            Res::new()
        }
        12 => {
            m.reserve_exact(op.i * 7);
            check(m.capacity() - m.len() >= op.i * 7, 931);
            Res::new()
        }
        11 => match m.get_index(op.i) {
            Some((k, v)) => Res::new().p(k.id as u64).p(*v),
            None => Res::none(),
        },
        13 => Res::new().o(ok(m.shift_remove(&k, e, g))),
        14 => Res::new().o(ok(m.swap_remove(&k, e, g))),
        15 => e2(ok(m.shift_remove_entry(&k, e, g))),
        16 => e2(ok(m.swap_remove_entry(&k, e, g))),
        17 => e2(ok(m.remove_entry(&k, e, g))),
        18 => match ok(m.get_full_mut(&k, e, g)) {
            Some((i, kk, r)) => {
                let o = *r;
                *r = op.v;
                Res::new().p(i as u64).p(kk.id as u64).p(o)
            }
            None => Res::none(),
        },
        19 => match m.get_index_mut(op.i) {
            Some((k, r)) => {
                let o = *r;
                *r = op.v;
                Res::new().p(k.id as u64).p(o)
            }
            None => Res::none(),
        },
        20 => {
            let a = ok(m.contains_key(&k, e, g));
            let b = ok(m.get_index_of(&k, e, g));
            let c = ok(m.get(&k, e, g)).copied();
            let d = ok(m.get_key_value(&k, e, g)).map(|(k, v)| (k.id as u64, *v));
            Res::new()
                .p(a as u64)
                .o(b.map(|x| x as u64))
                .o(c)
                .o(d.map(|x| x.0))
                .o(d.map(|x| x.1))
        }
        21 => {
            let a = m.first().map(|(k, v)| (k.id as u64, *v));
            let b = m.last().map(|(k, v)| (k.id as u64, *v));
            let mut r = Res::new().o(a.map(|x| x.0)).o(a.map(|x| x.1)).o(b.map(|x| x.0)).o(b.map(|x| x.1));
            r = r.o(m.first_mut().map(|(_, v)| *v)).o(m.last_mut().map(|(_, v)| *v));
            r
        }
        22 => {
            // read through the indexing operator: panics when absent
            let mut x = PANIC;
            catch(|| x = m[&k]);
            Res::new().p(x)
        }
        30 => {
            let mut r = Res::new().p(PANIC);
            catch(|| {
                let x = ok(m.insert_before(op.i, k, op.v, &mut (), &mut ()));
                r = Res::new().p(x.0 as u64).o(x.1);
            });
            r
        }
        31 => {
            let mut r = Res::new().p(PANIC);
            catch(|| {
                let x = ok(m.shift_insert(op.i, k, op.v, &mut (), &mut ()));
                r = Res::new().o(x);
            });
            r
        }
        32 => {
            let mut r = Res::new().p(PANIC);
            catch(|| {
                ok(m.move_index(op.i, op.j, &mut (), &mut ()));
                r = Res::new();
            });
            r
        }
        33 => e2(ok(m.swap_remove_index(op.i, e, g))),
        34 => e2(ok(m.shift_remove_index(op.i, e, g))),
        35 => {
            let r = ok(m.insert_sorted(k, op.v, e, g));
            Res::new().p(r.0 as u64).o(r.1)
        }
        36 => {
            // through a positional handle
            let mut r = Res::new().p(PANIC);
            catch(|| {
                r = match m.get_index_entry(op.i) {
                    Some(h) => {
                        ok(h.move_index(op.j, &mut (), &mut ()));
                        Res::new()
                    }
                    None => Res::none(),
                };
            });
            r
        }
        37 => {
            // move through a key handle
            let mut r = Res::new().p(PANIC);
            catch(|| {
                r = match ok(m.entry(k, &mut (), &mut ())) {
                    Entry::Occupied(h) => {
                        ok(h.move_index(op.i, &mut (), &mut ()));
                        Res::new()
                    }
                    Entry::Vacant(_) => Res::none(),
                };
            });
            r
        }
        38 => match m.get_index_entry(op.i) {
            Some(h) => e2(Some(ok(h.swap_remove_entry(e, g)))),
            None => Res::none(),
        },
        39 => match m.get_index_entry(op.i) {
            Some(h) => e2(Some(ok(h.shift_remove_entry(e, g)))),
            None => Res::none(),
        },
        _ => unreachable!(),
    }
}

pub fn spec(md: &mut Md, op: &Op) -> Res {
    let id = op.k.id;
    let at = md.find(id);
    let kv = |i: usize, md: &Md| Res::new().p(md.k[i] as u64).p(md.v[i]);
    match op.kind {
        0 => Res::new().o(md.put(id, op.v).1),
        1 => {
            let r = md.put(id, op.v);
            Res::new().p(r.0 as u64).o(r.1)
        }
        2 => match at {
            Some(i) => {
                let (k, v) = md.shift_remove_at(i);
                Res::new().p(i as u64).p(k as u64).p(v)
            }
            None => Res::none(),
        },
        3 => match at {
            Some(i) => {
                let (k, v) = md.swap_remove_at(i);
                Res::new().p(i as u64).p(k as u64).p(v)
            }
            None => Res::none(),
        },
        4 => {
            if md.n == 0 {
                Res::none()
            } else {
                md.n -= 1;
                kv(md.n, md)
            }
        }
        5 => {
            if op.i < md.n {
                md.n = op.i;
            }
            Res::new()
        }
        6 => {
            md.n = 0;
            Res::new()
        }
        7 => match at {
            Some(i) => {
                let o = md.v[i];
                md.v[i] = op.v;
                Res::new().p(o)
            }
            None => Res::none(),
        },
        8 | 9 | 10 | 12 => Res::new(),
        11 => {
            if op.i < md.n {
                kv(op.i, md)
            } else {
                Res::none()
            }
        }
        13 => Res::new().o(at.map(|i| md.shift_remove_at(i).1)),
        14 => Res::new().o(at.map(|i| md.swap_remove_at(i).1)),
        15 => match at {
            Some(i) => {
                let (k, v) = md.shift_remove_at(i);
                Res::new().p(k as u64).p(v)
            }
            None => Res::none(),
        },
        16 | 17 => match at {
            Some(i) => {
                let (k, v) = md.swap_remove_at(i);
                Res::new().p(k as u64).p(v)
            }
            None => Res::none(),
        },
        18 => match at {
            Some(i) => {
                let o = md.v[i];
                md.v[i] = op.v;
                Res::new().p(i as u64).p(id as u64).p(o)
            }
            None => Res::none(),
        },
        19 => {
            if op.i < md.n {
                let r = kv(op.i, md);
                md.v[op.i] = op.v;
                r
            } else {
                Res::none()
            }
        }
        20 => {
            let v = at.map(|i| md.v[i]);
            Res::new()
                .p(at.is_some() as u64)
                .o(at.map(|x| x as u64))
                .o(v)
                .o(at.map(|_| id as u64))
                .o(v)
        }
        21 => {
            if md.n == 0 {
                Res::none().p(NONE).p(NONE).p(NONE).p(NONE).p(NONE)
            } else {
                let l = md.n - 1;
                Res::new()
                    .p(md.k[0] as u64)
                    .p(md.v[0])
                    .p(md.k[l] as u64)
                    .p(md.v[l])
                    .p(md.v[0])
                    .p(md.v[l])
            }
        }
        22 => Res::new().p(match at {
            Some(i) => md.v[i],
            None => PANIC,
        }),
        30 => {
            if op.i > md.n {
                return Res::new().p(PANIC);
            }
            match at {
                Some(p) => {
                    let to = if op.i > p { op.i - 1 } else { op.i };
                    let o = md.v[p];
                    md.v[p] = op.v;
                    md.move_to(p, to);
                    Res::new().p(to as u64).p(o)
                }
                None => {
                    md.insert_at(op.i, id, op.v);
                    Res::new().p(op.i as u64).p(NONE)
                }
            }
        }
        31 => match at {
            Some(p) => {
                if op.i >= md.n {
                    return Res::new().p(PANIC);
                }
                let o = md.v[p];
                md.v[p] = op.v;
                md.move_to(p, op.i);
                Res::new().p(o)
            }
            None => {
                if op.i > md.n {
                    return Res::new().p(PANIC);
                }
                md.insert_at(op.i, id, op.v);
                Res::none()
            }
        },
        32 => {
            if op.i >= md.n || op.j >= md.n {
                return Res::new().p(PANIC);
            }
            md.move_to(op.i, op.j);
            Res::new()
        }
        33 | 38 => {
            if op.i < md.n {
                let (k, v) = md.swap_remove_at(op.i);
                Res::new().p(k as u64).p(v)
            } else {
                Res::none()
            }
        }
        34 | 39 => {
            if op.i < md.n {
                let (k, v) = md.shift_remove_at(op.i);
                Res::new().p(k as u64).p(v)
            } else {
                Res::none()
            }
        }
        35 => {
            // the model is sorted by id
            match at {
                Some(p) => {
                    let o = md.v[p];
                    md.v[p] = op.v;
                    Res::new().p(p as u64).p(o)
                }
                None => {
                    let mut i = 0;
                    while i < md.n && md.k[i] < id {
                        i += 1;
                    }
                    md.insert_at(i, id, op.v);
                    Res::new().p(i as u64).p(NONE)
                }
            }
        }
        36 => {
            if op.i >= md.n {
                Res::none()
            } else if op.j >= md.n {
                Res::new().p(PANIC)
            } else {
                md.move_to(op.i, op.j);
                Res::new()
            }
        }
        37 => match at {
            Some(p) => {
                if op.i >= md.n {
                    Res::new().p(PANIC)
                } else {
                    md.move_to(p, op.i);
                    Res::new()
                }
            }
            None => Res::none(),
        },
        _ => unreachable!(),
    }
}

/// Everything observable about `m` agrees with the list.
pub fn agree(m: &M, md: &Md, ks: &[K]) {
    agree_at(m, md, ks[pick(ks.len())])
}
/// as `agree`, with the probe key chosen by the caller
pub fn agree_at(m: &M, md: &Md, k: K) {
    check(m.len() == md.n, 901);
    check(m.is_empty() == (md.n == 0), 902);
    check(m.capacity() >= md.n, 903);
    obs(m.len() as u64);
    let mut i = 0;
    for (k, v) in m.iter() {
        check(i < md.n, 904);
        check(k.id == md.k[i], 905);
        check(*v == md.v[i], 906);
        obs(*v ^ ((k.id as u64) << 32));
        i += 1;
    }
    check(i == md.n, 907);
    let want = md.find(k.id);
    let got = ok(m.get_full(&k, &mut (), &mut ()));
    match (want, got) {
        (Some(j), Some((gi, gk, gv))) => {
            check(gi == j, 908);
            check(gk.id == k.id, 909);
            check(*gv == md.v[j], 910);
            obs(gi as u64);
        }
        (None, None) => {}
        _ => check(false, 911),
    }
}

/// A map with the first `n` keys, small or indexed form, unknown values.
pub fn build(n: usize, indexed: bool, ks: &[K]) -> (M, Md) {
    let mut m: M = if indexed { RubyMap::with_capacity_and_hasher(9, BH) } else { RubyMap::with_hasher(BH) };
    let mut md = Model::new();
    fill(&mut m, &mut md, 0, n, ks);
    (m, md)
}
pub fn fill(m: &mut M, md: &mut Md, from: usize, n: usize, ks: &[K]) {
    let mut i = from;
    while i < n {
        let v = sym(16);
        check(ok(m.insert(ks[i], v, &mut (), &mut ())).is_none(), 920);
        md.put(ks[i].id, v);
        i += 1;
    }
}

/// one operation on both; results must be equal
pub fn step(m: &mut M, md: &mut Md, kinds: &[usize], ks: &[K], nidx: usize) {
    let op = draw(kinds, ks, nidx);
    let want = spec(md, &op);
    let got = apply(m, &op);
    got.same(&want, op.kind as u32);
}

/// `ops` operations after `nmin..=nmax` insertions, unknown hashes.
pub fn history<const U: usize>(hs: Hs, indexed: bool, nmin: usize, nmax: usize, kinds: &[&[usize]]) {
    let ks = Keys::<U>::new(hs);
    let n = nmin + pick(nmax - nmin + 1);
    let (mut m, mut md) = build(n, indexed, &ks.0);
    let mut i = 0;
    while i < kinds.len() {
        step(&mut m, &mut md, kinds[i], &ks.0, nmax + 2);
        i += 1;
    }
    agree(&m, &md, &ks.0);
    cover(1);
}

/// The same on larger maps with planned hashes, of which the first, middle and last are unknown
/// in turn; the added keys come after.
pub fn big<const U: usize>(plans: usize, indexed: bool, ns: &[usize], kinds: &[&[usize]]) {
    let n = ns[pick(ns.len())];
    let plan = pick(plans);
    let free = match pick(3) {
        0 => 0,
        1 => n / 2,
        _ => n - 1,
    };
    let ks = Keys::<U>::plan(plan, &[free]);
    let ks = &ks.0[..n + 1];
    let (mut m, mut md) = build(n, indexed, ks);
    let mut i = 0;
    while i < kinds.len() {
        step(&mut m, &mut md, kinds[i], ks, n + 2);
        i += 1;
    }
    agree(&m, &md, ks);
    cover(1);
}

//! M01: ownership and memory.  M02: the same operations with caller code that panics.
//! Every key and value owns a heap block, so a leak, a second drop and a use after drop are
//! visible to the heap model.
use crate::common::*;
use crate::v::*;
use hashbrown::hash_map::Entry as HEntry;
use hashbrown::hash_table::Entry as TEntry;
use hashbrown::{HashMap, HashSet, HashTable};
use rubymap::map::Entry;
use rubymap::{RubyEql, RubyHash, RubyMap, RubySet};
use std::hash::Hasher;

/// 0: nothing fails, 1: the LEFT-th call into caller code panics, 2: it raises an error
static mut MODE: u8 = 0;
static mut LEFT: u64 = 0;
static mut CALLS: u64 = 0;

fn arm(mode: u8) {
    unsafe {
        MODE = mode;
        CALLS = 0;
        if mode != 0 {
            LEFT = sym(8);
            assume(LEFT >= 1);
        }
    }
}
fn disarm() {
    unsafe { MODE = 0 }
}
/// a call into caller code that can only panic
#[inline(never)]
fn tick() {
    unsafe {
        if MODE == 1 {
            CALLS += 1;
            if CALLS == LEFT {
                MODE = 0;
                inject_panic();
            }
        }
    }
}
/// a call into caller code that can fail either way
#[inline(never)]
fn ftick() -> Result<(), ()> {
    unsafe {
        if MODE == 2 {
            CALLS += 1;
            if CALLS == LEFT {
                MODE = 0;
                return Err(());
            }
        }
    }
    tick();
    Ok(())
}

pub struct D {
    id: u8,
    h: u64,
    b: Box<u8>,
}
fn d(k: &K) -> D {
    D { id: k.id, h: k.h, b: Box::new(k.id) }
}
impl Drop for D {
    fn drop(&mut self) {
        check(*self.b == self.id, 1);
        tick();
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        tick();
        D { id: self.id, h: self.h, b: self.b.clone() }
    }
}
impl RubyEql<(), (), ()> for D {
    fn eql(&self, o: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
        ftick()?;
        check(*self.b == self.id && *o.b == o.id, 2);
        Ok(self.id == o.id)
    }
}
impl RubyHash<(), (), ()> for D {
    fn ruby_hash<HH: Hasher>(&self, s: &mut HH, _: &mut (), _: &mut ()) -> Result<(), ()> {
        ftick()?;
        check(*self.b == self.id, 3);
        s.write_u64(self.h);
        Ok(())
    }
}
impl std::hash::Hash for D {
    fn hash<HH: Hasher>(&self, s: &mut HH) {
        tick();
        check(*self.b == self.id, 3);
        s.write_u64(self.h)
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        tick();
        self.id == o.id
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> std::cmp::Ordering {
        tick();
        self.id.cmp(&o.id)
    }
}
pub struct W(Box<u64>);
fn w(x: u64) -> W {
    W(Box::new(x))
}
impl Drop for W {
    fn drop(&mut self) {
        check(*self.0 < 256, 4);
        tick();
    }
}
impl Clone for W {
    fn clone(&self) -> W {
        tick();
        W(self.0.clone())
    }
}
impl Default for W {
    fn default() -> W {
        tick();
        w(77)
    }
}
type RM = RubyMap<D, W, (), (), (), BH>;
type RS = RubySet<D, (), (), (), BH>;
type UM = HashMap<D, W, (), (), (), BH>;
type US = HashSet<D, (), (), (), BH>;
type UT = HashTable<D, (), (), ()>;

/// caller code called by `f` does not fail
fn quiet<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let m = MODE;
        MODE = 0;
        let r = f();
        MODE = m;
        r
    }
}
fn rm(n: usize, indexed: bool, ks: &[K]) -> RM {
    quiet(|| rm0(n, indexed, ks))
}
fn rm0(n: usize, indexed: bool, ks: &[K]) -> RM {
    let mut m: RM = if indexed { RubyMap::with_capacity_and_hasher(9, BH) } else { RubyMap::with_hasher(BH) };
    let mut i = 0;
    while i < n {
        check(m.insert(d(&ks[i]), w(i as u64), &mut (), &mut ()).is_ok(), 5);
        i += 1;
    }
    m
}
/// every element the map holds is found where it is
fn rvalid(m: &RM) {
    let n = m.len();
    check(m.iter().count() == n, 10);
    let mut i = 0;
    while i < n {
        if let Some((k, v)) = m.get_index(i) {
            check(*v.0 < 256, 11);
            let mut p = None;
            let r = catch(|| p = m.get_index_of(k, &mut (), &mut ()).unwrap_or(None));
            check(r == 0 && p == Some(i), 12);
        }
        i += 1;
    }
}
fn have(m: &RM, k: &K) -> bool {
    let q = d(k);
    matches!(m.contains_key(&q, &mut (), &mut ()), Ok(true))
}
const SINGLE: usize = 14;
/// operations on a RubyMap; the first SINGLE of them concern only the key `k`
fn rop(m: &mut RM, ks: &[K], kind: usize, ki: usize) {
    let (e, g) = (&mut (), &mut ());
    let k = ks[ki];
    let n = m.len();
    match kind {
        0 => drop(m.insert(d(&k), w(50), e, g)),
        1 => drop(m.swap_remove(&d(&k), e, g)),
        2 => drop(m.shift_remove_full(&d(&k), e, g)),
        3 => drop(m.insert_before(pick(n + 1), d(&k), w(51), e, g)),
        4 => drop(m.insert_sorted(d(&k), w(52), e, g)),
        5 => {
            let how = pick(5);
            if let Ok(en) = m.entry(d(&k), e, g) {
                match how {
                    0 => drop(en.or_insert(w(53))),
                    1 => drop(en.or_default()),
                    2 => drop(en.or_insert_with(|| {
                        tick();
                        w(54)
                    })),
                    3 => drop(en.and_modify(|v| {
                        tick();
                        *v = w(55)
                    })),
                    _ => drop(en.insert_entry(w(56)).insert(w(57))),
                }
            }
        }
        6 => {
            let how = pick(4);
            if let Ok(en) = m.entry(d(&k), e, g) {
                match (en, how) {
                    (Entry::Occupied(o), 0) => drop(o.shift_remove(e, g)),
                    (Entry::Occupied(o), 1) => drop(o.swap_remove_entry(e, g)),
                    (Entry::Occupied(mut o), 2) => *o.get_mut() = w(58),
                    (Entry::Occupied(o), _) => drop(o.move_index(0, e, g)),
                    (Entry::Vacant(v), 0) => drop(v.into_key()),
                    (Entry::Vacant(v), 1) => drop(v.shift_insert(0, w(59), e, g)),
                    (Entry::Vacant(v), 2) => drop(v.insert_sorted(w(60), e, g)),
                    (v, _) => drop(v),
                }
            }
        }
        7 => drop(m.insert_prehashed(k.h as usize, d(&k), w(61))),
        8 => drop(m.insert_prehashed_with(k.h as usize, d(&k), w(62), |q| {
            tick();
            q.id == k.id
        })),
        9 => drop(m.get(&d(&k), e, g)),
        10 => {
            if let Ok(Some(v)) = m.get_mut(&d(&k), e, g) {
                *v = w(63)
            }
        }
        11 => {
            // the slot stays, dead; then it is removed
            let dead = D { id: 200, h: 0, b: Box::new(200) };
            drop(m.tombstone_remove(&d(&k), dead, w(0), e, g));
            m.compact_tombstones(|q| {
                tick();
                q.id == 200
            });
        }
        12 => drop(m.shift_remove_entry(&d(&k), e, g)),
        13 => drop(m.swap_remove_full(&d(&k), e, g)),
        14 => {
            let (a, c) = (pick(n + 1), pick(3));
            let b = if pick(2) == 0 { n } else { (a + 1).min(n) };
            if let Ok(mut it) = m.drain(a..b, e, g) {
                if c > 0 {
                    drop(it.next());
                }
                if c > 1 {
                    drop(it.next_back());
                }
            };
        }
        15 => {
            let mask = pick(1 << n.min(3));
            let mut i = 0;
            m.retain(|_, _| {
                tick();
                i += 1;
                mask >> ((i - 1) % 3) & 1 == 1
            });
        }
        16 => drop(m.truncate(pick(n + 1), e, g)),
        17 => {
            if let Ok(o) = m.split_off(pick(n + 1), e, g) {
                if pick(2) == 1 {
                    *m = o;
                }
            }
        }
        18 => {
            let mut o = rm(0, pick(2) == 1, ks);
            drop(o.insert(d(&k), w(70), e, g));
            drop(o.insert(d(&ks[0]), w(71), e, g));
            drop(m.append(&mut o, e, g));
            if unsafe { MODE == 0 } {
                rvalid(&o);
            }
        }
        19 => {
            let c = m.clone();
            if pick(2) == 1 {
                *m = c;
            }
        }
        20 => {
            let (cn, ci) = ([0, 1, 3][pick(3)], pick(2) == 1);
            let o = rm(cn.min(ks.len()), ci, ks);
            if pick(2) == 0 {
                m.clone_from(&o);
            } else {
                let mut o = o;
                o.clone_from(m);
            }
        }
        21 => {
            let l = [(d(&k), w(72)), (d(&ks[0]), w(73)), (d(&k), w(74))];
            drop(m.extend(l, e, g));
        }
        22 => {
            let (a, b) = (pick(3), pick(2));
            let mut it = std::mem::replace(m, RubyMap::with_hasher(BH)).into_iter();
            if a > 0 {
                drop(it.next());
            }
            if a > 1 {
                drop(it.nth(1));
            }
            if b > 0 {
                drop(it.next_back());
            }
        }
        23 => {
            let o = std::mem::replace(m, RubyMap::with_hasher(BH));
            match pick(4) {
                0 => drop(o.into_keys().next()),
                1 => drop(o.into_values().next_back()),
                2 => drop(o.into_boxed_slice().into_iter().next()),
                _ => drop(o.into_boxed_slice().clone()),
            }
        }
        24 => m.clear(),
        25 => match pick(4) {
            0 => m.shrink_to_fit(),
            1 => m.reserve(20),
            2 => m.reserve_exact(1),
            _ => m.shrink_to(4),
        },
        26 => match pick(5) {
            0 => m.sort_keys(),
            1 => m.sort_by(|a, _, b, _| b.cmp(a)),
            2 => m.sort_unstable_by(|a, _, b, _| b.cmp(a)),
            3 => m.sort_by_cached_key(|a, _| {
                tick();
                200 - a.id
            }),
            _ => {
                let o = std::mem::replace(m, RubyMap::with_hasher(BH));
                drop(o.sorted_by(|a, _, b, _| b.cmp(a)).next());
            }
        },
        27 => m.reverse(),
        28 => {
            let o = std::mem::replace(m, RubyMap::with_hasher(BH));
            *m = o.map_keys(|x| {
                tick();
                x
            });
        }
        29 => drop(m.swap_remove_index(pick(n + 1), e, g)),
        30 => drop(m.shift_remove_index(pick(n + 1), e, g)),
        31 => drop(m.pop(e, g)),
        32 => {
            if n > 0 {
                drop(m.move_index(pick(n), pick(n), e, g));
            }
        }
        33 => {
            if let Some(mut en) = m.get_index_entry(pick(n + 1)) {
                match pick(3) {
                    0 => drop(en.insert(w(75))),
                    1 => drop(en.swap_remove(e, g)),
                    _ => drop(en.shift_remove_entry(e, g)),
                }
            }
        }
        34 => {
            for v in m.values_mut() {
                *v = w(76);
            }
        }
        _ => {
            let o: Result<RM, ()> = RubyMap::from_iter([(d(&k), w(1)), (d(&ks[0]), w(2)), (d(&k), w(3))], e, g);
            if let Ok(o) = o {
                *m = o;
            }
        }
    }
}
const ROPS: usize = 36;

fn ruby<const U: usize>(ks: &[K; U], n: usize, indexed: bool, mode: u8, steps: usize, kinds: &[usize]) {
    let base = live();
    {
        let mut m = rm(n, indexed, ks);
        let mut s = 0;
        while s < steps {
            let kind = if kinds.is_empty() { pick(ROPS) } else { kinds[pick(kinds.len())] };
            let ki = if matches!(kind, 0..=13 | 18 | 21 | 35) { pick(U) } else { 0 };
            s += 1;
            if s == steps {
                arm(mode);
            }
            let r = catch(|| rop(&mut m, ks, kind, ki));
            check(r != 2, 20);
            disarm();
            if s == steps && (mode != 0 || U < 8) {
                if r == 1 {
                    cover(2);
                }
                if r == 1 && matches!(kind, 11 | 15 | 20 | 26) {
                    // the index is left stale (m02_known); the entries must be sound all the same
                    for (k, v) in m.iter() {
                        check(*k.b == k.id && *v.0 < 256, 25);
                    }
                    m.clear();
                }
                rvalid(&m);
                if r == 1 && kind == 11 {
                    continue;
                }
                if kind < SINGLE && steps == 1 {
                    let mut i = 0;
                    while i < n {
                        check(i == ki || have(&m, &ks[i]), 21);
                        i += 1;
                    }
                }
                // still usable
                check(m.insert(d(&ks[U - 1]), w(90), &mut (), &mut ()).is_ok(), 22);
                check(have(&m, &ks[U - 1]), 23);
            }
        }
        if mode != 1 {
            drop(m);
            check(live() == base, 24);
        }
    }
    cover(1);
}
/// the operations after whose interruption the index no longer matches the entries
fn known() {
    let ks = Keys::<3>::plan(0, &[]).0;
    let mut m = rm(3, true, &ks);
    let kind = [11, 15, 20, 26][pick(4)];
    arm(1);
    let r = catch(|| rop(&mut m, &ks, kind, 0));
    disarm();
    let mut bad = false;
    if r == 1 {
        let r = catch(|| {
            let mut i = 0;
            while i < m.len() {
                if let Some((k, _)) = m.get_index(i) {
                    bad |= m.get_index_of(k, &mut (), &mut ()) != Ok(Some(i));
                }
                i += 1;
            }
        });
        bad |= r != 0;
    }
    check(!bad, 80);
    cover(1);
}
fn small<const U: usize>(h: Hs, indexed: bool, mode: u8, steps: usize) {
    let ks = Keys::<U>::new(h).0;
    ruby(&ks, pick(U), indexed, mode, steps, &[]);
}
fn large<const U: usize>(sizes: &[usize], indexed: bool, mode: u8, kinds: &[usize]) {
    let n = sizes[pick(sizes.len())];
    let ks = Keys::<U>::plan(pick(2), &[]).0;
    ruby(&ks, n, indexed, mode, 1, kinds);
}
/// ordered sets
fn set<const U: usize>(h: Hs, mode: u8) {
    let base = live();
    let ks = Keys::<U>::new(h).0;
    let n = pick(U);
    let (e, g) = (&mut (), &mut ());
    {
        let mut s: RS = RubySet::with_hasher(BH);
        if pick(2) == 1 {
            s.reserve(9);
        }
        let mut i = 0;
        while i < n {
            check(s.insert(d(&ks[i]), e, g).is_ok(), 30);
            i += 1;
        }
        let k = ks[pick(U)];
        arm(mode);
        let kind = pick(12);
        let r = catch(|| {
            let (e, g) = (&mut (), &mut ());
            match kind {
                0 => drop(s.insert(d(&k), e, g)),
                1 => drop(s.replace(d(&k), e, g)),
                2 => drop(s.swap_take(&d(&k), e, g)),
                3 => drop(s.shift_remove(&d(&k), e, g)),
                4 => drop(s.pop(e, g)),
                5 => {
                    if let Ok(mut x) = s.drain(.., e, g) {
                        drop(x.next());
                    };
                }
                6 => s.retain(|q| {
                    tick();
                    q.id & 1 == 1
                }),
                7 => drop(std::mem::take(&mut s).into_iter().next()),
                8 => drop(s.truncate(1, e, g)),
                9 => drop(s.extend([d(&k), d(&ks[0]), d(&k)], e, g)),
                10 => s.sort_unstable(),
                _ => drop(s.insert_before(0, d(&k), e, g)),
            }
        });
        check(r != 2, 31);
        disarm();
        if r == 1 && matches!(kind, 6 | 10) {
            for q in s.iter() {
                check(*q.b == q.id, 34);
            }
            s.clear();
        }
        let mut i = 0;
        while i < s.len() {
            let q = &s.as_slice()[i];
            let mut p = None;
            let r = catch(|| p = s.get_index_of(q, &mut (), &mut ()).unwrap_or(None));
            check(r == 0 && p == Some(i), 32);
            i += 1;
        }
        drop(s);
        check(mode == 1 || live() == base, 33);
    }
    cover(1);
}

fn um(n: usize, cap: usize, ks: &[K]) -> UM {
    quiet(|| um0(n, cap, ks))
}
fn um0(n: usize, cap: usize, ks: &[K]) -> UM {
    let mut m: UM = HashMap::with_capacity_and_hasher(cap, BH);
    let mut i = 0;
    while i < n {
        check(m.insert(d(&ks[i]), w(i as u64), &mut (), &mut ()).is_ok(), 40);
        i += 1;
    }
    m
}
fn uvalid(m: &UM) {
    let mut n = 0;
    for (k, v) in m.iter() {
        check(*v.0 < 256, 41);
        match m.get_key_value(k, &mut (), &mut ()) {
            Ok(Some((q, _))) => check(std::ptr::eq(q, k), 42),
            _ => check(false, 43),
        }
        n += 1;
    }
    check(n == m.len(), 44);
}
const USINGLE: usize = 8;
const UOPS: usize = 24;
fn uop(m: &mut UM, ks: &[K], kind: usize, ki: usize) {
    let (e, g) = (&mut (), &mut ());
    let k = ks[ki];
    match kind {
        0 => drop(m.insert(d(&k), w(50), e, g)),
        1 => drop(m.remove(&d(&k), e, g)),
        2 => drop(m.remove_entry(&d(&k), e, g)),
        3 => drop(m.try_insert(d(&k), w(51), e, g)),
        4 => {
            let how = pick(5);
            if let Ok(en) = m.entry(d(&k), e, g) {
                match how {
                    0 => drop(en.or_insert(w(53))),
                    1 => drop(en.or_default()),
                    2 => drop(en.or_insert_with_key(|_| {
                        tick();
                        w(54)
                    })),
                    3 => drop(en.and_modify(|v| {
                        tick();
                        *v = w(55)
                    })),
                    _ => drop(en.insert(w(56)).insert(w(57))),
                }
            }
        }
        5 => {
            let how = pick(3);
            if let Ok(en) = m.entry(d(&k), e, g) {
                match (en, how) {
                    (HEntry::Occupied(o), 0) => drop(o.remove_entry()),
                    (HEntry::Occupied(o), _) => drop(o.replace_entry_with(|_, v| {
                        tick();
                        if how == 1 {
                            Some(v)
                        } else {
                            None
                        }
                    })),
                    (HEntry::Vacant(v), 0) => drop(v.into_key()),
                    (v, 1) => drop(v),
                    (v, _) => drop(v.and_replace_entry_with(|_, _| None)),
                }
            }
        }
        6 => drop(m.get(&d(&k), e, g)),
        7 => {
            if let Ok(Some(v)) = m.get_mut(&d(&k), e, g) {
                *v = w(58)
            }
        }
        8 => m.retain(|q, _| {
            tick();
            q.id & 1 == 1
        }),
        9 => {
            let mut x = m.extract_if(|q, _| {
                tick();
                q.id & 1 == 1
            });
            let a = pick(3);
            if a > 0 {
                drop(x.next());
            }
            if a > 1 {
                drop(x.next());
            }
        }
        10 => {
            let mut x = m.drain();
            if pick(2) == 1 {
                drop(x.next());
            }
        }
        11 => {
            let mut x = std::mem::replace(m, HashMap::with_hasher(BH)).into_iter();
            if pick(2) == 1 {
                drop(x.next());
            }
        }
        12 => drop(std::mem::replace(m, HashMap::with_hasher(BH)).into_keys().next()),
        13 => drop(std::mem::replace(m, HashMap::with_hasher(BH)).into_values().next()),
        14 => {
            let c = m.clone();
            if pick(2) == 1 {
                *m = c;
            }
        }
        15 => {
            let o = um([0, 1, 3][pick(3)].min(ks.len()), [0, 20][pick(2)], ks);
            if pick(2) == 0 {
                m.clone_from(&o);
            } else {
                let mut o = o;
                o.clone_from(m);
            }
        }
        16 => drop(m.extend([(d(&k), w(59)), (d(&ks[0]), w(60)), (d(&k), w(61))], e, g)),
        17 => m.clear(),
        18 => m.shrink_to_fit(),
        19 => m.reserve(20),
        20 => {
            let o: Result<UM, ()> = HashMap::from_iter([(d(&k), w(1)), (d(&ks[0]), w(2)), (d(&k), w(3))], e, g);
            if let Ok(o) = o {
                *m = o;
            }
        }
        21 => {
            for v in m.values_mut() {
                *v = w(62);
            }
        }
        22 => {
            let mut s: US = HashSet::with_hasher(BH);
            drop(s.insert(d(&k), e, g));
            drop(s.replace(d(&k), e, g));
            drop(s.insert(d(&ks[0]), e, g));
            drop(s.get_or_insert(d(&k), e, g));
            drop(s.take(&d(&k), e, g));
            drop(s.into_iter().next());
        }
        // with many deleted slots this cleans up in place
        24 => m.reserve(5),
        _ => drop(m.entry_ref(&d(&k), e, g).map(|x| drop(x.key().id))),
    }
}
fn hash_map<const U: usize>(ks: &[K; U], n: usize, cap: usize, del: usize, mode: u8, steps: usize, kinds: &[usize], lossy: bool) {
    let base = live();
    {
        let mut m = um(n, cap, ks);
        let mut i = 0;
        while i < del {
            // leaves reusable slots behind
            check(matches!(m.remove(&d(&ks[i]), &mut (), &mut ()), Ok(Some(_))), 49);
            i += 1;
        }
        let mut s = 0;
        while s < steps {
            let kind = if kinds.is_empty() { pick(UOPS) } else { kinds[pick(kinds.len())] };
            let ki = if matches!(kind, 0..=7 | 16 | 20 | 22 | 23) { if U > 5 { del + pick(U - del) } else { pick(U) } } else { 0 };
            s += 1;
            if s == steps {
                arm(mode);
            }
            let r = catch(|| uop(&mut m, ks, kind, ki));
            check(r != 2, 50);
            disarm();
            if s == steps {
                if r == 1 {
                    cover(2);
                }
                uvalid(&m);
                if kind < USINGLE && steps == 1 && !lossy {
                    let mut i = del;
                    while i < n {
                        check(i == ki || matches!(m.contains_key(&d(&ks[i]), &mut (), &mut ()), Ok(true)), 51);
                        i += 1;
                    }
                }
                check(m.insert(d(&ks[U - 1]), w(90), &mut (), &mut ()).is_ok(), 52);
                check(matches!(m.contains_key(&d(&ks[U - 1]), &mut (), &mut ()), Ok(true)), 53);
            }
        }
        if mode != 1 {
            drop(m);
            check(live() == base, 54);
        }
    }
    cover(1);
}
fn hsmall<const U: usize>(h: Hs, mode: u8, steps: usize) {
    let ks = Keys::<U>::new(h).0;
    hash_map(&ks, pick(U), 0, 0, mode, steps, &[], false);
}
fn hlarge<const U: usize>(n: usize, cap: usize, del: usize, mode: u8, kinds: &[usize]) {
    let ks = Keys::<U>::plan(pick(2), &[]).0;
    hash_map(&ks, n, cap, del, mode, 1, kinds, true);
}
/// bare tables
fn table<const U: usize>(h: Hs, mode: u8) {
    let base = live();
    let ks = Keys::<U>::new(h).0;
    let n = pick(U);
    {
        let hf = |x: &D| {
            tick();
            x.h
        };
        let mut t: UT = HashTable::new();
        let mut i = 0;
        while i < n {
            t.insert_unique(ks[i].h, d(&ks[i]), hf);
            i += 1;
        }
        let k = ks[pick(U)];
        let eq = |x: &D, _: &mut (), _: &mut ()| {
            ftick()?;
            Ok(x.id == k.id)
        };
        arm(mode);
        let r = catch(|| {
            let (e, g) = (&mut (), &mut ());
            match pick(10) {
                0 => {
                    if let Ok(en) = t.entry(k.h, eq, hf, e, g) {
                        match en {
                            TEntry::Occupied(o) => {
                                let (x, v) = o.remove();
                                drop(x);
                                v.insert(d(&k));
                            }
                            TEntry::Vacant(v) => drop(v.insert(d(&k))),
                        }
                    }
                }
                1 => {
                    if let Ok(Ok(o)) = t.find_entry(k.h, eq, e, g) {
                        drop(o.remove().0);
                    }
                }
                2 => {
                    let mut x = t.extract_if(|q| {
                        tick();
                        q.id & 1 == 0
                    });
                    if pick(2) == 1 {
                        drop(x.next());
                    }
                }
                3 => {
                    let mut x = t.drain();
                    if pick(2) == 1 {
                        drop(x.next());
                    }
                }
                4 => t.retain(|q| {
                    tick();
                    q.id & 1 == 0
                }),
                5 => drop(t.clone()),
                6 => {
                    let mut o: UT = HashTable::with_capacity([0, 4, 20][pick(3)]);
                    o.insert_unique(3, D { id: 99, h: 3, b: Box::new(99) }, hf);
                    o.clone_from(&t);
                    t = o;
                }
                7 => drop(std::mem::take(&mut t).into_iter().next()),
                8 => t.shrink_to_fit(hf),
                _ => t.reserve(20, hf),
            }
        });
        check(r != 2, 60);
        disarm();
        let mut c = 0;
        for x in t.iter() {
            c += 1;
            match t.find(x.h, |q: &D, _, _| Ok(q.id == x.id), &mut (), &mut ()) {
                Ok(Some(q)) => check(std::ptr::eq(q, x), 61),
                _ => check(false, 62),
            }
        }
        check(c == t.len(), 63);
        drop(t);
        check(mode == 1 || live() == base, 64);
    }
    cover(1);
}
/// elements without storage of their own
struct Z;
static mut ZD: usize = 0;
impl Drop for Z {
    fn drop(&mut self) {
        unsafe { ZD += 1 }
    }
}
impl RubyEql<(), (), ()> for Z {
    fn eql(&self, _: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
        Ok(true)
    }
}
impl RubyHash<(), (), ()> for Z {
    fn ruby_hash<HH: Hasher>(&self, s: &mut HH, _: &mut (), _: &mut ()) -> Result<(), ()> {
        s.write_u64(unsafe { ZH });
        Ok(())
    }
}
impl std::hash::Hash for Z {
    fn hash<HH: Hasher>(&self, s: &mut HH) {
        s.write_u64(unsafe { ZH })
    }
}
static mut ZH: u64 = 0;
fn zero() {
    let base = live();
    unsafe {
        ZD = 0;
        ZH = sym(64);
    }
    let (e, g) = (&mut (), &mut ());
    let made = 1 + pick(3);
    let mut out = 0;
    if pick(2) == 0 {
        let mut t: HashTable<Z, (), (), ()> = HashTable::new();
        let mut i = 0;
        while i < made {
            t.insert_unique(sym(64), Z, |_| 0);
            i += 1;
        }
        match pick(4) {
            0 => out = t.drain().take(1).map(std::mem::forget).count(),
            1 => t.retain(|_| pick(2) == 0),
            2 => t.shrink_to_fit(|_| 0),
            _ => t.clear(),
        }
    } else {
        let mut s: HashSet<Z, (), (), (), BH> = HashSet::with_hasher(BH);
        let mut i = 0;
        while i < made {
            check(matches!(s.insert(Z, e, g), Ok(x) if x == (i == 0)), 70);
            i += 1;
        }
        check(s.len() == 1, 71);
        if pick(2) == 1 {
            out = matches!(s.take(&Z, e, g).map(|x| x.map(std::mem::forget)), Ok(Some(()))) as usize;
            // the probe itself
            unsafe { ZD -= 1 };
        }
    }
    check(unsafe { ZD } + out == made, 72);
    check(live() == base, 73);
    cover(1);
}
const BULK: &[usize] = &[0, 2, 3, 14, 15, 16, 17, 18, 19, 20, 21, 22, 24, 25, 26, 28, 33];
const PANIC: &[usize] = &[0, 1, 3, 5, 11, 14, 15, 16, 17, 19, 20, 21, 24, 26, 28];
const HB: &[usize] = &[0, 1, 5, 8, 9, 10, 11, 14, 15, 16, 17, 18, 19];
entries! {
    m01_lin => small::<3>(Hs::Narrow, false, 0, 1);
    m01_idx => small::<3>(Hs::Narrow, true, 0, 1);
    m01_four => small::<4>(Hs::Narrow, false, 0, 1);
    m01_two => small::<2>(Hs::Narrow, false, 0, 2);
    m01_two_idx => small::<2>(Hs::Narrow, true, 0, 2);
    m01_err => small::<3>(Hs::Narrow, false, 2, 1);
    m01_err_idx => small::<3>(Hs::Narrow, true, 2, 1);
    m01_big => large::<16>(&[7, 8], false, 0, BULK);
    m01_big_idx => large::<16>(&[9, 14], true, 0, BULK);
    m01_set => set::<3>(Hs::Narrow, 0);
    m01_set_err => set::<3>(Hs::Narrow, 2);
    m01_hmap => hsmall::<3>(Hs::Narrow, 0, 1);
    m01_hmap4 => hsmall::<4>(Hs::Narrow, 0, 1);
    m01_hmap2 => hsmall::<2>(Hs::Narrow, 0, 2);
    m01_hmap23 => hsmall::<3>(Hs::Narrow, 0, 2);
    m01_hmap_err => hsmall::<3>(Hs::Narrow, 2, 1);
    m01_hbig => hlarge::<16>(14, 0, 0, 0, HB);
    m01_hrehash => hlarge::<29>(28, 28, 20, 0, &[24]);
    m01_hbig32 => hlarge::<29>(28, 28, 10, 0, HB);
    m01_table => table::<4>(Hs::Narrow, 0);
    m01_zero => zero();
    m02_known => known();
    m02_lin => small::<3>(Hs::Narrow, false, 1, 1);
    m02_idx => small::<3>(Hs::Narrow, true, 1, 1);
    m02_big => large::<16>(&[8], false, 1, PANIC);
    m02_big_idx => large::<16>(&[9], true, 1, PANIC);
    m02_set => set::<3>(Hs::Narrow, 1);
    m02_hmap => hsmall::<3>(Hs::Narrow, 1, 1);
    m02_hmap4 => hsmall::<4>(Hs::Narrow, 1, 1);
    m02_hbig => hlarge::<16>(14, 0, 0, 1, HB);
    m02_hbig32 => hlarge::<29>(28, 28, 10, 1, HB);
    m02_hrehash => hlarge::<29>(28, 28, 20, 1, &[24]);
    m02_table => table::<4>(Hs::Narrow, 1);
}

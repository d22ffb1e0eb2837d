//! H11: iterators, ranges, slices and ordered searches.  H12: the published raw layout.
use crate::common::*;
use crate::ops::*;
use crate::v::*;
use rubymap::map::Slice;
use rubymap::{GetDisjointMutError, RubyMap, RubySet};
use std::ops::Bound;

fn list(n: usize, indexed: bool) -> (M, Md) {
    let mut ks = [K { id: 0, h: 0 }; 15];
    let mut i = 0;
    while i < 15 {
        // concrete hashes: order does not depend on them
        ks[i] = K { id: 2 * i as u8 + 1, h: i as u64 };
        i += 1;
    }
    build(n, indexed, &ks[..])
}
/// any mix of steps from both ends; `w` is what item i must look like
fn walk<I, F>(mut it: I, n: usize, steps: usize, same: F)
where
    I: DoubleEndedIterator + ExactSizeIterator,
    F: Fn(I::Item, usize) -> bool,
{
    let (mut lo, mut hi) = (0, n);
    let mut s = 0;
    while s < steps {
        s += 1;
        check(it.len() == hi - lo, 1);
        let h = it.size_hint();
        check(h.0 == hi - lo && h.1 == Some(hi - lo), 2);
        let (item, at) = match pick(4) {
            0 => {
                let x = it.next();
                if lo < hi {
                    lo += 1;
                    (x, Some(lo - 1))
                } else {
                    (x, None)
                }
            }
            1 => {
                let x = it.next_back();
                if lo < hi {
                    hi -= 1;
                    (x, Some(hi))
                } else {
                    (x, None)
                }
            }
            2 => {
                let j = sym(64) as usize;
                let x = it.nth(j);
                if j < hi - lo {
                    lo += conc(j as u64) as usize + 1;
                    (x, Some(lo - 1))
                } else {
                    lo = hi;
                    (x, None)
                }
            }
            _ => {
                let j = sym(64) as usize;
                let x = it.nth_back(j);
                if j < hi - lo {
                    hi -= conc(j as u64) as usize + 1;
                    (x, Some(hi))
                } else {
                    lo = hi;
                    (x, None)
                }
            }
        };
        match (item, at) {
            (Some(x), Some(i)) => check(same(x, i), 3),
            (None, None) => {}
            _ => check(false, 4),
        }
    }
    match pick(4) {
        0 => {
            check(it.count() == hi - lo, 5);
        }
        1 => match it.last() {
            Some(x) => check(lo < hi && same(x, hi - 1), 6),
            None => check(lo == hi, 7),
        },
        2 => {
            let mut i = lo;
            for x in it.collect::<Vec<_>>() {
                check(i < hi && same(x, i), 8);
                i += 1;
            }
            check(i == hi, 9);
        }
        _ => {
            let mut i = hi;
            for x in it.rev() {
                check(i > lo, 10);
                i -= 1;
                check(same(x, i), 11);
            }
            check(i == lo, 12);
        }
    }
    cover(1);
}
fn iters(n: usize, indexed: bool, steps: usize) {
    let n = pick(n + 1);
    let (mut m, md) = list(n, indexed);
    let kv = |k: u8, v: u64, i: usize| k == md.k[i] && v == md.v[i];
    match pick(10) {
        0 => walk(m.iter(), n, steps, |(k, v), i| kv(k.id, *v, i)),
        1 => walk(m.iter_mut(), n, steps, |(k, v), i| kv(k.id, *v, i)),
        2 => walk(m.into_iter(), n, steps, |(k, v), i| kv(k.id, v, i)),
        3 => walk(m.keys(), n, steps, |k, i| k.id == md.k[i]),
        4 => walk(m.values(), n, steps, |v, i| *v == md.v[i]),
        5 => walk(m.values_mut(), n, steps, |v, i| *v == md.v[i]),
        6 => walk(m.into_keys(), n, steps, |k, i| k.id == md.k[i]),
        7 => walk(m.into_values(), n, steps, |v, i| v == md.v[i]),
        8 => walk(ok(m.drain(.., &mut (), &mut ())), n, steps, |(k, v), i| kv(k.id, v, i)),
        _ => walk(m.into_boxed_slice().into_iter(), n, steps, |(k, v), i| kv(k.id, v, i)),
    }
}
fn set_iters(n: usize, steps: usize) {
    let n = pick(n + 1);
    let mut s: RubySet<K, (), (), (), BH> = RubySet::with_hasher(BH);
    let mut i = 0;
    while i < n {
        ok(s.insert(K { id: i as u8, h: i as u64 }, &mut (), &mut ()));
        i += 1;
    }
    match pick(3) {
        0 => walk(s.iter(), n, steps, |k, i| k.id as usize == i),
        1 => walk(s.into_iter(), n, steps, |k, i| k.id as usize == i),
        _ => walk(ok(s.drain(.., &mut (), &mut ())), n, steps, |k, i| k.id as usize == i),
    }
}
/// partly consumed iterators show the rest as a slice
fn rest(n: usize) {
    let n = pick(n + 1);
    let (mut m, md) = list(n, false);
    let (a, b) = (pick(n + 1), pick(n + 1));
    let whole = |s: &Slice<K, u64>, lo: usize, hi: usize| {
        let hi = hi.max(lo);
        check(s.len() == hi - lo, 20);
        let mut i = lo;
        for (k, v) in s {
            check(k.id == md.k[i] && *v == md.v[i], 21);
            i += 1;
        }
    };
    macro_rules! go {
        ($it:expr, $sl:ident) => {{
            let mut it = $it;
            let mut i = 0;
            while i < a {
                it.next();
                i += 1;
            }
            let mut i = 0;
            while i < b {
                it.next_back();
                i += 1;
            }
            whole(&it.$sl()[..], a.min(n), (n - b).max(a));
        }};
    }
    match pick(9) {
        0 => go!(m.iter(), as_slice),
        1 => go!(m.iter_mut(), as_slice),
        2 => go!(m.iter_mut(), into_slice),
        3 => go!(m.into_iter(), as_slice),
        4 => go!(m.into_iter(), as_mut_slice),
        5 => {
            let k = m.keys();
            let j = pick(n + 1);
            let mut x = None;
            catch(|| x = Some(k[j].id));
            check(x == if j < n { Some(md.k[j]) } else { None }, 22);
        }
        6 => {
            // a copied iterator continues from the same place
            let mut it = m.iter();
            it.nth(a);
            let c = it.clone();
            check(c.len() == it.len(), 23);
            check(c.map(|(k, _)| k.id as u64).sum::<u64>() == it.map(|(k, _)| k.id as u64).sum::<u64>(), 24);
        }
        7 => {
            let mut d = ok(m.drain(.., &mut (), &mut ()));
            let mut i = 0;
            while i < a {
                d.next();
                i += 1;
            }
            whole(d.as_slice(), a, n);
        }
        _ => {
            // writes through the mutable iterators land in the right entries
            let x = sym(16);
            let j = pick(n + 1);
            if let Some((k, v)) = m.iter_mut().nth(j) {
                check(k.id == md.k[j], 25);
                *v = x;
            }
            let mut i = 0;
            for v in m.values() {
                check(*v == if i == j { x } else { md.v[i] }, 26);
                i += 1;
            }
        }
    }
    cover(1);
}
/// any 64-bit bounds of any kind
fn sbound() -> Bound<usize> {
    match pick(3) {
        0 => Bound::Included(sym(64) as usize),
        1 => Bound::Excluded(sym(64) as usize),
        _ => Bound::Unbounded,
    }
}
/// mathematical position of a bound, in 128 bits
fn pos(b: Bound<usize>, start: bool, n: usize) -> u128 {
    match b {
        Bound::Included(i) => i as u128 + if start { 0 } else { 1 },
        Bound::Excluded(i) => i as u128 + if start { 1 } else { 0 },
        Bound::Unbounded => {
            if start {
                0
            } else {
                n as u128
            }
        }
    }
}
fn ranges(n: usize) {
    let n = pick(n + 1);
    let (mut m, md) = list(n, false);
    let r = (sbound(), sbound());
    let (a, b) = (pos(r.0, true, n), pos(r.1, false, n));
    let valid = a <= b && b <= n as u128;
    let mut s: RubySet<K, (), (), (), BH> = RubySet::with_hasher(BH);
    let how = pick(7);
    if how == 6 {
        let mut i = 0;
        while i < n {
            ok(s.insert(K { id: md.k[i], h: 0 }, &mut (), &mut ()));
            i += 1;
        }
        let g = s.get_range(r);
        check(g.is_some() == valid, 30);
        if let Some(g) = g {
            check(g.len() as u128 == b - a, 31);
            if !g.is_empty() {
                check(g[0].id == md.k[a as usize] && g[g.len() - 1].id == md.k[b as usize - 1], 32);
            }
        }
        cover(1);
        return;
    }
    let same = |g: &Slice<K, u64>| {
        let (a, b) = (conc(a as u64) as usize, conc(b as u64) as usize);
        check(g.len() == b - a && g.is_empty() == (a == b), 33);
        let mut i = a;
        for (k, v) in g {
            check(k.id == md.k[i] && *v == md.v[i], 34);
            i += 1;
        }
    };
    let mut got = false;
    match how {
        0 => {
            if let Some(g) = m.get_range(r) {
                got = true;
                same(g);
            }
        }
        1 => {
            if let Some(g) = m.get_range_mut(r) {
                got = true;
                same(g);
            }
        }
        2 => {
            if let Some(g) = m.as_slice().get_range(r) {
                got = true;
                same(g);
            }
        }
        3 => {
            catch(|| {
                let g = &m[r];
                got = true;
                same(g);
            });
        }
        4 => {
            catch(|| {
                let g = &m.as_slice()[r];
                got = true;
                same(g);
            });
        }
        _ => {
            let l0 = m.len();
            catch(|| {
                let d = ok(m.drain(r, &mut (), &mut ()));
                got = true;
                check(d.len() as u128 == b - a, 35);
            });
            check(m.len() as u128 == if valid { l0 as u128 - (b - a) } else { l0 as u128 }, 36);
        }
    }
    check(got == valid, 37);
    cover(1);
}
/// positional reads and splits, at any 64-bit index
fn indices(n: usize) {
    let n = pick(n + 1);
    let (mut m, md) = list(n, false);
    let i = sym(64) as usize;
    let inn = i < n;
    let is = |k: u8, v: u64, i: usize| {
        let i = conc(i as u64) as usize;
        k == md.k[i] && v == md.v[i]
    };
    match pick(12) {
        0 => match m.get_index(i) {
            Some((k, v)) => check(inn && is(k.id, *v, i), 40),
            None => check(!inn, 41),
        },
        1 => match m.get_index_mut(i) {
            Some((k, v)) => check(inn && is(k.id, *v, i), 42),
            None => check(!inn, 43),
        },
        2 => {
            let mut x = None;
            catch(|| x = Some(m[i]));
            check(x.is_some() == inn, 44);
            if let Some(v) = x {
                check(v == md.v[conc(i as u64) as usize], 45);
            }
        }
        3 => {
            let w = sym(16);
            let mut done = false;
            catch(|| {
                m[i] = w;
                done = true;
            });
            check(done == inn, 46);
            let mut j = 0;
            for v in m.values() {
                check(*v == if j == i { w } else { md.v[j] }, 47);
                j += 1;
            }
        }
        4 => match m.as_slice().get_index(i) {
            Some((k, v)) => check(inn && is(k.id, *v, i), 48),
            None => check(!inn, 49),
        },
        5 => {
            let mut done = false;
            catch(|| {
                let (a, b) = m.as_slice().split_at(i);
                done = true;
                let i = conc(i as u64) as usize;
                check(a.len() == i && b.len() == n - i, 50);
                if let Some((k, v)) = b.first() {
                    check(is(k.id, *v, i), 51);
                }
                if let Some((k, v)) = a.last() {
                    check(is(k.id, *v, i - 1), 52);
                }
            });
            check(done == (i <= n), 53);
        }
        6 => {
            let mut done = false;
            catch(|| {
                let (a, b) = m.as_mut_slice().split_at_mut(i);
                done = true;
                let i = conc(i as u64) as usize;
                check(a.len() == i && b.len() == n - i, 54);
                if let Some((k, v)) = b.first_mut() {
                    check(is(k.id, *v, i), 55);
                }
                if let Some((k, v)) = a.last_mut() {
                    check(is(k.id, *v, i - 1), 56);
                }
            });
            check(done == (i <= n), 57);
        }
        7 => match m.as_slice().split_first() {
            Some(((k, v), r)) => check(n > 0 && is(k.id, *v, 0) && r.len() == n - 1, 58),
            None => check(n == 0, 59),
        },
        8 => match m.as_slice().split_last() {
            Some(((k, v), r)) => check(n > 0 && is(k.id, *v, n - 1) && r.len() == n - 1, 60),
            None => check(n == 0, 61),
        },
        9 => {
            let j = sym(64) as usize;
            match m.get_disjoint_indices_mut([i, j]) {
                Ok([x, y]) => {
                    check(inn && j < n && i != j, 62);
                    check(is(x.0.id, *x.1, i) && is(y.0.id, *y.1, j), 63);
                }
                Err(GetDisjointMutError::OverlappingIndices) => check(i == j, 64),
                Err(GetDisjointMutError::IndexOutOfBounds) => check(!(inn && j < n), 65),
            }
        }
        10 => match m.as_mut_slice().split_first_mut() {
            Some(((k, v), r)) => check(n > 0 && is(k.id, *v, 0) && r.len() == n - 1, 66),
            None => check(n == 0, 67),
        },
        _ => match m.as_mut_slice().split_last_mut() {
            Some(((k, v), r)) => check(n > 0 && is(k.id, *v, n - 1) && r.len() == n - 1, 68),
            None => check(n == 0, 69),
        },
    }
    cover(1);
}
/// ordered searches with unknown ascending keys (ties allowed among values)
fn search(n: usize) {
    let n = pick(n + 1);
    let (mut m, _) = list(0, false);
    let mut vals = [0u64; 8];
    let mut i = 0;
    while i < n {
        vals[i] = sym(8);
        if i > 0 {
            assume(vals[i - 1] <= vals[i]);
        }
        ok(m.insert(K { id: 2 * i as u8 + 1, h: 0 }, vals[i], &mut (), &mut ()));
        i += 1;
    }
    let x = sym(8);
    let (mut lt, mut le) = (0, 0);
    let mut i = 0;
    while i < n {
        lt += (vals[i] < x) as usize;
        le += (vals[i] <= x) as usize;
        i += 1;
    }
    let sl = pick(2) == 1;
    let good = |r: Result<usize, usize>| match r {
        Ok(i) => check(i >= lt && i < le, 70),
        Err(i) => check(i == lt && lt == le, 71),
    };
    match pick(5) {
        0 => good(if sl { m.as_slice().binary_search_by(|_, v| v.cmp(&x)) } else { m.binary_search_by(|_, v| v.cmp(&x)) }),
        1 => good(if sl { m.as_slice().binary_search_by_key(&x, |_, v| *v) } else { m.binary_search_by_key(&x, |_, v| *v) }),
        2 => check(
            lt == if sl { m.as_slice().partition_point(|_, v| *v < x) } else { m.partition_point(|_, v| *v < x) },
            72,
        ),
        3 => {
            let k = K { id: sym8(), h: 0 };
            let r = if sl { m.as_slice().binary_search_keys(&k) } else { m.binary_search_keys(&k) };
            // ids are 1, 3, 5, ...
            match r {
                Ok(i) => check(i < n && k.id as usize == 2 * i + 1, 73),
                Err(i) => check(
                    (i == 0 || 2 * i as u64 - 1 < k.id as u64) && (i == n || (2 * i as u64 + 1) > k.id as u64),
                    74,
                ),
            }
        }
        _ => {
            let mut s: RubySet<K, (), (), (), BH> = RubySet::with_hasher(BH);
            let mut i = 0;
            while i < n {
                ok(s.insert(K { id: 2 * i as u8 + 1, h: 0 }, &mut (), &mut ()));
                i += 1;
            }
            let k = K { id: sym8(), h: 0 };
            let r = match (sl, pick(3)) {
                (true, 0) => s.as_slice().binary_search(&k),
                (true, 1) => s.as_slice().binary_search_by(|q| q.cmp(&k)),
                (true, _) => s.as_slice().binary_search_by_key(&k.id, |q| q.id),
                (_, 0) => s.binary_search(&k),
                (_, 1) => s.binary_search_by(|q| q.cmp(&k)),
                _ => s.binary_search_by_key(&k.id, |q| q.id),
            };
            match r {
                Ok(i) => check(i < n && k.id as usize == 2 * i + 1, 75),
                Err(i) => {
                    check((i == 0 || 2 * i as u64 - 1 < k.id as u64) && (i == n || (2 * i as u64 + 1) > k.id as u64), 76);
                    check(i == s.partition_point(|q| q.id < k.id), 77);
                }
            }
        }
    }
    cover(1);
}
/// several values at once, by key
fn disjoint<const U: usize>(h: Hs, indexed: bool) {
    let ks = Keys::<U>::new(h);
    let n = pick(U + 1);
    let (mut m, mut md) = build(n, indexed, &ks.0);
    let (a, b) = (pick(U), pick(U));
    let x = sym(16);
    let mut got = None;
    let r = catch(|| {
        let [p, q] = ok(m.get_disjoint_mut([&ks.0[a], &ks.0[b]], &mut (), &mut ()));
        got = Some((p.as_deref().copied(), q.as_deref().copied()));
        if let Some(p) = p {
            *p = x;
        }
    });
    let clash = a == b && a < n;
    check((r == 0) != clash, 80);
    if let Some((p, q)) = got {
        check(opt_eq(p, md.find(a as u8).map(|i| md.v[i])), 81);
        check(opt_eq(q, md.find(b as u8).map(|i| md.v[i])), 82);
        if a < n {
            md.put(a as u8, x);
        }
    }
    agree_at(&m, &md, ks.0[b]);
    cover(1);
}
/// slices compare as sequences of pairs
fn slices(n: usize) {
    let (na, nb) = (pick(n + 1), pick(n + 1));
    let (a, ad) = list(na, false);
    let (b, bd) = list(nb, false);
    let mut ord = std::cmp::Ordering::Equal;
    let mut i = 0;
    while i < na && i < nb {
        ord = ord.then(ad.v[i].cmp(&bd.v[i]));
        i += 1;
    }
    let ord = ord.then(na.cmp(&nb));
    check(a.as_slice().cmp(b.as_slice()) == ord, 90);
    check((a.as_slice() == b.as_slice()) == (ord == std::cmp::Ordering::Equal), 91);
    check(a.as_slice().partial_cmp(b.as_slice()) == Some(ord), 92);
    let c: Box<Slice<K, u64>> = Box::from(a.as_slice());
    check(*c == *a.as_slice() && *c.clone() == *a.as_slice(), 93);
    cover(1);
}
/// H12: entries read through the published offsets are those of the safe interface
fn layout(n: usize, indexed: bool, kinds: &[usize]) {
    let n = pick(n + 1);
    let mut ks = [K { id: 0, h: 0 }; 12];
    let mut i = 0;
    while i < 12 {
        ks[i] = K { id: i as u8, h: i as u64 };
        i += 1;
    }
    let (mut m, mut md) = build(n, indexed, &ks);
    if !kinds.is_empty() {
        step(&mut m, &mut md, kinds, &ks[..n + 1], n + 1);
    }
    let lay = match rubymap::entries_layout::<K, u64, (), (), (), BH>() {
        Some(l) => l,
        None => {
            check(false, 100);
            return;
        }
    };
    let p = &m as *const M as *const u8;
    unsafe {
        let len = p.add(lay.len_offset).cast::<usize>().read();
        check(len == md.n, 101);
        let base = p.add(lay.ptr_offset).cast::<*const u8>().read();
        let mut i = 0;
        while i < md.n {
            let e = base.add(i * lay.bucket_size);
            let k = e.add(lay.key_offset).cast::<K>().read();
            let v = e.add(lay.value_offset).cast::<u64>().read();
            check(k.id == md.k[i] && v == md.v[i], 102);
            i += 1;
        }
        // a scan for a key, as generated code does it, against the lookup
        let key = sym8();
        let mut found = None;
        let mut i = 0;
        while i < len {
            let e = base.add(i * lay.bucket_size);
            if (*e.add(lay.key_offset).cast::<K>()).id == key {
                found = Some(e.add(lay.value_offset).cast::<u64>().read());
            }
            i += 1;
        }
        if key < 12 {
            let k = ks[conc(key as u64) as usize];
            check(opt_eq(found, ok(m.get(&k, &mut (), &mut ())).copied()), 107);
        } else {
            check(found.is_none(), 108);
        }
    }
    cover(1);
}
/// the same for a key type whose unused bit patterns make the compiler reorder the fields
fn layout_niche(n: usize) {
    type NM = RubyMap<Option<Box<u8>>, u64, (), (), (), BH>;
    let n = pick(n + 1);
    let m0: RubyMap<K, u64, (), (), (), BH> = build(n, pick(2) == 1, &Keys::<9>::plan(0, &[]).0).0;
    let vals: Vec<u64> = m0.values().copied().collect();
    let m: NM = m0.map_keys(|k| Some(Box::new(k.id)));
    let lay = match rubymap::entries_layout::<Option<Box<u8>>, u64, (), (), (), BH>() {
        Some(l) => l,
        None => {
            check(false, 103);
            return;
        }
    };
    let p = &m as *const NM as *const u8;
    unsafe {
        check(p.add(lay.len_offset).cast::<usize>().read() == n, 104);
        let base = p.add(lay.ptr_offset).cast::<*const u8>().read();
        let mut i = 0;
        while i < n {
            let e = base.add(i * lay.bucket_size);
            let k = &*e.add(lay.key_offset).cast::<Option<Box<u8>>>();
            check(matches!(k, Some(b) if **b as usize == i), 105);
            check(e.add(lay.value_offset).cast::<u64>().read() == vals[i], 106);
            i += 1;
        }
    }
    cover(1);
}
entries! {
    h11_walk => iters(3, false, 3);
    h11_walk4 => iters(4, true, 3);
    h11_set => set_iters(3, 2);
    h11_set3 => set_iters(3, 3);
    h11_walk44 => iters(4, true, 4);
    h11_rest => rest(4);
    h11_ranges => ranges(3);
    h11_indices => indices(3);
    h11_search => search(4);
    h11_search7 => search(7);
    h11_disjoint => disjoint::<3>(Hs::Narrow, true);
    h11_disjoint_lin => disjoint::<3>(Hs::Narrow, false);
    h11_slices => slices(2);
    h12_small => layout(8, false, &[]);
    h12_indexed => layout(10, true, &[0, 2, 3, 4, 9]);
    h12_niche => layout_niche(9);
}

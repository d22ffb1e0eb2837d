//! Q01: the random number stream (monoruby/src/globals/prng.rs) behind Kernel#rand, Random,
//! Array#shuffle and #sample: bit-identical to the reference generator for every seed, and draws
//! limited to a range are exactly those of CRuby's rejection scheme.
use crate::v::*;

mod shim {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/prng.rs"));
}
use shim::*;

// ------------------------------------------------------------- reference (mt19937ar)
struct Ref {
    s: Vec<u32>,
    at: usize,
}
impl Ref {
    fn genrand(seed: u32) -> Ref {
        let mut s = vec![0u32; 624];
        s[0] = seed;
        for j in 1..624 {
            let x = s[j - 1];
            s[j] = 1812433253u32.wrapping_mul(x ^ (x >> 30)).wrapping_add(j as u32);
        }
        Ref { s, at: 624 }
    }
    fn by_array(key: &[u32]) -> Ref {
        let mut r = Ref::genrand(19650218);
        let s = &mut r.s;
        let mut i = 1;
        let mut j = 0;
        for _ in 0..key.len().max(624) {
            let x = s[i - 1];
            s[i] = (s[i] ^ (x ^ (x >> 30)).wrapping_mul(1664525)).wrapping_add(key[j]).wrapping_add(j as u32);
            i += 1;
            j = (j + 1) % key.len();
            if i == 624 {
                s[0] = s[623];
                i = 1;
            }
        }
        for _ in 0..623 {
            let x = s[i - 1];
            s[i] = (s[i] ^ (x ^ (x >> 30)).wrapping_mul(1566083941)).wrapping_sub(i as u32);
            i += 1;
            if i == 624 {
                s[0] = s[623];
                i = 1;
            }
        }
        s[0] = 0x80000000;
        r
    }
    fn next(&mut self) -> u32 {
        if self.at == 624 {
            for k in 0..624 {
                let y = (self.s[k] & 0x80000000) | (self.s[(k + 1) % 624] & 0x7fffffff);
                self.s[k] = self.s[(k + 397) % 624] ^ (y >> 1) ^ if y & 1 == 0 { 0 } else { 0x9908b0df };
            }
            self.at = 0;
        }
        let y = self.s[self.at];
        self.at += 1;
        temper(y)
    }
}
fn temper(mut y: u32) -> u32 {
    y ^= y >> 11;
    y ^= (y << 7) & 0x9d2c5680;
    y ^= (y << 15) & 0xefc60000;
    y ^ (y >> 18)
}

fn stream(mut a: Mt, mut b: Ref, n: usize) {
    for i in 0..n {
        let (x, y) = (a.next_u32(), b.next());
        check(x == y, 1);
        if i % 97 == 0 {
            obs(x as u64);
        }
    }
    cover(1);
}

// ------------------------------------------------------------- generators with unknown draws

/// Replaces the words a generator will draw next.  The words are found in its memory: after one
/// draw from seed 0 they are known.
fn plant<T>(g: &mut T, words: &[u32]) {
    let mut r = Ref::genrand(0);
    r.next();
    let n = std::mem::size_of::<T>() / 4;
    let p = g as *mut T as *mut u32;
    let at = (0..n).find(|i| unsafe { *p.add(*i) == r.s[1] && *p.add(i + 1) == r.s[2] && *p.add(i + 2) == r.s[3] });
    let Some(at) = at else {
        // a generator that keeps its state differently: only the stream itself is compared
        cover(1);
        assume(false);
        return;
    };
    for (k, w) in words.iter().enumerate() {
        unsafe { *p.add(at + k) = *w };
    }
    // then draws of 0
    for k in words.len()..words.len() + 12 {
        unsafe { *p.add(at + k) = 0 };
    }
}

fn unknown_mt(n: usize) -> (Mt, Vec<u32>) {
    let mut m = Mt::init_genrand(0);
    m.next_u32();
    let w: Vec<u32> = (0..n).map(|_| sym(32) as u32).collect();
    plant(&mut m, &w);
    (m, w.iter().map(|x| temper(*x)).collect())
}

/// CRuby's limited_big_rand.
fn limited_ref(draws: &[u32], limit: &[u32], out: &mut [u32]) -> usize {
    let mut used = 0;
    let mut draw = || {
        used += 1;
        if used <= draws.len() { draws[used - 1] } else { 0 }
    };
    'retry: loop {
        let mut all = false;
        let mut tight = true;
        for i in (0..limit.len()).rev() {
            let lim = limit[i];
            let mask = if all {
                u32::MAX
            } else {
                // smallest 2^k-1 not below lim
                let mut m = lim;
                for s in [1, 2, 4, 8, 16] {
                    m |= m >> s;
                }
                m
            };
            all |= mask != 0;
            let mut v = 0;
            if mask != 0 {
                v = draw() & mask;
                if tight {
                    if v > lim {
                        continue 'retry;
                    }
                    tight = v == lim;
                }
            }
            out[i] = v;
        }
        break;
    }
    used
}

fn limited(len: usize, draws: usize) {
    let (mut m, d) = unknown_mt(draws);
    let limit: Vec<u32> = (0..len).map(|_| sym(32) as u32).collect();
    let mut cnt = 7;
    let got = limited_rand(&mut m, &mut cnt, &limit);
    let mut want = vec![0; len];
    let used = limited_ref(&d, &limit, &mut want);
    check(got.len() == len, 10);
    let mut same = true;
    for i in 0..len {
        same &= got[i] == want[i];
    }
    check(same, 11);
    check(cnt == 7 + used as u64, 12);
    // within the limit
    let mut le = true;
    for i in 0..len {
        le = if got[i] == limit[i] { le } else { got[i] < limit[i] };
    }
    check(le, 13);
    // what was drawn is what the count says
    check(m.next_u32() == d.get(used).copied().unwrap_or(0), 14);
    cover(1);
    obs(used as u64);
}

fn ulong() {
    let (mut m, d) = unknown_mt(3);
    let max = sym(64);
    let mut cnt = 0;
    let got = ulong_limited(&mut m, &mut cnt, max);
    check(got <= max, 20);
    let (lo, hi) = (max as u32, (max >> 32) as u32);
    let mut out = [0; 2];
    let used = if max == 0 {
        0
    } else if hi == 0 {
        limited_ref(&d, &[lo], &mut out[..1])
    } else {
        limited_ref(&d, &[lo, hi], &mut out)
    };
    check(got == out[0] as u64 | (out[1] as u64) << 32, 21);
    check(cnt == used as u64, 22);
    cover(1);
    // the global generator draws the same
    let mut g = Prng::new();
    let mut b = [0u8; 1];
    g.fill_bytes(&mut b);
    check(b[0] == Ref::genrand(0).next() as u8, 23);
    obs(used as u64);
}

fn global() {
    let mut g = Prng::new();
    g.fill_bytes(&mut [0u8; 1]);
    let w: Vec<u32> = (0..2).map(|_| sym(32) as u32).collect();
    plant(&mut g, &w);
    let d: Vec<u32> = w.iter().map(|x| temper(*x)).collect();
    let max = sym(64);
    let got = g.ulong_limited(max);
    let (lo, hi) = (max as u32, (max >> 32) as u32);
    let mut out = [0; 2];
    if max != 0 {
        if hi == 0 {
            limited_ref(&d, &[lo], &mut out[..1]);
        } else {
            limited_ref(&d, &[lo, hi], &mut out);
        }
    }
    check(got == out[0] as u64 | (out[1] as u64) << 32, 24);
    cover(1);
}

fn bytes(n: usize) {
    let (mut m, d) = unknown_mt(4);
    let mut out = vec![0x77u8; n];
    m.fill_bytes(&mut out);
    let mut same = true;
    for i in 0..n {
        same &= out[i] == (d[i / 4] >> (8 * (i % 4))) as u8;
    }
    check(same, 30);
    // a partial word still takes a whole draw
    let used = n.div_ceil(4);
    check(m.next_u32() == d.get(used).copied().unwrap_or(0), 31);
    cover(1);
}

/// Eight unknown bits in each draw, at some place, the others 0 or 1: float arithmetic over more
/// unknown bits is beyond the solver.
fn window(d: &[u32]) {
    for x in d {
        let at = 6 + 9 * pick(3);
        let ones = pick(2) == 1;
        let m = !(0xffu32 << at);
        assume(x & m == if ones { m } else { 0 });
    }
}

/// A Float in [0,1): the 53-bit fraction of two draws, exactly.
fn real() {
    let (mut m, d) = unknown_mt(2);
    window(&d);
    let mut cnt = 1;
    let x = next_real(&mut m, &mut cnt);
    check(cnt == 3, 40);
    let frac = ((d[0] >> 5) as u64) << 26 | (d[1] >> 6) as u64;
    check(real_is(x, frac), 41);
    check(x < 1.0 && x >= 0.0, 42);
    cover(1);
}

/// x == frac / 2^53 for frac <= 2^53, bit for bit.
fn real_is(x: f64, frac: u64) -> bool {
    let b = x.to_bits();
    if frac == 0 {
        return b == 0;
    }
    let lz = frac.leading_zeros() as u64; // >= 10
    // frac = 1.f * 2^(63-lz), and 2^-53 of it
    let e = 63 - lz + 1023 - 53;
    let m = ((frac << lz) << 1) >> 12;
    b == e << 52 | m
}

fn real_global(incl: bool) {
    let mut g = Prng::new();
    g.fill_bytes(&mut [0u8; 1]);
    let w: Vec<u32> = (0..2).map(|_| sym(32) as u32).collect();
    plant(&mut g, &w);
    let d: Vec<u32> = w.iter().map(|x| temper(*x)).collect();
    window(&d);
    if incl {
        let x = g.next_real_inclusive();
        // round(a:b * (2^53+1) / 2^64): both ends included
        let ab = (d[0] as u64) << 32 | d[1] as u64;
        let hi = (ab >> 11) as u128;
        let lo = ((ab << 53) as u128 + ab as u128) >> 64;
        let frac = (hi + lo) as u64;
        check(frac <= 1 << 53, 50);
        check(real_is(x, frac), 51);
        check(x >= 0.0 && x <= 1.0, 52);
        if x == 1.0 {
            cover(2);
        }
    } else {
        let x = g.next_real();
        let frac = ((d[0] >> 5) as u64) << 26 | (d[1] >> 6) as u64;
        check(real_is(x, frac), 53);
    }
    cover(1);
}

entries! {
    q01_seed => stream(Mt::init_genrand(0), Ref::genrand(0), 3);
    q01_stream => { let s = sym(32) as u32; stream(Mt::init_genrand(s), Ref::genrand(s), 640) };
    q01_stream2 => { let s = sym(32) as u32; stream(Mt::init_genrand(s), Ref::genrand(s), 1300) };
    q01_key1 => { let k = [sym(32) as u32]; stream(Mt::new_with_key(&k), Ref::by_array(&k), 626) };
    q01_key2 => { let k = [sym(32) as u32, sym(32) as u32]; stream(Mt::new_with_key(&k), Ref::by_array(&k), 626) };
    q01_key3 => { let k = [sym(32) as u32, sym(32) as u32, sym(32) as u32]; stream(Mt::new_with_key(&k), Ref::by_array(&k), 626) };
    q01_key624 => { let k: Vec<u32> = (0..624).map(|_| sym(32) as u32).collect(); stream(Mt::new_with_key(&k), Ref::by_array(&k), 3) };
    q01_key626 => { let k: Vec<u32> = (0..626).map(|_| sym(32) as u32).collect(); stream(Mt::new_with_key(&k), Ref::by_array(&k), 3) };
    q01_lim1 => limited(1, 2);
    q01_lim1d => limited(1, 4);
    q01_lim2 => limited(2, 3);
    q01_lim3 => limited(3, 4);
    q01_ulong => ulong();
    q01_global => global();
    q01_bytes => bytes(pick(10));
    q01_real => real();
    q01_realg => real_global(false);
    q01_reali => real_global(true);
}

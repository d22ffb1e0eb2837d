//! Keys, hashers and the list model shared by the harnesses.
use crate::v::*;
use rubymap::{RubyEql, RubyHash};
use std::hash::{BuildHasher, Hasher};

/// Hasher that passes the key's 64-bit hash through, so a harness controls it completely.
#[derive(Clone, Copy, Default)]
pub struct BH;
#[derive(Clone, Copy, Default)]
pub struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _b: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
impl BuildHasher for BH {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        H(0)
    }
}

/// Key: identity `id`, hash `h` (a function of the id, unknown to the code).
#[derive(Clone, Copy, Debug)]
pub struct K {
    pub id: u8,
    pub h: u64,
}
impl RubyEql<(), (), ()> for K {
    fn eql(&self, o: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
        Ok(self.id == o.id)
    }
}
impl RubyHash<(), (), ()> for K {
    fn ruby_hash<HH: Hasher>(&self, s: &mut HH, _: &mut (), _: &mut ()) -> Result<(), ()> {
        s.write_u64(self.h);
        Ok(())
    }
}
impl PartialEq for K {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}
impl std::hash::Hash for K {
    fn hash<HH: Hasher>(&self, s: &mut HH) {
        s.write_u64(self.h)
    }
}

/// How much of a key's hash is unknown.
#[derive(Clone, Copy)]
pub enum Hs {
    /// all 64 bits
    Full,
    /// tag bits (top 7) and the low `p` position bits; the rest zero
    Pos(u32),
    /// tag bits, and one of the positions 0, 1, last-1, last of any table of up to 64 slots
    Edge,
    /// as Edge, with a tag out of two
    Narrow,
}
/// 0, 1, 62, 63
fn edge(s: u64) -> u64 {
    let b = s & 2;
    (s & 1) | b | (b << 1) | (b << 2) | (b << 3) | (b << 4)
}
pub fn hash(hs: Hs) -> u64 {
    match hs {
        Hs::Full => sym(64),
        Hs::Pos(p) => sym(p) | (sym(7) << 57),
        Hs::Edge => {
            let s = sym(2);
            edge(s) | (sym(7) << 57)
        }
        Hs::Narrow => {
            let s = sym(2);
            edge(s) | (sym(1) << 57)
        }
    }
}

/// The key universe of a harness.
pub struct Keys<const U: usize>(pub [K; U]);
impl<const U: usize> Keys<U> {
    pub fn new(hs: Hs) -> Self {
        let mut a = [K { id: 0, h: 0 }; U];
        let mut i = 0;
        while i < U {
            a[i] = K { id: i as u8, h: hash(hs) };
            i += 1;
        }
        Keys(a)
    }
    /// Fixed hashes following one of four layouts (spread; all equal; one position with different
    /// tags; one tag at different positions), except for the keys in `free`, whose hashes are
    /// unknown (Edge).
    pub fn plan(plan: usize, free: &[usize]) -> Self {
        let mut a = [K { id: 0, h: 0 }; U];
        let mut i = 0;
        while i < U {
            let x = i as u64;
            let h = match plan {
                0 => x | (x << 57),
                1 => 62 | (5 << 57),
                2 => 63 | (x << 57),
                _ => x | (5 << 57),
            };
            a[i] = K { id: i as u8, h };
            i += 1;
        }
        let mut j = 0;
        while j < free.len() {
            a[free[j]].h = hash(Hs::Edge);
            j += 1;
        }
        Keys(a)
    }
    pub fn pick(&self) -> K {
        self.0[pick(U)]
    }
}

/// The specification: a list of (key id, value).
#[derive(Clone, Copy)]
pub struct Model<const N: usize> {
    pub n: usize,
    pub k: [u8; N],
    pub v: [u64; N],
}
impl<const N: usize> Model<N> {
    pub fn new() -> Self {
        Model { n: 0, k: [0; N], v: [0; N] }
    }
    pub fn find(&self, id: u8) -> Option<usize> {
        let mut i = 0;
        while i < self.n {
            if self.k[i] == id {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    /// write; returns (position, old value)
    pub fn put(&mut self, id: u8, v: u64) -> (usize, Option<u64>) {
        match self.find(id) {
            Some(i) => {
                let o = self.v[i];
                self.v[i] = v;
                (i, Some(o))
            }
            None => {
                let i = self.n;
                self.k[i] = id;
                self.v[i] = v;
                self.n += 1;
                (i, None)
            }
        }
    }
    pub fn shift_remove_at(&mut self, i: usize) -> (u8, u64) {
        let r = (self.k[i], self.v[i]);
        let mut j = i;
        while j + 1 < self.n {
            self.k[j] = self.k[j + 1];
            self.v[j] = self.v[j + 1];
            j += 1;
        }
        self.n -= 1;
        r
    }
    pub fn swap_remove_at(&mut self, i: usize) -> (u8, u64) {
        let r = (self.k[i], self.v[i]);
        self.n -= 1;
        self.k[i] = self.k[self.n];
        self.v[i] = self.v[self.n];
        r
    }
    pub fn insert_at(&mut self, i: usize, id: u8, v: u64) {
        let mut j = self.n;
        while j > i {
            self.k[j] = self.k[j - 1];
            self.v[j] = self.v[j - 1];
            j -= 1;
        }
        self.k[i] = id;
        self.v[i] = v;
        self.n += 1;
    }
    pub fn move_to(&mut self, from: usize, to: usize) {
        let (k, v) = self.shift_remove_at(from);
        self.insert_at(to, k, v);
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        self.k.swap(a, b);
        self.v.swap(a, b);
    }
    pub fn reverse(&mut self) {
        let mut i = 0;
        while i < self.n / 2 {
            self.swap(i, self.n - 1 - i);
            i += 1;
        }
    }
}

pub fn opt_eq(a: Option<u64>, b: Option<u64>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x == y,
        (None, None) => true,
        _ => false,
    }
}

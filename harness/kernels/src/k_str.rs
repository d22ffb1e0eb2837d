//! W01: the interpreter's String (monoruby/src/value/rvalue/string.rs): bytes, encoding, the cached
//! classification, characters and shared buffers, against rules for the encodings written here.
use crate::v::*;
use std::mem::ManuallyDrop;

/// Stand-ins for what the file takes from the rest of the interpreter.
pub mod shim {
    use super::string::RStringInner;

    /// The layout the union in string.rs overlays: capacity (the length when inline), then the
    /// bytes or the heap pointer and length.
    pub mod smallvec {
        use std::mem::ManuallyDrop;
        use std::ops::{Deref, DerefMut};

        #[repr(C)]
        #[derive(Clone, Copy)]
        struct Heap {
            ptr: *mut u8,
            len: usize,
        }
        #[repr(C)]
        union Data<A: Copy> {
            inline: A,
            heap: Heap,
        }
        pub trait Arr: Copy {
            const N: usize;
            const ZERO: Self;
        }
        impl<const N: usize> Arr for [u8; N] {
            const N: usize = N;
            const ZERO: Self = [0; N];
        }
        #[repr(C)]
        pub struct SmallVec<A: Arr> {
            cap: usize,
            data: Data<A>,
        }
        impl<A: Arr> SmallVec<A> {
            pub fn new() -> Self {
                SmallVec { cap: 0, data: Data { inline: A::ZERO } }
            }
            pub fn with_capacity(n: usize) -> Self {
                if n <= A::N { Self::new() } else { Self::spill(Vec::with_capacity(n)) }
            }
            fn spill(v: Vec<u8>) -> Self {
                let mut v = ManuallyDrop::new(v);
                SmallVec { cap: v.capacity(), data: Data { heap: Heap { ptr: v.as_mut_ptr(), len: v.len() } } }
            }
            pub fn from_vec(v: Vec<u8>) -> Self {
                if v.capacity() <= A::N { Self::from_slice(&v) } else { Self::spill(v) }
            }
            pub fn from_slice(s: &[u8]) -> Self {
                if s.len() <= A::N {
                    let mut r = Self::new();
                    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), &raw mut r.data as *mut u8, s.len()) };
                    r.cap = s.len();
                    r
                } else {
                    Self::spill(s.to_vec())
                }
            }
            pub fn spilled(&self) -> bool {
                self.cap > A::N
            }
            pub fn len(&self) -> usize {
                if self.spilled() { unsafe { self.data.heap.len } } else { self.cap }
            }
            pub fn is_empty(&self) -> bool {
                self.len() == 0
            }
            pub fn capacity(&self) -> usize {
                if self.spilled() { self.cap } else { A::N }
            }
            pub fn as_ptr(&self) -> *const u8 {
                if self.spilled() { unsafe { self.data.heap.ptr } } else { &raw const self.data as *const u8 }
            }
            pub fn as_mut_ptr(&mut self) -> *mut u8 {
                if self.spilled() { unsafe { self.data.heap.ptr } } else { &raw mut self.data as *mut u8 }
            }
            pub unsafe fn set_len(&mut self, n: usize) {
                if self.spilled() {
                    self.data.heap.len = n
                } else {
                    self.cap = n
                }
            }
            fn on<R>(&mut self, f: impl FnOnce(&mut Vec<u8>) -> R) -> R {
                unsafe {
                    let mut v = Vec::from_raw_parts(self.data.heap.ptr, self.data.heap.len, self.cap);
                    let r = f(&mut v);
                    let mut v = ManuallyDrop::new(v);
                    self.cap = v.capacity();
                    self.data.heap = Heap { ptr: v.as_mut_ptr(), len: v.len() };
                    r
                }
            }
            pub fn reserve(&mut self, n: usize) {
                let len = self.len();
                if self.spilled() {
                    self.on(|v| v.reserve(n))
                } else if len + n > A::N {
                    let mut v = Vec::with_capacity(len + n);
                    v.extend_from_slice(self);
                    *self = Self::spill(v);
                }
            }
            pub fn extend_from_slice(&mut self, s: &[u8]) {
                self.reserve(s.len());
                let len = self.len();
                unsafe {
                    std::ptr::copy_nonoverlapping(s.as_ptr(), self.as_mut_ptr().add(len), s.len());
                    self.set_len(len + s.len());
                }
            }
            pub fn push(&mut self, b: u8) {
                self.extend_from_slice(&[b])
            }
            pub fn pop(&mut self) -> Option<u8> {
                let b = *self.last()?;
                self.truncate(self.len() - 1);
                Some(b)
            }
            pub fn insert(&mut self, i: usize, b: u8) {
                self.push(b);
                self[i..].rotate_right(1);
            }
            pub fn remove(&mut self, i: usize) -> u8 {
                self[i..].rotate_left(1);
                self.pop().unwrap()
            }
            pub fn resize(&mut self, n: usize, b: u8) {
                while self.len() < n {
                    self.push(b);
                }
                self.truncate(n);
            }
            pub fn truncate(&mut self, n: usize) {
                if n < self.len() {
                    unsafe { self.set_len(n) }
                }
            }
            pub fn clear(&mut self) {
                self.truncate(0)
            }
            pub fn as_slice(&self) -> &[u8] {
                self
            }
            pub fn as_mut_slice(&mut self) -> &mut [u8] {
                self
            }
            pub fn into_vec(self) -> Vec<u8> {
                self.to_vec()
            }
        }
        impl<A: Arr> Drop for SmallVec<A> {
            fn drop(&mut self) {
                if self.spilled() {
                    unsafe { drop(Vec::from_raw_parts(self.data.heap.ptr, self.data.heap.len, self.cap)) }
                }
            }
        }
        impl<A: Arr> Deref for SmallVec<A> {
            type Target = [u8];
            fn deref(&self) -> &[u8] {
                unsafe { std::slice::from_raw_parts(self.as_ptr(), self.len()) }
            }
        }
        impl<A: Arr> DerefMut for SmallVec<A> {
            fn deref_mut(&mut self) -> &mut [u8] {
                unsafe { std::slice::from_raw_parts_mut(self.as_mut_ptr(), self.len()) }
            }
        }
        impl<A: Arr> Clone for SmallVec<A> {
            fn clone(&self) -> Self {
                Self::from_slice(self)
            }
        }
        impl<A: Arr> Default for SmallVec<A> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<A: Arr> Extend<u8> for SmallVec<A> {
            fn extend<I: IntoIterator<Item = u8>>(&mut self, i: I) {
                for b in i {
                    self.push(b)
                }
            }
        }
        impl<'a, A: Arr> Extend<&'a u8> for SmallVec<A> {
            fn extend<I: IntoIterator<Item = &'a u8>>(&mut self, i: I) {
                for b in i {
                    self.push(*b)
                }
            }
        }
        impl<A: Arr> FromIterator<u8> for SmallVec<A> {
            fn from_iter<I: IntoIterator<Item = u8>>(i: I) -> Self {
                let mut r = Self::new();
                r.extend(i);
                r
            }
        }
    }

    /// Only for ISO-2022-JP, which the harness leaves out.
    pub mod encoding_rs {
        pub struct Encoding;
        impl Encoding {
            pub fn for_label(_: &[u8]) -> Option<&'static Encoding> {
                None
            }
            pub fn decode_without_bom_handling<'a>(&self, _: &'a [u8]) -> (std::borrow::Cow<'a, str>, bool) {
                (std::borrow::Cow::Borrowed(""), true)
            }
        }
    }

    /// A reference to a String object; what it refers to lives until `free`.
    #[derive(Clone, Copy, PartialEq)]
    pub struct Value(pub *mut Obj);
    pub struct Obj {
        pub inner: RStringInner,
        pub frozen: bool,
        pub old: bool,
        pub edge: *mut Obj,
        pub next: *mut Obj,
    }
    thread_local!(static ALL: std::cell::Cell<*mut Obj> = const { std::cell::Cell::new(std::ptr::null_mut()) });
    impl Value {
        pub fn string_from_inner(inner: RStringInner) -> Value {
            let next = ALL.get();
            let p = Box::into_raw(Box::new(Obj { inner, frozen: false, old: false, edge: std::ptr::null_mut(), next }));
            ALL.set(p);
            Value(p)
        }
        pub fn as_rstring_inner<'a>(&self) -> &'a RStringInner {
            unsafe { &(*self.0).inner }
        }
        pub fn as_rstring_inner_mut<'a>(&mut self) -> &'a mut RStringInner {
            unsafe { &mut (*self.0).inner }
        }
        pub fn is_rstring_inner<'a>(&self) -> Option<&'a RStringInner> {
            Some(self.as_rstring_inner())
        }
        pub fn is_frozen(&self) -> bool {
            unsafe { (*self.0).frozen }
        }
        pub fn set_frozen(&mut self) {
            unsafe { (*self.0).frozen = true }
        }
        pub fn write_barrier(&self, v: Value) {
            unsafe { (*self.0).edge = v.0 }
        }
        pub fn id(&self) -> u64 {
            self.0 as u64
        }
    }
    /// What the collector would free in the end.
    pub fn free_all() {
        let mut p = ALL.replace(std::ptr::null_mut());
        while !p.is_null() {
            let b = unsafe { Box::from_raw(p) };
            p = b.next;
        }
    }

    #[derive(Debug)]
    pub enum MonorubyErr {
        Arg,
        Runtime,
        Incompatible,
    }
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    pub trait Msg {}
    impl Msg for &str {}
    impl Msg for String {}
    impl MonorubyErr {
        pub fn argumenterr(_: impl Msg) -> Self {
            MonorubyErr::Arg
        }
        pub fn runtimeerr(_: impl Msg) -> Self {
            MonorubyErr::Runtime
        }
        pub fn incompatible_encoding<A, B>(_: &Store, _: A, _: B) -> Self {
            MonorubyErr::Incompatible
        }
    }
    pub struct Store;
}
use shim::*;

/// Bytes kept without an allocation (32 in the interpreter).
pub const STRING_INLINE_CAP: usize = 4;
pub const RVALUE_OFFSET_KIND: usize = 0;

pub mod string {
    use super::shim::{encoding_rs, smallvec};
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/string.rs"));
}
use string::*;

// ------------------------------------------------------------------ the encodings, once more

fn encoding(i: usize) -> Encoding {
    match i {
        0 => Encoding::Utf8,
        1 => Encoding::EucJp,
        2 => Encoding::Sjis(0),
        3 => Encoding::UsAscii,
        4 => Encoding::Ascii8,
        5 => Encoding::Utf16Le,
        6 => Encoding::Utf32Be,
        7 => Encoding::Iso8859(1),
        8 => Encoding::NamedByte(0),
        9 => Encoding::Other(0),
        10 => Encoding::Utf16Be,
        _ => Encoding::Utf32Le,
    }
}

fn ascii_compatible(e: Encoding) -> bool {
    !matches!(
        e,
        Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be | Encoding::Other(_) | Encoding::Iso2022Jp
    )
}

fn is(lo: u8, b: u8, hi: u8) -> bool {
    lo <= b && b <= hi
}

/// Width of the well-formed UTF-8 character at the start (table 3-7 of the Unicode standard), or 0.
fn utf8(b: &[u8]) -> usize {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let (a, c, d, e) = (at(0), at(1), at(2), at(3));
    let t = |x| is(0x80, x, 0xbf);
    if a < 0x80 {
        1
    } else if is(0xc2, a, 0xdf) & t(c) {
        2
    } else if (((a == 0xe0) & is(0xa0, c, 0xbf)) | ((is(0xe1, a, 0xec) | is(0xee, a, 0xef)) & t(c)) | ((a == 0xed) & is(0x80, c, 0x9f))) & t(d) {
        3
    } else if (((a == 0xf0) & is(0x90, c, 0xbf)) | (is(0xf1, a, 0xf3) & t(c)) | ((a == 0xf4) & is(0x80, c, 0x8f))) & t(d) & t(e) {
        4
    } else {
        0
    }
}

/// Width of the valid character at the start, or 0.
fn width(e: Encoding, b: &[u8]) -> usize {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let (a, c, d) = (at(0), at(1), at(2));
    match e {
        Encoding::Utf8 => utf8(b),
        Encoding::EucJp => {
            if a < 0x80 {
                1
            } else if (a == 0x8e) & is(0xa1, c, 0xdf) | is(0xa1, a, 0xfe) & is(0xa1, c, 0xfe) {
                2
            } else if (a == 0x8f) & is(0xa1, c, 0xfe) & is(0xa1, d, 0xfe) {
                3
            } else {
                0
            }
        }
        Encoding::Sjis(_) => {
            if (a < 0x80) | is(0xa1, a, 0xdf) {
                1
            } else if (is(0x81, a, 0x9f) | is(0xe0, a, 0xfc)) & is(0x40, c, 0xfc) & (c != 0x7f) {
                2
            } else {
                0
            }
        }
        Encoding::UsAscii => (a < 0x80) as usize,
        Encoding::Utf16Le | Encoding::Utf16Be => (b.len() >= 2) as usize * 2,
        Encoding::Utf32Le | Encoding::Utf32Be => (b.len() >= 4) as usize * 4,
        _ => 1,
    }
}

fn classify(e: Encoding, b: &[u8]) -> CodeRange {
    if b.is_empty() || ascii_compatible(e) && b.iter().fold(0, |a, x| a | *x) < 0x80 {
        return CodeRange::SevenBit;
    }
    let mut i = 0;
    while i < b.len() {
        match width(e, &b[i..]) {
            0 => return CodeRange::Broken,
            n => i += n,
        }
    }
    CodeRange::Valid
}

fn seven(e: Encoding, b: &[u8]) -> bool {
    classify(e, b) == CodeRange::SevenBit
}
fn valid(e: Encoding, b: &[u8]) -> bool {
    classify(e, b) != CodeRange::Broken
}

// ------------------------------------------------------------------ strings and their models

fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|_| sym8()).collect()
}

fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(0, |d, (x, y)| d | (x ^ y)) == 0
}

/// A string of up to `max` bytes whose classification is known already or not.
fn any(max: usize, encs: &[usize]) -> (RStringInner, Vec<u8>, Encoding) {
    let i = encs[pick(encs.len())];
    let e = encoding(i % 50);
    let m = bytes(if i == FOUR { max } else { pick(max + 1) });
    if i == FOUR {
        assume(m[0] >= 0xf0);
    }
    let s = RStringInner::from_encoding(&m, e);
    if pick(2) == 1 {
        s.code_range();
    }
    (s, m, e)
}

/// Everything the string says about itself agrees with its bytes.
fn good(s: &RStringInner, m: &[u8], e: Encoding, id: u32) {
    check(same(s.as_bytes(), m), id);
    check(s.encoding() == e, id + 1);
    let c = classify(e, m);
    check(s.code_range() == c, id + 2);
    check(s.is_ascii_only() == (c == CodeRange::SevenBit), id + 3);
    check(s.is_valid_encoding() == (c != CodeRange::Broken), id + 4);
}

/// UTF-8, the first byte being the lead byte of a four-byte character (or of none).
const FOUR: usize = 50;
const WIDE: &[usize] = &[0, 1, 2];
const NARROW: &[usize] = &[3, 4, 5, 6, 7, 8, 9, 10, 11];

// ------------------------------------------------------------------ entries

/// Strings made from bytes.
fn made(n: usize) {
    let m = bytes(pick(n + 1));
    let utf = valid(Encoding::Utf8, &m);
    match pick(5) {
        0 => {
            let e = encoding(pick(12));
            good(&RStringInner::from_encoding_scanned(&m, e), &m, e, 1);
            good(&RStringInner::from_encoding(&m, e), &m, e, 1);
        }
        1 => {
            good(&RStringInner::bytes(&m), &m, Encoding::Ascii8, 11);
            good(&RStringInner::bytes_from_vec(m.clone()), &m, Encoding::Ascii8, 11);
        }
        2 => {
            let e = if utf { Encoding::Utf8 } else { Encoding::Ascii8 };
            good(&RStringInner::from_vec_scanned(m.clone()), &m, e, 21);
        }
        3 => {
            assume(utf);
            let t = unsafe { std::str::from_utf8_unchecked(&m) };
            good(&RStringInner::from_str(t), &m, Encoding::Utf8, 31);
            good(&RStringInner::from_str_scanned(t), &m, Encoding::Utf8, 31);
            good(&RStringInner::from_string(t.to_string()), &m, Encoding::Utf8, 31);
            good(&RStringInner::from_string_scanned(t.to_string()), &m, Encoding::Utf8, 31);
        }
        _ => {
            let e = encoding(pick(12));
            let mut s = RStringInner::with_encoding_capacity(e, pick(2) * 6);
            good(&s, &[], e, 41);
            s.extend_from_slice_merge_cr(&m);
            good(&s, &m, e, 41);
        }
    }
    cover(1);
}

/// One byte replaced, the encoding changed, a copy taken.
fn edited(n: usize, encs: &[usize]) {
    let (mut s, mut m, e) = any(n, encs);
    match pick(3) {
        0 => {
            assume(!m.is_empty());
            let (i, b) = (pick(m.len()), sym8());
            s.set_byte(i, b);
            m[i] = b;
            good(&s, &m, e, 1);
        }
        1 => {
            let e = encoding(pick(12));
            s.set_encoding(e);
            good(&s, &m, e, 11);
        }
        _ => {
            let mut t = s.clone();
            good(&t, &m, e, 21);
            t.extend_from_slice_no_validate(&[sym8()]);
            good(&s, &m, e, 21);
            good(&t, &[&m[..], &t.as_bytes()[m.len()..]].concat(), e, 21);
        }
    }
    cover(1);
}

/// Raw bytes appended.
fn appended(n: usize, k: usize, encs: &[usize]) {
    let (mut s, m, e) = any(n, encs);
    let b = bytes(pick(k + 1));
    let all = [&m[..], &b[..]].concat();
    match pick(3) {
        0 => s.extend_from_slice_no_validate(&b),
        1 => s.extend_from_slice_merge_cr(&b),
        _ => {
            let ok = s.extend_from_slice_checked(&b).is_ok();
            let utf = matches!(e, Encoding::Utf8 | Encoding::UsAscii);
            check(ok == (!utf || valid(Encoding::Utf8, &b)), 1);
            if !ok {
                good(&s, &m, e, 11);
                return;
            }
        }
    }
    good(&s, &all, e, 21);
    cover(1);
}

/// The encoding of two strings put together: each keeps its meaning.
fn together(e: Encoding, m: &[u8], f: Encoding, o: &[u8], r: Option<Encoding>, id: u32) {
    let free = |e, m: &[u8]| m.is_empty() || seven(e, m);
    let keeps = |e: Encoding, m: &[u8], r: Encoding| e == r || m.is_empty() || (ascii_compatible(e) && ascii_compatible(r) && seven(e, m));
    match r {
        Some(r) => {
            check(r == e || r == f, id);
            check(keeps(e, m, r) & keeps(f, o, r), id + 1);
        }
        None => {
            check(!keeps(e, m, f) & !keeps(f, o, e), id + 2);
            check(!(free(e, m) & free(f, o)) | !ascii_compatible(e) | !ascii_compatible(f), id + 3);
        }
    }
}

/// Another string appended.
fn extended(n: usize, k: usize, es: &[usize], fs: &[usize]) {
    let (mut s, m, e) = any(n, es);
    let (t, o, f) = any(k, fs);
    let r = s.compatible_encoding(&t);
    together(e, &m, f, &o, r, 1);
    match s.extend(&t, &Store) {
        Ok(()) => {
            let r = if o.is_empty() { e } else { r.unwrap_or(e) };
            good(&s, &[&m[..], &o[..]].concat(), r, 11);
            cover(1);
        }
        Err(_) => {
            check(r.is_none(), 21);
            good(&s, &m, e, 31);
        }
    }
    good(&t, &o, f, 41);
}

/// Part of a string replaced by another.
fn spliced(n: usize, k: usize, es: &[usize], fs: &[usize]) {
    let (mut s, m, e) = any(n, es);
    let (t, o, f) = any(k, fs);
    let i = pick(m.len() + 1);
    let l = pick(m.len() - i + 1);
    let r = s.compatible_encoding(&t);
    match s.bytesplice_with(i, l, &t, &Store) {
        Ok(()) => {
            let all = [&m[..i], &o[..], &m[i + l..]].concat();
            let mut r = r.unwrap_or(e);
            if matches!(r, Encoding::Utf8 | Encoding::UsAscii) && !valid(r, &all) {
                r = Encoding::Ascii8;
            }
            good(&s, &all, r, 1);
            cover(1);
        }
        Err(_) => {
            check(r.is_none(), 11);
            good(&s, &m, e, 21);
        }
    }
    good(&t, &o, f, 31);
}

/// Part of a string.
fn part(n: usize, encs: &[usize]) {
    let (s, m, e) = any(n, encs);
    let i = pick(m.len() + 1);
    let j = i + pick(m.len() - i + 1);
    if pick(2) == 0 {
        good(&RStringInner::from_substring(&s, i, j), &m[i..j], e, 1);
        good(&s, &m, e, 11);
    } else {
        let p = Value::string_from_inner(s);
        let t = string_substring(p, i, j);
        good(t.as_rstring_inner(), &m[i..j], e, 21);
        good(p.as_rstring_inner(), &m, e, 31);
        free_all();
    }
    cover(1);
}

/// Repetition.
fn repeated(n: usize, encs: &[usize]) {
    let (s, m, e) = any(n, encs);
    let k = pick(4);
    good(&s.repeat(k), &m.repeat(k), e, 1);
    good(&s, &m, e, 11);
    cover(1);
}

/// The characters, as the iteration should give them: a valid one, or one byte (or what is left of a
/// code unit).
fn characters(e: Encoding, m: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < m.len() {
        let w = match (width(e, &m[i..]), e) {
            (0, Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be) => m.len() - i,
            (0, _) => 1,
            (w, _) => w,
        };
        v.push((i, i + w));
        i += w;
    }
    v
}

/// The characters, their number and where they are.
fn chars(n: usize, encs: &[usize], broken: bool) {
    let (s, m, e) = any(n, encs);
    if !broken {
        assume(valid(e, &m));
    }
    let cs = characters(e, &m);
    match pick(4) {
        0 => {
            let mut k = 0;
            for c in s.iter_char_bytes() {
                check(k < cs.len() && same(c, &m[cs[k].0..cs[k].1]), 1);
                k += 1;
            }
            check(k == cs.len(), 2);
            check(s.char_length() == cs.len(), 3);
        }
        1 => {
            let (i, l) = (pick(n + 2), pick(n + 2));
            assume(i <= cs.len());
            let from = if i < cs.len() { cs[i].0 } else { m.len() };
            let to = if i + l < cs.len() { cs[i + l].0 } else { m.len() };
            let r = s.get_range(i, l);
            check(r.start == from, 11);
            check(r.end == to, 12);
        }
        2 => {
            let r = s.reverse();
            let mut m2 = vec![];
            for (a, b) in cs.iter().rev() {
                m2.extend_from_slice(&m[*a..*b]);
            }
            good(&r, &m2, e, 21);
        }
        _ => {
            let (i, n) = (sym(64) as i64, cs.len() as i64);
            let at = if i < 0 { i.wrapping_add(n) } else { i };
            match s.conv_char_index(i) {
                Some(x) => check(x as i64 == at && at <= n, 31),
                None => check((at < 0) | (at > n), 32),
            }
            // the place before the end of an empty string is its start
            let at = if n == 0 && i == -1 { 0 } else { at };
            match s.conv_char_index2(i) {
                Some(x) => check(x as i64 == at, 33),
                None => check(at < 0, 34),
            }
        }
    }
    good(&s, &m, e, 41);
    cover(1);
}

/// A character outside the basic plane is one character in UTF-16 as well.
fn pair() {
    let (hi, lo) = (0xd8 | sym8() & 3, 0xdc | sym8() & 3);
    let s = RStringInner::from_encoding(&[sym8(), hi, sym8(), lo], Encoding::Utf16Le);
    cover(1);
    check(s.char_length() == 1, 91);
}

/// Reading as UTF-8.
fn reading(n: usize, encs: &[usize]) {
    let (s, m, e) = any(n, encs);
    let ok = valid(Encoding::Utf8, &m);
    let utf = matches!(e, Encoding::Utf8 | Encoding::UsAscii);
    match pick(4) {
        0 => match s.check_utf8() {
            Ok(t) => check(ok && same(t.as_bytes(), &m), 1),
            Err(_) => check(!ok, 2),
        },
        1 => {
            let i = pick(n + 1);
            let cs = characters(Encoding::Utf8, &m);
            let mut at = None;
            for (k, (a, _)) in cs.iter().enumerate() {
                if *a == i {
                    at = Some(k);
                }
            }
            match s.byte_to_char_index(i) {
                Ok(k) => check(ok && at == Some(k), 11),
                Err(_) => check(!ok || at.is_none(), 12),
            }
        }
        2 => {
            assume(utf && !m.is_empty());
            match s.first_code() {
                Ok(c) => {
                    let b = |i: usize| m[i] as u32 & 0x3f;
                    let x = match utf8(&m) {
                        1 => m[0] as u32,
                        2 => (m[0] as u32 & 0x1f) << 6 | b(1),
                        3 => (m[0] as u32 & 0xf) << 12 | b(1) << 6 | b(2),
                        4 => (m[0] as u32 & 7) << 18 | b(1) << 12 | b(2) << 6 | b(3),
                        _ => 0,
                    };
                    check(ok && c == x, 21);
                }
                Err(_) => check(!ok, 22),
            }
        }
        _ => {
            // the byte-for-character image and back
            match s.regex_view() {
                Ok(v) => {
                    if s.needs_byte_mapping() {
                        let t = RStringInner::from_mapped_utf8(&v, e);
                        good(&t, &m, e, 31);
                    } else {
                        check(ok && same(v.as_bytes(), &m), 41);
                    }
                }
                Err(_) => check(!ok, 42),
            }
        }
    }
    cover(1);
}

/// Order and equality are those of the bytes.
fn order(n: usize) {
    let (a, b) = (bytes(pick(n + 1)), bytes(pick(n + 1)));
    let s = RStringInner::bytes(&a);
    let t = RStringInner::bytes(&b);
    let mut d = 0i32;
    let k = a.len().min(b.len());
    for i in (0..k).rev() {
        let x = (a[i] > b[i]) as i32 - (a[i] < b[i]) as i32;
        d = if x != 0 { x } else { d };
    }
    if d == 0 {
        d = (a.len() > b.len()) as i32 - (a.len() < b.len()) as i32;
    }
    check(s.cmp(&t) as i32 == d, 1);
    check((s == t) == (d == 0), 2);
    cover(1);
}

/// Broken parts replaced, everything else kept.
fn scrubbed(n: usize, encs: &[usize]) {
    let (s, m, e) = any(n, encs);
    assume(!matches!(e, Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be));
    let q = RStringInner::from_encoding(b"?", e);
    let mut m2 = vec![];
    let mut i = 0;
    while i < m.len() {
        let w = width(e, &m[i..]);
        if w > 0 {
            m2.extend_from_slice(&m[i..i + w]);
            i += w;
            continue;
        }
        m2.push(b'?');
        // a truncated UTF-8 character counts once
        let at = |k: usize| if i + k < m.len() { m[i + k] } else { 0 };
        let (a, c, d) = (at(0), at(1), at(2));
        let t = |x| is(0x80, x, 0xbf);
        let three = ((a == 0xe0) & is(0xa0, c, 0xbf)) | ((is(0xe1, a, 0xec) | is(0xee, a, 0xef)) & t(c)) | ((a == 0xed) & is(0x80, c, 0x9f));
        let four = ((a == 0xf0) & is(0x90, c, 0xbf)) | (is(0xf1, a, 0xf3) & t(c)) | ((a == 0xf4) & is(0x80, c, 0x8f));
        i += if e != Encoding::Utf8 {
            1
        } else if four & t(d) {
            3
        } else if three | four {
            2
        } else {
            1
        };
    }
    match s.scrub(&q) {
        Ok(r) => good(&r, &m2, e, 1),
        Err(_) => check(false, 11),
    }
    good(&s, &m, e, 21);
    cover(1);
}

/// Views of one buffer: a change to one is seen by no other, and everything is freed once.
fn shared(k: usize) {
    let e = encoding(pick(2) * 4);
    let n = 7;
    let m: Vec<u8> = (0..n).map(|i| if i < 2 { sym8() } else { b'a' + i as u8 }).collect();
    let mut p = Value::string_from_inner(RStringInner::from_encoding(&m, e));
    if pick(2) == 1 {
        p.set_frozen();
    }
    let fixed = p.is_frozen();
    let mut vs: Vec<(Value, Vec<u8>)> = vec![(p, m)];
    for _ in 0..k {
        let w = pick(vs.len());
        let (mut v, m) = vs[w].clone();
        match pick(5) {
            0 => {
                let (i, j) = if pick(2) == 0 { (2, m.len()) } else { (0, m.len() - 1) };
                let t = string_substring(v, i, j);
                vs.push((t, m[i..j].to_vec()));
            }
            1 => {
                let t = string_snapshot(v);
                check(t.is_frozen(), 1);
                vs.push((t, m));
            }
            2 => {
                share_string_buffer(&mut v);
                let t = Value::string_from_inner(v.as_rstring_inner().clone());
                vs.push((t, m));
            }
            3 => {
                assume(!v.is_frozen());
                let b = sym8();
                v.as_rstring_inner_mut().set_byte(0, b);
                vs[w].1[0] = b;
            }
            _ => {
                assume(!v.is_frozen());
                v.as_rstring_inner_mut().extend_from_slice_no_validate(b"zz");
                vs[w].1.extend_from_slice(b"zz");
            }
        }
        for (v, m) in &vs {
            check(same(v.as_rstring_inner().as_bytes(), m), 11);
            if let Some(r) = v.as_rstring_inner().shared_root() {
                check(r.is_frozen() && !r.as_rstring_inner().is_shared(), 12);
            }
        }
    }
    check(vs[0].0.is_frozen() == fixed, 13);
    for (v, m) in &vs {
        good(v.as_rstring_inner(), m, e, 21);
    }
    free_all();
    cover(1);
}

/// The NUL behind the last byte is not part of the string.
fn cstr(n: usize) {
    let (mut s, m, e) = any(n, &[0, 4]);
    let p = s.nul_terminated_buf_ptr();
    for i in 0..m.len() {
        check(unsafe { *p.add(i) } == m[i], 1);
    }
    check(unsafe { *p.add(m.len()) } == 0, 2);
    good(&s, &m, e, 11);
    cover(1);
}

/// Replacements applied in one pass.
fn gsub(n: usize) {
    let m: Vec<u8> = (0..n).map(|_| sym8() & 0x7f).collect();
    let given = unsafe { std::str::from_utf8_unchecked(&m) };
    let a = pick(n + 1);
    let b = a + pick(n - a + 1);
    let c = b + pick(n - b + 1);
    let d = c + pick(n - c + 1);
    let (x, y) = (bytes(pick(2)), bytes(pick(3)));
    let reps = [(a..b, RStringInner::bytes(&x)), (c..d, RStringInner::bytes(&y))];
    match RStringInner::splice_all(&Store, given, &reps) {
        Ok(r) => check(same(r.as_bytes(), &[&m[..a], &x[..], &m[b..c], &y[..], &m[d..]].concat()), 1),
        Err(_) => check(false, 2),
    }
    cover(1);
}

/// Undoes the escapes of a double-quoted literal; None when the text would not be one.
fn literal(t: &[u8], out: &mut Vec<u8>) -> bool {
    let hex = |c: u8| match c {
        b'0'..=b'9' => (c - b'0') as u32,
        b'A'..=b'F' => (c - b'A') as u32 + 10,
        _ => 99,
    };
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'"' {
            return false;
        }
        if t[i] == b'#' && i + 1 < t.len() && (t[i + 1] == b'{' || t[i + 1] == b'$' || t[i + 1] == b'@') {
            return false;
        }
        if t[i] != b'\\' {
            out.push(t[i]);
            i += 1;
            continue;
        }
        if i + 1 >= t.len() {
            return false;
        }
        let c = t[i + 1];
        i += 2;
        let x = match c {
            b'n' => 10,
            b't' => 9,
            b'r' => 13,
            b'e' => 27,
            b'a' => 7,
            b'b' => 8,
            b'f' => 12,
            b'v' => 11,
            b'x' => {
                if i + 2 > t.len() || hex(t[i]) > 15 || hex(t[i + 1]) > 15 {
                    return false;
                }
                i += 2;
                (hex(t[i - 2]) << 4 | hex(t[i - 1])) as u8
            }
            b'u' => {
                let mut cp = 0;
                if i < t.len() && t[i] == b'{' {
                    i += 1;
                    while i < t.len() && t[i] != b'}' {
                        if hex(t[i]) > 15 {
                            return false;
                        }
                        cp = cp << 4 | hex(t[i]);
                        i += 1;
                    }
                    i += 1;
                } else {
                    if i + 4 > t.len() {
                        return false;
                    }
                    for k in 0..4 {
                        if hex(t[i + k]) > 15 {
                            return false;
                        }
                        cp = cp << 4 | hex(t[i + k]);
                    }
                    i += 4;
                }
                if cp < 0x80 {
                    cp as u8
                } else if cp < 0x800 {
                    out.push((cp >> 6) as u8 | 0xc0);
                    (cp & 0x3f) as u8 | 0x80
                } else if cp < 0x10000 {
                    out.push((cp >> 12) as u8 | 0xe0);
                    out.push((cp >> 6 & 0x3f) as u8 | 0x80);
                    (cp & 0x3f) as u8 | 0x80
                } else {
                    out.push((cp >> 18) as u8 | 0xf0);
                    out.push((cp >> 12 & 0x3f) as u8 | 0x80);
                    out.push((cp >> 6 & 0x3f) as u8 | 0x80);
                    (cp & 0x3f) as u8 | 0x80
                }
            }
            b'"' | b'\\' | b'#' => c,
            _ => return false,
        };
        out.push(x);
    }
    true
}

/// What `dump` writes is ASCII and reads back as the same bytes; so does what `inspect` writes.
fn dumped(n: usize, encs: &[usize], dump: bool) {
    let e = encoding(encs[pick(encs.len())]);
    let m = bytes(pick(n + 1));
    let s = RStringInner::from_encoding(&m, e);
    let t = if dump { s.dump() } else { s.inspect() };
    let t = t.as_bytes();
    if dump {
        check(t.iter().fold(0, |a, b| a | b) < 0x80, 1);
    }
    let mut out = vec![];
    check(literal(t, &mut out), 2);
    check(same(&out, &m), 3);
    cover(1);
}

entries! {
    w01_made => made(3);
    w01_made4 => made(4);
    w01_edit_w => edited(3, WIDE);
    w01_edit_4 => edited(4, &[FOUR]);
    w01_edit_n => edited(3, NARROW);
    w01_app_w => appended(2, 2, WIDE);
    w01_app_w3 => appended(3, 3, WIDE);
    w01_app_n => appended(3, 3, NARROW);
    w01_ext_u => extended(2, 3, &[0], &[0]);
    w01_ext_uu => extended(3, 3, &[0], &[0]);
    w01_ext_wn => extended(2, 3, WIDE, NARROW);
    w01_ext_nw => extended(3, 2, NARROW, WIDE);
    w01_ext_ww => extended(2, 2, WIDE, WIDE);
    w01_ext_ww3 => extended(3, 3, &[1, 2], &[1, 2]);
    w01_ext_nn => extended(2, 2, NARROW, NARROW);
    w01_spl_u => spliced(2, 2, &[0], &[0]);
    w01_spl_uu => spliced(4, 2, &[0], &[0]);
    w01_spl_ww => spliced(2, 2, WIDE, WIDE);
    w01_spl_nn => spliced(2, 1, NARROW, NARROW);
    w01_spl_wn => spliced(2, 1, WIDE, NARROW);
    w01_spl_nw => spliced(1, 2, NARROW, WIDE);
    w01_part_w => part(3, WIDE);
    w01_part_w5 => part(5, WIDE);
    w01_part_4 => part(4, &[FOUR]);
    w01_part_n => part(4, NARROW);
    w01_part6 => part(6, &[4]);
    w01_rep_w => repeated(3, WIDE);
    w01_rep_w4 => repeated(4, WIDE);
    w01_rep_n => repeated(3, NARROW);
    w01_cstr => cstr(5);
    w01_gsub => gsub(3);
    w02_char_u => chars(3, &[0], true);
    w02_char_4 => chars(4, &[FOUR], true);
    w02_char_u4 => chars(4, &[0], true);
    w02_char_w => chars(3, &[1, 2], true);
    w02_char_w5 => chars(5, &[1, 2], true);
    w02_char_n => chars(5, NARROW, true);
    w02_pair_known => pair();
    w02_read_w => reading(3, WIDE);
    w02_read_4 => reading(4, &[FOUR]);
    w02_read_w4 => reading(4, WIDE);
    w02_read_n => reading(3, NARROW);
    w02_order => order(3);
    w02_order5 => order(5);
    w02_scrub_w => scrubbed(3, WIDE);
    w02_scrub_4 => scrubbed(4, &[FOUR]);
    w02_scrub_w4 => scrubbed(4, WIDE);
    w02_scrub_n => scrubbed(3, NARROW);
    w03_share => shared(2);
    w03_share3 => shared(3);
    w03_part => part(8, &[4]);
    w03_clone => edited(6, &[4]);
    w04_dump_u => dumped(2, &[0, 3], true);
    w04_dump_n => dumped(2, &[4, 7, 5, 9], true);
    w04_dump_3 => dumped(3, &[0], true);
    w04_insp_u => dumped(2, &[0], false);
    w04_insp_n => dumped(2, &[3, 4, 7, 8], false);
    w04_insp_3 => dumped(3, &[0], false);
}

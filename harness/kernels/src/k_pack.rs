//! P01: Array#pack and String#unpack (monoruby/src/value/rvalue/string/pack.rs) over stand-ins for
//! the interpreter's values: what is packed is what unpacks, in the documented layout.
use crate::v::*;

mod shim {
    pub struct Executor;
    pub struct Store;
    pub struct Globals {
        pub store: Store,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Encoding {
        Ascii8,
        Utf8,
        UsAscii,
    }
    #[derive(Debug)]
    pub struct MonorubyErr(pub u8);
    impl MonorubyErr {
        pub fn argumenterr(_: impl Into<String>) -> MonorubyErr {
            MonorubyErr(1)
        }
        pub fn rangeerr(_: impl Into<String>) -> MonorubyErr {
            MonorubyErr(2)
        }
        pub fn typeerr(_: impl Into<String>) -> MonorubyErr {
            MonorubyErr(3)
        }
        pub fn cant_convert_into_float(_: &Globals, _: Value) -> MonorubyErr {
            MonorubyErr(3)
        }
        pub fn cant_convert_error_f(_: &Globals, _: Value, _: Value) -> MonorubyErr {
            MonorubyErr(3)
        }
    }
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    pub struct IdentId;
    impl IdentId {
        pub const TO_S: IdentId = IdentId;
        pub const TO_F: IdentId = IdentId;
    }
    pub struct FuncId;
    impl Executor {
        pub fn invoke_method_inner(&mut self, _: &mut Globals, _: IdentId, v: Value, _: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
            Ok(v)
        }
        pub fn invoke_func_inner(&mut self, _: &mut Globals, _: FuncId, v: Value, _: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
            Ok(v)
        }
    }
    impl Globals {
        pub fn check_method(&self, _: Value, _: IdentId) -> Option<FuncId> {
            None
        }
    }

    pub struct RStringInner {
        pub b: Vec<u8>,
        pub e: Encoding,
    }
    impl RStringInner {
        pub fn from_encoding_scanned(b: &[u8], e: Encoding) -> Self {
            RStringInner { b: b.to_vec(), e }
        }
        pub fn from_encoding(b: &[u8], e: Encoding) -> Self {
            RStringInner { b: b.to_vec(), e }
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.b
        }
        pub fn encoding(&self) -> Encoding {
            self.e
        }
        pub fn len(&self) -> usize {
            self.b.len()
        }
        pub fn bytesplice_with(&mut self, at: usize, n: usize, r: &RStringInner, _: &Store) -> Result<()> {
            let mut v = self.b[..at].to_vec();
            v.extend_from_slice(&r.b);
            v.extend_from_slice(&self.b[at + n..]);
            self.b = v;
            Ok(())
        }
        pub fn extend_from_slice_merge_cr(&mut self, b: &[u8]) {
            self.b.extend_from_slice(b);
        }
    }

    #[derive(Clone, Copy)]
    pub enum Value {
        Nil,
        Int(i64),
        Big(u128),
        Flt(f64),
        Str(*mut RStringInner),
        Ary(*const Vec<Value>),
    }
    pub enum RV<'a> {
        None,
        Fixnum(i64),
        Float(f64),
        BigInt(&'a num::BigInt),
    }
    impl Value {
        pub fn nil() -> Value {
            Value::Nil
        }
        pub fn integer(i: i64) -> Value {
            Value::Int(i)
        }
        pub fn integer_from_u64(i: u64) -> Value {
            if i <= i64::MAX as u64 { Value::Int(i as i64) } else { Value::Big(i as u128) }
        }
        pub fn float(f: f64) -> Value {
            Value::Flt(f)
        }
        pub fn bytes(b: Vec<u8>) -> Value {
            Value::string_from_inner(RStringInner { b, e: Encoding::Ascii8 })
        }
        pub fn string_from_inner(s: RStringInner) -> Value {
            Value::Str(Box::into_raw(Box::new(s)))
        }
        pub fn array_from_vec(v: Vec<Value>) -> Value {
            Value::Ary(Box::into_raw(Box::new(v)))
        }
        pub fn is_nil(&self) -> bool {
            matches!(self, Value::Nil)
        }
        pub fn is_packed_value(&self) -> bool {
            matches!(self, Value::Nil | Value::Int(_))
        }
        pub fn is_str(&self) -> Option<()> {
            matches!(self, Value::Str(_)).then_some(())
        }
        pub fn is_rstring_inner(&self) -> Option<&RStringInner> {
            match self {
                Value::Str(s) => Some(unsafe { &**s }),
                _ => None,
            }
        }
        pub fn as_rstring_inner(&self) -> &RStringInner {
            self.is_rstring_inner().unwrap()
        }
        pub fn as_rstring_inner_mut(&mut self) -> &mut RStringInner {
            match self {
                Value::Str(s) => unsafe { &mut **s },
                _ => panic!(),
            }
        }
        pub fn ensure_not_frozen(&self, _: &Store) -> Result<()> {
            Ok(())
        }
        pub fn get_real_class_name(&self, _: &Store) -> String {
            String::new()
        }
        pub fn unpack(&self) -> RV<'static> {
            match *self {
                Value::Int(i) => RV::Fixnum(i),
                Value::Flt(f) => RV::Float(f),
                Value::Big(b) => RV::BigInt(Box::leak(Box::new(num::BigInt(b)))),
                _ => RV::None,
            }
        }
        pub fn coerce_to_pack_u64(&self, _: &mut Executor, _: &mut Globals) -> Result<u64> {
            match *self {
                Value::Int(i) => Ok(i as u64),
                Value::Big(b) => Ok(b as u64),
                _ => Err(MonorubyErr(3)),
            }
        }
        pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            match *self {
                Value::Int(i) => Ok(i),
                Value::Big(_) => Err(MonorubyErr(2)),
                _ => Err(MonorubyErr(3)),
            }
        }
        pub fn coerce_to_rstring(&self, _: &mut Executor, _: &mut Globals) -> Result<&RStringInner> {
            self.is_rstring_inner().ok_or(MonorubyErr(3))
        }
        pub fn to_s(&self, _: &Store) -> String {
            String::new()
        }
    }

    /// Non-negative integers below 2^128.
    pub mod num {
        #[derive(Clone)]
        pub struct BigInt(pub u128);
        pub trait Signed {
            fn is_negative(&self) -> bool;
        }
        pub trait ToPrimitive {
            fn to_u8(&self) -> Option<u8>;
            fn to_f64(&self) -> Option<f64>;
        }
        pub trait Zero {
            fn is_zero(&self) -> bool;
        }
        impl Signed for BigInt {
            fn is_negative(&self) -> bool {
                false
            }
        }
        impl ToPrimitive for BigInt {
            fn to_u8(&self) -> Option<u8> {
                (self.0 < 256).then_some(self.0 as u8)
            }
            fn to_f64(&self) -> Option<f64> {
                Some(self.0 as f64)
            }
        }
        impl Zero for BigInt {
            fn is_zero(&self) -> bool {
                self.0 == 0
            }
        }
        impl From<u8> for BigInt {
            fn from(x: u8) -> Self {
                BigInt(x as u128)
            }
        }
        impl From<u64> for BigInt {
            fn from(x: u64) -> Self {
                BigInt(x as u128)
            }
        }
        impl std::ops::BitAnd for &BigInt {
            type Output = BigInt;
            fn bitand(self, o: &BigInt) -> BigInt {
                BigInt(self.0 & o.0)
            }
        }
        impl std::ops::BitOr<u8> for BigInt {
            type Output = BigInt;
            fn bitor(self, o: u8) -> BigInt {
                BigInt(self.0 | o as u128)
            }
        }
        impl std::ops::ShrAssign<u32> for BigInt {
            fn shr_assign(&mut self, n: u32) {
                self.0 >>= n;
            }
        }
        impl std::ops::Shl<u32> for BigInt {
            type Output = BigInt;
            fn shl(self, n: u32) -> BigInt {
                BigInt(self.0 << n)
            }
        }
    }
    pub use num::ToPrimitive;

    pub mod pk {
        use super::*;
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/pack.rs"));
    }
}
use shim::*;

fn do_pack(vs: &[Value], t: &str) -> Result<Value> {
    pk::pack(&mut Executor, &mut Globals { store: Store }, vs, t, None)
}

fn packed(vs: &[Value], t: &str, id: u32) -> Vec<u8> {
    match do_pack(vs, t) {
        Ok(v) => match v.is_rstring_inner() {
            Some(s) => s.as_bytes().to_vec(),
            None => {
                check(false, id);
                vec![]
            }
        },
        Err(_) => {
            check(false, id);
            vec![]
        }
    }
}

fn unpacked(b: &[u8], t: &str, id: u32) -> Vec<Value> {
    match pk::unpack(b, t, false, 0) {
        Ok(Value::Ary(v)) => {
            cover(1);
            unsafe { (*v).clone() }
        }
        _ => {
            check(false, id);
            vec![]
        }
    }
}

fn string(n: usize) -> Vec<u8> {
    (0..n).map(|_| sym8()).collect()
}

fn str_value(b: &[u8]) -> Value {
    Value::bytes(b.to_vec())
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

fn is_bytes(v: &Value, b: &[u8]) -> bool {
    match v.is_rstring_inner() {
        Some(s) => same(s.as_bytes(), b),
        None => false,
    }
}

// ---------------------------------------------------------------- text encodings

/// `d` packs with `t` and unpacks with `u` to itself; the text is ASCII.
fn round(d: &[u8], t: &str, u: &str) -> Vec<u8> {
    let p = packed(&[str_value(d)], t, 1);
    let mut hi = 0;
    for b in &p {
        hi |= b & 0x80;
    }
    check(hi == 0, 2);
    let r = unpacked(&p, u, 3);
    check(r.len() == 1, 4);
    check(is_bytes(&r[0], d), 5);
    // unpack1 gives the same
    match pk::unpack(&p, u, true, 0) {
        Ok(v) => check(is_bytes(&v, d), 6),
        Err(_) => check(false, 6),
    }
    obs(p.len() as u64);
    p
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// Two neighbouring bytes unknown, the others of a pattern.
fn two(n: usize) -> Vec<u8> {
    let fill = [0, 0xff, 0x69][pick(3)];
    let mut d = vec![fill; n];
    let k = pick(n);
    d[k] = sym8();
    if k + 1 < n {
        d[k + 1] ^= sym(4) as u8;
    }
    d
}

fn base64(d: &[u8], t: &str) {
    let n = d.len();
    let p = round(d, t, "m");
    // the reference text, without line ends
    let text: Vec<u8> = p.iter().copied().filter(|&c| c != b'\n').collect();
    check(text.len() == n.div_ceil(3) * 4, 10);
    for i in 0..n.div_ceil(3) {
        let g = |k: usize| if 3 * i + k < n { d[3 * i + k] as u32 } else { 0 };
        let w = g(0) << 16 | g(1) << 8 | g(2);
        for k in 0..4 {
            let c = text[4 * i + k];
            if 3 * i + k <= n {
                let v = w >> (18 - 6 * k) & 63;
                check(c == B64[v as usize], 11);
            } else {
                check(c == b'=', 12);
            }
        }
    }
}

/// Few unknown bytes in data long enough for line breaks.
fn long(n: usize) -> Vec<u8> {
    let mut d: Vec<u8> = (0..n).map(|i| (i * 37 % 256) as u8).collect();
    if n > 0 {
        let k = [0, n / 2, n - 1][pick(3)];
        d[k] = sym8();
    }
    d
}

fn lines(t: &str, u: &str, n: usize, max: usize) {
    let d = long(n);
    let p = round(&d, t, u);
    let mut len = 0;
    for c in &p {
        if *c == b'\n' {
            len = 0;
        } else {
            len += 1;
        }
        check(len <= max, 20);
    }
    check(len == 0, 21);
}

fn qp_chars(p: &[u8]) {
    for c in p {
        check(*c == b'\n' || *c == b'\t' || (*c >= 32 && *c < 127), 25);
    }
}

// ---------------------------------------------------------------- variable-length integers

fn one_int(v: Value, t: &str) -> (Vec<u8>, Value) {
    let p = packed(&[v], t, 30);
    let r = unpacked(&p, t, 31);
    check(r.len() == 1, 32);
    (p, r[0])
}

fn uint(v: Value) -> u128 {
    match v {
        Value::Int(i) => {
            check(i >= 0, 33);
            i as u64 as u128
        }
        Value::Big(b) => b,
        _ => {
            check(false, 33);
            0
        }
    }
}

fn ber(v: u128) {
    let val = if v <= i64::MAX as u128 { Value::Int(v as i64) } else { Value::Big(v) };
    let (p, r) = one_int(val, "w");
    check(uint(r) == v, 34);
    // most significant group first, the high bit on all but the last, no padding
    for i in 0..p.len() {
        check((p[i] & 0x80 != 0) == (i + 1 < p.len()), 35);
    }
    check(p.len() == 1 || p[0] != 0x80, 36);
    obs(p.len() as u64);
}

fn uleb() {
    let x = sym(64);
    let (p, r) = one_int(Value::integer_from_u64(x), "R");
    check(uint(r) == x as u128, 37);
    for i in 0..p.len() {
        check((p[i] & 0x80 != 0) == (i + 1 < p.len()), 38);
    }
    check(p.len() == 1 || p[p.len() - 1] != 0, 39);
}

fn sleb() {
    let x = sym(64) as i64;
    let (p, r) = one_int(Value::Int(x), "r");
    match r {
        Value::Int(i) => check(i == x, 40),
        _ => check(false, 40),
    }
    check(p.len() <= 10, 41);
}

fn utf8(max: u32, min: u32) {
    let c = sym(32) as u32;
    assume(c <= max && c >= min);
    let (p, r) = one_int(Value::Int(c as i64), "U");
    check(uint(r) == c as u128, 42);
    if let Some(ch) = char::from_u32(c) {
        let mut b = [0; 4];
        let e = ch.encode_utf8(&mut b).as_bytes();
        check(same(&p, e), 43);
        cover(2);
    }
}

/// Several in one string.
fn several(t: &str) {
    let (a, b) = (sym(14), sym(14));
    let p = packed(&[Value::Int(a as i64), Value::Int(b as i64)], t, 45);
    let r = unpacked(&p, t, 46);
    check(r.len() == 2, 47);
    check(uint(r[0]) == a as u128 && uint(r[1]) == b as u128, 48);
}

// ---------------------------------------------------------------- fixed layouts

fn ints(t: &str, bytes: usize, signed: bool, big: bool) {
    let x = sym(64);
    let p = packed(&[if sym_bool() { Value::Int(x as i64) } else { Value::Big(x as u128) }], t, 50);
    check(p.len() == bytes, 51);
    let mut ok = true;
    for i in 0..bytes {
        let at = if big { bytes - 1 - i } else { i };
        ok &= p[at] == (x >> (8 * i)) as u8;
    }
    check(ok, 52);
    // a truncated second one reads as nil
    let extra = pick(bytes);
    let mut q = p.clone();
    q.extend_from_slice(&string(extra));
    let tt = if pick(2) == 0 { format!("{t}2") } else { format!("{t}*") };
    let r = unpacked(&q, &tt, 53);
    if tt.ends_with('2') {
        check(r.len() == 2 && r[1].is_nil(), 54);
    } else {
        check(r.len() == 1, 55);
    }
    let sh = 64 - 8 * bytes as u32;
    let want = if signed { ((x << sh) as i64 >> sh) as i128 } else { (x << sh >> sh) as i128 };
    match r[0] {
        Value::Int(i) => check(i as i128 == want, 56),
        Value::Big(b) => check(b as i128 == want && !signed, 57),
        _ => check(false, 58),
    }
}

fn all_ints() {
    match pick(26) {
        0 => ints("c", 1, true, false),
        1 => ints("C", 1, false, false),
        2 => ints("s", 2, true, false),
        3 => ints("S", 2, false, false),
        4 => ints("l", 4, true, false),
        5 => ints("L", 4, false, false),
        6 => ints("q", 8, true, false),
        7 => ints("Q", 8, false, false),
        8 => ints("i", 4, true, false),
        9 => ints("I", 4, false, false),
        10 => ints("j", 8, true, false),
        11 => ints("J", 8, false, false),
        12 => ints("n", 2, false, true),
        13 => ints("N", 4, false, true),
        14 => ints("v", 2, false, false),
        15 => ints("V", 4, false, false),
        16 => ints("s>", 2, true, true),
        17 => ints("S<", 2, false, false),
        18 => ints("l>", 4, true, true),
        19 => ints("L>", 4, false, true),
        20 => ints("q>", 8, true, true),
        21 => ints("Q>", 8, false, true),
        22 => ints("l!", 8, true, false),
        23 => ints("L_>", 8, false, true),
        24 => ints("i!", 4, true, false),
        _ => ints("s!>", 2, true, true),
    }
}

fn floats() {
    let (t, big) = [("d", false), ("D", false), ("E", false), ("G", true)][pick(4)];
    let x = sym(64);
    let f = f64::from_bits(x);
    let p = packed(&[Value::Flt(f)], t, 60);
    check(p.len() == 8, 61);
    let mut ok = true;
    for i in 0..8 {
        ok &= p[if big { 7 - i } else { i }] == (x >> (8 * i)) as u8;
    }
    check(ok, 62);
    match unpacked(&p, t, 63)[..] {
        [Value::Flt(g)] => check(g.to_bits() == x, 64),
        _ => check(false, 65),
    }
}

fn floats32() {
    let (t, big) = [("f", false), ("F", false), ("e", false), ("g", true)][pick(4)];
    let x = sym(32) as u32;
    assume(x & 0x7f80_0000 != 0x7f80_0000 || x & 0x7f_ffff == 0);
    let mut b = x.to_le_bytes().to_vec();
    if big {
        b.reverse();
    }
    match unpacked(&b, t, 66)[..] {
        [Value::Flt(g)] => {
            check(g == f32::from_bits(x) as f64, 67);
            let p = packed(&[Value::Flt(g)], t, 68);
            check(same(&p, &b), 69);
        }
        _ => check(false, 70),
    }
}

// ---------------------------------------------------------------- strings, bits, positions

fn texts(max: usize) {
    let d = string(pick(max + 1));
    let n = d.len();
    let kind = pick(3);
    let dir = ["a", "A", "Z"][kind];
    let pad = if kind == 1 { b' ' } else { 0 };
    let form = pick(2 + max + 2);
    let (t, want): (String, Vec<u8>) = if form == 0 {
        let mut w = d.clone();
        if kind == 2 {
            w.push(0);
        }
        (format!("{dir}*"), w)
    } else {
        let count = if form == 1 { 1 } else { form - 2 };
        let mut w = d.clone();
        w.resize(count, pad);
        (if form == 1 { dir.to_string() } else { format!("{dir}{count}") }, w)
    };
    let p = packed(&[str_value(&d)], &t, 75);
    check(same(&p, &want), 76);
    // unpacking: everything, up to the padding, up to the first NUL
    let mut e = p.clone();
    match kind {
        1 => {
            while let Some(c) = e.last() {
                if *c == b' ' || *c == 0 {
                    e.pop();
                } else {
                    break;
                }
            }
        }
        2 => {
            if let Some(i) = e.iter().position(|c| *c == 0) {
                e.truncate(i);
            }
        }
        _ => {}
    }
    let r = unpacked(&p, &t, 77);
    check(r.len() == 1 && is_bytes(&r[0], &e), 78);
    obs(n as u64);
}

fn bits() {
    let big = pick(2) == 1;
    let dir = if big { "B" } else { "b" };
    let n = pick(11);
    let s: Vec<u8> = (0..n).map(|_| b'0' + sym(1) as u8).collect();
    let p = packed(&[str_value(&s)], &format!("{dir}*"), 80);
    check(p.len() == n.div_ceil(8), 81);
    for i in 0..n {
        let sh = if big { 7 - i % 8 } else { i % 8 };
        check(p[i / 8] >> sh & 1 == s[i] & 1, 82);
    }
    let r = unpacked(&p, &format!("{dir}{n}"), 83);
    check(is_bytes(&r[0], &s), 84);
    let r = unpacked(&p, &format!("{dir}*"), 85);
    let mut w = s.clone();
    w.resize(p.len() * 8, b'0');
    check(is_bytes(&r[0], &w), 86);
}

fn hex() {
    let big = pick(2) == 1;
    let dir = if big { "H" } else { "h" };
    let n = pick(5);
    let d: Vec<u8> = (0..n).map(|_| sym(4) as u8).collect();
    let s: Vec<u8> = d.iter().map(|&x| if x < 10 { b'0' + x } else { b'a' - 10 + x }).collect();
    let p = packed(&[str_value(&s)], &format!("{dir}*"), 90);
    check(p.len() == n.div_ceil(2), 91);
    for i in 0..n {
        let sh = if big == (i % 2 == 0) { 4 } else { 0 };
        check(p[i / 2] >> sh & 15 == d[i], 92);
    }
    let r = unpacked(&p, &format!("{dir}{n}"), 93);
    check(is_bytes(&r[0], &s), 94);
    // upper case packs the same
    let u: Vec<u8> = d.iter().map(|&x| if x < 10 { b'0' + x } else { b'A' - 10 + x }).collect();
    check(same(&packed(&[str_value(&u)], &format!("{dir}*"), 95), &p), 96);
}

/// x, X and @ among bytes.
fn positions() {
    let (a, b) = (sym8(), sym8());
    let v = [Value::Int(a as i64), Value::Int(b as i64)];
    let p = packed(&v, "CxxC", 100);
    check(same(&p, &[a, 0, 0, b]), 101);
    let p = packed(&v, "CX C", 102);
    check(same(&p, &[b]), 103);
    let p = packed(&v, "C@3C", 104);
    check(same(&p, &[a, 0, 0, b]), 105);
    let p = packed(&v, "CC@1", 106);
    check(same(&p, &[a]), 107);
    check(do_pack(&v, "XC").is_err(), 108);
    check(do_pack(&v, "C3").is_err(), 109);
    let d = string(3);
    let n = pick(6);
    let r = pk::unpack(&d, &format!("x{n}C"), false, 0);
    check(r.is_ok() == (n <= 3), 110);
    let r = pk::unpack(&d, &format!("@{n}C"), false, 0);
    check(r.is_ok() == (n <= 3), 111);
    if n < 3 {
        let r = unpacked(&d, &format!("@{n}C"), 112);
        match r[..] {
            [Value::Int(i)] => check(i == d[n] as i64, 113),
            _ => check(false, 113),
        }
        let r = unpacked(&d, &format!("a3X{}C^", 3 - n), 114);
        match r[..] {
            [_, Value::Int(i), Value::Int(o)] => check(i == d[n] as i64 && o == n as i64 + 1, 115),
            _ => check(false, 115),
        }
    }
    check(pk::unpack(&d, "X", false, 0).is_err(), 116);
}

/// The `buffer:` keyword appends, or overwrites from an offset.
fn buffer() {
    let d = string(3);
    let x = sym8();
    let buf = str_value(&d);
    let t = ["C", "@1C", "@3C", "@5C", "XC"][pick(5)];
    let r = pk::pack(&mut Executor, &mut Globals { store: Store }, &[Value::Int(x as i64)], t, Some(buf));
    let want: Vec<u8> = match t {
        "C" | "@3C" => vec![d[0], d[1], d[2], x],
        "@1C" => vec![d[0], x],
        "@5C" => vec![d[0], d[1], d[2], 0, 0, x],
        _ => vec![d[0], d[1], x],
    };
    check(r.is_ok(), 120);
    check(is_bytes(&buf, &want), 121);
    cover(1);
}

// ---------------------------------------------------------------- arbitrary input

/// Any bytes with any directive but the two that hold addresses: an answer or an error.
fn decode(n: usize, dirs: &[&str]) {
    let d = string(n);
    let t = dirs[pick(dirs.len())];
    match pk::unpack(&d, t, sym_bool(), 0) {
        Ok(_) => cover(1),
        Err(_) => cover(3),
    }
}

const TEXT: &[&str] = &["m", "M", "u", "m0"];
const NUMBERS: &[&str] = &["U*", "w*", "R*", "r*", "U", "w3", "R2", "r2"];

fn template(n: usize, len: usize) {
    let mut t = string(n);
    for c in &mut t {
        assume(*c < 128 && *c != b'p' && *c != b'P' && *c != 0);
    }
    // one digit at most in a row
    for i in 1..n {
        assume(!(t[i - 1].is_ascii_digit() & t[i].is_ascii_digit()));
    }
    let d = string(len);
    let s = std::str::from_utf8(&t).unwrap();
    if pick(2) == 0 {
        match pk::unpack(&d, s, false, 0) {
            Ok(_) => cover(1),
            Err(_) => cover(3),
        }
    } else {
        match do_pack(&[str_value(&d), Value::Int(sym(64) as i64)], s) {
            Ok(_) => cover(1),
            Err(_) => cover(3),
        }
    }
}

entries! {
    p01_m1 => base64(&string(1), "m");
    p01_m2 => base64(&string(2), "m0");
    p01_m3 => base64(&string(3), "m");
    p01_m3w => base64(&two(3), "m");
    p01_m4 => base64(&two(4), "m3");
    p01_m5 => base64(&two(5), "m0");
    p01_m_lines => { let n = [0, 44, 45, 46, 90, 91][pick(6)]; lines("m", "m", n, 60) };
    p01_m_lines6 => { let n = pick(14); lines("m6", "m", n, 8) };
    p01_u1 => { let d = string(1); round(&d, "u", "u"); };
    p01_u3 => { let d = string(3); round(&d, "u", "u"); };
    p01_u4 => { let d = string(4); round(&d, "u3", "u"); };
    p01_u_lines => { let n = [0, 1, 44, 45, 46, 90, 91][pick(7)]; lines(["u", "u0", "u45", "u2"][pick(4)], "u", n, 61) };
    p01_u_lines7 => { let n = pick(14); lines("u7", "u", n, 9) };
    p01_qp1 => { let d = string(1); let p = round(&d, "M", "M"); qp_chars(&p) };
    p01_qp2 => { let d = string(2); let p = round(&d, "M", "M"); qp_chars(&p) };
    p01_qp3 => { let d = string(3); let p = round(&d, "M", "M"); qp_chars(&p) };
    p01_qp_short => { let d = string(3); let p = round(&d, "M2", "M"); qp_chars(&p) };
    p01_qp_lines => { let n = [0, 25, 72, 73, 74, 75][pick(6)]; lines("M", "M", n, 76) };
    p01_ber => ber(sym(63) as u128);
    p01_ber_known => ber(sym(64) as u128 | (sym(6) as u128) << 64);
    p01_uleb => uleb();
    p01_sleb => sleb();
    p01_utf8 => utf8(0x1f_ffff, 0);
    p01_utf8_known => utf8(u32::MAX, 0x20_0000);
    p01_two => several(["w2", "R2", "U2", "w*", "R*", "U*", "L2", "n*"][pick(8)]);
    p01_ints => all_ints();
    p01_floats => floats();
    p01_floats32 => floats32();
    p01_texts => texts(3);
    p01_bits => bits();
    p01_hex => hex();
    p01_positions => positions();
    p01_buffer => buffer();
    p01_dec_t4 => decode(4, TEXT);
    p01_dec_t5 => decode(5, TEXT);
    p01_dec_n3 => decode(3, NUMBERS);
    p01_dec_n11 => decode(11, &["R", "r", "w"]);
    p01_tmpl2 => template(2, 2);
}

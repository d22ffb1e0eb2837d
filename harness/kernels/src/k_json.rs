//! X01: reading and writing JSON (monoruby/src/builtins/json.rs), against a reader written from
//! RFC 8259 over the same bytes.
use crate::v::*;

/// What the code uses of the rest of the interpreter.
mod shim {
    use crate::v::*;
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct MonorubyErr;
    impl MonorubyErr {
        pub fn runtimeerr(_: impl Into<String>) -> Self {
            MonorubyErr
        }
        pub fn argumenterr(_: impl Into<String>) -> Self {
            MonorubyErr
        }
        pub fn typeerr(_: impl Into<String>) -> Self {
            MonorubyErr
        }
    }
    pub struct Store;
    pub struct Globals {
        pub store: Store,
    }
    pub struct Executor;
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
    #[derive(Clone, Copy)]
    pub struct Lfp(pub Value);
    impl Lfp {
        pub fn arg(&self, _: usize) -> Value {
            self.0
        }
    }
    /// Its digits.
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct BigInt(pub String);
    pub fn value(b: &[u8]) -> i128 {
        let neg = b[0] == b'-';
        let v = b[neg as usize..].iter().fold(0i128, |v, c| v.wrapping_mul(10).wrapping_add((c - b'0') as i128));
        if neg { v.wrapping_neg() } else { v }
    }
    impl std::str::FromStr for BigInt {
        type Err = ();
        fn from_str(s: &str) -> std::result::Result<Self, ()> {
            let b = s.as_bytes();
            let d = if !b.is_empty() && b[0] == b'-' { &b[1..] } else { b };
            if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) {
                return Err(());
            }
            Ok(BigInt(s.to_string()))
        }
    }
    impl std::fmt::Display for BigInt {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl BigInt {
        pub fn parse_bytes(b: &[u8], radix: u32) -> Option<Self> {
            check(radix == 10, 1);
            std::str::from_utf8(b).ok()?.parse().ok()
        }
    }
    pub mod num {
        pub use super::BigInt;
        pub mod bigint {
            pub use super::BigInt;
        }
    }
    pub mod dtoa {
        use crate::v::*;
        pub struct Buffer;
        impl Buffer {
            pub fn new() -> Self {
                Buffer
            }
            /// the shortest text, for the numbers the harnesses write
            pub fn format(&mut self, f: f64) -> &'static str {
                match super::super::h::FLOATS.iter().find(|(g, _)| g.to_bits() == f.to_bits()) {
                    Some((_, t)) => t,
                    None => {
                        check(false, 2);
                        "0.0"
                    }
                }
            }
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub enum Value {
        Nil,
        Bool(bool),
        Int(i64),
        Big(&'static BigInt),
        Float(f64),
        Str(&'static str),
        Ary(&'static [Value]),
        Hash(&'static [(Value, Value)]),
    }
    fn keep<T: ?Sized>(b: Box<T>) -> &'static T {
        Box::leak(b)
    }
    /// as the interpreter's: the same object
    impl PartialEq for Value {
        fn eq(&self, o: &Value) -> bool {
            match (self, o) {
                (Value::Nil, Value::Nil) => true,
                (Value::Bool(a), Value::Bool(b)) => a == b,
                (Value::Int(a), Value::Int(b)) => a == b,
                _ => false,
            }
        }
    }
    pub enum RV<'a> {
        Fixnum(i64),
        BigInt(&'a BigInt),
        Float(f64),
        String(&'a str),
        Other,
    }
    impl Value {
        pub fn nil() -> Self {
            Value::Nil
        }
        pub fn bool(b: bool) -> Self {
            Value::Bool(b)
        }
        pub fn integer(i: i64) -> Self {
            Value::Int(i)
        }
        pub fn bigint(b: BigInt) -> Self {
            match b.0.parse::<i64>() {
                Ok(i) => Value::Int(i),
                Err(_) => Value::Big(keep(Box::new(b))),
            }
        }
        pub fn float(f: f64) -> Self {
            Value::Float(f)
        }
        pub fn string(s: String) -> Self {
            Value::Str(keep(s.into_boxed_str()))
        }
        pub fn string_from_str(s: &str) -> Self {
            Value::string(s.to_string())
        }
        pub fn array_from_vec(v: Vec<Value>) -> Self {
            Value::Ary(keep(v.into_boxed_slice()))
        }
        pub fn hash(m: RubyMap) -> Self {
            Value::Hash(keep(m.0.into_boxed_slice()))
        }
        pub fn is_nil(&self) -> bool {
            matches!(self, Value::Nil)
        }
        pub fn try_fixnum(&self) -> Option<i64> {
            if let Value::Int(i) = self { Some(*i) } else { None }
        }
        pub fn try_float(&self) -> Option<f64> {
            if let Value::Float(f) = self { Some(*f) } else { None }
        }
        pub fn is_str(&self) -> Option<&'static str> {
            if let Value::Str(s) = self { Some(s) } else { None }
        }
        pub fn expect_string(&self, _: &Globals) -> Result<String> {
            self.is_str().map(|s| s.to_string()).ok_or(MonorubyErr)
        }
        pub fn try_array_ty(&self) -> Option<&'static [Value]> {
            if let Value::Ary(a) = self { Some(a) } else { None }
        }
        pub fn try_hash_ty(&self) -> Option<Pairs> {
            if let Value::Hash(a) = self { Some(Pairs(a)) } else { None }
        }
        pub fn unpack(&self) -> RV<'_> {
            match self {
                Value::Int(i) => RV::Fixnum(*i),
                Value::Big(b) => RV::BigInt(b),
                Value::Float(f) => RV::Float(*f),
                Value::Str(s) => RV::String(s),
                _ => RV::Other,
            }
        }
        pub fn to_s(&self, _: &Store) -> String {
            match self {
                Value::Nil => String::new(),
                Value::Bool(true) => "true".to_string(),
                Value::Bool(false) => "false".to_string(),
                Value::Int(i) => i.to_string(),
                Value::Big(b) => b.to_string(),
                Value::Str(s) => s.to_string(),
                _ => "?".to_string(),
            }
        }
    }
    #[derive(Clone, Copy)]
    pub struct Pairs(pub &'static [(Value, Value)]);
    impl Pairs {
        pub fn iter(&self) -> impl Iterator<Item = (Value, Value)> + use<> {
            self.0.iter().copied()
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    }
    /// A list of pairs; H01 and U01 are about the real one.
    #[derive(Default)]
    pub struct RubyMap(pub Vec<(Value, Value)>);
    impl RubyMap {
        pub fn insert(&mut self, k: Value, v: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
            if let Value::Str(s) = k {
                for p in self.0.iter_mut() {
                    if matches!(p.0, Value::Str(t) if t == s) {
                        return Ok(Some(std::mem::replace(&mut p.1, v)));
                    }
                }
            }
            self.0.push((k, v));
            Ok(None)
        }
    }
}

mod code {
    use super::shim::*;
    use std::borrow::Cow;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/json.rs"));
    pub fn read(s: &[u8]) -> Option<Value> {
        // json_parse's own steps on bytes that need not be UTF-8 are Parser's
        let mut g = Globals { store: Store };
        let s = std::str::from_utf8(s).ok()?;
        json_parse(&mut Executor, &mut g, Lfp(Value::string_from_str(s)), BytecodePtr).ok()
    }
    pub fn read_raw(s: &[u8]) -> Option<Value> {
        let mut g = Globals { store: Store };
        let mut p = Parser::new(s);
        let r = p.parse_value(&mut Executor, &mut g);
        if r.is_none() {
            let _ = p.error_message();
        }
        r
    }
    pub fn write(v: Value) -> Vec<u8> {
        let mut g = Globals { store: Store };
        match json_generate(&mut Executor, &mut g, Lfp(v), BytecodePtr) {
            Ok(Value::Str(s)) => s.as_bytes().to_vec(),
            _ => vec![],
        }
    }
}

/// The reader of RFC 8259.
mod rfc {
    use super::shim::{BigInt, Value, value};
    pub enum Kind {
        Nil,
        Bool(bool),
        Int(i128),
        /// digits times a power of ten
        Float(i64, i32, bool),
        Str(Vec<u8>),
        Ary(Vec<Kind>),
        Hash(Vec<(Vec<u8>, Kind)>),
    }
    pub struct Reader<'a> {
        pub s: &'a [u8],
        pub i: usize,
        /// Something readers differ in: what comes of it is not asked.
        pub loose: bool,
    }
    impl<'a> Reader<'a> {
        fn at(&self, k: usize) -> u8 {
            if self.i + k < self.s.len() { self.s[self.i + k] } else { 0 }
        }
        fn ws(&mut self) {
            while self.i < self.s.len() && matches!(self.at(0), b' ' | b'\t' | b'\n' | b'\r') {
                self.i += 1;
            }
        }
        fn word(&mut self, w: &[u8], k: Kind) -> Option<Kind> {
            for &c in w {
                if self.at(0) != c {
                    return None;
                }
                self.i += 1;
            }
            Some(k)
        }
        pub fn all(&mut self) -> Option<Kind> {
            let v = self.value()?;
            self.ws();
            if self.i == self.s.len() { Some(v) } else { None }
        }
        fn value(&mut self) -> Option<Kind> {
            self.ws();
            match self.at(0) {
                b'n' => self.word(b"null", Kind::Nil),
                b't' => self.word(b"true", Kind::Bool(true)),
                b'f' => self.word(b"false", Kind::Bool(false)),
                b'"' => Some(Kind::Str(self.string()?)),
                b'[' => {
                    self.i += 1;
                    let mut a = vec![];
                    self.ws();
                    if self.at(0) == b']' {
                        self.i += 1;
                        return Some(Kind::Ary(a));
                    }
                    loop {
                        a.push(self.value()?);
                        self.ws();
                        let c = self.at(0);
                        self.i += 1;
                        if c == b']' {
                            return Some(Kind::Ary(a));
                        }
                        if c != b',' {
                            return None;
                        }
                    }
                }
                b'{' => {
                    self.i += 1;
                    let mut a: Vec<(Vec<u8>, Kind)> = vec![];
                    self.ws();
                    if self.at(0) == b'}' {
                        self.i += 1;
                        return Some(Kind::Hash(a));
                    }
                    loop {
                        self.ws();
                        if self.at(0) != b'"' {
                            return None;
                        }
                        let k = self.string()?;
                        self.ws();
                        if self.at(0) != b':' {
                            return None;
                        }
                        self.i += 1;
                        let v = self.value()?;
                        // the last of several is the one that counts
                        match a.iter().position(|p| p.0 == k) {
                            Some(j) => a[j].1 = v,
                            None => a.push((k, v)),
                        }
                        self.ws();
                        let c = self.at(0);
                        self.i += 1;
                        if c == b'}' {
                            return Some(Kind::Hash(a));
                        }
                        if c != b',' {
                            return None;
                        }
                    }
                }
                _ => self.number(),
            }
        }
        fn digits(&mut self, m: &mut i128) -> Option<i32> {
            let mut n = 0;
            while self.at(0) >= b'0' && self.at(0) <= b'9' {
                *m = m.wrapping_mul(10).wrapping_add((self.at(0) - b'0') as i128);
                self.i += 1;
                n += 1;
            }
            if n == 0 { None } else { Some(n) }
        }
        fn number(&mut self) -> Option<Kind> {
            let neg = self.at(0) == b'-';
            if neg {
                self.i += 1;
            }
            let mut m = 0i128;
            let zero = self.at(0) == b'0';
            let n = self.digits(&mut m)?;
            if zero && n > 1 {
                return None;
            }
            let mut e = 0;
            let mut float = false;
            if self.at(0) == b'.' {
                self.i += 1;
                e -= self.digits(&mut m)?;
                float = true;
            }
            if matches!(self.at(0), b'e' | b'E') {
                self.i += 1;
                let s = self.at(0);
                if matches!(s, b'+' | b'-') {
                    self.i += 1;
                }
                let mut x = 0;
                self.digits(&mut x)?;
                // beyond that, the nearest float is not computed here
                self.loose |= x > 20;
                e += if s == b'-' { -(x as i32) } else { x as i32 };
                float = true;
            }
            Some(if float { Kind::Float(m as i64, e, neg) } else { Kind::Int(if neg { m.wrapping_neg() } else { m }) })
        }
        fn hex4(&mut self) -> Option<u32> {
            let mut v = 0;
            for _ in 0..4 {
                let c = self.at(0);
                let d = match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' => c - b'a' + 10,
                    b'A'..=b'F' => c - b'A' + 10,
                    _ => return None,
                };
                v = v * 16 + d as u32;
                self.i += 1;
            }
            Some(v)
        }
        fn string(&mut self) -> Option<Vec<u8>> {
            self.i += 1;
            let mut r = vec![];
            loop {
                if self.i >= self.s.len() {
                    return None;
                }
                let c = self.at(0);
                self.i += 1;
                match c {
                    b'"' => return Some(r),
                    b'\\' => {
                        if self.i >= self.s.len() {
                            return None;
                        }
                        let e = self.at(0);
                        self.i += 1;
                        match e {
                            b'"' | b'\\' | b'/' => r.push(e),
                            b'b' => r.push(8),
                            b'f' => r.push(12),
                            b'n' => r.push(10),
                            b'r' => r.push(13),
                            b't' => r.push(9),
                            b'u' => {
                                let a = self.hex4()?;
                                let hi = (0xd800..0xdc00).contains(&a);
                                if hi && self.at(0) == b'\\' && self.at(1) == b'u' {
                                    let i = self.i;
                                    self.i += 2;
                                    let b = self.hex4()?;
                                    if (0xdc00..0xe000).contains(&b) {
                                        utf8(&mut r, 0x10000 + ((a & 0x3ff) << 10 | b & 0x3ff));
                                    } else {
                                        self.i = i;
                                        utf8(&mut r, 0xfffd);
                                    }
                                } else if hi {
                                    utf8(&mut r, 0xfffd);
                                } else if (0xdc00..0xe000).contains(&a) {
                                    self.loose = true;
                                } else {
                                    utf8(&mut r, a);
                                }
                            }
                            _ => self.loose = true,
                        }
                    }
                    _ => {
                        self.loose |= c < 32;
                        r.push(c)
                    }
                }
            }
        }
    }
    fn utf8(r: &mut Vec<u8>, c: u32) {
        if c < 0x80 {
            r.push(c as u8);
        } else if c < 0x800 {
            r.push(0xc0 | (c >> 6) as u8);
            r.push(0x80 | (c & 63) as u8);
        } else {
            if c < 0x10000 {
                r.push(0xe0 | (c >> 12) as u8);
            } else {
                r.push(0xf0 | (c >> 18) as u8);
                r.push(0x80 | (c >> 12 & 63) as u8);
            }
            r.push(0x80 | (c >> 6 & 63) as u8);
            r.push(0x80 | (c & 63) as u8);
        }
    }
    fn ten(e: i32) -> f64 {
        (0..e).fold(1.0, |a, _| a * 10.0)
    }
    fn same_bytes(a: &[u8], b: &[u8]) -> bool {
        a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
    }
    pub fn same(k: &Kind, v: &Value) -> bool {
        match (k, v) {
            (Kind::Nil, Value::Nil) => true,
            (Kind::Bool(a), Value::Bool(b)) => a == b,
            (Kind::Int(a), Value::Int(b)) => *a == *b as i128,
            (Kind::Int(a), Value::Big(BigInt(b))) => *a == value(b.as_bytes()),
            (Kind::Float(m, e, neg), Value::Float(f)) => {
                // exact up to 10**22
                let x = if *e < 0 { *m as f64 / ten(-e) } else { *m as f64 * ten(*e) };
                f.to_bits() == (if *neg { -x } else { x }).to_bits()
            }
            (Kind::Str(a), Value::Str(b)) => same_bytes(a, b.as_bytes()),
            (Kind::Ary(a), Value::Ary(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| same(x, y)),
            (Kind::Hash(a), Value::Hash(b)) => {
                a.len() == b.len()
                    && a.iter().zip(b.iter()).all(|((n, x), (m, y))| matches!(m, Value::Str(m) if same_bytes(n, m.as_bytes())) && same(x, y))
            }
            _ => false,
        }
    }
}

mod h {
    use super::code::{read, read_raw, write};
    use super::rfc::{Reader, same};
    use super::shim::*;
    use crate::v::*;

    pub const FLOATS: [(f64, &str); 5] = [(0.5, "0.5"), (-1.25, "-1.25"), (1e22, "1e22"), (-0.0, "-0.0"), (0.001, "1e-3")];

    fn compare(s: &[u8]) {
        let mut r = Reader { s, i: 0, loose: false };
        let k = r.all();
        let v = read(s);
        if r.loose {
            cover(3);
            return;
        }
        match (k, v) {
            (Some(k), Some(v)) => {
                check(same(&k, &v), 10);
                cover(1);
            }
            (None, None) => cover(2),
            (k, _) => check(false, if k.is_some() { 11 } else { 12 }),
        }
    }
    fn of(c: u8, set: &[u8]) -> bool {
        set.iter().fold(false, |r, x| r | (c == *x))
    }
    /// `before`, then `n` unknown bytes of `set`, then `after`.
    pub fn text(before: &[u8], n: usize, set: &[u8], after: &[u8]) {
        let mut s = before.to_vec();
        for _ in 0..n {
            let c = sym8();
            assume(of(c, set));
            s.push(c);
        }
        s.extend_from_slice(after);
        compare(&s);
    }
    /// A number; the digits one by one.
    pub fn number(before: &[u8], n: usize, set: &[u8], after: &[u8]) {
        let mut s = before.to_vec();
        for _ in 0..n {
            let c = sym8();
            assume(of(c, set));
            s.push(conc(c as u64) as u8);
        }
        s.extend_from_slice(after);
        compare(&s);
    }
    /// A string of `n` bytes below 128.
    pub fn string(before: &[u8], n: usize, after: &[u8]) {
        let mut s = before.to_vec();
        for _ in 0..n {
            s.push(sym(7) as u8);
        }
        s.extend_from_slice(after);
        compare(&s);
    }
    /// `\u` and four hexadecimal digits of either case.
    pub fn unicode(first: u32, bits: u32, n: usize, after: &[u8]) {
        let mut s = b"\"".to_vec();
        for i in 0..n {
            let c = if n == 2 { [0xd800, 0xdc00][i] + sym(bits) as u32 } else { first + sym(bits) as u32 };
            s.extend_from_slice(b"\\u");
            for k in [12, 8, 4, 0] {
                let d = (c >> k & 15) as u8;
                s.push(if d < 10 { b'0' + d } else { (if i == 0 { b'a' } else { b'A' }) + d - 10 });
            }
        }
        s.extend_from_slice(after);
        compare(&s);
    }
    /// One unknown character in a string, as it is.
    pub fn chars(n: usize) {
        let c = match n {
            2 => 0x80 + sym(10) as u32,
            3 => 0x800 + sym(15) as u32,
            _ => 0x10000 + sym(20) as u32,
        };
        let Some(c) = char::from_u32(c) else { return };
        let mut s = String::from("\"");
        let esc = sym_bool();
        if esc {
            s.push('\\');
        }
        s.push(c);
        s.push('"');
        if esc {
            // not JSON, but the character must not be torn apart
            if let Some(Value::Str(t)) = read(s.as_bytes()) {
                check(t.chars().last() == Some(c), 14);
            }
            return;
        }
        compare(s.as_bytes());
    }
    /// Bytes that need not be UTF-8 end in a value or an error.
    pub fn raw(n: usize) {
        let mut s = b"\"".to_vec();
        for _ in 0..n {
            s.push(sym8());
        }
        s.push(b'"');
        let r = read_raw(&s);
        if let Some(Value::Str(t)) = r {
            check(std::str::from_utf8(t.as_bytes()).is_ok(), 13);
            cover(1);
        }
    }
    /// Integers around the largest 64-bit ones.
    pub fn limit(neg: bool, more: usize) {
        let mut s = if neg { b"-92233720368547758".to_vec() } else { b"92233720368547758".to_vec() };
        for _ in 0..2 + more {
            let d = sym(4) as u8;
            assume(d < 10);
            s.push(b'0' + d);
        }
        compare(&s);
    }
    /// What is written is JSON and denotes the same.
    fn round(v: Value) {
        let s = write(v);
        for c in &s {
            check(*c >= 32, 20);
        }
        let mut r = Reader { s: &s, i: 0, loose: false };
        match r.all() {
            Some(k) => check(same(&k, &v), 21),
            None => check(false, 22),
        }
        match read(&s) {
            Some(w) => check(alike(&v, &w), 23),
            None => check(false, 24),
        }
        cover(1);
    }
    fn alike(a: &Value, b: &Value) -> bool {
        match (a, b) {
            (Value::Float(a), Value::Float(b)) => a.to_bits() == b.to_bits(),
            (Value::Big(a), Value::Big(b)) => a == b,
            (Value::Str(a), Value::Str(b)) => a.len() == b.len() && a.bytes().zip(b.bytes()).fold(true, |r, (x, y)| r & (x == y)),
            (Value::Ary(a), Value::Ary(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| alike(x, y)),
            (Value::Hash(a), Value::Hash(b)) => {
                a.len() == b.len() && a.iter().zip(b.iter()).all(|((k, x), (l, y))| alike(k, l) && alike(x, y))
            }
            _ => a == b,
        }
    }
    pub fn round_str(n: usize) {
        let mut s = String::new();
        for _ in 0..n {
            s.push(sym(7) as u8 as char);
        }
        round(Value::string(s));
    }
    pub fn round_char() {
        let Some(c) = char::from_u32(sym(21) as u32) else { return };
        round(Value::string(c.to_string()));
    }
    pub fn round_int() {
        round(Value::integer(sym(9) as i64 - 256));
    }
    pub fn round_far() {
        let x = [
            "9223372036854775807",
            "-9223372036854775808",
            "9223372036854775808",
            "-9223372036854775809",
            "4611686018427387904",
            "-1267650600228229401496703205376",
        ][pick(6)];
        round(Value::bigint(BigInt(x.to_string())));
    }
    pub fn round_float() {
        round(Value::float(FLOATS[pick(5)].0));
    }
    fn leaf(k: usize) -> Value {
        match k {
            0 => Value::nil(),
            1 => Value::bool(sym_bool()),
            2 => Value::integer(sym(3) as i64 - 4),
            3 => Value::string_from_str(std::str::from_utf8(&[sym(7) as u8]).unwrap()),
            4 => Value::array_from_vec(vec![]),
            5 => Value::hash(RubyMap::default()),
            _ => Value::bigint(BigInt("1208925819614629174706176".to_string())),
        }
    }
    pub fn round_tree(hash: bool) {
        let n = pick(3);
        let items: Vec<Value> = (0..n).map(|i| leaf(if i == 0 { pick(7) } else { 2 + pick(2) })).collect();
        let v = if hash {
            let keys = [sym(7) as u8, b'k'];
            if n == 2 {
                assume(keys[0] != keys[1]);
            }
            let mut m = RubyMap::default();
            for i in 0..n {
                m.0.push((Value::string_from_str(std::str::from_utf8(&keys[i..i + 1]).unwrap()), items[i]));
            }
            Value::hash(m)
        } else {
            Value::array_from_vec(items)
        };
        // once inside another
        round(match pick(3) {
            0 => v,
            1 => Value::array_from_vec(vec![v, Value::nil()]),
            _ => {
                let mut m = RubyMap::default();
                m.0.push((Value::string_from_str("k"), v));
                m.0.push((Value::string_from_str("l"), Value::integer(0)));
                Value::hash(m)
            }
        });
    }
}

entries! {
    x01_array_3 => h::text(b"[", 3, b"[],1 ", b"]");
    x01_array_4 => h::text(b"", 4, b"[],1 ", b"");
    x01_array_8 => h::text(b"", 8, b"[],1 ", b"");
    x01_array_6 => h::text(b"", 6, b"[],1 ", b"");
    x01_object_3 => h::text(b"{\"a\"", 3, b"{}:,\"2 ", b"}");
    x01_object_7 => h::text(b"{\"", 7, b"\"a:1,}", b"");
    x01_object_8 => h::text(b"{\"a\":1", 6, b"\"a:1,} ", b"");
    x01_mixed_6 => h::text(b"", 6, b"[]{}:,1\"", b"");
    x01_object_dup => h::text(b"{\"a\":1,\"", 1, b"ab", b"\":2}");
    x01_object_5 => h::text(b"{\"", 5, b"\"a:1,}", b"");
    x01_number_3 => h::number(b"", 3, b"-+.eE019 ", b"");
    x01_number_4 => h::number(b"", 4, b"-+.e05", b"");
    x01_number_5 => h::number(b"", 5, b"-+.e05", b"");
    x01_number_in => h::number(b"[", 3, b"-.e05,", b"]");
    x01_int => h::text(b"[", 4, b"-,0123456789 ", b"]");
    x01_word_3 => h::text(b"", 3, b"nulltrefas", b"e");
    x01_word_4 => h::text(b"", 4, b"nultre", b"");
    x01_false => h::text(b"fal", 2, b"nultrefas ", b"");
    x01_any_1 => h::string(b"", 1, b"");
    x01_any_2 => h::string(b"", 2, b"");
    x01_any_end => h::string(b"1", 1, b"");
    x01_str_1 => h::string(b"\"", 1, b"\"");
    x01_str_2 => h::string(b"\"", 2, b"\"");
    x01_any_3 => h::string(b"", 3, b"");
    x01_str_5 => h::string(b"\"", 5, b"\"");
    x01_str_3 => h::string(b"\"", 3, b"\"");
    x01_esc_u => h::string(b"\"\\u", 1, b"041\"");
    x01_esc_v => h::string(b"\"\\u00", 2, b"\"");
    x01_esc_pair => h::string(b"\"\\uD83D", 2, b"0041\"");
    x01_uni_1 => h::unicode(0, 7, 1, b"\"");
    x01_uni_2 => h::unicode(0x80, 11, 1, b"\"");
    x01_uni_3 => h::unicode(0x800, 16, 1, b"\"");
    x01_uni_pair => h::unicode(0, 10, 2, b"\"");
    x01_uni_hi => h::unicode(0xd800, 10, 1, b"\\u0041\"");
    x01_uni_cut => h::unicode(0, 7, 1, b"\\u00");
    x01_char_2 => h::chars(2);
    x01_char_3 => h::chars(3);
    x01_char_4 => h::chars(4);
    x01_raw_1 => h::raw(1);
    x01_raw_2 => h::raw(2);
    x01_raw_3 => h::raw(3);
    x01_max => h::limit(false, 0);
    x01_min => h::limit(true, 0);
    x01_max_more => h::limit(false, 1);
    x01_raw_4 => h::raw(4);
    x01_round_str_3 => h::round_str(3);
    x01_round_str => h::round_str(2);
    x01_round_char => h::round_char();
    x01_round_int => h::round_int();
    x01_round_far => h::round_far();
    x01_round_float => h::round_float();
    x01_round_ary => h::round_tree(false);
    x01_round_hash => h::round_tree(true);
}

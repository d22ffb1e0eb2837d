//! Z01: format directives (monoruby/src/executor/format.rs): width, precision and flags of integer,
//! string and character conversions, `..` notation, hexadecimal floats and argument references.
use crate::v::*;

/// What the code uses of the rest of the interpreter.
mod shim {
    use std::borrow::Cow;
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum MonorubyErr {
        Arg,
        Range,
        Key,
        Other,
    }
    impl MonorubyErr {
        pub fn argumenterr(_: impl Into<String>) -> Self {
            MonorubyErr::Arg
        }
        pub fn rangeerr(_: impl Into<String>) -> Self {
            MonorubyErr::Range
        }
        pub fn typeerr(_: impl Into<String>) -> Self {
            MonorubyErr::Other
        }
        pub fn keyerr_with(_: impl Into<String>, _: Value, _: Value) -> Self {
            MonorubyErr::Key
        }
        pub fn method_not_found(_: &Store, _: IdentId, _: Value) -> Self {
            MonorubyErr::Other
        }
        pub fn encoding_compatibility_error_with_store(_: &Store, _: impl Into<String>) -> Self {
            MonorubyErr::Other
        }
        pub fn incompatible_encoding(_: &Store, _: Encoding, _: Encoding) -> Self {
            MonorubyErr::Other
        }
    }
    pub struct Store;
    pub struct Globals {
        pub store: Store,
    }
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct IdentId(u8);
    impl IdentId {
        pub const TO_S: IdentId = IdentId(0);
        pub const INSPECT: IdentId = IdentId(1);
        pub const TO_INT: IdentId = IdentId(2);
        pub fn get_id(_: &str) -> Self {
            IdentId(3)
        }
    }
    pub type FuncId = IdentId;
    impl Globals {
        pub fn check_method(&self, _: Value, id: IdentId) -> Option<FuncId> {
            Some(id)
        }
        pub fn get_gvar(&self, _: IdentId) -> Option<Value> {
            None
        }
    }
    pub struct Executor;
    impl Executor {
        pub fn invoke_func_inner(&mut self, g: &mut Globals, f: FuncId, v: Value, _: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
            Ok(Value::string(if f == IdentId::TO_S { v.to_s(&g.store) } else { v.inspect(&g.store) }))
        }
        pub fn ruby_warn(&mut self, _: &mut Globals, _: &str) -> Result<()> {
            Ok(())
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Encoding {
        Utf8,
        Ascii8,
        UsAscii,
        EucJp,
        Sjis(u8),
        Iso8859(u8),
        NamedByte(u8),
        Utf16,
    }
    impl Encoding {
        pub fn is_ascii_compatible(&self) -> bool {
            *self != Encoding::Utf16
        }
        pub fn is_byte_oriented(&self) -> bool {
            matches!(self, Encoding::Ascii8 | Encoding::EucJp | Encoding::Sjis(_) | Encoding::Iso8859(_) | Encoding::NamedByte(_))
        }
        pub fn name(&self) -> &'static str {
            ""
        }
    }
    #[derive(Clone, Debug)]
    pub struct RStringInner {
        pub b: Vec<u8>,
        pub enc: Encoding,
    }
    impl RStringInner {
        pub fn from_encoding_scanned(b: &[u8], enc: Encoding) -> Self {
            RStringInner { b: b.to_vec(), enc }
        }
        pub fn from_mapped_utf8(s: &str, enc: Encoding) -> Self {
            RStringInner { b: s.chars().map(|c| c as u32 as u8).collect(), enc }
        }
        pub fn as_bytes(&self) -> &[u8] {
            &self.b
        }
        pub fn encoding(&self) -> Encoding {
            self.enc
        }
        pub fn set_encoding(&mut self, enc: Encoding) {
            self.enc = enc;
        }
        pub fn is_valid_encoding(&self) -> bool {
            self.enc != Encoding::Utf8 || std::str::from_utf8(&self.b).is_ok()
        }
        /// of two strings of the same encoding, or one of them ASCII only
        pub fn compatible_encoding(&self, o: &Self) -> Option<Encoding> {
            if self.enc == o.enc || o.b.is_ascii() {
                Some(self.enc)
            } else if self.b.is_ascii() {
                Some(o.enc)
            } else {
                None
            }
        }
        pub fn regex_view(&self) -> Result<Cow<'_, str>> {
            std::str::from_utf8(&self.b).map(Cow::Borrowed).map_err(|_| MonorubyErr::Arg)
        }
    }
    pub fn map_bytes_to_utf8(b: &[u8]) -> String {
        b.iter().map(|&b| b as char).collect()
    }
    pub fn eucjp_char_width(b: &[u8]) -> Option<usize> {
        match b {
            [] => None,
            [0..=0x7f, ..] => Some(1),
            [0xa1..=0xfe, 0xa1..=0xfe, ..] => Some(2),
            _ => None,
        }
    }
    pub fn sjis_char_width(b: &[u8]) -> Option<usize> {
        match b {
            [] => None,
            [0..=0x7f, ..] => Some(1),
            _ => None,
        }
    }

    /// A few numbers beyond 64 bits, in the bases they are written in.
    #[derive(Clone, Copy, Debug)]
    pub struct BigInt {
        pub neg: bool,
        pub of: &'static Digits,
    }
    #[derive(Debug)]
    pub struct Digits {
        pub dec: &'static str,
        pub bin: &'static str,
        pub oct: &'static str,
        pub hex: &'static str,
        /// of the negative number, after the dots
        pub nbin: &'static str,
        pub noct: &'static str,
        pub nhex: &'static str,
    }
    pub const BIG: [Digits; 2] = [
        Digits {
            dec: "18446744073709551616",
            bin: "10000000000000000000000000000000000000000000000000000000000000000",
            oct: "2000000000000000000000",
            hex: "10000000000000000",
            nbin: "10000000000000000000000000000000000000000000000000000000000000000",
            noct: "76000000000000000000000",
            nhex: "f0000000000000000",
        },
        Digits {
            dec: "4611686018427387905",
            bin: "100000000000000000000000000000000000000000000000000000000000001",
            oct: "400000000000000000001",
            hex: "4000000000000001",
            nbin: "1011111111111111111111111111111111111111111111111111111111111111",
            noct: "7377777777777777777777",
            nhex: "fbfffffffffffffff",
        },
    ];
    impl BigInt {
        pub fn is_negative(&self) -> bool {
            self.neg
        }
        fn show(&self, f: &mut std::fmt::Formatter, s: &str, up: bool) -> std::fmt::Result {
            if self.neg {
                f.write_str("-")?;
            }
            if up { f.write_str(&s.to_ascii_uppercase()) } else { f.write_str(s) }
        }
    }
    pub trait Signed {}
    impl std::ops::Neg for BigInt {
        type Output = BigInt;
        fn neg(self) -> BigInt {
            BigInt { neg: !self.neg, ..self }
        }
    }
    impl std::ops::Neg for &BigInt {
        type Output = BigInt;
        fn neg(self) -> BigInt {
            -*self
        }
    }
    impl std::fmt::Display for BigInt {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.show(f, self.of.dec, false)
        }
    }
    impl std::fmt::Binary for BigInt {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.show(f, self.of.bin, false)
        }
    }
    impl std::fmt::Octal for BigInt {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.show(f, self.of.oct, false)
        }
    }
    impl std::fmt::LowerHex for BigInt {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.show(f, self.of.hex, false)
        }
    }
    impl std::fmt::UpperHex for BigInt {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.show(f, self.of.hex, true)
        }
    }
    pub enum IntegerBase {
        Fixnum(i64),
        BigInt(BigInt),
    }

    #[derive(Clone, Copy, Debug)]
    pub enum Value {
        Nil,
        Int(i64),
        Big(BigInt),
        Float(f64),
        Str(&'static RStringInner),
        /// one pair
        Hash(&'static str, &'static Value),
        Sym(&'static str),
    }
    pub enum RV<'a> {
        Fixnum(i64),
        BigInt(&'a BigInt),
        Float(f64),
        String(&'a RStringInner),
        Other,
    }
    #[derive(Clone, Copy)]
    pub struct Hashmap(&'static str, &'static Value);
    impl Hashmap {
        pub fn get(&self, k: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
            Ok(if let Value::Sym(k) = k && k == self.0 { Some(*self.1) } else { None })
        }
        pub fn index(&self, vm: &mut Executor, g: &mut Globals, k: Value) -> Result<Value> {
            Ok(self.get(k, vm, g)?.unwrap_or(Value::Nil))
        }
        pub fn iter(&self) -> impl Iterator<Item = (Value, Value)> + use<> {
            std::iter::once((Value::Sym(self.0), *self.1))
        }
    }
    impl From<Hashmap> for Value {
        fn from(h: Hashmap) -> Value {
            Value::Hash(h.0, h.1)
        }
    }
    impl Value {
        pub fn string(s: String) -> Self {
            Value::string_from_inner(RStringInner { b: s.into_bytes(), enc: Encoding::Utf8 })
        }
        pub fn string_from_inner(s: RStringInner) -> Self {
            Value::Str(Box::leak(Box::new(s)))
        }
        pub fn symbol_from_str(s: &str) -> Self {
            Value::Sym(Box::leak(s.to_string().into_boxed_str()))
        }
        pub fn unpack(&self) -> RV<'_> {
            match self {
                Value::Int(i) => RV::Fixnum(*i),
                Value::Big(b) => RV::BigInt(b),
                Value::Float(f) => RV::Float(*f),
                Value::Str(s) => RV::String(s),
                _ => RV::Other,
            }
        }
        pub fn is_nil(&self) -> bool {
            matches!(self, Value::Nil)
        }
        pub fn as_bool(&self) -> bool {
            !self.is_nil()
        }
        pub fn is_integer(&self) -> bool {
            matches!(self, Value::Int(_) | Value::Big(_))
        }
        pub fn is_rstring_inner(&self) -> Option<&'static RStringInner> {
            if let Value::Str(s) = self { Some(s) } else { None }
        }
        pub fn is_str(&self) -> Option<&'static str> {
            self.is_rstring_inner().and_then(|s| std::str::from_utf8(&s.b).ok())
        }
        pub fn try_hash_ty(&self) -> Option<Hashmap> {
            if let Value::Hash(k, v) = self { Some(Hashmap(k, v)) } else { None }
        }
        pub fn coerce_to_integer(&self, _: &mut Executor, _: &mut Globals) -> Result<IntegerBase> {
            match self {
                Value::Int(i) => Ok(IntegerBase::Fixnum(*i)),
                Value::Big(b) => Ok(IntegerBase::BigInt(*b)),
                _ => Err(MonorubyErr::Other),
            }
        }
        pub fn coerce_to_float(&self, _: &mut Executor, _: &mut Globals) -> Result<f64> {
            if let Value::Float(f) = self { Ok(*f) } else { Err(MonorubyErr::Other) }
        }
        pub fn coerce_to_char(&self, _: &mut Executor, _: &mut Globals) -> Result<Option<char>> {
            Err(MonorubyErr::Other)
        }
        pub fn coerce_to_s(&self, _: &mut Executor, g: &mut Globals) -> Result<String> {
            Ok(self.to_s(&g.store))
        }
        pub fn to_s(&self, _: &Store) -> String {
            match self {
                Value::Int(i) => i.to_string(),
                Value::Str(s) => String::from_utf8_lossy(&s.b).into_owned(),
                _ => String::new(),
            }
        }
        pub fn inspect(&self, s: &Store) -> String {
            self.to_s(s)
        }
    }
}

mod code {
    use super::shim::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/fmt.rs"));
    /// `f % args`
    pub fn fmt(f: &str, args: &[Value]) -> Result<RStringInner> {
        let mut g = Globals { store: Store };
        let f = RStringInner { b: f.as_bytes().to_vec(), enc: Encoding::Utf8 };
        let ctx = negotiate_format(&g.store, &f, args)?;
        let t = ctx.view_owned(&f)?;
        let r = Executor.format_by_args(&mut g, &t, args, ctx)?;
        match ctx.finish(&r) {
            Value::Str(s) => Ok(s.clone()),
            _ => Err(MonorubyErr::Other),
        }
    }
}

mod h {
    use super::code::fmt;
    use super::shim::*;
    use crate::v::*;

    fn same(a: &[u8], b: &[u8]) -> bool {
        a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
    }
    fn gives(r: Result<RStringInner>, want: &[u8], id: u32) {
        match r {
            Ok(s) => {
                check(same(&s.b, want), id);
                cover(1);
            }
            Err(_) => check(false, id + 1),
        }
    }
    fn push(b: &mut Vec<u8>, c: u8, n: usize) {
        for _ in 0..n {
            b.push(c);
        }
    }

    #[derive(Clone, Copy)]
    struct Spec {
        zero: bool,
        minus: bool,
        plus: bool,
        space: bool,
        sharp: bool,
        width: Option<usize>,
        prec: Option<usize>,
    }
    impl Spec {
        fn text(&self, conv: char) -> String {
            let mut s = String::from("%");
            for (on, c) in [(self.sharp, '#'), (self.zero, '0'), (self.minus, '-'), (self.plus, '+'), (self.space, ' ')] {
                if on {
                    s.push(c);
                }
            }
            let dec = |s: &mut String, n: usize| {
                if n > 9 {
                    s.push((b'0' + (n / 10) as u8) as char);
                }
                s.push((b'0' + (n % 10) as u8) as char);
            };
            if let Some(w) = self.width {
                dec(&mut s, w);
            }
            if let Some(p) = self.prec {
                s.push('.');
                dec(&mut s, p);
            }
            s.push(conv);
            s
        }
        /// With the given fields on either side.
        fn pad(&self, body: Vec<u8>, chars: usize) -> Vec<u8> {
            let fill = self.width.unwrap_or(0).saturating_sub(chars);
            let mut r = vec![];
            if !self.minus {
                push(&mut r, b' ', fill);
            }
            r.extend_from_slice(&body);
            if self.minus {
                push(&mut r, b' ', fill);
            }
            r
        }
    }
    fn spec(zero_prec: bool) -> Spec {
        let f = pick(32);
        Spec {
            zero: f & 1 != 0,
            minus: f & 2 != 0,
            plus: f & 4 != 0,
            space: f & 8 != 0,
            sharp: f & 16 != 0,
            width: [None, Some(4), Some(9)][pick(3)],
            prec: if zero_prec { [None, Some(0), Some(2), Some(6)][pick(4)] } else { None },
        }
    }

    /// Digits of a number in base 2**bits; of a negative one after the dots.
    fn digits(v: i64, bits: u32, up: bool) -> Vec<u8> {
        let mut r = vec![];
        let mask = (1 << bits) - 1;
        let ch = |d: i64| match d {
            0..=9 => b'0' + d as u8,
            _ => (if up { b'A' } else { b'a' }) + d as u8 - 10,
        };
        let mut x = v;
        let stop = if v < 0 { -1 } else { 0 };
        while x != stop {
            r.push(ch(x & mask));
            x >>= bits;
        }
        if v < 0 {
            r.push(ch(mask));
        } else if v == 0 {
            r.push(b'0');
        }
        r.reverse();
        r
    }
    fn decimal(v: u64) -> Vec<u8> {
        let mut r = vec![];
        let mut v = v as u32;
        while v > 0 || r.is_empty() {
            r.push(b'0' + (v % 10) as u8);
            v /= 10;
        }
        r.reverse();
        r
    }
    /// The layout: sign, prefix, dots, filling, digits.
    fn layout(s: Spec, conv: char, neg: bool, dots: bool, digits: &[u8], zero: bool) -> Vec<u8> {
        let sign: &[u8] = if neg && !dots {
            b"-"
        } else if s.plus {
            b"+"
        } else if s.space {
            b" "
        } else {
            b""
        };
        // a zero of no digits
        let digits: &[u8] = if zero && s.prec == Some(0) { b"" } else { digits };
        let want = s.prec.map_or(0, |p| if dots { p.saturating_sub(2) } else { p });
        let zeros = want.saturating_sub(digits.len());
        let prefix: &[u8] = if !s.sharp {
            b""
        } else {
            match conv {
                'x' if !zero => b"0x",
                'X' if !zero => b"0X",
                'b' if !zero => b"0b",
                'B' if !zero => b"0B",
                // an octal number starts with 0 either way
                'o' if !dots && zeros == 0 && !(digits.len() == 1 && digits[0] == b'0') => b"0",
                _ => b"",
            }
        };
        let mut fixed = sign.to_vec();
        fixed.extend_from_slice(prefix);
        if dots {
            fixed.extend_from_slice(b"..");
        }
        let fill = if dots { digits[0] } else { b'0' };
        let mut n = zeros;
        if s.zero && !s.minus && s.prec.is_none() {
            n = s.width.unwrap_or(0).saturating_sub(fixed.len() + digits.len());
        }
        push(&mut fixed, fill, n);
        fixed.extend_from_slice(digits);
        let len = fixed.len();
        s.pad(fixed, len)
    }
    pub fn int(conv: char, bits: u32) {
        let s = spec(true);
        let v = sym(bits) as i64 - (1 << (bits - 1));
        let base = match conv {
            'x' | 'X' => 4,
            'o' => 3,
            'b' | 'B' => 1,
            _ => 0,
        };
        let dots = base != 0 && v < 0 && !s.plus && !s.space;
        let abs = if v < 0 { -v } else { v };
        let d = if base == 0 { decimal(abs as u64) } else { digits(if dots { v } else { abs }, base, conv == 'X') };
        gives(fmt(&s.text(conv), &[Value::Int(v)]), &layout(s, conv, v < 0, dots, &d, v == 0), 10);
    }
    /// The two ends of the immediate range and numbers beyond.
    pub fn far(conv: char) {
        let mut s = spec(false);
        s.width = [None, Some(24), Some(70)][pick(3)];
        s.prec = [None, Some(20), Some(68)][pick(3)];
        let (base, up) = match conv {
            'x' | 'X' => (4, conv == 'X'),
            'o' => (3, false),
            'b' => (1, false),
            _ => (0, false),
        };
        let k = pick(4);
        let neg = pick(2) == 1;
        let dots = base != 0 && neg && !s.plus && !s.space;
        let (v, d) = if k < 2 {
            let of = &BIG[k];
            let d = match (base, dots) {
                (0, _) => of.dec,
                (1, false) => of.bin,
                (3, false) => of.oct,
                (_, false) => of.hex,
                (1, true) => of.nbin,
                (3, true) => of.noct,
                (_, true) => of.nhex,
            };
            (Value::Big(BigInt { neg, of }), if up { d.to_ascii_uppercase().into_bytes() } else { d.as_bytes().to_vec() })
        } else {
            let abs = [(1i64 << 62) - 1, 1 << 32][k - 2];
            let v = if neg { -abs } else { abs };
            let d = if base == 0 { [b"4611686018427387903".to_vec(), b"4294967296".to_vec()][k - 2].clone() } else { digits(if dots { v } else { abs }, base, up) };
            (Value::Int(v), d)
        };
        gives(fmt(&s.text(conv), &[v]), &layout(s, conv, neg, dots, &d, false), 10);
    }

    fn text(n: usize, wide: bool) -> String {
        let mut s = String::new();
        for i in 0..n {
            if wide && i == 1 {
                s.push([char::from_u32(0x80 + sym(10) as u32), char::from_u32(0x1000 + sym(14) as u32), char::from_u32(0x10000 + sym(19) as u32)][pick(3)].unwrap_or('x'));
            } else {
                s.push(sym(7) as u8 as char);
            }
        }
        s
    }
    /// `kind`: s, p, {k}
    pub fn string(kind: usize, wide: bool) {
        let s = Spec { zero: pick(2) == 1, minus: pick(2) == 1, plus: false, space: false, sharp: false, width: [None, Some(2), Some(6)][pick(3)], prec: [None, Some(0), Some(1), Some(2)][pick(4)] };
        let t = text(pick(4), wide);
        let v = Value::string(t.clone());
        let n = s.prec.unwrap_or(9);
        let cut: Vec<char> = t.chars().take(n).collect();
        let body: String = cut.iter().collect();
        let want = s.pad(body.into_bytes(), cut.len());
        let (f, v) = match kind {
            0 => (s.text('s'), v),
            1 => (s.text('p'), v),
            2 => (s.text('{') + "k}", Value::Hash("k", Box::leak(Box::new(v)))),
            _ => (s.text('<') + "k>s", Value::Hash("k", Box::leak(Box::new(v)))),
        };
        gives(fmt(&f, &[v]), &want, 20);
    }
    /// Bytes that are no characters are counted and kept one by one.
    pub fn broken(enc: Encoding) {
        let w = [None, Some(2), Some(5)][pick(3)];
        let s = Spec { zero: false, minus: pick(2) == 1, plus: false, space: false, sharp: false, width: w, prec: [None, Some(1)][pick(2)] };
        let mut b = vec![sym8(), sym(7) as u8, 0x80 | sym(7) as u8];
        b.truncate(1 + pick(3));
        let v = Value::string_from_inner(RStringInner { b: b.clone(), enc });
        assume(b[0] >= 0x80);
        if enc == Encoding::Utf8 {
            assume(std::str::from_utf8(&b).is_err());
        }
        b.truncate(s.prec.unwrap_or(9));
        let n = b.len();
        gives(fmt(&s.text('s'), &[v]), &s.pad(b, n), 22);
    }
    pub fn chr() {
        let s = Spec { zero: false, minus: pick(2) == 1, plus: false, space: false, sharp: false, width: [None, Some(1), Some(3)][pick(3)], prec: None };
        let code = sym(21) as u32;
        let c = char::from_u32(code);
        if pick(2) == 0 {
            let r = fmt(&s.text('c'), &[Value::Int(code as i64)]);
            match c {
                Some(c) => gives(r, &s.pad(c.to_string().into_bytes(), 1), 24),
                None => check(matches!(r, Err(MonorubyErr::Arg)), 26),
            }
        } else if let Some(c) = c {
            let mut t = c.to_string();
            if pick(2) == 1 {
                t.push('z');
            }
            gives(fmt(&s.text('c'), &[Value::string(t)]), &s.pad(c.to_string().into_bytes(), 1), 27);
        }
    }
    /// Width and precision from arguments.
    pub fn star() {
        let w = sym(4) as i64 - 8;
        let p = sym(3) as i64 - 4;
        let v = Value::Int(7);
        let (f, args) = match pick(3) {
            0 => ("%*.*d", [Value::Int(w), Value::Int(p), v]),
            1 => ("%3$*1$.*2$d", [Value::Int(w), Value::Int(p), v]),
            _ => ("%*3$.*1$2$d", [Value::Int(p), v, Value::Int(w)]),
        };
        let (w, p) = (conc(w as u64) as i64, conc(p as u64) as i64);
        let s = Spec {
            zero: false,
            minus: w < 0,
            plus: false,
            space: false,
            sharp: false,
            width: Some(w.unsigned_abs() as usize),
            prec: if p < 0 { None } else { Some(p as usize) },
        };
        gives(fmt(f, &args), &layout(s, 'd', false, false, b"7", false), 30);
    }
    /// Literal text, `%%` and sequential references.
    pub fn plain(n: usize) {
        let mut f = String::new();
        for _ in 0..n {
            let c = sym8();
            assume((c == b'%') | (c == b'd') | (c == b'z') | (c == b'x'));
            f.push(c as char);
        }
        let args = [Value::Int(10), Value::Int(-11)];
        let mut want = Some(vec![]);
        let b = f.as_bytes();
        let (mut i, mut a) = (0, 0);
        while let Some(w) = &mut want
            && i < n
        {
            if b[i] != b'%' {
                w.push(b[i]);
                i += 1;
                continue;
            }
            i += 2;
            match b.get(i - 1) {
                Some(b'%') => w.push(b'%'),
                Some(c @ (b'd' | b'x')) if a < 2 => {
                    let t: &[u8] = match (a, c) {
                        (0, b'd') => b"10",
                        (0, _) => b"a",
                        (_, b'd') => b"-11",
                        _ => b"..f5",
                    };
                    w.extend_from_slice(t);
                    a += 1;
                }
                _ => want = None,
            }
        }
        match want {
            Some(w) => gives(fmt(&f, &args), &w, 32),
            None => {
                check(matches!(fmt(&f, &args), Err(MonorubyErr::Arg)), 34);
                cover(2);
            }
        }
    }
    /// Any directive ends in a text or an error.
    pub fn any(n: usize) {
        let mut f = String::from("%");
        for _ in 0..n {
            let c = sym8();
            let mut ok = false;
            for k in b"d1$*.-0<>{}%" {
                ok |= c == *k;
            }
            assume(ok);
            f.push(c as char);
        }
        let args = [Value::Int(3), Value::Int(-2)];
        match fmt(&f, &args) {
            Ok(_) => cover(1),
            Err(e) => {
                check(e == MonorubyErr::Arg || e == MonorubyErr::Key, 36);
                cover(2);
            }
        }
    }
    /// A reference to an argument there is not.
    pub fn absent() {
        let f = ["%0$d", "%3$d", "%18446744073709551617$d", "%2$*18446744073709551617$d", "%1$.*36893488147419103233$d", "%-18446744073709551618$d"][pick(6)];
        let r = fmt(f, &[Value::Int(1), Value::Int(2)]);
        check(matches!(r, Err(MonorubyErr::Arg)), 38);
        cover(1);
    }
    /// Named, numbered and sequential references do not mix.
    pub fn mixed() {
        let part = ["%d", "%1$d", "%<k>d", "%{k}"];
        let (a, b) = (pick(4), pick(4));
        let mut f = part[a].to_string();
        f.push_str(part[b]);
        let v = Value::Int(5);
        let hash = Value::Hash("k", Box::leak(Box::new(v)));
        let args = if a == 1 || b == 1 || (a != 0 && b != 0) { [v, hash] } else { [v, v] };
        let args = if a >= 2 || b >= 2 { [v, hash] } else { args };
        let r = fmt(&f, &args);
        let kind = |k: usize| if k >= 2 { 2 } else { k };
        if kind(a) != kind(b) {
            check(matches!(r, Err(MonorubyErr::Arg)), 40);
            cover(2);
        } else if a != 0 {
            gives(r, b"55", 41);
        }
    }

    fn hexval(c: u8) -> Option<u64> {
        match c {
            b'0'..=b'9' => Some((c - b'0') as u64),
            b'a'..=b'f' => Some((c - b'a') as u64 + 10),
            _ => None,
        }
    }
    /// A mantissa of `m`: 16 unknown bits from its top and one below; exponent `e`.
    pub fn hexfloat(e: i32, prec: Option<usize>) {
        let m = sym(12) << 40 | sym(1) << 20;
        hexes(1 << 52 | m, e, f64::from_bits(((e + 1023) as u64) << 52 | m), prec);
    }
    /// Below the smallest normal number: 6 unknown bits at three places.
    pub fn tiny() {
        let k = pick(3);
        let m = conc((1 | sym(5) << 1) << [0, 20, 45][k]);
        let mut n = m;
        let mut e = -1022;
        for _ in 0..52 {
            if n >> 52 == 0 {
                n <<= 1;
                e -= 1;
            }
        }
        hexes(n, e, f64::from_bits(m), None);
    }
    /// `n` * 2**(e-52) is the number.
    fn hexes(n: u64, e: i32, f: f64, prec: Option<usize>) {
        let t = match prec {
            None => "%a",
            Some(0) => "%.0a",
            Some(1) => "%.1a",
            Some(2) => "%.2a",
            Some(3) => "%.3a",
            _ => "%.15a",
        };
        let Ok(s) = fmt(t, &[Value::Float(f)]) else {
            return check(false, 50);
        };
        let b = &s.b;
        check(b.len() > 5 && b[0] == b'0' && b[1] == b'x' && (b[2] == b'1' || b[2] == b'2'), 51);
        let mut r = (b[2] - b'0') as u64;
        let mut i = 3;
        let mut p = 0;
        if b[3] == b'.' {
            i = 4;
            while i < b.len() && b[i] != b'p' {
                let Some(d) = hexval(b[i]) else { return check(false, 52) };
                if p < 13 {
                    r = r << 4 | d;
                    p += 1;
                } else {
                    check(d == 0, 53);
                }
                i += 1;
            }
            check(i > 4, 54);
        }
        if let Some(q) = prec {
            check(i - if q > 0 { 4 } else { 3 } == q, 55);
        }
        check(b[i] == b'p' && (b[i + 1] == b'+' || b[i + 1] == b'-'), 56);
        let mut x = 0i32;
        for c in &b[i + 2..] {
            check(c.is_ascii_digit(), 57);
            x = x * 10 + (c - b'0') as i32;
        }
        if b[i + 1] == b'-' {
            x = -x;
        }
        // once more than written when a carry moved the point
        let up = x - e;
        check(up == 0 || up == 1, 58);
        let got = r << (52 - 4 * p) << up;
        let off = if got > n { got - n } else { n - got };
        match prec {
            Some(q) if q < 13 => check(off <= 1 << (51 - 4 * q), 59),
            _ => check(off == 0, 60),
        }
        cover(1);
    }
    /// What is not finite is filled up with spaces.
    pub fn endless() {
        let s = Spec { zero: pick(2) == 1, minus: pick(2) == 1, plus: pick(2) == 1, space: pick(2) == 1, sharp: pick(2) == 1, width: [None, Some(6)][pick(2)], prec: [None, Some(1)][pick(2)] };
        let k = pick(3);
        let f = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN][k];
        let mut body: Vec<u8> = if k == 1 {
            b"-".to_vec()
        } else if s.plus {
            b"+".to_vec()
        } else if s.space {
            b" ".to_vec()
        } else {
            vec![]
        };
        body.extend_from_slice(if k == 2 { b"NaN" } else { b"Inf" });
        let n = body.len();
        let conv = ['f', 'e', 'g', 'a'][pick(4)];
        gives(fmt(&s.text(conv), &[Value::Float(f)]), &s.pad(body, n), 62);
    }
}

entries! {
    z01_d => h::int('d', 5);
    z01_x => h::int('x', 6);
    z01_upx => h::int('X', 5);
    z01_o => h::int('o', 5);
    z01_b => h::int('b', 4);
    z01_upb => h::int('B', 3);
    z01_far_d => h::far('d');
    z01_far_x => h::far('x');
    z01_far_upx => h::far('X');
    z01_far_o => h::far('o');
    z01_far_b => h::far('b');
    z01_str => h::string(0, false);
    z01_str_wide => h::string(0, true);
    z01_insp => h::string(1, true);
    z01_curly => h::string(2, true);
    z01_angle => h::string(3, true);
    z01_binary => h::broken(shim::Encoding::Ascii8);
    z01_broken => h::broken(shim::Encoding::Utf8);
    z01_chr => h::chr();
    z01_star => h::star();
    z01_plain_4 => h::plain(4);
    z01_plain_6 => h::plain(6);
    z01_any_3 => h::any(3);
    z01_any_4 => h::any(4);
    z01_absent => h::absent();
    z01_mixed => h::mixed();
    z01_a => h::hexfloat(0, None);
    z01_a_far => h::hexfloat(-1022, None);
    z01_a_big => h::hexfloat(1023, None);
    z01_a0 => h::hexfloat(0, Some(0));
    z01_a1 => h::hexfloat(3, Some(1));
    z01_a2 => h::hexfloat(-4, Some(2));
    z01_a3 => h::hexfloat(0, Some(3));
    z01_a15 => h::hexfloat(0, Some(15));
    z01_tiny => h::tiny();
    z01_endless => h::endless();
}

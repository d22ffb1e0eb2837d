//! P02: the number formats of Marshal (monoruby/src/builtins/marshal.rs): what is written reads
//! back, in the documented layout, and reading never runs out of the data.
use crate::v::*;

mod shim {
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    #[derive(Debug)]
    pub struct MonorubyErr;
    impl MonorubyErr {
        pub fn argumenterr(_: impl Into<String>) -> MonorubyErr {
            MonorubyErr
        }
        pub fn typeerr(_: impl Into<String>) -> MonorubyErr {
            MonorubyErr
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Encoding {
        Ascii8,
        Utf8,
        UsAscii,
    }
    impl Encoding {
        pub fn is_utf8_compatible(&self) -> bool {
            !matches!(self, Encoding::Ascii8)
        }
    }
    pub struct RStringInner {
        pub b: Vec<u8>,
        pub e: Encoding,
    }
    impl RStringInner {
        pub fn from_encoding(b: &[u8], e: Encoding) -> Self {
            RStringInner { b: b.to_vec(), e }
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct IdentId(pub u32);
    impl IdentId {
        pub fn get_id(s: &str) -> IdentId {
            IdentId(s.len() as u32)
        }
        pub fn get_id_from_bytes(b: Vec<u8>, _: Encoding) -> IdentId {
            IdentId(b.len() as u32)
        }
    }
    #[derive(Clone, Copy)]
    pub struct Proc;
    #[derive(Clone, Copy)]
    pub enum Value {
        Big(bool, u128),
        Flt(f64),
        Str(*const RStringInner),
    }
    impl Value {
        pub fn bigint(b: BigInt) -> Value {
            Value::Big(b.neg, b.mag)
        }
        pub fn float(f: f64) -> Value {
            Value::Flt(f)
        }
        pub fn string_from_inner(s: RStringInner) -> Value {
            Value::Str(Box::into_raw(Box::new(s)))
        }
    }
    pub struct Array(pub Vec<Value>);
    impl Array {
        pub fn new_empty() -> Array {
            Array(Vec::new())
        }
        pub fn push(&mut self, v: Value) {
            self.0.push(v)
        }
    }
    /// Integers of up to 128 bits.
    #[derive(Clone)]
    pub struct BigInt {
        pub neg: bool,
        pub mag: u128,
    }
    pub mod num {
        pub mod bigint {
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum Sign {
                Minus,
                NoSign,
                Plus,
            }
        }
        pub use super::BigInt;
    }
    use num::bigint::Sign;
    impl BigInt {
        pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
            let sign = if self.mag == 0 {
                Sign::NoSign
            } else if self.neg {
                Sign::Minus
            } else {
                Sign::Plus
            };
            let mut b = self.mag.to_le_bytes().to_vec();
            while b.len() > 1 && b[b.len() - 1] == 0 {
                b.pop();
            }
            (sign, b)
        }
        pub fn from_bytes_le(s: Sign, b: &[u8]) -> BigInt {
            let mut mag = 0;
            for i in 0..b.len().min(16) {
                mag |= (b[i] as u128) << (8 * i);
            }
            BigInt { neg: s == Sign::Minus && mag != 0, mag }
        }
    }
    /// The shortest digits of a float, as the harness says.
    pub mod dtoa {
        pub static mut TEXT: String = String::new();
        pub struct Buffer;
        impl Buffer {
            pub fn new() -> Buffer {
                Buffer
            }
            #[allow(static_mut_refs)]
            pub fn format(&mut self, _: f64) -> &'static str {
                unsafe { TEXT.as_str() }
            }
        }
    }
}

mod code {
    use super::shim::*;
    use crate::v::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/marshal.rs"));

    /// The layout of Marshal integers: one byte for -123..=122, otherwise a signed count of 1 to 4
    /// and the low bytes.
    pub fn int() {
        let n = sym(32) as i32;
        let mut b = vec![0xaa];
        marshal_write_fixnum(&mut b, n);
        check(b[0] == 0xaa, 1);
        let w = &b[1..];
        let c = w[0] as i8;
        if n == 0 {
            check(w.len() == 1 && c == 0, 2);
        } else if n > 0 && n < 123 {
            check(w.len() == 1 && c as i32 == n + 5, 3);
        } else if n < 0 && n > -124 {
            check(w.len() == 1 && c as i32 == n - 5, 4);
        } else {
            let k = w.len() - 1;
            check(k >= 1 && k <= 4, 5);
            check(c as i32 == if n > 0 { k as i32 } else { -(k as i32) }, 6);
            let mut m: u32 = if n > 0 { 0 } else { u32::MAX };
            for i in 0..k {
                m = m & !(0xff << (8 * i)) | (w[1 + i] as u32) << (8 * i);
            }
            check(m as i32 == n, 7);
            // no byte more than needed
            check(k == 1 || w[k] != if n > 0 { 0 } else { 0xff }, 8);
            cover(2);
        }
        let mut r = MarshalReader::new(&b[1..]);
        match r.read_fixnum() {
            Ok(x) => check(x == n, 9),
            Err(_) => check(false, 9),
        }
        check(r.pos == b.len() - 1, 10);
        obs(b.len() as u64);
        cover(1);
    }

    pub fn any_int(len: usize) {
        let d: Vec<u8> = (0..len).map(|_| sym8()).collect();
        let mut r = MarshalReader::new(&d);
        match r.read_fixnum() {
            Ok(x) => {
                check(r.pos <= len && r.pos >= 1, 20);
                // what was read, written again, reads the same
                let mut b = vec![];
                marshal_write_fixnum(&mut b, x);
                let mut r2 = MarshalReader::new(&b);
                check(matches!(r2.read_fixnum(), Ok(y) if y == x), 21);
                cover(1);
            }
            Err(_) => {
                let c = if len > 0 { d[0] as i8 } else { 0 };
                check(len == 0 || (c.unsigned_abs() <= 4 && c.unsigned_abs() as usize >= len), 22);
                cover(3);
            }
        }
    }

    pub fn big(bits: u32) {
        let mag = sym(64) as u128 | (sym(bits) as u128) << 64;
        assume(mag != 0);
        let neg = sym_bool();
        let mut b = vec![];
        marshal_write_bignum(&mut b, &BigInt { neg, mag });
        check(b[0] == b'l', 30);
        check(b[1] == if neg { b'-' } else { b'+' }, 31);
        // the count is in 16-bit words
        check(b.len() % 2 == 1 && b[2] as usize == 5 + (b.len() - 3) / 2, 32);
        let mut r = MarshalReader::new(&b[1..]);
        match r.read_bignum() {
            Ok(Value::Big(s, m)) => check(s == neg && m == mag, 33),
            _ => check(false, 33),
        }
        check(r.pos == b.len() - 1, 34);
        check(r.objects.0.len() == 1, 35);
        cover(1);
    }

    /// Any bytes where a length-prefixed thing is expected.
    pub fn any(len: usize, negative: bool) {
        let d: Vec<u8> = (0..len).map(|_| sym8()).collect();
        let what = pick(3);
        {
            let at = (what == 2) as usize;
            if len > at {
                let n = MarshalReader::new(&d[at..]).read_fixnum();
                if let Ok(n) = n {
                    assume((n < 0) == negative);
                }
            }
        }
        let mut r = MarshalReader::new(&d);
        let ok = match what {
            0 => match r.read_raw_string(Encoding::Ascii8) {
                Ok(Value::Str(s)) => {
                    let s = unsafe { &*s };
                    let mut same = s.b.len() < len;
                    for i in 0..s.b.len() {
                        same &= s.b[i] == d[r.pos - s.b.len() + i];
                    }
                    check(same, 40);
                    true
                }
                Ok(_) => {
                    check(false, 41);
                    false
                }
                Err(_) => false,
            },
            1 => match r.read_new_symbol() {
                Ok(_) => {
                    check(r.symbols.len() == 1, 42);
                    true
                }
                Err(_) => false,
            },
            _ => r.read_bignum().is_ok(),
        };
        check(r.pos <= len, 43);
        if ok {
            check(!negative, 44);
            cover(1);
        } else {
            cover(3);
        }
    }

    // ------------------------------------------------------------ floats

    /// value = digits * 10^exp, digits without trailing zeros
    fn parse(t: &[u8]) -> (u64, i32) {
        let (mut m, mut e, mut i, mut point) = (0u64, 0i32, 0, false);
        let mut any = false;
        while i < t.len() && t[i] != b'e' {
            if t[i] == b'.' {
                check(!point && any, 50);
                point = true;
            } else {
                check(t[i].is_ascii_digit(), 51);
                m = m * 10 + (t[i] - b'0') as u64;
                any = true;
                e -= point as i32;
            }
            i += 1;
        }
        check(any, 52);
        if i < t.len() {
            i += 1;
            let mut x = 0;
            let neg = t[i] == b'-';
            i += neg as usize;
            check(i < t.len(), 53);
            while i < t.len() {
                check(t[i].is_ascii_digit(), 54);
                x = x * 10 + (t[i] - b'0') as i32;
                i += 1;
            }
            e += if neg { -x } else { x };
        }
        (m, e)
    }

    /// The text the shortest-digits routine gives, digits unknown: what is written denotes the
    /// same number.
    #[allow(static_mut_refs)]
    pub fn float(whole: usize, frac: usize, exp: Option<i32>) {
        let mut t = String::new();
        let digits: Vec<u8> = (0..whole + frac).map(|_| sym(4) as u8).collect();
        let mut any = 0;
        for d in &digits {
            assume(*d < 10);
            any |= *d;
        }
        assume(any != 0);
        // no superfluous zeros
        assume(whole == 1 || digits[0] != 0);
        assume(frac == 1 || digits[whole + frac - 1] != 0);
        if exp.is_some() {
            assume(digits[0] != 0);
        }
        for (i, d) in digits.iter().enumerate() {
            if i == whole {
                t.push('.');
            }
            t.push((b'0' + conc(*d as u64) as u8) as char);
        }
        if let Some(e) = exp {
            t.push_str(&format!("e{e}"));
        }
        unsafe { dtoa::TEXT = t.clone() };
        let neg = pick(2) == 1;
        let f = if neg { -1.5 } else { 1.5 };
        let mut b = vec![];
        marshal_write_float(&mut b, f);
        check(b[0] == b'f', 60);
        let s = &b[2..];
        check(b[1] as usize == s.len() + 5, 61);
        check((s[0] == b'-') == neg, 62);
        let (m1, e1) = parse(t.as_bytes());
        let (m2, e2) = parse(&s[neg as usize..]);
        // m1 * 10^e1 == m2 * 10^e2
        let (mut m1, mut e1, mut m2, mut e2) = (m1, e1, m2, e2);
        while m1 % 10 == 0 {
            m1 /= 10;
            e1 += 1;
        }
        check(m2 != 0, 63);
        while m2 % 10 == 0 {
            m2 /= 10;
            e2 += 1;
        }
        check(m1 == m2 && e1 == e2, 64);
        obs(s.len() as u64);
        cover(1);
    }

    pub fn special() {
        let x = sym(64);
        let f = f64::from_bits(x);
        assume(f == 0.0 || !f.is_finite());
        let mut b = vec![];
        marshal_write_float(&mut b, f);
        let mut r = MarshalReader::new(&b[1..]);
        match r.read_float() {
            Ok(Value::Flt(g)) => {
                check(g.is_nan() == f.is_nan(), 70);
                check(f.is_nan() || g.to_bits() == x, 71);
            }
            _ => check(false, 72),
        }
        cover(1);
    }
}
use code::*;

entries! {
    p02_int => int();
    p02_any0 => any_int(0);
    p02_any1 => any_int(1);
    p02_any3 => any_int(3);
    p02_any6 => any_int(6);
    p02_big0 => big(0);
    p02_big64 => big(64);
    p02_read2 => any(2, false);
    p02_read4 => any(4, false);
    p02_read7 => any(7, false);
    p02_readneg => any(2, true);
    p02_special => special();
    p02_f11 => float(1, 1, None);
    p02_f12 => float(1, 2, None);
    p02_f21 => float(2, 1, None);
    p02_f13 => float(1, 3, None);
    p02_f31 => float(3, 1, None);
    p02_f22 => float(2, 2, None);
    p02_e11 => float(1, 1, Some([16, 22, 99, 308, -5, -7, -100, -324][pick(8)]));
    p02_e12 => float(1, 2, Some([16, -5, -12][pick(3)]));
}

//! N04: the methods of Integer and Float that look at digits and bits
//! (monoruby/src/builtins/numeric/integer.rs and float.rs): rounding to any number of digits, bit
//! fields, modular powers, radix notation and neighbouring floats.
use crate::v::*;

/// What the code uses of the rest of the interpreter; big integers are 128 bits wide here and the
/// harnesses stay below that.
mod shim {
    pub type Result<T> = std::result::Result<T, MonorubyErr>;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum MonorubyErr {
        ZeroDiv,
        Arg,
        Range,
        Type,
        Domain,
    }
    pub enum MonorubyErrKind {
        Other(u32),
    }
    impl MonorubyErr {
        pub fn new(_: MonorubyErrKind, _: impl Into<String>) -> Self {
            MonorubyErr::Domain
        }
        pub fn divide_by_zero() -> Self {
            MonorubyErr::ZeroDiv
        }
        pub fn argumenterr(_: impl Into<String>) -> Self {
            MonorubyErr::Arg
        }
        pub fn rangeerr(_: impl Into<String>) -> Self {
            MonorubyErr::Range
        }
        pub fn typeerr(_: impl Into<String>) -> Self {
            MonorubyErr::Type
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct BigInt(pub i128);
    /// Division in as few bits as the operands have, for the solver's sake.
    pub fn quo(a: i128, b: i128) -> i128 {
        if let (Ok(a), Ok(b)) = (i16::try_from(a), i16::try_from(b)) {
            (a / b) as i128
        } else if let (Ok(a), Ok(b)) = (i64::try_from(a), i64::try_from(b)) {
            a.wrapping_div(b) as i128
        } else {
            a / b
        }
    }
    pub fn rest(a: i128, b: i128) -> i128 {
        if let (Ok(a), Ok(b)) = (i8::try_from(a), i8::try_from(b)) {
            a.wrapping_rem(b) as i128
        } else if let (Ok(a), Ok(b)) = (i16::try_from(a), i16::try_from(b)) {
            (a % b) as i128
        } else if let (Ok(a), Ok(b)) = (i64::try_from(a), i64::try_from(b)) {
            a.wrapping_rem(b) as i128
        } else {
            a % b
        }
    }
    fn times(a: i128, b: i128) -> i128 {
        if let (Ok(a), Ok(b)) = (i16::try_from(a), i16::try_from(b)) {
            (a as i32 * b as i32) as i128
        } else {
            a.wrapping_mul(b)
        }
    }
    pub mod num {
        pub use super::BigInt;
        pub mod traits {
            pub use super::Zero;
            pub mod sign {
                pub use super::super::Signed;
            }
        }
        pub trait ToPrimitive {
            fn to_i64(&self) -> Option<i64>;
            fn to_u32(&self) -> Option<u32>;
            fn to_usize(&self) -> Option<usize>;
        }
        impl ToPrimitive for BigInt {
            fn to_i64(&self) -> Option<i64> {
                self.0.try_into().ok()
            }
            fn to_u32(&self) -> Option<u32> {
                self.0.try_into().ok()
            }
            fn to_usize(&self) -> Option<usize> {
                self.0.try_into().ok()
            }
        }
        pub trait FromPrimitive: Sized {
            fn from_f64(f: f64) -> Option<Self>;
        }
        impl FromPrimitive for BigInt {
            fn from_f64(f: f64) -> Option<Self> {
                (f.abs() < 9e18).then(|| BigInt(f as i64 as i128))
            }
        }
        pub trait Zero {
            fn is_zero(&self) -> bool;
        }
        impl Zero for BigInt {
            fn is_zero(&self) -> bool {
                self.0 == 0
            }
        }
        pub trait Signed {
            fn is_positive(&self) -> bool;
            fn is_negative(&self) -> bool;
            fn abs(&self) -> Self;
        }
        impl Signed for BigInt {
            fn is_positive(&self) -> bool {
                self.0 > 0
            }
            fn is_negative(&self) -> bool {
                self.0 < 0
            }
            fn abs(&self) -> Self {
                BigInt(if self.0 < 0 { self.0.wrapping_neg() } else { self.0 })
            }
        }
        pub use integer::Integer;
        pub mod integer {
            use super::super::{quo, rest};
            use super::BigInt;
            pub trait Integer: Sized {
                fn div_rem(&self, o: &Self) -> (Self, Self);
                fn div_floor(&self, o: &Self) -> Self;
                fn div_ceil(&self, o: &Self) -> Self;
                fn mod_floor(&self, o: &Self) -> Self;
                fn is_even(&self) -> bool;
                fn is_odd(&self) -> bool;
            }
            impl Integer for BigInt {
                fn div_rem(&self, o: &Self) -> (Self, Self) {
                    (BigInt(quo(self.0, o.0)), BigInt(rest(self.0, o.0)))
                }
                fn div_floor(&self, o: &Self) -> Self {
                    let (q, r) = self.div_rem(o);
                    BigInt(q.0.wrapping_sub((r.0 != 0 && (r.0 < 0) != (o.0 < 0)) as i128))
                }
                fn div_ceil(&self, o: &Self) -> Self {
                    let (q, r) = self.div_rem(o);
                    BigInt(q.0.wrapping_add((r.0 != 0 && (r.0 < 0) == (o.0 < 0)) as i128))
                }
                fn mod_floor(&self, o: &Self) -> Self {
                    let r = rest(self.0, o.0);
                    BigInt(if r != 0 && (r < 0) != (o.0 < 0) { r.wrapping_add(o.0) } else { r })
                }
                fn is_even(&self) -> bool {
                    self.0 & 1 == 0
                }
                fn is_odd(&self) -> bool {
                    self.0 & 1 != 0
                }
            }
            pub fn div_floor(a: BigInt, b: BigInt) -> BigInt {
                a.div_floor(&b)
            }
            pub fn div_ceil(a: BigInt, b: BigInt) -> BigInt {
                a.div_ceil(&b)
            }
            pub fn div_rem(a: BigInt, b: BigInt) -> (BigInt, BigInt) {
                a.div_rem(&b)
            }
            pub fn mod_floor(a: BigInt, b: BigInt) -> BigInt {
                a.mod_floor(&b)
            }
        }
    }
    impl BigInt {
        pub const ZERO: BigInt = BigInt(0);
        pub fn bits(&self) -> u64 {
            let m = if self.0 < 0 { self.0.wrapping_neg() } else { self.0 } as u128;
            128 - m.leading_zeros() as u64
        }
        /// Known powers of known numbers; those beyond 128 bits get the largest.
        pub fn pow(&self, n: u32) -> BigInt {
            let (b, n) = (self.0, crate::v::conc(n as u64));
            let mut r = 1i128;
            let mut i = 0;
            while i < n && r < 1 << 100 {
                r = r.wrapping_mul(b);
                i += 1;
            }
            BigInt(r)
        }
    }
    macro_rules! from {
        ($($t:ty),*) => { $(impl From<$t> for BigInt {
            fn from(i: $t) -> BigInt { BigInt(i as i128) }
        })* };
    }
    from!(i32, u32, i64, u64, usize, i128);
    macro_rules! ops {
        ($($t:ident $f:ident $ta:ident $fa:ident $op:tt),*) => { $(
            ops!(@ $t $f $op; BigInt, BigInt, |o: BigInt| o.0);
            ops!(@ $t $f $op; BigInt, &BigInt, |o: &BigInt| o.0);
            ops!(@ $t $f $op; &BigInt, BigInt, |o: BigInt| o.0);
            ops!(@ $t $f $op; &BigInt, &BigInt, |o: &BigInt| o.0);
            ops!(@ $t $f $op; BigInt, i32, |o: i32| o as i128);
            ops!(@ $t $f $op; &BigInt, i32, |o: i32| o as i128);
            ops!(@ $t $f $op; BigInt, u32, |o: u32| o as i128);
            ops!(@ $t $f $op; &BigInt, u32, |o: u32| o as i128);
            impl std::ops::$ta<&BigInt> for BigInt {
                fn $fa(&mut self, o: &BigInt) { *self = BigInt($op(self.0, o.0)) }
            }
            impl std::ops::$ta<BigInt> for BigInt {
                fn $fa(&mut self, o: BigInt) { *self = BigInt($op(self.0, o.0)) }
            }
        )* };
        (@ $t:ident $f:ident $op:tt; $l:ty, $r:ty, $g:expr) => {
            impl std::ops::$t<$r> for $l {
                type Output = BigInt;
                fn $f(self, o: $r) -> BigInt { BigInt($op(self.0, ($g)(o))) }
            }
        };
    }
    ops!(Add add AddAssign add_assign (i128::wrapping_add), Sub sub SubAssign sub_assign (i128::wrapping_sub), Mul mul MulAssign mul_assign (times),
         Div div DivAssign div_assign (quo), Rem rem RemAssign rem_assign (rest), BitAnd bitand BitAndAssign bitand_assign (|a, b| a & b));
    macro_rules! shifts {
        ($($r:ty),*) => { $(
            shifts!(@ $r, BigInt);
            shifts!(@ $r, &BigInt);
        )* };
        (@ $r:ty, $l:ty) => {
            impl std::ops::Shr<$r> for $l {
                type Output = BigInt;
                fn shr(self, n: $r) -> BigInt { BigInt(self.0 >> (n as u64).min(127)) }
            }
            impl std::ops::Shl<$r> for $l {
                type Output = BigInt;
                fn shl(self, n: $r) -> BigInt { assert!((n as u64) < 126); BigInt(self.0 << n as u64) }
            }
        };
    }
    shifts!(u32, usize, u64, i32, i64);
    impl std::ops::Neg for BigInt {
        type Output = BigInt;
        fn neg(self) -> BigInt {
            BigInt(self.0.wrapping_neg())
        }
    }
    impl std::ops::Neg for &BigInt {
        type Output = BigInt;
        fn neg(self) -> BigInt {
            BigInt(self.0.wrapping_neg())
        }
    }
    impl std::fmt::Display for BigInt {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }

    pub const FIX: i128 = 1 << 62;
    #[derive(Clone, Copy)]
    pub enum Value {
        Nil,
        Bool(bool),
        Int(BigInt),
        Float(f64),
        Sym(&'static str),
        Str(&'static [u8]),
    }
    pub enum RV<'a> {
        Nil,
        Fixnum(i64),
        BigInt(&'a BigInt),
        Float(f64),
        Object,
    }
    pub struct Range;
    impl Value {
        pub fn nil() -> Value {
            Value::Nil
        }
        pub fn bool(b: bool) -> Value {
            Value::Bool(b)
        }
        pub fn integer(i: i64) -> Value {
            Value::Int(BigInt(i as i128))
        }
        pub fn bigint(b: BigInt) -> Value {
            Value::Int(b)
        }
        pub fn float(f: f64) -> Value {
            Value::Float(f)
        }
        pub fn string_from_inner(s: RStringInner) -> Value {
            Value::Str(Vec::leak(s.0))
        }
        pub fn is_i63(i: i64) -> bool {
            (-FIX as i64..FIX as i64).contains(&i)
        }
        pub fn is_nil(&self) -> bool {
            matches!(self, Value::Nil)
        }
        pub fn is_integer(&self) -> bool {
            matches!(self, Value::Int(_))
        }
        pub fn is_range(&self) -> Option<Range> {
            None
        }
        pub fn try_float(&self) -> Option<f64> {
            if let Value::Float(f) = self { Some(*f) } else { None }
        }
        pub fn try_symbol(&self) -> Option<IdentId> {
            if let Value::Sym(s) = self { Some(IdentId(s)) } else { None }
        }
        pub fn as_class_id(&self) -> u32 {
            0
        }
        pub fn coerce_to_int_i64(self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            match self {
                Value::Int(i) => i64::try_from(i.0).map_err(|_| MonorubyErr::Range),
                _ => Err(MonorubyErr::Type),
            }
        }
        pub fn coerce_to_int(self, _: &mut Executor, _: &mut Globals) -> Result<Value> {
            Ok(self)
        }
        pub fn coerce_f64_to_int(f: f64) -> Result<Value> {
            use num::FromPrimitive;
            BigInt::from_f64(f).map(Value::Int).ok_or(MonorubyErr::Range)
        }
        pub fn integer_from_f64(f: f64) -> Option<Value> {
            use num::FromPrimitive;
            BigInt::from_f64(f.round()).map(Value::Int)
        }
        pub fn unpack(&self) -> RV<'_> {
            match self {
                Value::Nil => RV::Nil,
                Value::Int(i) if (-FIX..FIX).contains(&i.0) => RV::Fixnum(i.0 as i64),
                Value::Int(i) => RV::BigInt(i),
                Value::Float(f) => RV::Float(*f),
                _ => RV::Object,
            }
        }
    }
    #[derive(Clone, Copy)]
    pub enum Encoding {
        UsAscii,
    }
    pub struct RStringInner(Vec<u8>);
    impl RStringInner {
        pub fn from_encoding(s: &[u8], _: Encoding) -> Self {
            RStringInner(s.to_vec())
        }
    }
    pub const OBJECT_CLASS: u32 = 0;
    pub struct Store;
    impl Store {
        pub fn get_constant_noautoload(&self, _: u32, _: IdentId) -> Option<Value> {
            Some(Value::Nil)
        }
    }
    pub struct Globals {
        pub store: Store,
    }
    pub struct Executor;
    impl Executor {
        pub fn invoke_method_inner(&mut self, _: &mut Globals, _: IdentId, _: Value, _: &[Value], _: Option<u8>, _: Option<u8>) -> Result<Value> {
            Err(MonorubyErr::Type)
        }
    }
    #[derive(Clone, Copy)]
    pub struct IdentId(&'static str);
    impl IdentId {
        pub const _POW: IdentId = IdentId("**");
        pub fn get_id(s: &'static str) -> IdentId {
            IdentId(s)
        }
        pub fn get_name(&self) -> String {
            self.0.to_string()
        }
    }
    pub mod op {
        use super::*;
        pub fn integer_index1(_: &mut Executor, _: &mut Globals, _: Value, _: Value) -> Result<Value> {
            Err(MonorubyErr::Type)
        }
    }
    /// The receiver and the arguments of a call.
    #[derive(Clone, Copy)]
    pub struct Lfp(pub Value, pub Option<Value>, pub Option<Value>);
    impl Lfp {
        pub fn self_val(&self) -> Value {
            self.0
        }
        pub fn arg(&self, i: usize) -> Value {
            self.try_arg(i).unwrap()
        }
        pub fn try_arg(&self, i: usize) -> Option<Value> {
            if i == 0 { self.1 } else { self.2 }
        }
    }
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
}

pub mod value {
    #[derive(Clone, Copy)]
    pub enum RoundHalf {
        Up,
        Down,
        Even,
    }
    pub mod rvalue {
        pub use super::super::shim::{Encoding, RStringInner};
    }
}

mod code {
    use super::shim::num::*;
    use super::shim::*;
    use super::value::RoundHalf;
    pub mod float {
        use super::*;
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/int_float.rs"));
        pub const ROUND: [Fun; 4] = [floor, ceil, truncate, round];
        pub const TO_I: Fun = toi;
        pub const NEXT: [Fun; 2] = [next_float, prev_float];
    }
    pub mod integer {
        use super::*;
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/int_integer.rs"));
        pub const ROUND: [Fun; 4] = [int_floor, int_ceil, int_truncate, int_round];
        pub const BITS: Fun = index;
        pub const POW: Fun = pow;
        pub const ABS: Fun = abs;
        pub const SUCC: Fun = succ;
        pub const LENGTH: Fun = bit_length;
        pub const TO_S: Fun = to_s;
        pub const TESTS: [Fun; 4] = [even_, odd_, zero_, nonzero_];
        pub const FOLD: [fn(i64, i64) -> Option<i64>; 2] = [fold_shl, fold_shr];
    }
    pub type Fun = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
}

mod h {
    use super::code::*;
    use super::shim::*;
    use crate::v::*;

    fn call(f: Fun, a: Value, b: Option<Value>, c: Option<Value>) -> Result<Value> {
        f(&mut Executor, &mut Globals { store: Store }, Lfp(a, b, c), BytecodePtr)
    }
    fn int(i: i128) -> Value {
        Value::Int(BigInt(i))
    }
    fn is(r: Result<Value>, w: i128, id: u32) {
        check(matches!(r, Ok(Value::Int(i)) if i.0 == w), id);
    }
    fn signed(bits: u32) -> i128 {
        ((sym(bits) << (64 - bits)) as i64 >> (64 - bits)) as i128
    }
    /// Any Fixnum, or one outside that range of up to 100 bits.
    fn any(kind: usize) -> i128 {
        if kind == 0 {
            let v = sym(64) as i64;
            assume(Value::is_i63(v));
            v as i128
        } else {
            let v = ((sym(36) << 28) as i64 >> 28) as i128;
            let v = v << 64 | sym(64) as i128;
            assume(!(-FIX..FIX).contains(&v));
            v
        }
    }
    const HALF: [Option<Value>; 5] = [None, Some(Value::Nil), Some(Value::Sym("up")), Some(Value::Sym("down")), Some(Value::Sym("even"))];

    /// Whether r is v rounded to a multiple of p; `half` is the remainder of v that is not seen.
    fn rounded(kind: usize, half: usize, v: i128, more: i128, p: i128, r: i128, id: u32) {
        let (r, v, p) = (r.wrapping_mul(8), v.wrapping_mul(8).wrapping_add(more), p * 8);
        check(rest(r, p) == 0, id);
        let d = r.wrapping_sub(v);
        match kind {
            0 => check(d <= 0 && d > -p, id + 1),
            1 => check(d >= 0 && d < p, id + 2),
            2 => check(if v >= 0 { d <= 0 && d > -p } else { d >= 0 && d < p }, id + 3),
            _ => {
                let m = if d < 0 { d.wrapping_neg() } else { d };
                let away = (d > 0) == (v > 0);
                let even = quo(r, p) & 1 == 0;
                check(m * 2 < p || m * 2 == p && if half < 3 { away } else if half == 3 { !away } else { even }, id + 4);
            }
        }
    }
    /// Integers to digits left of the point.
    pub fn digits(kind: usize) {
        let n = pick(4);
        let p = [1, 10, 100, 1000][n];
        let half = if kind == 3 { pick(5) } else { 0 };
        let v = match pick(4) {
            0 | 1 => signed(11),
            2 => (1i128 << 62) - 4 + pick(8) as i128,
            _ => -(1i128 << 62) - 4 + pick(8) as i128,
        };
        let r = call(integer::ROUND[kind], int(v), Some(Value::integer(-(n as i64))), HALF[half]);
        match r {
            Ok(Value::Int(r)) => rounded(kind, half, v, 0, p, r.0, 1),
            _ => check(false, 6),
        }
        // nothing to the right of the point
        is(call(integer::ROUND[kind], int(v), Some(Value::integer(pick(2) as i64 * 400)), HALF[half]), v, 7);
        is(call(integer::ROUND[kind], int(v), None, None), v, 8);
        cover(1);
    }
    /// More digits than the number has.
    pub fn beyond(kind: usize) {
        let v = any(pick(2));
        let n = [31i64, 1 << 32, (1 << 32) + 1, (1 << 33) - 1, i64::MAX, i64::MIN][pick(6)];
        let r = call(integer::ROUND[kind], int(v), Some(Value::integer(if n < 0 { n } else { -n })), None);
        match r {
            // the error for counts beyond 32 bits
            Err(e) => check(e == MonorubyErr::Range && n != 31, 9),
            Ok(Value::Int(r)) => {
                let zero = match kind {
                    0 => v >= 0,
                    1 => v <= 0,
                    _ => true,
                };
                check((r.0 == 0) == zero, 10);
            }
            _ => check(false, 11),
        }
        cover(1);
    }
    const PLACES: [i64; 12] = [-3, -1, 0, 1, 5, 31, 61, 62, 63, 64, 65, 70];
    const LENGTHS: [i64; 11] = [i64::MIN, -1, 0, 1, 3, 31, 62, 63, 64, 65, 70];
    /// n[place, length]
    pub fn bits(kind: usize) {
        let v = if kind == 0 { any(0) } else { any(1) >> 20 };
        if kind == 1 {
            assume(!(-FIX..FIX).contains(&v));
        }
        let (n, l) = (PLACES[pick(12)], LENGTHS[pick(11)]);
        let s = if n < 0 { v << -n } else { v >> n };
        let w = if l < 0 { s } else { s & (1i128 << l).wrapping_sub(1) };
        is(call(integer::BITS, int(v), Some(Value::integer(n)), Some(Value::integer(l))), w, 12);
        cover(1);
    }
    pub fn power() {
        let b = signed(4);
        let e = pick(5);
        let m = [-4, -1, 0, 1, 2, 3, 7][pick(7)];
        let r = call(integer::POW, int(b), Some(Value::integer(e as i64)), Some(int(m)));
        if m == 0 {
            check(matches!(r, Err(MonorubyErr::ZeroDiv)), 13);
        } else {
            let mut w = if m == 1 || m == -1 { 0 } else { num::integer::mod_floor(BigInt(1), BigInt(m)).0 };
            for _ in 0..e {
                w = num::integer::mod_floor(BigInt(w.wrapping_mul(b)), BigInt(m)).0;
            }
            is(r, w, 14);
        }
        let neg = call(integer::POW, int(b), Some(Value::integer(-1 - sym(8) as i64)), Some(int(m)));
        check(matches!(neg, Err(MonorubyErr::Range)), 15);
        cover(1);
    }
    pub fn simple(kind: usize) {
        let v = any(kind);
        is(call(integer::ABS, int(v), None, None), if v < 0 { v.wrapping_neg() } else { v }, 16);
        is(call(integer::SUCC, int(v), None, None), v.wrapping_add(1), 17);
        let w = [v & 1 == 0, v & 1 == 1, v == 0];
        for i in 0..3 {
            check(matches!(call(integer::TESTS[i], int(v), None, None), Ok(Value::Bool(b)) if b == w[i]), 18 + i as u32);
        }
        match call(integer::TESTS[3], int(v), None, None) {
            Ok(Value::Nil) => check(v == 0, 21),
            r => {
                check(v != 0, 22);
                is(r, v, 23);
            }
        }
        cover(1);
    }
    pub fn length(kind: usize) {
        let v = any(kind);
        match call(integer::LENGTH, int(v), None, None) {
            Ok(Value::Int(BigInt(n))) => {
                check(0 <= n && n <= 101, 24);
                let n = n as u32;
                let m = if v < 0 { !v } else { v };
                check(m >> n == 0 && (n == 0 || m >> (n - 1) == 1), 25);
            }
            _ => check(false, 26),
        }
        cover(1);
    }
    /// The operations folded at compile time.
    pub fn fold(kind: usize) {
        let (v, n) = (any(0) as i64, any(0) as i64);
        let left = if kind == 0 { n } else { -n };
        let r = integer::FOLD[kind](v, n);
        if left <= 0 {
            let k = (-left).min(63);
            check(r == Some(v >> k), 27);
        } else if left < 64 {
            let w = (v as i128) << left;
            check(r == (-FIX..FIX).contains(&w).then_some(w as i64), 28);
        } else {
            check(r == (v == 0).then_some(0), 29);
        }
        cover(1);
    }
    fn digit(c: u8) -> u64 {
        match c {
            b'0'..=b'9' => (c - b'0') as u64,
            b'a'..=b'z' => (c - b'a') as u64 + 10,
            _ => 99,
        }
    }
    /// Notation in a base, read back.
    pub fn radix(base: i64, bits: u32) {
        let v = signed(bits);
        let r = call(integer::TO_S, int(v), if base == 10 && pick(2) == 1 { None } else { Some(Value::integer(base)) }, None);
        let Ok(Value::Str(s)) = r else { return check(false, 30) };
        let neg = s[0] == b'-';
        check(neg == (v < 0), 31);
        let s = if neg { &s[1..] } else { s };
        check(!s.is_empty() && (s.len() == 1 || s[0] != b'0'), 32);
        let mut w = 0;
        for c in s {
            let d = digit(*c);
            check(d < base as u64, 33);
            w = w * base as u64 + d;
        }
        check(w as i128 == if neg { -v } else { v }, 34);
        cover(1);
    }
    pub fn radix_bad() {
        let b = signed(7) as i64;
        assume(b < 2 || b > 36);
        check(matches!(call(integer::TO_S, int(5), Some(Value::integer(b)), None), Err(MonorubyErr::Arg)), 35);
        cover(1);
    }

    /// A multiple of 1/8 of either sign below 2**top, of at most `most` + 1 significant bits.
    fn eighths(top: u32, most: u32) -> (f64, i64) {
        let e = pick(top as usize + 4) as u32;
        if e == 0 {
            return if pick(2) == 0 { (0.0, 0) } else { (-0.0, 0) };
        }
        // the leading bit is worth 2**e / 16
        let k = (e - 1).min(most);
        let m = if k == 0 { 0 } else { sym(k) };
        let neg = pick(2) as u64;
        let f = f64::from_bits(neg << 63 | (1019 + e as u64) << 52 | m << (52 - k));
        let v = ((1 << k | m) << (e - 1 - k)) as i64;
        (f, if neg == 1 { -v } else { v })
    }
    pub fn float(kind: usize, n: usize, top: u32) {
        let half = if kind == 3 { pick(5) } else { 0 };
        let p = [1, 10, 100][n];
        let (f, m) = eighths(top, 4);
        let d = if n == 0 && pick(2) == 1 { None } else { Some(Value::integer(-(n as i64))) };
        match call(float::ROUND[kind], Value::Float(f), d, HALF[half]) {
            Ok(Value::Int(r)) => rounded(kind, half, (m >> 3) as i128, (m & 7) as i128, p, r.0, 40),
            _ => check(false, 46),
        }
        if n == 0 && kind == 2 {
            match call(float::TO_I, Value::Float(f), None, None) {
                Ok(Value::Int(r)) => rounded(2, 0, (m >> 3) as i128, (m & 7) as i128, 1, r.0, 40),
                _ => check(false, 46),
            }
        }
        cover(1);
    }
    /// Floats that are whole and far apart.
    pub fn float_far(kind: usize) {
        let e = [53, 60, 62][pick(3)];
        let half = if kind == 3 { pick(5) } else { 0 };
        let n = pick(4);
        let neg = pick(2) == 1;
        let f = f64::from_bits((1023 + e) << 52 | pick(8) as u64 | (neg as u64) << 63);
        let v = f as i64 as i128;
        match call(float::ROUND[kind], Value::Float(f), Some(Value::integer(-(n as i64))), HALF[half]) {
            Ok(Value::Int(r)) => rounded(kind, half, v, 0, [1, 10, 100, 1000][n], r.0, 47),
            _ => check(false, 53),
        }
        cover(1);
    }
    /// To digits right of the point: m / 8 lies between two tenths (hundredths).
    pub fn float_right(kind: usize, n: usize, top: u32) {
        let half = if kind == 3 { pick(5) } else { 0 };
        let p = [1, 10, 100][n];
        let (f, m) = eighths(top, 2);
        let r = call(float::ROUND[kind], Value::Float(f), Some(Value::integer(n as i64)), HALF[half]);
        let Ok(Value::Float(r)) = r else { return check(false, 54) };
        let v = m * p;
        let (lo, up) = (v >> 3, (v + 7) >> 3);
        let w = match kind {
            0 => lo,
            1 => up,
            2 => if v < 0 { up } else { lo },
            _ => match (v & 7).cmp(&4) {
                std::cmp::Ordering::Less => lo,
                std::cmp::Ordering::Greater => up,
                _ => match half {
                    3 => if v < 0 { up } else { lo },
                    4 => if lo & 1 == 0 { lo } else { up },
                    _ => if v < 0 { lo } else { up },
                },
            },
        };
        let w = conc(w as u64) as i64;
        check(r == w as f64 / p as f64, 55);
        cover(1);
    }
    /// More digits than a Float has.
    pub fn float_beyond(kind: usize) {
        let f = match pick(3) {
            0 => eighths(3, 4).0,
            1 => f64::from_bits(0x7fe0_0000_0000_0000 | sym(1) << 63 | sym(4)),
            _ => f64::from_bits(sym(1) << 63 | sym(4)),
        };
        let n = [310i64, 400, 1 << 20][pick(3)];
        // what is below the last digit goes
        let r = call(float::ROUND[kind], Value::Float(f), Some(Value::integer(n)), None);
        let Ok(Value::Float(r)) = r else { return check(false, 56) };
        if n > 325 || f == 0.0 || f.abs() > 0.01 {
            check(r == f, 57);
        } else {
            check(r.is_finite(), 58);
        }
        cover(1);
    }
    /// More digits left of the point than a Float has.
    pub fn float_left(kind: usize) {
        let f = eighths(3, 4).0;
        let n = [25i64, 309, 400, 1 << 32, (1 << 32) + 1][pick(5)];
        match call(float::ROUND[kind], Value::Float(f), Some(Value::integer(-n)), None) {
            Err(e) => check(e == MonorubyErr::Range && n > 400, 59),
            Ok(Value::Int(r)) => {
                let zero = match kind {
                    0 => f >= 0.0,
                    1 => f <= 0.0,
                    _ => true,
                };
                check((r.0 == 0) == zero, 60);
            }
            _ => check(false, 61),
        }
        cover(1);
    }
    pub fn special() {
        let f = f64::from_bits(0x7ff0_0000_0000_0000 | sym(1) << 63 | sym(52));
        let kind = pick(4);
        let n = pick(3) as i64 - 1;
        match call(float::ROUND[kind], Value::Float(f), Some(Value::integer(n)), None) {
            Ok(Value::Float(r)) => check(n > 0 && r.to_bits() == f.to_bits(), 62),
            Err(MonorubyErr::Domain) => check(n <= 0, 63),
            _ => check(false, 64),
        }
        check(matches!(call(float::TO_I, Value::Float(f), None, None), Err(MonorubyErr::Domain)), 65);
        cover(1);
    }
    /// The neighbours of any float.
    pub fn next(up: bool) {
        let f = f64::from_bits(sym(64));
        let Ok(Value::Float(r)) = call(float::NEXT[!up as usize], Value::Float(f), None, None) else { return check(false, 66) };
        let key = |f: f64| {
            let b = f.to_bits() as i64;
            if b < 0 { i64::MIN.wrapping_sub(b) } else { b }
        };
        if f.is_nan() {
            check(r.is_nan(), 67);
        } else if f.is_infinite() && (f > 0.0) == up {
            check(r == f, 68);
        } else {
            check(!r.is_nan() && key(r) == key(f).wrapping_add(if up { 1 } else { -1 }), 69);
        }
        cover(1);
    }
}

entries! {
    n04_floor => h::digits(0);
    n04_ceil => h::digits(1);
    n04_truncate => h::digits(2);
    n04_round => h::digits(3);
    n04_beyond_floor => h::beyond(0);
    n04_beyond_ceil => h::beyond(1);
    n04_beyond_truncate => h::beyond(2);
    n04_beyond_round => h::beyond(3);
    n04_bits_f => h::bits(0);
    n04_bits_b => h::bits(1);
    n04_power => h::power();
    n04_simple_f => h::simple(0);
    n04_simple_b => h::simple(1);
    n04_length_f => h::length(0);
    n04_length_b => h::length(1);
    n04_fold_shl => h::fold(0);
    n04_fold_shr => h::fold(1);
    n04_radix_2 => h::radix(2, 6);
    n04_radix_3 => h::radix(3, 5);
    n04_radix_10 => h::radix(10, 8);
    n04_radix_16 => h::radix(16, 8);
    n04_radix_36 => h::radix(36, 8);
    n04_radix_bad => h::radix_bad();
    n04_float_floor0 => h::float(0, 0, 4);
    n04_float_floor1 => h::float(0, 1, 6);
    n04_float_floor2 => h::float(0, 2, 9);
    n04_float_ceil0 => h::float(1, 0, 4);
    n04_float_ceil1 => h::float(1, 1, 6);
    n04_float_ceil2 => h::float(1, 2, 9);
    n04_float_trunc0 => h::float(2, 0, 4);
    n04_float_trunc1 => h::float(2, 1, 6);
    n04_float_trunc2 => h::float(2, 2, 9);
    n04_float_round0 => h::float(3, 0, 4);
    n04_float_round1 => h::float(3, 1, 6);
    n04_float_round2 => h::float(3, 2, 9);
    n04_far_floor => h::float_far(0);
    n04_far_ceil => h::float_far(1);
    n04_far_trunc => h::float_far(2);
    n04_far_round => h::float_far(3);
    n04_right_floor1 => h::float_right(0, 1, 2);
    n04_right_floor2 => h::float_right(0, 2, 1);
    n04_right_ceil1 => h::float_right(1, 1, 2);
    n04_right_ceil2 => h::float_right(1, 2, 1);
    n04_right_trunc1 => h::float_right(2, 1, 2);
    n04_right_trunc2 => h::float_right(2, 2, 1);
    n04_right_round1 => h::float_right(3, 1, 2);
    n04_right_round2 => h::float_right(3, 2, 1);
    n04_more_floor => h::float_beyond(0);
    n04_more_ceil => h::float_beyond(1);
    n04_more_trunc => h::float_beyond(2);
    n04_more_round => h::float_beyond(3);
    n04_left_floor => h::float_left(0);
    n04_left_ceil => h::float_left(1);
    n04_left_trunc => h::float_left(2);
    n04_left_round => h::float_left(3);
    n04_special => h::special();
    n04_next => h::next(true);
    n04_prev => h::next(false);
}

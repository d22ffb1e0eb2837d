// What value.rs, numeric.rs and the operators use of the rest of the interpreter: a heap of tagged
// objects, and integers beyond 64 bits (up to 127 bits here).
use std::cmp::Ordering;
use std::ops::{BitAnd as _, BitOr as _, BitXor as _};
pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MonorubyErr {
    ZeroDiv,
    Range,
    Other,
}
impl MonorubyErr {
    pub fn divide_by_zero() -> Self {
        MonorubyErr::ZeroDiv
    }
    pub fn exponent_is_too_large() -> Self {
        MonorubyErr::Range
    }
    pub fn rangeerr(_: impl Into<String>) -> Self {
        MonorubyErr::Range
    }
    pub fn typeerr(_: impl Into<String>) -> Self {
        MonorubyErr::Other
    }
    pub fn argumenterr(_: impl Into<String>) -> Self {
        MonorubyErr::Other
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ClassId(pub u32);
pub const INTEGER_CLASS: ClassId = ClassId(1);
pub const FLOAT_CLASS: ClassId = ClassId(2);
pub const SYMBOL_CLASS: ClassId = ClassId(3);
pub const NIL_CLASS: ClassId = ClassId(4);
pub const TRUE_CLASS: ClassId = ClassId(5);
pub const FALSE_CLASS: ClassId = ClassId(6);
pub const BOOL_CLASS: ClassId = ClassId(7);
pub const COMPLEX_CLASS: ClassId = ClassId(8);
pub const OBJECT_CLASS: ClassId = ClassId(9);
pub const RANGE_CLASS: ClassId = ClassId(10);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IdentId(pub u32);
impl IdentId {
    pub fn get(&self) -> u32 {
        self.0
    }
    pub fn get_id(_: &str) -> IdentId {
        IdentId(1)
    }
    pub fn compare(&self, o: &IdentId) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl From<u32> for IdentId {
    fn from(i: u32) -> IdentId {
        IdentId(i)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ObjTy(pub u8);
impl ObjTy {
    pub const BIGNUM: ObjTy = ObjTy(1);
    pub const FLOAT: ObjTy = ObjTy(2);
    pub const RANGE: ObjTy = ObjTy(3);
    pub const COMPLEX: ObjTy = ObjTy(4);
    pub const RATIONAL: ObjTy = ObjTy(5);
}

#[derive(Clone, PartialEq)]
pub struct RStringInner;
#[derive(Clone, PartialEq)]
pub struct RationalInner;

#[derive(Clone, PartialEq)]
pub struct RangeInner {
    pub a: Value,
    pub b: Value,
    pub x: bool,
}
impl RangeInner {
    pub fn start(&self) -> Value {
        self.a
    }
    pub fn end(&self) -> Value {
        self.b
    }
    pub fn exclude_end(&self) -> bool {
        self.x
    }
}

#[derive(Clone, PartialEq)]
#[repr(align(64))]
pub enum RValue {
    Big(BigInt),
    Float(f64),
    Range(RangeInner),
    Other,
}
impl RValue {
    pub fn new_bigint(b: BigInt) -> RValue {
        RValue::Big(b)
    }
    pub fn new_float(f: f64) -> RValue {
        RValue::Float(f)
    }
    pub fn new_complex(_: Real, _: Real) -> RValue {
        RValue::Other
    }
    pub fn new_complex_from(_: num::complex::Complex<Real>) -> RValue {
        RValue::Other
    }
    pub fn pack(self) -> Value {
        Value::from_u64(Box::into_raw(Box::new(self)) as u64)
    }
    pub fn ty(&self) -> ObjTy {
        match self {
            RValue::Big(_) => ObjTy::BIGNUM,
            RValue::Float(_) => ObjTy::FLOAT,
            RValue::Range(_) => ObjTy::RANGE,
            RValue::Other => ObjTy(0),
        }
    }
    pub fn class(&self) -> ClassId {
        match self {
            RValue::Big(_) => INTEGER_CLASS,
            RValue::Float(_) => FLOAT_CLASS,
            RValue::Range(_) => RANGE_CLASS,
            RValue::Other => OBJECT_CLASS,
        }
    }
    pub unsafe fn as_float(&self) -> f64 {
        match self {
            RValue::Float(f) => *f,
            _ => panic!(),
        }
    }
    pub fn unpack(&self) -> RV<'_> {
        match self {
            RValue::Big(b) => RV::BigInt(b),
            RValue::Float(f) => RV::Float(*f),
            _ => RV::Object(self),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct BigInt(pub i128);
pub use num::*;
pub mod num {
    pub use super::BigInt;
    pub mod complex {
        #[derive(Clone, Copy, PartialEq)]
        pub struct Complex<T> {
            pub re: T,
            pub im: T,
        }
        impl<T> From<T> for Complex<T> {
            fn from(_: T) -> Self {
                panic!()
            }
        }
        macro_rules! ops {
            ($($t:ident $f:ident),*) => { $(
                impl<T> std::ops::$t<&Complex<T>> for Complex<T> {
                    type Output = Complex<T>;
                    fn $f(self, _: &Complex<T>) -> Complex<T> { panic!() }
                }
                impl<T> std::ops::$t<Complex<T>> for &Complex<T> {
                    type Output = Complex<T>;
                    fn $f(self, _: Complex<T>) -> Complex<T> { panic!() }
                }
                impl<T> std::ops::$t<&Complex<T>> for &Complex<T> {
                    type Output = Complex<T>;
                    fn $f(self, _: &Complex<T>) -> Complex<T> { panic!() }
                }
            )* };
        }
        ops!(Add add, Sub sub, Mul mul, Rem rem);
    }
    pub trait ToPrimitive {
        fn to_f64(&self) -> Option<f64>;
        fn to_i64(&self) -> Option<i64>;
    }
    impl ToPrimitive for BigInt {
        fn to_f64(&self) -> Option<f64> {
            Some(self.0 as f64)
        }
        fn to_i64(&self) -> Option<i64> {
            i64::try_from(self.0).ok()
        }
    }
    impl ToPrimitive for i64 {
        fn to_f64(&self) -> Option<f64> {
            Some(*self as f64)
        }
        fn to_i64(&self) -> Option<i64> {
            Some(*self)
        }
    }
    pub trait FromPrimitive: Sized {
        fn from_f64(f: f64) -> Option<Self>;
    }
    impl FromPrimitive for BigInt {
        /// Truncates; exact below 2**126.
        fn from_f64(f: f64) -> Option<Self> {
            let b = f.to_bits();
            let e = (b >> 52 & 0x7ff) as i32 - 1075;
            if e > 73 {
                return None;
            }
            let m = ((b & ((1 << 52) - 1)) | 1 << 52) as i128;
            let m = if e < -53 {
                0
            } else if e < 0 {
                m >> -e
            } else {
                m << e
            };
            Some(BigInt(if b >> 63 != 0 { m.wrapping_neg() } else { m }))
        }
    }
    pub trait Zero {
        fn zero() -> Self;
        fn is_zero(&self) -> bool;
    }
    pub trait One {
        fn one() -> Self;
    }
    impl Zero for i64 {
        fn zero() -> Self {
            0
        }
        fn is_zero(&self) -> bool {
            *self == 0
        }
    }
    impl Zero for f64 {
        fn zero() -> Self {
            0.0
        }
        fn is_zero(&self) -> bool {
            *self == 0.0
        }
    }
    impl Zero for BigInt {
        fn zero() -> Self {
            BigInt(0)
        }
        fn is_zero(&self) -> bool {
            self.0 == 0
        }
    }
    pub trait Signed {
        fn is_positive(&self) -> bool;
        fn is_negative(&self) -> bool;
    }
    impl Signed for BigInt {
        fn is_positive(&self) -> bool {
            self.0 > 0
        }
        fn is_negative(&self) -> bool {
            self.0 < 0
        }
    }
    pub trait Integer: Sized {
        fn div_rem(&self, o: &Self) -> (Self, Self);
    }
    impl Integer for i64 {
        fn div_rem(&self, o: &Self) -> (Self, Self) {
            (*self / *o, *self % *o)
        }
    }
    impl Integer for BigInt {
        fn div_rem(&self, o: &Self) -> (Self, Self) {
            (BigInt(self.0 / o.0), BigInt(self.0 % o.0))
        }
    }
}
impl BigInt {
    pub const ZERO: BigInt = BigInt(0);
    pub fn bit(&self, i: u64) -> bool {
        self.0 >> i.min(127) & 1 != 0
    }
    pub fn bits(&self) -> u64 {
        128 - self.0.unsigned_abs().leading_zeros() as u64
    }
    pub fn pow(&self, n: u32) -> BigInt {
        BigInt(self.0.checked_pow(n).unwrap())
    }
}
macro_rules! from {
    ($($t:ty),*) => { $(impl From<$t> for BigInt {
        fn from(i: $t) -> BigInt { BigInt(i as i128) }
    })* };
}
from!(i32, i64, u64);
impl TryFrom<&BigInt> for i64 {
    type Error = ();
    fn try_from(b: &BigInt) -> std::result::Result<i64, ()> {
        i64::try_from(b.0).map_err(|_| ())
    }
}
macro_rules! bigops {
    ($($t:ident $f:ident $op:ident),*) => { $(
        impl std::ops::$t<BigInt> for BigInt {
            type Output = BigInt;
            fn $f(self, o: BigInt) -> BigInt { BigInt(self.0.$op(o.0)) }
        }
        impl std::ops::$t<&BigInt> for BigInt {
            type Output = BigInt;
            fn $f(self, o: &BigInt) -> BigInt { BigInt(self.0.$op(o.0)) }
        }
        impl std::ops::$t<BigInt> for &BigInt {
            type Output = BigInt;
            fn $f(self, o: BigInt) -> BigInt { BigInt(self.0.$op(o.0)) }
        }
        impl std::ops::$t<&BigInt> for &BigInt {
            type Output = BigInt;
            fn $f(self, o: &BigInt) -> BigInt { BigInt(self.0.$op(o.0)) }
        }
        impl std::ops::$t<i32> for BigInt {
            type Output = BigInt;
            fn $f(self, o: i32) -> BigInt { BigInt(self.0.$op(o as i128)) }
        }
        impl std::ops::$t<i32> for &BigInt {
            type Output = BigInt;
            fn $f(self, o: i32) -> BigInt { BigInt(self.0.$op(o as i128)) }
        }
    )* };
}
// the harnesses stay below 127 bits
bigops!(Add add wrapping_add, Sub sub wrapping_sub, Mul mul wrapping_mul, Div div wrapping_div, Rem rem wrapping_rem, BitAnd bitand bitand, BitOr bitor bitor,
        BitXor bitxor bitxor);
macro_rules! bigsh {
    ($($r:ty),*) => { $(
        impl std::ops::Shr<$r> for BigInt {
            type Output = BigInt;
            fn shr(self, n: $r) -> BigInt { BigInt(self.0 >> (n as u64).min(127)) }
        }
        impl std::ops::Shr<$r> for &BigInt {
            type Output = BigInt;
            fn shr(self, n: $r) -> BigInt { BigInt(self.0 >> (n as u64).min(127)) }
        }
        impl std::ops::Shl<$r> for BigInt {
            type Output = BigInt;
            fn shl(self, n: $r) -> BigInt { BigInt(self.0 << n) }
        }
        impl std::ops::Shl<$r> for &BigInt {
            type Output = BigInt;
            fn shl(self, n: $r) -> BigInt { BigInt(self.0 << n) }
        }
    )* };
}
bigsh!(u32, usize, i64);
impl std::ops::Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(self.0.wrapping_neg())
    }
}
impl std::ops::Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        BigInt(self.0.wrapping_neg())
    }
}
impl std::ops::Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        BigInt(!self.0)
    }
}
impl std::ops::Not for &BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        BigInt(!self.0)
    }
}

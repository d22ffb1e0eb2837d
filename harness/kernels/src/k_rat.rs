//! N03: Rational (monoruby/src/value/rvalue/rational.rs and builtins/numeric/rational.rs): exact
//! arithmetic in lowest terms, the four ways of rounding, conversion from and to Float, and what
//! Integer and Rational operands have in common.
use crate::v::*;

/// What the code uses of the rest of the interpreter; integers are 64 bits wide here and the
/// harnesses stay below that (a larger one panics).
mod shim {
    use super::code::RationalInner;
    use std::cmp::Ordering;
    pub type Result<T> = std::result::Result<T, MonorubyErr>;

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum MonorubyErr {
        ZeroDiv,
        Arg,
        Other,
    }
    impl MonorubyErr {
        pub fn divide_by_zero() -> Self {
            MonorubyErr::ZeroDiv
        }
        pub fn argumenterr(_: impl Into<String>) -> Self {
            MonorubyErr::Arg
        }
        pub fn typeerr(_: impl Into<String>) -> Self {
            MonorubyErr::Other
        }
        pub fn exponent_is_too_large() -> Self {
            MonorubyErr::Arg
        }
        pub fn cant_convert_into_float(_: &Globals, _: Value) -> Self {
            MonorubyErr::Other
        }
    }

    /// The number if `far` is zero, and `far` otherwise, which only serves as an exponent.  In few
    /// bits for the solver's sake: the harnesses stay below 2**24.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct BigInt {
        far: i64,
        v: i32,
    }
    pub fn big(v: i32) -> BigInt {
        BigInt { far: 0, v }
    }
    pub fn quo(a: i32, b: i32) -> i32 {
        match (i16::try_from(a), i16::try_from(b)) {
            (Ok(a), Ok(b)) => (a / b) as i32,
            _ => a / b,
        }
    }
    pub fn rest(a: i32, b: i32) -> i32 {
        match (i16::try_from(a), i16::try_from(b)) {
            (Ok(a), Ok(b)) => (a % b) as i32,
            _ => a % b,
        }
    }
    pub mod num {
        pub use super::BigInt;
        pub mod bigint {
            pub use super::super::BigInt;
            #[derive(Clone, Copy, PartialEq, Eq)]
            pub enum Sign {
                Minus,
                NoSign,
                Plus,
            }
        }
        pub mod traits {
            pub use super::{One, Zero};
        }
        pub trait ToPrimitive {
            fn to_f64(&self) -> Option<f64>;
            fn to_i64(&self) -> Option<i64>;
            fn to_u32(&self) -> Option<u32>;
            fn to_u64(&self) -> Option<u64>;
            fn to_i32(&self) -> Option<i32>;
            fn to_usize(&self) -> Option<usize>;
        }
        impl ToPrimitive for BigInt {
            fn to_f64(&self) -> Option<f64> {
                Some(self.get() as f64)
            }
            fn to_i64(&self) -> Option<i64> {
                Some(self.wide())
            }
            fn to_u32(&self) -> Option<u32> {
                self.wide().try_into().ok()
            }
            fn to_u64(&self) -> Option<u64> {
                self.wide().try_into().ok()
            }
            fn to_i32(&self) -> Option<i32> {
                self.wide().try_into().ok()
            }
            fn to_usize(&self) -> Option<usize> {
                self.wide().try_into().ok()
            }
        }
        pub trait FromPrimitive: Sized {
            fn from_f64(f: f64) -> Option<Self>;
        }
        impl FromPrimitive for BigInt {
            fn from_f64(f: f64) -> Option<Self> {
                (f.abs() < 1e6).then(|| super::big(f as i32))
            }
        }
        pub trait Zero {
            fn zero() -> Self;
            fn is_zero(&self) -> bool;
        }
        impl Zero for BigInt {
            fn zero() -> Self {
                super::big(0)
            }
            fn is_zero(&self) -> bool {
                self.wide() == 0
            }
        }
        pub trait One {
            fn one() -> Self;
            fn is_one(&self) -> bool;
        }
        impl One for BigInt {
            fn one() -> Self {
                super::big(1)
            }
            fn is_one(&self) -> bool {
                self.wide() == 1
            }
        }
        pub trait Signed {
            fn is_positive(&self) -> bool;
            fn is_negative(&self) -> bool;
            fn abs(&self) -> Self;
            fn signum(&self) -> Self;
        }
        impl Signed for BigInt {
            fn is_positive(&self) -> bool {
                self.wide() > 0
            }
            fn is_negative(&self) -> bool {
                self.wide() < 0
            }
            fn abs(&self) -> Self {
                BigInt::from(self.wide().abs())
            }
            fn signum(&self) -> Self {
                super::big(self.get().signum())
            }
        }
        pub use integer::Integer;
        pub mod integer {
            use super::super::{big, quo, rest};
            use super::BigInt;
            pub trait Integer: Sized {
                fn div_rem(&self, o: &Self) -> (Self, Self);
                fn div_mod_floor(&self, o: &Self) -> (Self, Self);
                fn div_floor(&self, o: &Self) -> Self;
                fn div_ceil(&self, o: &Self) -> Self;
                fn mod_floor(&self, o: &Self) -> Self;
                fn gcd(&self, o: &Self) -> Self;
                fn is_even(&self) -> bool;
                fn is_odd(&self) -> bool;
            }
            impl Integer for BigInt {
                fn div_rem(&self, o: &Self) -> (Self, Self) {
                    (big(quo(self.get(), o.get())), big(rest(self.get(), o.get())))
                }
                fn div_mod_floor(&self, o: &Self) -> (Self, Self) {
                    let (q, r) = (quo(self.get(), o.get()), rest(self.get(), o.get()));
                    let d = ((r != 0) & ((r < 0) != (o.get() < 0))) as i32;
                    (big(q - d), big(r + (-d & o.get())))
                }
                fn div_floor(&self, o: &Self) -> Self {
                    self.div_mod_floor(o).0
                }
                fn div_ceil(&self, o: &Self) -> Self {
                    let (q, r) = self.div_mod_floor(o);
                    big(q.get() + (r.get() != 0) as i32)
                }
                fn mod_floor(&self, o: &Self) -> Self {
                    self.div_mod_floor(o).1
                }
                /// By the divisors of the one that is known; splits the path on the result, so
                /// that what follows divides by known numbers.
                fn gcd(&self, o: &Self) -> Self {
                    let (a, b) = (self.get().abs(), o.get().abs());
                    let b = crate::v::conc(b as u64) as i32;
                    if b == 0 {
                        return big(a);
                    }
                    let mut g = 1;
                    let mut k = 2;
                    while k <= b {
                        if b % k == 0 {
                            let m = -((rest(a, k) == 0) as i32);
                            g = m & k | !m & g;
                        }
                        k += 1;
                    }
                    big(crate::v::conc(g as u64) as i32)
                }
                fn is_even(&self) -> bool {
                    self.get() & 1 == 0
                }
                fn is_odd(&self) -> bool {
                    self.get() & 1 != 0
                }
            }
        }
    }
    impl BigInt {
        pub const ZERO: BigInt = BigInt { far: 0, v: 0 };
        pub fn get(&self) -> i32 {
            assert!(self.far == 0);
            self.v
        }
        /// Its low bits, for the parity of an exponent.
        fn low(&self) -> i32 {
            if self.far == 0 { self.v } else { (self.far & 1) as i32 }
        }
        fn wide(&self) -> i64 {
            if self.far == 0 { self.v as i64 } else { self.far }
        }
        pub fn bits(&self) -> u64 {
            32 - self.get().unsigned_abs().leading_zeros() as u64
        }
        pub fn sign(&self) -> num::bigint::Sign {
            match self.wide() {
                0 => num::bigint::Sign::NoSign,
                x if x < 0 => num::bigint::Sign::Minus,
                _ => num::bigint::Sign::Plus,
            }
        }
        pub fn pow(&self, n: u32) -> BigInt {
            // known exponents only
            let n = crate::v::conc(n as u64);
            let mut r = 1i32;
            let mut i = 0;
            while i < n {
                r = r.wrapping_mul(self.get());
                i += 1;
            }
            big(r)
        }
    }
    macro_rules! from {
        ($($t:ty),*) => { $(impl From<$t> for BigInt {
            fn from(i: $t) -> BigInt {
                match i32::try_from(i) {
                    Ok(v) => big(v),
                    _ => BigInt { far: i as i64, v: 0 },
                }
            }
        })* };
    }
    from!(i32, u32, i64, u64, usize);
    macro_rules! into {
        ($($t:ty),*) => { $(
            impl TryFrom<&BigInt> for $t {
                type Error = ();
                fn try_from(b: &BigInt) -> std::result::Result<$t, ()> { b.wide().try_into().map_err(|_| ()) }
            }
            impl TryFrom<BigInt> for $t {
                type Error = ();
                fn try_from(b: BigInt) -> std::result::Result<$t, ()> { b.wide().try_into().map_err(|_| ()) }
            }
        )* };
    }
    into!(i64, u32, i32, u64);
    macro_rules! ops {
        ($($t:ident $f:ident $ta:ident $fa:ident $op:tt),*) => { $(
            ops!(@ $t $f $op; BigInt, BigInt, |o: BigInt| o.get());
            ops!(@ $t $f $op; BigInt, &BigInt, |o: &BigInt| o.get());
            ops!(@ $t $f $op; &BigInt, BigInt, |o: BigInt| o.get());
            ops!(@ $t $f $op; &BigInt, &BigInt, |o: &BigInt| o.get());
            ops!(@ $t $f $op; BigInt, i32, |o: i32| o);
            ops!(@ $t $f $op; &BigInt, i32, |o: i32| o);
            ops!(@ $t $f $op; BigInt, u32, |o: u32| o as i32);
            ops!(@ $t $f $op; &BigInt, u32, |o: u32| o as i32);
            impl std::ops::$ta<u32> for BigInt {
                fn $fa(&mut self, o: u32) { *self = big($op(self.get(), o as i32)) }
            }
            impl std::ops::$ta<&BigInt> for BigInt {
                fn $fa(&mut self, o: &BigInt) { *self = big($op(self.get(), o.get())) }
            }
            impl std::ops::$ta<BigInt> for BigInt {
                fn $fa(&mut self, o: BigInt) { *self = big($op(self.get(), o.get())) }
            }
        )* };
        (@ $t:ident $f:ident $op:tt; $l:ty, $r:ty, $g:expr) => {
            impl std::ops::$t<$r> for $l {
                type Output = BigInt;
                fn $f(self, o: $r) -> BigInt { big($op(self.low(), ($g)(o))) }
            }
        };
    }
    ops!(Add add AddAssign add_assign (i32::wrapping_add), Sub sub SubAssign sub_assign (i32::wrapping_sub), Mul mul MulAssign mul_assign (i32::wrapping_mul), Div div DivAssign div_assign (quo),
         Rem rem RemAssign rem_assign (rest));
    macro_rules! shifts {
        ($($r:ty),*) => { $(
            impl std::ops::Shr<$r> for BigInt {
                type Output = BigInt;
                fn shr(self, n: $r) -> BigInt { big(self.get() >> (n as u64).min(31)) }
            }
            impl std::ops::Shl<$r> for BigInt {
                type Output = BigInt;
                fn shl(self, n: $r) -> BigInt { big(self.get().checked_mul(1i32.checked_shl(n as u32).unwrap()).unwrap()) }
            }
        )* };
    }
    shifts!(u32, usize, u64, i32, i64);
    impl std::ops::Neg for BigInt {
        type Output = BigInt;
        fn neg(self) -> BigInt {
            big(-self.get())
        }
    }
    impl std::ops::Neg for &BigInt {
        type Output = BigInt;
        fn neg(self) -> BigInt {
            big(-self.get())
        }
    }
    impl std::fmt::Display for BigInt {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.get().fmt(f)
        }
    }

    pub struct Allocator<T>(T);
    pub struct RValue;
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }

    /// Integers are big from 2**10 on.
    pub const FIX: i32 = 1 << 10;
    #[derive(Clone, Copy)]
    pub enum Value {
        Nil,
        Bool(bool),
        Int(i64),
        Float(f64),
        Rat(&'static RationalInner),
        Big(&'static BigInt),
        Other,
    }
    pub enum RV<'a> {
        Nil,
        Fixnum(i64),
        BigInt(&'a BigInt),
        Float(f64),
        Object,
    }
    pub struct Ary(pub [Value; 2]);
    impl std::ops::Deref for Ary {
        type Target = [Value];
        fn deref(&self) -> &[Value] {
            &self.0
        }
    }
    impl Value {
        pub fn nil() -> Value {
            Value::Nil
        }
        pub fn bool(b: bool) -> Value {
            Value::Bool(b)
        }
        pub fn integer(i: i64) -> Value {
            Value::Int(i)
        }
        pub fn bigint(b: BigInt) -> Value {
            Value::Int(b.get() as i64)
        }
        pub fn float(f: f64) -> Value {
            Value::Float(f)
        }
        pub fn complex(_: f64, _: f64) -> Value {
            Value::Other
        }
        pub fn string(_: String) -> Value {
            Value::Other
        }
        pub fn rational(n: impl Into<BigInt>, d: impl Into<BigInt>) -> Value {
            Value::rational_from_inner(RationalInner::new(n, d))
        }
        pub fn rational_from_inner(r: RationalInner) -> Value {
            Value::Rat(Box::leak(Box::new(r)))
        }
        pub fn try_rational(&self) -> Option<&RationalInner> {
            if let Value::Rat(r) = self { Some(r) } else { None }
        }
        pub fn as_rational(&self) -> &RationalInner {
            self.try_rational().unwrap()
        }
        pub fn try_array_ty(&self) -> Option<Ary> {
            None
        }
        pub fn as_bool(&self) -> bool {
            !matches!(self, Value::Nil | Value::Bool(false))
        }
        pub fn get_real_class_name(&self, _: &Store) -> &'static str {
            "X"
        }
        pub fn coerce_to_int_i64(self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            if let Value::Int(i) = self { Ok(i) } else { Err(MonorubyErr::Other) }
        }
        pub fn unpack(&self) -> RV<'_> {
            match self {
                Value::Nil => RV::Nil,
                Value::Int(i) => RV::Fixnum(*i),
                Value::Big(b) => RV::BigInt(b),
                Value::Float(f) => RV::Float(*f),
                _ => RV::Object,
            }
        }
    }
    pub struct Store;
    pub struct Globals {
        pub store: Store,
    }
    impl Globals {
        pub fn check_method(&mut self, _: Value, _: IdentId) -> Option<u32> {
            None
        }
    }
    pub struct Executor;
    impl Executor {
        pub fn invoke_method_inner(&mut self, _: &mut Globals, _: IdentId, _: Value, _: &[Value], _: Option<u8>, _: Option<u8>) -> Result<Value> {
            Err(MonorubyErr::Other)
        }
        pub fn invoke_method_if_exists(
            &mut self,
            _: &mut Globals,
            _: IdentId,
            _: Value,
            _: &[Value],
            _: Option<u8>,
            _: Option<u8>,
        ) -> Result<Option<Value>> {
            Ok(None)
        }
    }
    #[derive(Clone, Copy)]
    pub struct IdentId(u32);
    impl IdentId {
        pub const _EQ: IdentId = IdentId(1);
        pub const _CMP: IdentId = IdentId(2);
        pub const _ADD: IdentId = IdentId(3);
        pub const _SUB: IdentId = IdentId(4);
        pub const _MUL: IdentId = IdentId(5);
        pub const _DIV: IdentId = IdentId(6);
        pub const _POW: IdentId = IdentId(7);
        pub fn get_id(_: &str) -> IdentId {
            IdentId(0)
        }
    }
    /// The receiver and the arguments of a call.
    #[derive(Clone, Copy)]
    pub struct Lfp(pub Value, pub Option<Value>, pub Option<Value>);
    impl Lfp {
        pub fn self_val(&self) -> Value {
            self.0
        }
        pub fn arg(&self, i: usize) -> Value {
            self.try_arg(i).unwrap()
        }
        pub fn try_arg(&self, i: usize) -> Option<Value> {
            if i == 0 { self.1 } else { self.2 }
        }
    }
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
}

pub mod value {
    #[derive(Clone, Copy)]
    pub enum RoundHalf {
        Up,
        Down,
        Even,
    }
}

mod code {
    use super::shim::num::{FromPrimitive, One, Signed, ToPrimitive, Zero};
    use super::shim::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/rat_inner.rs"));
}

mod calls {
    use super::code::*;
    use super::shim::num::{FromPrimitive, One, Signed, ToPrimitive, Zero};
    use super::shim::*;
    mod rvalue {
        pub use super::super::code::*;
    }
    /// The rounding mode by its number.
    fn half_mode(v: Value) -> Result<Option<super::value::RoundHalf>> {
        use super::value::RoundHalf::*;
        Ok(match v {
            Value::Int(1) => Some(Up),
            Value::Int(2) => Some(Down),
            Value::Int(3) => Some(Even),
            _ => None,
        })
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/rat_calls.rs"));

    use super::h::*;
    use crate::v::*;

    fn call(f: fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>, a: Value, b: Option<Value>, c: Option<Value>) -> Result<Value> {
        f(&mut Executor, &mut Globals { store: Store }, Lfp(a, b, c), BytecodePtr)
    }
    /// A number and its numerator and denominator: a Rational, a Fixnum or a Bignum.
    fn operand(k: usize) -> (Value, i32, i32) {
        match k {
            0 => {
                let (n, d) = (num(5), den(0));
                (Value::rational(n, d), n, d)
            }
            1 => {
                let n = num(5);
                (Value::integer(n as i64), n, 1)
            }
            _ => {
                let n = FIX + num(5);
                (Value::Big(Box::leak(Box::new(big(n)))), n, 1)
            }
        }
    }
    pub fn arith(op: usize, k: usize) {
        let (n, d) = (num(if op == 2 { 4 } else { 5 }), den(1));
        let a = Value::rational(n, d);
        let (b, m, e) = operand(k);
        let (r, x, y) = match op {
            0 => (call(add, a, Some(b), None), n * e + m * d, d * e),
            1 => (call(sub, a, Some(b), None), n * e - m * d, d * e),
            2 => (call(mul, a, Some(b), None), n * m, d * e),
            _ => {
                // the divisor decides the denominator
                let (b, m, e) = if k == 0 {
                    let m = pick(9) as i32 - 4;
                    (Value::rational(m, 3), m, 3)
                } else {
                    let m = pick(7) as i32 - 3;
                    (Value::integer(m as i64), m, 1)
                };
                let r = call(div, a, Some(b), None);
                if m == 0 {
                    check(matches!(r, Err(MonorubyErr::ZeroDiv)), 1);
                    cover(1);
                    return;
                }
                let s = m.signum();
                (r, n * e * s, d * m * s)
            }
        };
        is_rat(r, x, y, 2);
        cover(1);
    }
    pub fn compare(k: usize) {
        let (n, d) = if k == 2 { (FIX + num(5), 1 + pick(2) as i32) } else { (num(5), den(1)) };
        let a = Value::rational(n, d);
        let (b, m, e) = operand(k);
        let (l, r) = (n * e, m * d);
        let t = |x: Result<Value>, w: bool, id: u32| check(matches!(x, Ok(Value::Bool(b)) if b == w), id);
        t(call(eq, a, Some(b), None), l == r, 10);
        t(call(ne, a, Some(b), None), l != r, 11);
        check(matches!(call(cmp, a, Some(b), None), Ok(Value::Int(c)) if c == (l > r) as i64 - (l < r) as i64), 12);
        // eql? distinguishes Integer and Rational
        t(call(eql_, a, Some(b), None), k == 0 && l == r, 13);
        if k == 0 {
            let (na, nb) = (call(numerator, a, None, None), call(numerator, b, None, None));
            let (da, db) = (call(denominator, a, None, None), call(denominator, b, None, None));
            if let (Ok(Value::Int(na)), Ok(Value::Int(nb)), Ok(Value::Int(da)), Ok(Value::Int(db))) = (na, nb, da, db) {
                check((na == nb && da == db) == (l == r), 14);
            } else {
                check(false, 15);
            }
            t(call(zero_, a, None, None), n == 0, 16);
            t(call(positive_, a, None, None), n > 0, 17);
            t(call(negative_, a, None, None), n < 0, 18);
            is_rat(call(neg, a, None, None), -n, d, 19);
            is_rat(call(abs, a, None, None), n.abs(), d, 20);
            check(matches!(call(to_i, a, None, None), Ok(Value::Int(i)) if i == quo(n, d) as i64), 21);
        }
        cover(1);
    }
    pub fn power() {
        let n = num(3);
        let d = [1, 2, 3, 4][pick(4)];
        let a = Value::rational(n, d);
        let x = pick(9) as i32 - 4;
        let b = match pick(3) {
            0 => Value::integer(x as i64),
            1 => Value::Big(Box::leak(Box::new(BigInt::from(x)))),
            _ => Value::rational(x, 1),
        };
        let p = |b: i32, e: i32| (0..e).fold(1i32, |a, _| a.wrapping_mul(b));
        let r = call(pow, a, Some(b), None);
        if x >= 0 {
            is_rat(r, p(n, x), p(d, x), 30);
        } else if n == 0 {
            check(matches!(r, Err(MonorubyErr::ZeroDiv)), 31);
        } else {
            let s = p(n, -x);
            is_rat(r, p(d, -x) * s.signum(), s.abs(), 32);
        }
        cover(1);
    }
    /// Exponents no result fits in: 0, 1 and -1 stay, for others it is an error.
    pub fn power_far() {
        let n = pick(5) as i32 - 2;
        let d = 1 + pick(2) as i32;
        let x = sym(62) as i64;
        assume(x > u32::MAX as i64);
        let neg = sym_bool();
        let x = if neg { -x } else { x };
        let b = if sym_bool() { Value::integer(x) } else { Value::Big(Box::leak(Box::new(BigInt::from(x)))) };
        let r = call(pow, Value::rational(n, d), Some(b), None);
        let m = if n % d == 0 { n / d } else { 2 };
        match m {
            0 if neg => check(matches!(r, Err(MonorubyErr::ZeroDiv)), 33),
            0 => is_rat(r, 0, 1, 34),
            1 => is_rat(r, 1, 1, 35),
            -1 => is_rat(r, if x & 1 == 0 { 1 } else { -1 }, 1, 36),
            _ => check(matches!(r, Err(MonorubyErr::Arg)), 37),
        }
        cover(1);
    }
    /// `op`: floor, ceil, truncate, round half up, down, even; `k` digits.
    pub fn rounding(op: usize, k: i32) {
        let (n, d) = (num(if k < 0 { 7 } else { 6 }), den(2));
        let a = Value::rational(n, d);
        let kv = Some(Value::integer(k as i64));
        let r = match op {
            0 => call(rat_floor, a, kv, None),
            1 => call(rat_ceil, a, kv, None),
            2 => call(rat_truncate, a, kv, None),
            _ => call(rat_round, a, kv, if op == 3 && pick(2) == 0 { None } else { Some(Value::integer(op as i64 - 2)) }),
        };
        // the number in units of the last digit, as x / y
        let p = |k: i32| (0..k).fold(1i32, |a, _| a * 10);
        let (x, y) = if k >= 0 { (n * p(k), d) } else { (n, d * p(-k)) };
        // the result in the same units
        let u = match r {
            Ok(Value::Int(i)) => {
                check(k <= 0, 40);
                let p = p(-k);
                let i = i as i32;
                check(rest(i, p) == 0, 41);
                quo(i, p)
            }
            Ok(Value::Rat(r)) => {
                check(k > 0, 42);
                let (m, e) = (r.num().get(), conc(r.den().get() as u64) as i32);
                check(e > 0 && p(k) % e == 0, 43);
                m * (p(k) / e)
            }
            _ => {
                check(false, 44);
                0
            }
        };
        let (below, above) = (u * y <= x, u * y >= x);
        let near = (u * y - x).abs();
        let id = 45 + op as u32;
        match op {
            0 => check(below && near < y, id),
            1 => check(above && near < y, id),
            2 => check(if x >= 0 { below } else { above } && near < y, id),
            _ => {
                check(2 * near <= y, id);
                if 2 * near == y {
                    let away = if x >= 0 { above } else { below };
                    check(if op == 3 { away } else if op == 4 { !away } else { u & 1 == 0 }, id + 3);
                }
            }
        }
        cover(1);
    }
}

mod h {
    use super::code::*;
    use super::shim::*;
    use crate::v::*;
    use std::cmp::Ordering;

    /// A signed unknown.
    pub fn num(bits: u32) -> i32 {
        ((sym(bits) as u32) << (32 - bits)) as i32 >> (32 - bits)
    }
    pub fn den(k: usize) -> i32 {
        let d: &[i32] = [&[1, 2, 6][..], &[1, 3, 4, 10], &[1, 2, 3, 4, 7, 8, 20]][k];
        d[pick(d.len())]
    }
    /// In lowest terms with a positive denominator.
    pub fn lowest(r: &RationalInner, id: u32) {
        check(r.den().get() > 0, id);
        let d = conc(r.den().get() as u64) as i32;
        let mut k = 2;
        while k <= d {
            if d % k == 0 {
                check(rest(r.num().get(), k) != 0, id);
            }
            k += 1;
        }
    }
    pub fn is_rat(r: Result<Value>, x: i32, y: i32, id: u32) {
        match r {
            Ok(Value::Rat(r)) => {
                check(r.num().get() * y == x * r.den().get(), id);
                lowest(r, id + 100);
            }
            _ => check(false, id),
        }
    }
    pub fn made() {
        let n = num(9);
        let d: i32 = [1, -1, 2, -2, 12, -30][pick(6)];
        let r = RationalInner::new(n, d);
        check(r.num().get() * d == n * r.den().get(), 60);
        lowest(&r, 61);
        let (a, b) = (r.num_as_value(), r.den_as_value());
        check(matches!(a, Value::Int(i) if i == r.num().get() as i64) && matches!(b, Value::Int(i) if i == r.den().get() as i64), 62);
        check(r.is_zero() == (n == 0) && r.is_negative() == (n != 0 && (n < 0) != (d < 0)), 63);
        cover(1);
    }
    /// A float is m * 2**e.
    pub fn from_float(e: i32) {
        let m = 8 | sym(3) as i32;
        let neg = sym_bool();
        let f = f64::from_bits((neg as u64) << 63 | ((e + 1026) as u64) << 52 | ((m & 7) as u64) << 49);
        let r = RationalInner::from_f64(f);
        let m = if neg { -m } else { m };
        if e >= 0 {
            check(r.den().get() == 1 && r.num().get() == m << e, 70);
        } else {
            check(r.num().get() << -e == m * r.den().get(), 71);
            lowest(&r, 72);
        }
        check(RationalInner::from_f64(0.0).is_zero(), 75);
        cover(1);
    }
    /// Exact when the denominator is a power of two.
    pub fn to_float() {
        let n = num(6);
        let s = pick(5) as i32;
        let r = RationalInner::new(n, 1i32 << s);
        let f = r.to_f();
        check(f * f64::from_bits(((s + 1023) as u64) << 52) == n as f64, 73);
        check(f.to_bits() >> 63 == (n < 0) as u64, 74);
        cover(1);
    }
    /// The fraction with the smallest denominator within the distance; known bounds around an
    /// unknown value.
    pub fn simplest(d: i32, en: i32, ed: i32) {
        let n = num(6);
        let r = RationalInner::find_simplest(&RationalInner::new(n, d), &RationalInner::new(en, ed));
        lowest(&r, 80);
        let (x, y) = (r.num().get(), r.den().get());
        // |x/y - n/d| <= en/ed
        let within = |x: i32, y: i32| (x * d - n * y).abs() * ed <= en.abs() * y * d;
        check(within(x, y), 81);
        // and none with a smaller one
        let q = sym(5) as i32;
        let p = num(9);
        cover(1);
        assume(q > 0 && q < y);
        check(!within(p, q), 82);
    }
}

entries! {
    n03_made => h::made();
    n03_add => calls::arith(0, 0);
    n03_add_fix => calls::arith(0, 1);
    n03_add_big => calls::arith(0, 2);
    n03_sub => calls::arith(1, 0);
    n03_sub_fix => calls::arith(1, 1);
    n03_mul => calls::arith(2, 0);
    n03_mul_fix => calls::arith(2, 1);
    n03_div => calls::arith(3, 0);
    n03_div_fix => calls::arith(3, 1);
    n03_cmp => calls::compare(0);
    n03_cmp_fix => calls::compare(1);
    n03_cmp_big => calls::compare(2);
    n03_pow => calls::power();
    n03_pow_far => calls::power_far();
    n03_floor0 => calls::rounding(0, 0);
    n03_floor1 => calls::rounding(0, 1);
    n03_floor2 => calls::rounding(0, 2);
    n03_floor_1 => calls::rounding(0, -1);
    n03_ceil0 => calls::rounding(1, 0);
    n03_ceil1 => calls::rounding(1, 1);
    n03_ceil2 => calls::rounding(1, 2);
    n03_ceil_1 => calls::rounding(1, -1);
    n03_trunc0 => calls::rounding(2, 0);
    n03_trunc1 => calls::rounding(2, 1);
    n03_trunc2 => calls::rounding(2, 2);
    n03_trunc_1 => calls::rounding(2, -1);
    n03_up0 => calls::rounding(3, 0);
    n03_up1 => calls::rounding(3, 1);
    n03_up_1 => calls::rounding(3, -1);
    n03_down0 => calls::rounding(4, 0);
    n03_down1 => calls::rounding(4, 1);
    n03_down_1 => calls::rounding(4, -1);
    n03_even0 => calls::rounding(5, 0);
    n03_even1 => calls::rounding(5, 1);
    n03_even_1 => calls::rounding(5, -1);
    n03_from_f => h::from_float(0);
    n03_from_f1 => h::from_float(-1);
    n03_from_f2 => h::from_float(-3);
    n03_from_f3 => h::from_float(5);
    n03_to_f => h::to_float();
    n03_simple_1 => h::simplest(7, 1, 10);
    n03_simple_2 => h::simplest(1, 1, 3);
    n03_simple_3 => h::simplest(16, 1, 4);
    n03_simple_4 => h::simplest(5, 0, 1);
}

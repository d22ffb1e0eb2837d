//! N02: Integer arithmetic (monoruby/src/value/numeric.rs, executor/op.rs and
//! executor/op/binary_ops.rs): results are exact whatever the size of the operands, and small
//! results are always immediate.
use crate::v::*;

mod shim {
    pub use super::code::{RV, Real, Value};
    include!("numshim.rs");

    macro_rules! ids {
        ($($n:ident $v:literal),*) => { impl IdentId { $(pub const $n: IdentId = IdentId($v);)* } };
    }
    ids!(_ADD 10, _SUB 11, _MUL 12, _DIV 13, _REM 14, _POW 15, _BOR 16, _BAND 17, _BXOR 18, _SHL 19, _SHR 20, _GE 21, _GT 22, _LE 23, _LT 24,
         _EQ 25, _NEQ 26, _CMP 27, _UMINUS 28, _UPLUS 29, _NOT 30, _BNOT 31);

    pub struct Store;
    impl Store {
        pub fn basic_op_redefined(&self) -> bool {
            false
        }
        pub fn basic_op_redefined_for(&self, _: ClassId, _: IdentId) -> bool {
            false
        }
        pub fn custom_neq(&self, _: ClassId, _: u32) -> Option<u32> {
            None
        }
        pub fn no_to_str(&self, _: ClassId, _: u32) -> bool {
            true
        }
        pub fn get_constant_noautoload(&self, _: ClassId, _: IdentId) -> Option<Value> {
            None
        }
    }
    pub struct Globals {
        pub store: Store,
    }
    impl Globals {
        pub fn class_version() -> u32 {
            0
        }
    }
    /// Records the error raised; a method call counts as one.
    pub struct Executor {
        pub err: Option<MonorubyErr>,
    }
    impl Executor {
        pub fn set_error(&mut self, e: MonorubyErr) {
            self.err = Some(e);
        }
        pub fn err_divide_by_zero(&mut self) {
            self.err = Some(MonorubyErr::ZeroDiv);
        }
        pub fn invoke_method(
            &mut self,
            _: &mut Globals,
            _: IdentId,
            _: bool,
            _: Value,
            _: &[Value],
            _: Option<u8>,
            _: Option<u8>,
        ) -> Option<Value> {
            self.err = Some(MonorubyErr::Other);
            None
        }
        pub fn invoke_method_simple(&mut self, _: &mut Globals, _: IdentId, _: Value, _: &[Value]) -> Option<Value> {
            self.err = Some(MonorubyErr::Other);
            None
        }
        pub fn invoke_method_inner(
            &mut self,
            _: &mut Globals,
            _: IdentId,
            _: Value,
            _: &[Value],
            _: Option<u8>,
            _: Option<u8>,
        ) -> Result<Value> {
            Err(MonorubyErr::Other)
        }
        pub fn invoke_method_if_exists(
            &mut self,
            _: &mut Globals,
            _: IdentId,
            _: Value,
            _: &[Value],
            _: Option<u8>,
            _: Option<u8>,
        ) -> Result<Option<Value>> {
            Err(MonorubyErr::Other)
        }
        pub fn invoke_func_inner(
            &mut self,
            _: &mut Globals,
            _: u32,
            _: Value,
            _: &[Value],
            _: Option<u8>,
            _: Option<u8>,
        ) -> Result<Value> {
            Err(MonorubyErr::Other)
        }
        pub fn find_method(&mut self, _: &mut Globals, _: Value, _: IdentId, _: bool) -> Result<u32> {
            Err(MonorubyErr::Other)
        }
        pub fn invoke_eq(&mut self, _: &mut Globals, _: Value, _: Value) -> Result<bool> {
            Err(MonorubyErr::Other)
        }
        pub fn invoke_eq_raw_vis(&mut self, _: &mut Globals, _: Value, _: Value, _: bool) -> Result<Value> {
            Err(MonorubyErr::Other)
        }
    }
    pub enum MonorubyErrKind {
        Other(ClassId),
    }
    impl MonorubyErr {
        pub fn new(_: MonorubyErrKind, _: impl Into<String>) -> Self {
            MonorubyErr::Other
        }
        pub fn no_implicit_conversion(_: &Globals, _: Value, _: ClassId) -> Self {
            MonorubyErr::Other
        }
    }
    impl RStringInner {
        pub fn compatible_encoding(&self, _: &RStringInner) -> Option<u8> {
            Some(0)
        }
    }
    impl RationalInner {
        pub fn to_f(&self) -> f64 {
            0.0
        }
    }
    impl std::fmt::Debug for Value {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl Value {
        pub fn try_array_ty(&self) -> Option<Vec<Value>> {
            None
        }
        pub fn try_rational(&self) -> Option<&RationalInner> {
            None
        }
        pub fn get_real_class_name<T>(&self, _: &T) -> &'static str {
            ""
        }
        pub fn coerce_to_int(&self, _: &mut Executor, _: &mut Globals) -> Result<Value> {
            Err(MonorubyErr::Other)
        }
        pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            match self.unpack() {
                RV::Fixnum(i) => Ok(i),
                _ => Err(MonorubyErr::Range),
            }
        }
        pub fn as_class_id(&self) -> ClassId {
            OBJECT_CLASS
        }
        pub fn rational(_: i64, _: BigInt) -> Value {
            RValue::Other.pack()
        }
        pub fn complex_from(_: num::complex::Complex<Real>) -> Value {
            RValue::Other.pack()
        }
        pub fn is_range(&self) -> Option<&RangeInner> {
            match self.try_rvalue() {
                Some(RValue::Range(r)) => Some(r),
                _ => None,
            }
        }
    }
    // operands that are not numbers are not what this is about
    pub fn try_coerce_and_apply(vm: &mut Executor, _: &mut Globals, _: IdentId, _: Value, _: Value, _: &str) -> Option<Value> {
        vm.err = Some(MonorubyErr::Other);
        None
    }
    pub fn try_coerce_and_apply_bit(vm: &mut Executor, _: &mut Globals, _: IdentId, _: Value, _: Value) -> Option<Value> {
        vm.err = Some(MonorubyErr::Other);
        None
    }
    pub fn complex_real_op(vm: &mut Executor, _: &mut Globals, _: IdentId, _: Value, _: Value) -> Option<Value> {
        vm.err = Some(MonorubyErr::Other);
        None
    }
}

mod code {
    use super::shim::*;
    use super::shim::num;
    use crate::v::*;
    use std::ops::{Add, BitAnd, BitOr, BitXor, Deref, Mul, Rem, Shl, Shr, Sub};

    macro_rules! paste {
        ($($t:tt)*) => { $($t)* };
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/num_value.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/num_numeric.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/num_op.rs"));
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/num_binary.rs"));

    fn world() -> (Executor, Globals) {
        (Executor { err: None }, Globals { store: Store })
    }
    fn fits(i: i128) -> bool {
        i >= -(1 << 62) && i < 1 << 62
    }
    /// An Integer of up to 126 bits, in its normal form.
    fn int(i: i128) -> Value {
        Value::bigint(BigInt(i))
    }
    /// The integer `v` stands for; small ones have to be immediate.
    fn of(v: Value, a: u32) -> i128 {
        match v.unpack() {
            RV::Fixnum(i) => i as i128,
            RV::BigInt(b) => {
                check(!fits(b.0), a);
                b.0
            }
            _ => {
                check(false, a);
                0
            }
        }
    }
    fn is(v: Option<Value>, want: i128, a: u32) {
        match v {
            Some(v) => check(of(v, a) == want, a),
            None => check(false, a),
        }
    }
    fn fix() -> i128 {
        ((sym(63) << 1) as i64 >> 1) as i128
    }
    /// Outside the range of immediates, up to 100 bits.
    fn big() -> i128 {
        let i = (((sym(36) << 28) as i64 >> 28) as i128) << 64 | sym(64) as i128;
        assume(!fits(i));
        i
    }
    fn any(k: usize) -> i128 {
        if k == 0 { fix() } else { big() }
    }

    pub fn addsub(k: usize, l: usize) {
        let (mut vm, mut g) = world();
        let (a, b) = (any(k), any(l));
        is(add_values_raw(&mut vm, &mut g, int(a), int(b), false), a.wrapping_add(b), 1);
        is(sub_values_raw(&mut vm, &mut g, int(a), int(b), false), a.wrapping_sub(b), 2);
        is(add_values(&mut vm, &mut g, int(a), int(b), false), a.wrapping_add(b), 3);
        is(sub_values(&mut vm, &mut g, int(a), int(b), true), a.wrapping_sub(b), 4);
        check(vm.err.is_none(), 5);
        cover(1);
    }
    pub fn unary(k: usize) {
        let (mut vm, mut g) = world();
        let a = any(k);
        is(neg_value_raw(&mut vm, &mut g, int(a), false), a.wrapping_neg(), 10);
        is(neg_value(&mut vm, &mut g, int(a), false), a.wrapping_neg(), 10);
        is(pos_value_raw(&mut vm, &mut g, int(a), false), a, 11);
        is(bitnot_value_raw(&mut vm, &mut g, int(a), false), !a, 12);
        is(bitnot_value(&mut vm, &mut g, int(a), false), !a, 12);
        check(not_value_raw(&mut vm, &mut g, int(a), false).map(|v| v.as_bool()) == Some(false), 13);
        let f = sym(64);
        let v = neg_value_raw(&mut vm, &mut g, Value::float(f64::from_bits(f)), false);
        check(v.and_then(|v| v.try_float()).map(|x| x.to_bits()) == Some(f ^ 1 << 63), 14);
        cover(1);
    }
    pub fn bits(k: usize, l: usize) {
        let (mut vm, mut g) = world();
        let (a, b) = (any(k), any(l));
        is(bitand_values(&mut vm, &mut g, int(a), int(b), false), a & b, 20);
        is(bitor_values(&mut vm, &mut g, int(a), int(b), false), a | b, 21);
        is(bitxor_values(&mut vm, &mut g, int(a), int(b), false), a ^ b, 22);
        cover(1);
    }
    pub const K: [i128; 16] =
        [0, 1, -1, 2, -2, 3, -3, 10, -10, 1 << 31, -(1 << 31), 1 << 61, (1 << 62) - 1, -(1 << 62), 1 << 62, -(1 << 62) - 1];
    pub fn mul(k: usize, i: usize) {
        let (mut vm, mut g) = world();
        let b = K[i];
        let a = if k == 0 { fix() } else { (((sym(8) << 56) as i64 >> 56) as i128) << 56 | (sym(4) as i128) };
        is(mul_values_raw(&mut vm, &mut g, int(a), int(b), false), a.wrapping_mul(b), 30);
        is(mul_values(&mut vm, &mut g, int(b), int(a), false), a.wrapping_mul(b), 31);
        check(vm.err.is_none(), 32);
        cover(1);
    }
    pub fn mul_small(n: u32) {
        let (mut vm, mut g) = world();
        let (a, b) = (sym(n) as i128 - (1 << (n - 1)), sym(n) as i128 - (1 << (n - 1)));
        let s = pick(4) * 18;
        let (a, b) = (a << s, b << s.min(54));
        is(mul_values_raw(&mut vm, &mut g, int(a), int(b), false), a.wrapping_mul(b), 33);
        cover(1);
    }
    /// q*b + r == a with r between 0 and b.
    fn euclid(a: i128, b: i128, q: i128, r: i128, n: u32) {
        check(q.wrapping_mul(b).wrapping_add(r) == a, n);
        check(if b > 0 { r >= 0 && r < b } else { r <= 0 && r > b }, n + 1);
    }
    fn divide(a: i128, b: i128) {
        let (mut vm, mut g) = world();
        let q = div_values_raw(&mut vm, &mut g, int(a), int(b), false);
        let r = rem_values_raw(&mut vm, &mut g, int(a), int(b), false);
        if b == 0 {
            check(q.is_none() && r.is_none() && vm.err == Some(MonorubyErr::ZeroDiv), 40);
            return;
        }
        check(q.is_some() && r.is_some() && vm.err.is_none(), 41);
        let (q, r) = (of(q.unwrap(), 42), of(r.unwrap(), 43));
        euclid(a, b, q, r, 44);
        match (RealKind::try_from(int(a)), RealKind::try_from(int(b))) {
            (Some(x), Some(y)) => {
                let (d, m) = x.ruby_div_mod(&y);
                check(of(d.into(), 46) == q && of(m.into(), 46) == r, 46);
            }
            _ => check(false, 47),
        }
        cover(1);
    }
    /// Any dividend, a fixed divisor; for those that are no power of two dividends around the powers of two.
    pub fn div(i: usize) {
        let b = K[i];
        if b == 0 || b.unsigned_abs().is_power_of_two() {
            divide(fix(), b);
        } else {
            let a = ([0, 1 << 31, 1 << 61, (1 << 62) - 16, -(1 << 62)][pick(5)] + sym(5) as i64 - 16) as i128;
            assume(fits(a));
            divide(a, b);
        }
    }
    /// Both small.
    pub fn div_small(n: u32) {
        let b = sym(n) as i128 - (1 << (n - 1));
        assume(b != 0);
        divide(sym(n) as i128 - (1 << (n - 1)), b);
    }
    pub fn div_big() {
        let b = [3, -3, 1 << 62, -(1 << 62), (1 << 62) + 1, 1 << 64, -(1 << 64), -(1i128 << 70) + 1][pick(8)];
        let h = pick(6) as i128 - 3;
        divide(h << 62 | (sym(3) as i128), b);
    }
    pub fn shift(k: usize) {
        let (mut vm, mut g) = world();
        let a = if k == 0 { fix() } else { (((sym(6) << 58) as i64 >> 58) as i128) << 62 | sym(62) as i128 };
        let n = pick(14) as i128;
        // around the word sizes
        let n = [0, 1, 2, 31, 32, 33, 47, 55, -1, -31, -61, -63, -64, -65][n as usize];
        let want = |n: i128| if n >= 0 { a << n } else { a >> -n };
        is(shl_values_raw(&mut vm, &mut g, int(a), int(n), false), want(n), 50);
        is(shr_values_raw(&mut vm, &mut g, int(a), int(-n), false), want(n), 51);
        is(shl_values(&mut vm, &mut g, int(a), int(n), false), want(n), 52);
        is(shr_values(&mut vm, &mut g, int(a), int(-n), false), want(n), 53);
        check(vm.err.is_none(), 54);
        cover(1);
    }
    /// Left shifts of small numbers that are about to leave the word.
    pub fn shift_edge() {
        let (mut vm, mut g) = world();
        let a = sym(4) as i128 - 8;
        let n = pick(10) as i128 + 57;
        is(shl_values_raw(&mut vm, &mut g, int(a), int(n), false), a << n, 55);
        is(shr_values_raw(&mut vm, &mut g, int(a), int(-n), false), a << n, 56);
        cover(1);
    }
    /// Shifts by any larger amount: nothing is left to the right, too big to the left.
    pub fn shift_far(k: usize, l: usize) {
        let (mut vm, mut g) = world();
        let a = any(k);
        let n = any(l);
        assume(n > u32::MAX as i128 || n < -(u32::MAX as i128));
        let r = if sym_bool() {
            shl_values_raw(&mut vm, &mut g, int(a), int(n), false)
        } else {
            shr_values_raw(&mut vm, &mut g, int(a), int(-n), false)
        };
        if a == 0 {
            is(r, 0, 57);
        } else if n < 0 {
            is(r, if a < 0 { -1 } else { 0 }, 58);
        } else {
            check(r.is_none() && vm.err == Some(MonorubyErr::Range), 59);
        }
        cover(1);
    }
    pub fn compare(k: usize, l: usize) {
        let (mut vm, mut g) = world();
        let (a, b) = (any(k), any(l));
        let t = |v: Option<Value>| v.map(|v| v.id());
        let b_ = |x: bool| Some(Value::bool(x).id());
        check(t(cmp_ge_values_raw(&mut vm, &mut g, int(a), int(b), false)) == b_(a >= b), 60);
        check(t(cmp_gt_values_raw(&mut vm, &mut g, int(a), int(b), false)) == b_(a > b), 61);
        check(t(cmp_le_values_raw(&mut vm, &mut g, int(a), int(b), false)) == b_(a <= b), 62);
        check(t(cmp_lt_values_raw(&mut vm, &mut g, int(a), int(b), false)) == b_(a < b), 63);
        check(t(cmp_eq_values(&mut vm, &mut g, int(a), int(b), false)) == b_(a == b), 64);
        check(t(cmp_ne_values(&mut vm, &mut g, int(a), int(b), false)) == b_(a != b), 65);
        check(vm.compare_values_inner(&mut g, int(a), int(b)) == Ok(Some(a.cmp(&b))), 66);
        check(t(cmp_ge_values(&mut vm, &mut g, int(a), int(b), false)) == b_(a >= b), 67);
        check(t(cmp_lt_values(&mut vm, &mut g, int(a), int(b), false)) == b_(a < b), 68);
        cover(1);
    }
    /// Whole numbers against floats: `e` the exponent of the float.
    pub fn compare_float(e: i32, k: usize) {
        let (mut vm, mut g) = world();
        let f = sym(3) << 49 | sym(2);
        let neg = sym_bool();
        let x = f64::from_bits((neg as u64) << 63 | ((e + 1023) as u64) << 52 | f);
        // four times the number, exactly
        let m = (f | 1 << 52) as i128;
        let q = if e >= 50 { m << (e - 50) } else { m >> (50 - e) | (e < 50 && m & ((1 << (50 - e)) - 1) != 0) as i128 };
        let q = if neg { -q } else { q };
        // an integer near it, or any
        let a = if k == 0 {
            (q >> 2) + sym(3) as i128 - 4
        } else if k == 1 {
            fix()
        } else {
            big()
        };
        let big = !fits(a);
        // Fixnum with Float goes through f64
        assume(big || a.unsigned_abs() <= 1 << 53);
        let o = (4 * a).cmp(&q);
        let (v, w) = (int(a), Value::float(x));
        let t = |v: Option<Value>| v.map(|v| v.as_bool());
        check(t(cmp_lt_values_raw(&mut vm, &mut g, v, w, false)) == Some(o.is_lt()), 70);
        check(t(cmp_ge_values_raw(&mut vm, &mut g, v, w, false)) == Some(o.is_ge()), 71);
        check(t(cmp_le_values_raw(&mut vm, &mut g, w, v, false)) == Some(o.is_ge()), 72);
        check(t(cmp_gt_values_raw(&mut vm, &mut g, w, v, false)) == Some(o.is_lt()), 73);
        check(t(cmp_eq_values(&mut vm, &mut g, v, w, false)) == Some(o.is_eq()), 74);
        check(t(cmp_ne_values(&mut vm, &mut g, w, v, false)) == Some(!o.is_eq()), 75);
        check(vm.compare_values_inner(&mut g, v, w) == Ok(Some(o)), 76);
        check(vm.compare_values_inner(&mut g, w, v) == Ok(Some(o.reverse())), 77);
        cover(1);
    }
    /// The same where a Fixnum is too big for a float to hold.
    pub fn compare_float_known() {
        let (mut vm, mut g) = world();
        let a = (1 << 53) + sym(2) as i128;
        let x = (1u64 << 53) as f64;
        check(cmp_eq_values(&mut vm, &mut g, int(a), Value::float(x), false).map(|v| v.as_bool()) == Some(a == 1 << 53), 78);
        cover(1);
    }
    pub fn compare_special() {
        let (mut vm, mut g) = world();
        let a = any(pick(2));
        let nan = pick(2) == 0;
        let neg = sym_bool();
        let x = if nan { f64::NAN } else if neg { f64::NEG_INFINITY } else { f64::INFINITY };
        let (v, w) = (int(a), Value::float(x));
        let t = |v: Option<Value>| v.map(|v| v.as_bool());
        check(t(cmp_lt_values_raw(&mut vm, &mut g, v, w, false)) == Some(!nan && !neg), 80);
        check(t(cmp_ge_values_raw(&mut vm, &mut g, v, w, false)) == Some(!nan && neg), 81);
        check(t(cmp_lt_values_raw(&mut vm, &mut g, w, v, false)) == Some(!nan && neg), 82);
        check(t(cmp_eq_values(&mut vm, &mut g, v, w, false)) == Some(false), 83);
        check(t(cmp_ne_values(&mut vm, &mut g, w, v, false)) == Some(true), 84);
        let o = if nan { None } else { Some(if neg { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }) };
        check(vm.compare_values_inner(&mut g, v, w) == Ok(o), 85);
        cover(1);
    }
    pub fn index(k: usize, l: usize) {
        let (mut vm, mut g) = world();
        let a = any(k);
        let n = any(l);
        let r = integer_index1(&mut vm, &mut g, int(a), int(n));
        let want = if n < 0 { 0 } else { a >> n.min(127) & 1 };
        match r {
            Ok(v) => check(of(v, 90) == want, 90),
            Err(_) => check(false, 90),
        }
        cover(1);
    }
    pub fn bitrange(k: usize) {
        let (mut vm, mut g) = world();
        let a = if k == 0 { fix() } else { (((sym(6) << 58) as i64 >> 58) as i128) << 62 | sym(62) as i128 };
        let s = [0, 1, 31, 62, 63, 64, 65, 100, -1, -32, -59][pick(11)] as i64;
        let w = [0, 1, 2, 31, 32, 60, 61, 62, 63, 64, 65][pick(11)] as i64;
        let x = sym_bool();
        let e = if x { s + w } else { s + w - 1 };
        let want = if s >= 0 { a >> s } else { a << -s };
        // an empty range is taken from its start on
        let want = if e < s { want } else { want & (1i128 << w).wrapping_sub(1) };
        let r = RValue::Range(RangeInner { a: Value::integer(s), b: Value::integer(e), x }).pack();
        match integer_index1(&mut vm, &mut g, int(a), r) {
            Ok(v) => check(of(v, 91) == want, 91),
            Err(_) => check(false, 91),
        }
        cover(1);
    }
    pub fn bitrange_open(k: usize) {
        let (mut vm, mut g) = world();
        let a = if k == 0 { fix() } else { (((sym(6) << 58) as i64 >> 58) as i128) << 62 | sym(62) as i128 };
        let s = [0, 1, 31, 62, 63, 64, 65, 100, -1, -32, -59][pick(11)] as i64;
        if sym_bool() {
            let r = RValue::Range(RangeInner { a: Value::integer(s), b: Value::nil(), x: sym_bool() }).pack();
            match integer_index1(&mut vm, &mut g, int(a), r) {
                Ok(v) => check(of(v, 92) == if s >= 0 { a >> s } else { a << -s }, 92),
                Err(_) => check(false, 92),
            }
            cover(1);
        } else {
            let x = sym_bool();
            let r = RValue::Range(RangeInner { a: Value::nil(), b: Value::integer(s), x }).pack();
            let n = if x { s } else { s + 1 };
            let zero = n <= 0 || a & (1i128 << n).wrapping_sub(1) == 0;
            match integer_index1(&mut vm, &mut g, int(a), r) {
                Ok(v) => check(zero && of(v, 93) == 0, 93),
                Err(_) => check(!zero, 93),
            }
            cover(2);
        }
    }
    pub fn pow(n: u32) {
        let (mut vm, mut g) = world();
        let a = sym(n) as i128 - (1 << (n - 1));
        let e = pick(9) as i128;
        let mut want = 1;
        for _ in 0..e {
            want = i128::wrapping_mul(want, a);
        }
        is(pow_values_raw(&mut vm, &mut g, int(a), int(e), false), want, 95);
        check(vm.err.is_none(), 96);
        cover(1);
    }
    /// Powers of 0, 1 and -1 with any exponent.
    pub fn pow_unit(l: usize) {
        let (mut vm, mut g) = world();
        // an exponent of a fixnum has to fit 32 bits
        let e = if l == 1 { big() } else { ([-8, (1 << 31) - 8, -(1 << 31) + 1][pick(3)] + sym(3) as i64) as i128 };
        let b = pick(3) as i128 - 1;
        let r = pow_values_raw(&mut vm, &mut g, int(b), int(e), false);
        if b == 0 && e < 0 {
            check(r.is_none() && vm.err == Some(MonorubyErr::ZeroDiv), 97);
        } else {
            is(r, if e == 0 { 1 } else if b == 0 { 0 } else if b == 1 || e & 1 == 0 { 1 } else { -1 }, 98);
        }
        cover(1);
    }
}
use code::*;

entries! {
    n02_add_ff => addsub(0, 0);
    n02_add_fb => addsub(0, 1);
    n02_add_bf => addsub(1, 0);
    n02_add_bb => addsub(1, 1);
    n02_neg_f => unary(0);
    n02_neg_b => unary(1);
    n02_bits_ff => bits(0, 0);
    n02_bits_fb => bits(0, 1);
    n02_bits_bf => bits(1, 0);
    n02_bits_bb => bits(1, 1);
    n02_mul => mul(0, pick(16));
    n02_mul_big => mul(1, pick(16));
    n02_mul_small => mul_small(6);
    n02_div_1 => div(pick(7));
    n02_div_2 => div(7 + pick(4));
    n02_div_3 => div(11 + pick(5));
    n02_div_small => div_small(5);
    n02_div_big => div_big();
    n02_shift_f => shift(0);
    n02_shift_b => shift(1);
    n02_shift_edge => shift_edge();
    n02_shift_far_ff => shift_far(0, 0);
    n02_shift_far_fb => shift_far(0, 1);
    n02_shift_far_bf => shift_far(1, 0);
    n02_shift_far_bb => shift_far(1, 1);
    n02_cmp_ff => compare(0, 0);
    n02_cmp_fb => compare(0, 1);
    n02_cmp_bf => compare(1, 0);
    n02_cmp_bb => compare(1, 1);
    n02_cmpf_near => compare_float([-1, 0, 1, 20, 52, 53, 62, 63, 70][pick(9)], 0);
    n02_cmpf_fix => compare_float([-1, 0, 1, 20, 52, 53, 62, 63, 70][pick(9)], 1);
    n02_cmpf_big => compare_float([0, 52, 62, 63, 70, 110][pick(6)], 2);
    n02_cmpf_known => compare_float_known();
    n02_cmpf_special => compare_special();
    n02_index_ff => index(0, 0);
    n02_index_fb => index(0, 1);
    n02_index_bf => index(1, 0);
    n02_index_bb => index(1, 1);
    n02_range_f => bitrange(0);
    n02_range_b => bitrange(1);
    n02_open_f => bitrange_open(0);
    n02_open_b => bitrange_open(1);
    n02_pow => pow(4);
    n02_pow_unit_f => pow_unit(0);
    n02_pow_unit_b => pow_unit(1);
}

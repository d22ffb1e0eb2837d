//! N01: the tagged 64-bit representation of immediate values (monoruby/src/value.rs).
#![allow(unpredictable_function_pointer_comparisons)]
use crate::v::*;

mod shim {
    use super::code::{RV, Value};
    include!("numshim.rs");
    #[derive(Clone, Copy, PartialEq)]
    pub struct Real;
    impl From<f64> for Real {
        fn from(_: f64) -> Real {
            Real
        }
    }
}

mod code {
    use super::shim::*;
    use super::shim::num;
    use crate::v::*;
    use std::cmp::Ordering;
    use std::ops::Deref;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/value.rs"));

    #[derive(Clone, Copy, PartialEq)]
    enum K {
        Nil,
        T,
        F,
        Sym,
        Int,
        Flt,
        Other,
    }
    fn kind(v: Value) -> K {
        match v.unpack() {
            RV::Nil => K::Nil,
            RV::Bool(true) => K::T,
            RV::Bool(false) => K::F,
            RV::Symbol(_) => K::Sym,
            RV::Fixnum(_) | RV::BigInt(_) => K::Int,
            RV::Float(_) => K::Flt,
            _ => K::Other,
        }
    }
    /// All the questions one can ask of a value give the answers for its kind.
    fn consistent(v: Value, k: K) {
        check(kind(v) == k, 1);
        check(v.is_nil() == (k == K::Nil), 2);
        check(v.as_bool() == (k != K::Nil && k != K::F), 3);
        check(v.try_symbol().is_some() == (k == K::Sym), 4);
        check(v.try_float().is_some() == (k == K::Flt), 5);
        check(v.is_integer() == (k == K::Int), 6);
        check(v.is_float() == (k == K::Flt), 7);
        check(!v.is_fixnum() || k == K::Int, 8);
        let c = match k {
            K::Nil => NIL_CLASS,
            K::T => TRUE_CLASS,
            K::F => FALSE_CLASS,
            K::Sym => SYMBOL_CLASS,
            K::Int => INTEGER_CLASS,
            K::Flt => FLOAT_CLASS,
            K::Other => OBJECT_CLASS,
        };
        check(v.class() == c, 9);
        check(v.class_for_ic() == if k == K::T || k == K::F { BOOL_CLASS } else { c }, 10);
        match v.is_immediate() {
            Some(i) => {
                check(v.is_packed_value() && i.id() == v.id(), 11);
                check(Value::from(i) == v, 11);
            }
            None => check(!v.is_packed_value() && v.try_rvalue().is_some(), 12),
        }
    }
    fn int_of(v: Value) -> Option<i128> {
        match v.unpack() {
            RV::Fixnum(i) => Some(i as i128),
            RV::BigInt(b) => Some(b.0),
            _ => None,
        }
    }
    fn fits(i: i128) -> bool {
        i >= -(1 << 62) && i < 1 << 62
    }

    pub fn int() {
        let i = sym(64) as i64;
        let v = Value::integer(i);
        consistent(v, K::Int);
        check(int_of(v) == Some(i as i128), 20);
        // equal integers are the same word exactly if they are small
        check(v.is_fixnum() == fits(i as i128), 21);
        check(v.try_fixnum() == fits(i as i128).then_some(i), 22);
        if fits(i as i128) {
            // the word the generated code computes with
            check(v.id() == (i as u64) << 1 | 1, 23);
            let m = v.is_immediate().unwrap();
            check(m.try_fixnum().map(|f| f.get()) == Some(i), 24);
            cover(2);
        }
        check(Value::check_fixnum(i).map(|x| x.id()) == fits(i as i128).then_some(v.id()), 25);
        check(Immediate::check_fixnum(i).map(|x| x.id()) == fits(i as i128).then_some(v.id()), 26);
        let w = Value::i32(i as i32);
        check(w.try_fixnum() == Some(i as i32 as i64), 27);
        check(Value::from_hash_digest(i as u64).is_fixnum(), 28);
        cover(1);
    }

    pub fn wide() {
        let u = sym(64);
        let v = Value::integer_from_u64(u);
        consistent(v, K::Int);
        check(int_of(v) == Some(u as i128), 30);
        check(v.is_fixnum() == fits(u as i128), 31);
        cover(1);
        let b = (sym(64) as i64 as i128) << 64 | sym(64) as i128;
        let v = Value::bigint(BigInt(b));
        consistent(v, K::Int);
        check(int_of(v) == Some(b), 32);
        check(v.is_fixnum() == fits(b), 33);
        cover(2);
    }

    /// Every float, bit for bit: zero of both signs, subnormals, infinities and any NaN.
    pub fn float() {
        let b = sym(64);
        let v = Value::float(f64::from_bits(b));
        consistent(v, K::Flt);
        check(v.try_float().map(|f| f.to_bits()) == Some(b), 40);
        match v.unpack() {
            RV::Float(f) => check(f.to_bits() == b, 41),
            _ => check(false, 41),
        }
        check(v.try_fixnum().is_none(), 42);
        match Value::flonum(f64::from_bits(b)) {
            Some(x) => {
                check(x == v && x.is_packed_value(), 43);
                let m = x.is_immediate().unwrap();
                check(m.try_flonum().map(|f| f.get().to_bits()) == Some(b), 44);
                cover(2);
            }
            None => {
                check(!v.is_packed_value(), 45);
                cover(3);
            }
        }
        let h = Value::float_heap(f64::from_bits(b));
        consistent(h, K::Flt);
        check(h.try_float().map(|f| f.to_bits()) == Some(b), 46);
        cover(1);
    }

    pub fn symbol() {
        let n = sym(32) as u32;
        let v = Value::symbol(IdentId(n));
        consistent(v, K::Sym);
        check(v.try_symbol() == Some(IdentId(n)), 50);
        check(v.as_symbol() == IdentId(n), 51);
        check(Immediate::symbol(IdentId(n)).id() == v.id(), 52);
        cover(1);
    }

    pub fn consts() {
        consistent(Value::nil(), K::Nil);
        consistent(Value::bool(true), K::T);
        consistent(Value::bool(false), K::F);
        consistent(Value::default(), K::Nil);
        consistent(RValue::Other.pack(), K::Other);
        let n = sym(8) as i64;
        for o in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
            let v = Value::from_ord(o);
            check(v.try_fixnum() == Some(o as i64), 60);
            check(Value::ord_from(v) == Some(o), 61);
        }
        check(Value::ord_from(Value::integer(n - 128)) == Some((n - 128).cmp(&0)), 62);
        check(Value::ord_from(Value::nil()).is_none(), 63);
        cover(1);
    }

    /// No two different immediates share a word.
    pub fn apart() {
        let mk = |k: usize, x: u64| match k {
            0 => Value::nil(),
            1 => Value::bool(true),
            2 => Value::bool(false),
            3 => Value::symbol(IdentId(x as u32)),
            4 => Value::integer(x as i64),
            _ => Value::float(f64::from_bits(x)),
        };
        let (k, l) = (pick(6), pick(6));
        assume(k <= l);
        let (x, y) = (sym(64), sym(64));
        let (v, w) = (mk(k, x), mk(l, y));
        assume(v.is_packed_value() && w.is_packed_value());
        let same = k == l
            && match k {
                0 | 1 | 2 => true,
                3 => x as u32 == y as u32,
                _ => x == y,
            };
        check((v.id() == w.id()) == same, 70);
        check((v == w) == same, 71);
        cover(1);
    }

    /// Rounding a float to an integer, ties away from zero; `e` the exponent, with the leading and
    /// trailing bits of the fraction unknown.
    pub fn round(e: i32) {
        let f = sym(10) << 42 | sym(4);
        let neg = sym_bool();
        let b = (neg as u64) << 63 | ((e + 1023) as u64) << 52 | f;
        let v = Value::integer_from_f64(f64::from_bits(b));
        if e == 1024 {
            check(v.is_none(), 80);
        } else {
            let m = (f | 1 << 52) as i128;
            let sh = 52 - e;
            let r = if sh <= 0 {
                m << -sh
            } else if sh > 60 {
                0
            } else {
                (m + (1 << (sh - 1))) >> sh
            };
            let r = if neg { -r } else { r };
            check(v.is_some(), 81);
            check(int_of(v.unwrap()) == Some(r), 82);
            check(v.unwrap().is_fixnum() == fits(r), 83);
        }
        cover(1);
    }
}

entries! {
    n01_int => code::int();
    n01_wide => code::wide();
    n01_float => code::float();
    n01_symbol => code::symbol();
    n01_consts => code::consts();
    n01_apart => code::apart();
    n01_round_small => code::round([-1023, -52, -2, -1][pick(4) as usize]);
    n01_round_mid => code::round([0, 1, 5, 30][pick(4) as usize]);
    n01_round_big => code::round([49, 50, 51, 52, 53][pick(5) as usize]);
    n01_round_huge => code::round([60, 61, 62, 63, 70, 1024][pick(6) as usize]);
}

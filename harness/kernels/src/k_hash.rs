//! U01, K01: Ruby's Hash object (monoruby/src/value/rvalue/hash.rs) over the real rubymap, with the
//! `hash`/`eql?` of values (monoruby/src/value.rs, array.rs, range.rs) and the builtin methods that
//! only pass on to it, against a list of slots kept by the harness.
//!
//! The heap cell, the virtual machine and the hasher are stand-ins: objects of seven kinds, user
//! objects whose `hash` and `eql?` are answered (or refused) by the harness.
#![allow(static_mut_refs)]
use crate::v::*;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum MonorubyErr {
    Runtime,
    Frozen,
    /// raised by a user's `hash` or `eql?`
    User,
}
impl MonorubyErr {
    pub fn runtimeerr(_: impl ToString) -> MonorubyErr {
        MonorubyErr::Runtime
    }
}

pub struct Store;
impl Store {
    pub fn has_builtin_container_hash(&self, _: value::Value, _: value::rvalue::ObjTy) -> bool {
        true
    }
    pub fn has_builtin_identity_hash(&self, v: value::Value) -> bool {
        v.rv().plain
    }
}
pub struct Globals {
    pub store: Store,
}
#[derive(PartialEq)]
pub struct IdentId(u8);
impl IdentId {
    pub const HASH: IdentId = IdentId(0);
    pub const EQL_: IdentId = IdentId(1);
}
/// Answers `hash` and `eql?` of user objects; refuses one call when told so.
pub struct Executor {
    pub hashes: u32,
    pub refuse: bool,
}
impl Executor {
    pub fn invoke_method_inner(
        &mut self,
        _: &mut Globals,
        m: IdentId,
        recv: value::Value,
        args: &[value::Value],
        _: Option<()>,
        _: Option<()>,
    ) -> Result<value::Value> {
        if m == IdentId::HASH {
            self.hashes += 1;
        }
        if self.refuse {
            return Err(MonorubyErr::User);
        }
        let r = recv.rv();
        Ok(if m == IdentId::HASH {
            value::Value::fixnum(r.code as i64)
        } else {
            let o = args[0].rv();
            value::Value::bool(r.ty == o.ty && r.code == o.code && !r.plain && !o.plain)
        })
    }
    pub fn invoke_block_once(&mut self, _: &mut Globals, _: (), _: &[value::Value]) -> Result<value::Value> {
        unreachable!()
    }
    pub fn invoke_proc(&mut self, _: &mut Globals, p: &value::rvalue::Proc, args: &[value::Value]) -> Result<value::Value> {
        check(args.len() == 2, 90);
        Ok(value::Value::from(*p))
    }
}

/// A `BuildHasher` whose digest is cheap for the solver and depends on all that is written, in order.
#[derive(Clone, Copy, Default, Debug)]
pub struct Bh;
#[derive(Clone, Copy, Debug)]
pub struct Hs(u64);
impl std::hash::Hasher for Hs {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = self.0.rotate_left(7) ^ x;
    }
    fn write_i64(&mut self, x: i64) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
impl std::hash::BuildHasher for Bh {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(0)
    }
}
pub type RubyMap<K, V> = rubymap::RubyMap<K, V, Executor, Globals, MonorubyErr, Bh>;

/// Marks nothing, remembers what it was asked to mark.
pub mod alloc {
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    pub struct Allocator<T>(pub Vec<u64>, pub std::marker::PhantomData<T>);
    impl Allocator<super::value::rvalue::RValue> {
        pub fn is_old(&self, r: &super::value::rvalue::RValue) -> bool {
            r.old
        }
    }
}

pub mod value {
    use super::*;
    use rubymap::{RubyEql, RubyHash};
    use rvalue::*;
    use std::hash::{Hash, Hasher};

    /// As in the interpreter: fixnums have bit 0 set, floats bit 1, the rest of the immediates bit 2;
    /// everything else is the address of a cell.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(transparent)]
    pub struct Value(std::num::NonZeroU64);
    impl Default for Value {
        fn default() -> Value {
            Value::nil()
        }
    }
    pub enum RV<'a> {
        Fixnum(i64),
        BigInt(&'a i128),
        Float(f64),
        Other,
    }
    fn nz(x: u64) -> std::num::NonZeroU64 {
        unsafe { std::num::NonZeroU64::new_unchecked(x) }
    }
    pub const FLOAT_ZERO: u64 = 0x8000_0000_0000_0002;
    impl Value {
        pub fn nil() -> Value {
            Value(nz(4))
        }
        pub fn bool(b: bool) -> Value {
            Value(nz(if b { 0x1c } else { 0x14 }))
        }
        pub fn symbol(x: u64) -> Value {
            Value(nz(x << 8 | 0x0c))
        }
        pub fn fixnum(i: i64) -> Value {
            Value(nz((i as u64) << 1 | 1))
        }
        pub fn integer(i: i64) -> Value {
            Value::fixnum(i)
        }
        /// The bits below the sign of a float that fits.
        pub fn flonum(x: u64) -> Value {
            Value(nz(x << 2 | 2))
        }
        pub fn from_ptr(p: *mut RValue) -> Value {
            Value(nz(p as u64))
        }
        pub fn id(self) -> u64 {
            self.0.get()
        }
        pub fn is_nil(&self) -> bool {
            self.id() == 4
        }
        pub fn as_bool(&self) -> bool {
            self.id() != 4 && self.id() != 0x14
        }
        pub fn is_packed_value(&self) -> bool {
            self.id() & 7 != 0
        }
        pub fn try_rvalue(&self) -> Option<&RValue> {
            if self.is_packed_value() { None } else { Some(unsafe { &*(self.id() as *const RValue) }) }
        }
        pub fn rv(self) -> &'static mut RValue {
            unsafe { &mut *(self.id() as *mut RValue) }
        }
        pub fn ty(&self) -> Option<ObjTy> {
            self.try_rvalue().map(|r| r.ty())
        }
        pub fn unpack(&self) -> RV<'_> {
            let x = self.id();
            if x & 1 != 0 {
                RV::Fixnum(x as i64 >> 1)
            } else if x & 3 == 2 {
                RV::Float(if x == FLOAT_ZERO { 0.0 } else { f64::from_bits(x >> 2 | 1 << 62) })
            } else {
                match self.try_rvalue() {
                    Some(r) if r.ty == ObjTy::BIGNUM => RV::BigInt(r.as_bignum()),
                    _ => RV::Other,
                }
            }
        }
        pub fn coerce_to_int_i64(self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            Err(MonorubyErr::User)
        }
        pub fn coerce_to_i64(self, _: &Globals) -> Result<i64> {
            match self.unpack() {
                RV::Fixnum(i) => Ok(i),
                _ => Err(MonorubyErr::User),
            }
        }
        pub fn is_rstring_inner(&self) -> Option<&RStringInner> {
            match self.try_rvalue() {
                Some(r) if r.ty == ObjTy::STRING => Some(r.as_rstring()),
                _ => None,
            }
        }
        pub fn as_hashmap_inner(&self) -> hash::HashRef<'_> {
            unsafe { self.rv().as_hashmap() }
        }
        pub fn as_hashmap_inner_mut(&mut self) -> hash::HashRefMut<'_> {
            unsafe { self.rv().as_hashmap_mut() }
        }
        pub fn as_hash(self) -> hash::Hashmap {
            hash::Hashmap::new(self)
        }
        pub fn as_hash_mut(self, _: &Store) -> Result<hash::Hashmap> {
            self.ensure_not_frozen(&Store)?;
            Ok(self.as_hash())
        }
        pub fn coerce_to_hash(self, _: &mut Executor, _: &mut Globals) -> Result<hash::Hashmap> {
            Ok(self.as_hash())
        }
        pub fn ensure_not_frozen(self, _: &Store) -> Result<()> {
            if self.rv().frozen { Err(MonorubyErr::Frozen) } else { Ok(()) }
        }
        pub fn frozen_hash_key(self) -> Value {
            self
        }
        pub fn hash_from_inner(h: hash::HashmapInner) -> Value {
            new_hash(h)
        }
        pub fn hash_with_capacity(n: usize) -> Value {
            new_hash(hash::HashmapInner::with_capacity(n))
        }
        pub fn array2(a: Value, b: Value) -> Value {
            new_array(vec![a, b])
        }
        pub fn array_from_vec(v: Vec<Value>) -> Value {
            new_array(v)
        }
        pub fn array_from_iter(i: impl Iterator<Item = Value>) -> Value {
            new_array(i.collect())
        }
        pub fn write_barrier(&mut self, v: Value) {
            if v.try_rvalue().is_some_and(|r| !r.old) {
                self.rv().remembered = true
            }
        }
        pub fn write_barrier_bulk(&mut self) {
            self.rv().remembered = true
        }
    }
    impl super::alloc::GC<RValue> for Value {
        fn mark(&self, a: &mut super::alloc::Allocator<RValue>) {
            a.0.push(self.id())
        }
    }

    pub struct Local<T>(std::cell::RefCell<T>);
    unsafe impl<T> Sync for Local<T> {}
    impl<T> Local<T> {
        pub fn with<R>(&self, f: impl FnOnce(&std::cell::RefCell<T>) -> R) -> R {
            f(&self.0)
        }
    }
    pub struct Seen<T>(Vec<T>);
    impl<T: PartialEq> Seen<T> {
        pub fn insert(&mut self, x: T) -> bool {
            if self.0.contains(&x) {
                return false;
            }
            self.0.push(x);
            true
        }
        pub fn remove(&mut self, x: &T) -> bool {
            match self.0.iter().position(|y| y == x) {
                Some(i) => {
                    self.0.swap_remove(i);
                    true
                }
                None => false,
            }
        }
    }
    pub static HASH_RECURSION_GUARD: Local<Seen<u64>> = Local(std::cell::RefCell::new(Seen(Vec::new())));
    pub static COMPARE_RECURSION_GUARD: Local<Seen<(u64, u64)>> = Local(std::cell::RefCell::new(Seen(Vec::new())));
    pub static OUTER_RECURSION_HIT: Local<bool> = Local(std::cell::RefCell::new(false));
    pub fn guards_clear() -> bool {
        HASH_RECURSION_GUARD.with(|g| g.borrow().0.is_empty()) && COMPARE_RECURSION_GUARD.with(|g| g.borrow().0.is_empty())
    }
    pub fn seeded_hasher() -> Hs {
        Hs(0x5eed)
    }

    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/hash_value.rs"));

    pub mod rvalue {
        use super::*;
        use super::super::alloc::{self, Allocator, GC};

        use std::mem::ManuallyDrop;
        use std::ptr::NonNull;

        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        pub enum ObjTy {
            OBJECT,
            BIGNUM,
            FLOAT,
            STRING,
            ARRAY,
            HASH,
            RANGE,
            COMPLEX,
        }
        pub const RVALUE_OFFSET_KIND: usize = std::mem::offset_of!(RValue, kind);

        pub union ObjKind {
            pub hash: ManuallyDrop<hash::HashBody>,
            pub other: (),
        }
        #[repr(align(8))]
        pub struct RValue {
            pub ty: ObjTy,
            pub flags: u8,
            pub frozen: bool,
            pub plain: bool,
            pub old: bool,
            pub remembered: bool,
            /// what a user object answers to `hash`, and what makes it `eql?` to another
            pub code: u64,
            pub big: i128,
            pub float: f64,
            pub string: RStringInner,
            pub array: ArrayInner,
            pub range: RangeInner,
            pub kind: ObjKind,
        }
        #[derive(Clone, PartialEq, Debug)]
        pub struct RStringInner(pub u64);
        impl std::hash::Hash for RStringInner {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                h.write_u64(self.0)
            }
        }
        pub struct ArrayInner(pub Vec<Value>);
        impl std::ops::Deref for ArrayInner {
            type Target = [Value];
            fn deref(&self) -> &[Value] {
                &self.0
            }
        }
        pub struct RangeInner {
            start: Value,
            end: Value,
            exclude_end: bool,
        }
        impl RangeInner {
            pub fn exclude_end(&self) -> bool {
                self.exclude_end
            }
        }
        #[derive(Clone, Copy, Debug)]
        #[repr(transparent)]
        pub struct Proc(pub Value);
        impl From<Proc> for Value {
            fn from(p: Proc) -> Value {
                p.0
            }
        }
        impl GC<RValue> for Proc {
            fn mark(&self, a: &mut Allocator<RValue>) {
                self.0.mark(a)
            }
        }

        fn cell(ty: ObjTy) -> RValue {
            RValue {
                ty,
                flags: 0,
                frozen: false,
                plain: false,
                old: false,
                remembered: false,
                code: 0,
                big: 0,
                float: 0.,
                string: RStringInner(0),
                array: ArrayInner(vec![]),
                range: RangeInner { start: Value::nil(), end: Value::nil(), exclude_end: false },
                kind: ObjKind { other: () },
            }
        }
        fn make(r: RValue) -> Value {
            Value::from_ptr(Box::into_raw(Box::new(r)))
        }
        pub fn new_hash(h: hash::HashmapInner) -> Value {
            let (flags, body) = h.into_parts();
            make(RValue { flags, kind: ObjKind { hash: ManuallyDrop::new(body) }, ..cell(ObjTy::HASH) })
        }
        pub fn new_array(v: Vec<Value>) -> Value {
            make(RValue { array: ArrayInner(v), ..cell(ObjTy::ARRAY) })
        }
        pub fn new_string(x: u64) -> Value {
            make(RValue { string: RStringInner(x), ..cell(ObjTy::STRING) })
        }
        pub fn new_user(code: u64) -> Value {
            make(RValue { code, ..cell(ObjTy::OBJECT) })
        }
        pub fn new_plain() -> Value {
            make(RValue { plain: true, ..cell(ObjTy::OBJECT) })
        }
        pub fn new_big(big: i128) -> Value {
            make(RValue { big, ..cell(ObjTy::BIGNUM) })
        }
        pub fn new_float(float: f64) -> Value {
            make(RValue { float, ..cell(ObjTy::FLOAT) })
        }
        pub fn new_range(start: Value, end: Value, exclude_end: bool) -> Value {
            make(RValue { range: RangeInner { start, end, exclude_end }, ..cell(ObjTy::RANGE) })
        }
        /// What the sweep does with a cell.
        pub fn free(v: Value) {
            let mut b = unsafe { Box::from_raw(v.id() as *mut RValue) };
            if b.ty == ObjTy::HASH {
                unsafe { hash::drop_hash_body(b.flags, &mut b.kind.hash) }
            }
        }
        /// What dup does with a cell.
        pub fn dup_hash(v: Value) -> Value {
            let (f, body) = hash::dup_parts(v);
            make(RValue { flags: f, kind: ObjKind { hash: ManuallyDrop::new(body) }, ..cell(ObjTy::HASH) })
        }
        impl RValue {
            pub fn ty(&self) -> ObjTy {
                self.ty
            }
            pub fn ty_flags_ptr(&self) -> NonNull<u8> {
                NonNull::from(&self.flags)
            }
            pub fn as_bignum(&self) -> &i128 {
                &self.big
            }
            pub fn as_float(&self) -> f64 {
                self.float
            }
            pub fn as_rstring(&self) -> &RStringInner {
                &self.string
            }
            pub fn as_array(&self) -> &ArrayInner {
                &self.array
            }
            pub fn as_range(&self) -> &RangeInner {
                &self.range
            }
            pub fn as_complex(&self) -> &RangeInner {
                &self.range
            }
            pub unsafe fn as_hashmap(&self) -> hash::HashRef<'_> {
                unsafe { hash::HashRef::from_rvalue(self) }
            }
            pub unsafe fn as_hashmap_mut(&mut self) -> hash::HashRefMut<'_> {
                unsafe { hash::HashRefMut::from_rvalue(self) }
            }
        }
        pub fn map_with_capacity<K, V>(n: usize) -> RubyMap<K, V> {
            RubyMap::with_capacity_and_hasher(n, Bh)
        }

        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/hash_array.rs"));
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/hash_range.rs"));

        pub mod hash {
            include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/hash.rs"));

            /// dup copies the header's flags and the body separately (rvalue.rs).
            pub fn dup_parts(v: Value) -> (u8, HashBody) {
                (sanitize_dup_flags(v.rv().flags), v.as_hashmap_inner().clone_body())
            }
            pub fn is_boxed(v: Value) -> bool {
                flags_is_boxed(v.rv().flags)
            }
            pub fn fast_digest(v: Value) -> usize {
                if v.is_packed_value() { packed_digest(&Bh, v) } else { string_digest(&Bh, v.is_rstring_inner().unwrap()) }
            }
        }
    }
}

pub mod builtins {
    use super::value::rvalue::hash::*;
    use super::value::rvalue::*;
    use super::value::*;
    use super::*;
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
    /// A frame: the receiver and two arguments.
    #[derive(Clone, Copy)]
    pub struct Lfp(pub Value, pub [Value; 2]);
    impl Lfp {
        pub fn self_val(&self) -> Value {
            self.0
        }
        pub fn arg(&self, i: usize) -> Value {
            self.1[i]
        }
        pub fn block(&self) -> Option<()> {
            None
        }
        pub fn expect_no_block(&self) -> Result<()> {
            Ok(())
        }
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/hash_builtins.rs"));
}

mod h {
    use super::value::rvalue::hash::*;
    use super::value::rvalue::*;
    use super::value::*;
    use super::*;
    include!("h_hash.rs");
}
pub use h::TABLE;

//! G01: the generational mark-and-sweep collector (monoruby/src/alloc.rs) together with the object
//! header, the write barrier and the tracing of children (monoruby/src/value/rvalue.rs), arrays
//! (value/rvalue/array.rs) and structs, against a graph kept by the harness.
//!
//! Page size, arena size, the recursion limit and the forensic switches are set small in the
//! generated text; the payload types of object kinds not used here are stand-ins.
#![allow(static_mut_refs)]
use crate::v::*;

pub mod shim {
    use super::alloc::{Allocator, GC};
    use super::value::rvalue::*;
    pub use num::BigInt;

    /// Immediates are odd, everything else is the address of a cell.
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(transparent)]
    pub struct Value(std::num::NonZeroU64);
    impl Default for Value {
        fn default() -> Value {
            Value::nil()
        }
    }
    impl Value {
        pub fn nil() -> Value {
            Value(std::num::NonZeroU64::new(0x4).unwrap())
        }
        pub fn integer(i: u64) -> Value {
            Value(std::num::NonZeroU64::new(i << 1 | 1).unwrap())
        }
        pub fn from_ptr(p: *mut RValue) -> Value {
            Value(std::num::NonZeroU64::new(p as u64).unwrap())
        }
        pub fn id(self) -> u64 {
            self.0.get()
        }
        pub fn is_packed_value(&self) -> bool {
            self.id() & 7 != 0
        }
        pub fn try_rvalue(&self) -> Option<&RValue> {
            if self.is_packed_value() { None } else { Some(unsafe { &*(self.id() as *const RValue) }) }
        }
        pub fn try_rvalue_mut(&mut self) -> Option<&mut RValue> {
            if self.is_packed_value() { None } else { Some(unsafe { &mut *(self.id() as *mut RValue) }) }
        }
        pub fn rv(self) -> &'static mut RValue {
            unsafe { &mut *(self.id() as *mut RValue) }
        }
        pub fn mark(&self, alloc: &mut Allocator<RValue>) {
            if let Some(r) = self.try_rvalue() {
                r.mark(alloc)
            }
        }
        pub fn array_from_iter(i: impl Iterator<Item = Value>) -> Value {
            Value::array_from_vec(i.collect())
        }
        pub fn array_empty() -> Value {
            Value::array_from_vec(vec![])
        }
        pub fn array1(a: Value) -> Value {
            Value::array_from_vec(vec![a])
        }
        pub fn array2(a: Value, b: Value) -> Value {
            Value::array_from_vec(vec![a, b])
        }
        pub fn array_from_vec(v: Vec<Value>) -> Value {
            new_array(v).pack()
        }
        pub unsafe fn as_array_inner(&self) -> &super::ArrayInner {
            unsafe { self.rv().as_array() }
        }
        pub fn as_array_inner_mut(&mut self) -> &mut super::ArrayInner {
            array_mut(self.rv())
        }
        pub fn as_struct_mut(&mut self) -> &mut super::StructInner {
            struct_mut(self.rv())
        }
        pub fn try_array_ty(&self) -> Option<super::Array> {
            match self.try_rvalue() {
                Some(r) if r.ty() == ObjTy::ARRAY => Some(super::Array::new_unchecked(*self)),
                _ => None,
            }
        }
    }

    pub mod num {
        pub struct BigInt(pub [u64; 4]);
    }

    /// Two references and whatever kind it is.
    #[derive(Clone)]
    pub struct Pair(pub Option<Value>, pub Option<Value>);
    impl Pair {
        pub fn mark(&self, alloc: &mut Allocator<RValue>) {
            for v in [self.0, self.1].into_iter().flatten() {
                v.mark(alloc)
            }
        }
    }
    macro_rules! kinds {
        ($($t:ident)*) => { $(pub type $t = Pair;)* };
    }
    kinds!(ModuleInner ComplexInner RangeInner ExceptionInner ProcInner IoInner MethodInner FiberInner ThreadInner EnumeratorInner GeneratorInner
           BindingInner MatchDataInner RationalInner ArithmeticSequenceInner IoBufferInner ArgfInner);
    pub struct TimeInner;
    pub struct RegexpInner;
    pub struct UMethodInner;
    /// A string that may share the buffer of another.
    pub struct RStringInner(pub Option<Value>, pub Vec<u8>);
    impl RStringInner {
        pub fn shared_root(&self) -> Option<Value> {
            self.0
        }
    }
    pub struct HashBody(pub Vec<Value>);
    pub unsafe fn drop_hash_body(_flags: u8, body: &mut HashBody) {
        unsafe { std::ptr::drop_in_place(body) }
    }
    pub struct HashRef<'a>(&'a HashBody);
    impl<'a> HashRef<'a> {
        pub unsafe fn from_rvalue(r: &'a RValue) -> Self {
            HashRef(hash_of(r))
        }
        pub fn mark(&self, alloc: &mut Allocator<RValue>) {
            self.0.0.iter().for_each(|v| v.mark(alloc))
        }
        pub fn young_child_exists(&self, alloc: &Allocator<RValue>) -> bool {
            self.0.0.iter().any(|v| v.try_rvalue().is_some_and(|r| !alloc.is_old(r)))
        }
    }
    /// A frame promoted to the heap is not built here.
    pub struct Lfp;
    impl Lfp {
        pub unsafe fn from_heap_buffer(_: *mut u64, _: usize) -> Lfp {
            Lfp
        }
        pub fn mark_contents(&self, _: &mut Allocator<RValue>) {}
    }
    #[derive(Clone, Copy)]
    pub struct IvarId(pub usize);
    impl IvarId {
        pub fn into_usize(self) -> usize {
            self.0
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct ClassId(pub std::num::NonZeroU32);
    pub const fn cls(n: u32) -> ClassId {
        ClassId(std::num::NonZeroU32::new(n).unwrap())
    }
    pub const TRUE_CLASS: ClassId = cls(1);
    pub const FALSE_CLASS: ClassId = cls(2);
    pub const NIL_CLASS: ClassId = cls(3);
    pub const SYMBOL_CLASS: ClassId = cls(4);
    pub const OBJECT_CLASS: ClassId = cls(5);

    #[derive(Debug)]
    pub struct MonorubyErr;
    impl MonorubyErr {
        pub fn indexerr(_: impl Into<String>) -> MonorubyErr {
            MonorubyErr
        }
        pub fn index_too_small(_: i64, _: i64) -> MonorubyErr {
            MonorubyErr
        }
    }
    pub type Result<T> = std::result::Result<T, MonorubyErr>;

    pub mod smallvec {
        use std::ops::{Deref, DerefMut};
        pub const OFFSET_CAPA: usize = 0;
        pub const OFFSET_INLINE: usize = 8;
        pub const OFFSET_HEAP_PTR: usize = 8;
        pub const OFFSET_HEAP_LEN: usize = 16;
        pub trait Arr {
            type Item;
        }
        impl<T, const N: usize> Arr for [T; N] {
            type Item = T;
        }
        pub struct SmallVec<A: Arr>(Vec<A::Item>);
        impl<A: Arr> SmallVec<A> {
            pub fn new() -> Self {
                SmallVec(Vec::new())
            }
            pub fn with_capacity(n: usize) -> Self {
                SmallVec(Vec::with_capacity(n))
            }
            pub fn from_vec(v: Vec<A::Item>) -> Self {
                SmallVec(v)
            }
            pub fn from_iter<I: IntoIterator<Item = A::Item>>(i: I) -> Self {
                SmallVec(i.into_iter().collect())
            }
            pub fn spilled(&self) -> bool {
                self.0.len() > 5
            }
            pub fn insert_many<I: IntoIterator<Item = A::Item>>(&mut self, at: usize, i: I) {
                self.0.splice(at..at, i);
            }
            pub fn drain(&mut self, r: std::ops::Range<usize>) -> std::vec::Drain<'_, A::Item> {
                self.0.drain(r)
            }
        }
        impl<A: Arr> Deref for SmallVec<A> {
            type Target = Vec<A::Item>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<A: Arr> DerefMut for SmallVec<A> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
        impl<A: Arr> Clone for SmallVec<A>
        where
            A::Item: Clone,
        {
            fn clone(&self) -> Self {
                SmallVec(self.0.clone())
            }
        }
        impl<A: Arr> PartialEq for SmallVec<A>
        where
            A::Item: PartialEq,
        {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<A: Arr> std::fmt::Debug for SmallVec<A> {
            fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Ok(())
            }
        }
        pub type Drain<'a, A> = std::vec::Drain<'a, <A as Arr>::Item>;
        macro_rules! smallvec_ {
            () => { $crate::k_gc::shim::smallvec::SmallVec::new() };
            ($v:expr; $n:expr) => { $crate::k_gc::shim::smallvec::SmallVec::from_vec(vec![$v; $n]) };
        }
        pub(crate) use smallvec_ as smallvec;
    }
    pub use monoruby_attr::monoruby_object;
}

pub mod poll_flag {
    pub static mut GC: bool = false;
    pub fn set_gc() {
        unsafe { GC = true }
    }
    pub fn clear_gc() {
        unsafe { GC = false }
    }
}

pub mod alloc {
    /// The forensic switches read from the environment are off.
    fn free_log_enabled() -> bool {
        false
    }
    fn all_major_forced() -> bool {
        false
    }
    fn tracked_addr() -> Option<usize> {
        None
    }
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/gc_alloc.rs"));

    pub const CELLS: usize = DATA_LEN;
    pub const LIMIT: usize = THRESHOLD;
    pub struct Roots(pub Vec<crate::k_gc::Value>);
    impl GC<RValue> for Roots {
        fn mark(&self, alloc: &mut Allocator<RValue>) {
            self.0.iter().for_each(|v| v.mark(alloc))
        }
    }
    impl GCRoot<RValue> for Roots {}
    pub fn collect(roots: &Roots, major: bool) {
        if major {
            request_gc(true);
        }
        ALLOC.with(|a| a.borrow_mut().gc(roots));
    }
    pub fn minors_in_a_row() -> usize {
        MAX_MINORS_PER_MAJOR
    }
    /// The books of the allocator agree with each other, `live` cells being in use (or, not `exact`, at least those).
    pub fn audit(live: usize, exact: bool) {
        use crate::v::check;
        ALLOC.with(|a| {
            let a = a.borrow();
            let used = a.pages.len() * DATA_LEN + a.used_in_current;
            let mut n = 0;
            let mut p = a.free;
            while let Some(c) = p {
                n += 1;
                if n > used {
                    break;
                }
                p = unsafe { c.as_ref().next() };
            }
            check(n == a.free_list_count, 40);
            check(n + live <= used, 41);
            if exact {
                check(n + live == used, 42);
            }
            let old = a.pages.iter().chain([&a.current_page]).map(|p| unsafe { p.as_ref() }.old_count()).sum::<usize>();
            check(a.old_count == old, 43);
        });
    }
    pub fn free_cells() -> usize {
        ALLOC.with(|a| a.borrow().free_list_count)
    }
    /// The allocator's own lists do not count.
    pub fn tidy() {
        with(|a| {
            a.remembered.shrink_to_fit();
            a.aging.shrink_to_fit();
            a.mark_queue.shrink_to_fit();
        });
    }
    pub fn with<R>(f: impl FnOnce(&mut Allocator<RValue>) -> R) -> R {
        ALLOC.with(|a| f(&mut a.borrow_mut()))
    }
    pub fn old(p: *const RValue) -> bool {
        ALLOC.with(|a| a.borrow().is_old(unsafe { &*p }))
    }
    pub fn in_current() -> usize {
        ALLOC.with(|a| a.borrow().used_in_current)
    }
    pub fn pages_in_service() -> usize {
        ALLOC.with(|a| a.borrow().pages.len() + 1)
    }
}

pub mod value {
    pub use super::shim::Value;
    pub mod ivar_table {
        use super::Value;
        include!("/repo/monoruby/src/value/rvalue/ivar_table.rs");
    }
    pub mod rvalue {
        use super::super::alloc::{GC, GCBox};
        use super::super::shim::*;
        use super::super::{alloc, value, Array, ArrayInner, StructInner};
        use super::ivar_table::MonoVec;
        use std::mem::ManuallyDrop;
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/gc_rvalue.rs"));

        impl std::fmt::Debug for ObjTy {
            fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Ok(())
            }
        }
        fn cell(ty: ObjTy, kind: ObjKind) -> RValue {
            RValue { header: Header::new(OBJECT_CLASS, ty), var_table: None, kind }
        }
        pub fn new_object() -> RValue {
            cell(ObjTy::OBJECT, ObjKind { object: [None; OBJECT_INLINE_IVAR] })
        }
        pub fn new_array(v: Vec<Value>) -> RValue {
            cell(ObjTy::ARRAY, ObjKind { array: ManuallyDrop::new(ArrayInner::from_vec(v)) })
        }
        pub fn new_struct(n: usize) -> RValue {
            cell(ObjTy::STRUCT, ObjKind { struct_inner: ManuallyDrop::new(StructInner::new(n)) })
        }
        pub fn new_range() -> RValue {
            cell(ObjTy::RANGE, ObjKind { range: ManuallyDrop::new(Pair(None, None)) })
        }
        pub fn new_string(root: Option<Value>) -> RValue {
            cell(ObjTy::STRING, ObjKind { string: ManuallyDrop::new(RStringInner(root, vec![7])) })
        }
        pub fn new_hash() -> RValue {
            cell(ObjTy::HASH, ObjKind { hash: ManuallyDrop::new(HashBody(vec![])) })
        }
        pub fn new_float(f: u64) -> RValue {
            cell(ObjTy::FLOAT, ObjKind { float: f64::from_bits(f) })
        }
        pub fn float_bits(r: &RValue) -> u64 {
            unsafe { r.kind.float.to_bits() }
        }
        pub fn array_mut(r: &mut RValue) -> &mut ArrayInner {
            unsafe { &mut r.kind.array }
        }
        pub fn struct_mut(r: &mut RValue) -> &mut StructInner {
            unsafe { &mut r.kind.struct_inner }
        }
        pub fn range_mut(r: &mut RValue) -> &mut Pair {
            unsafe { &mut r.kind.range }
        }
        pub fn string_mut(r: &mut RValue) -> &mut RStringInner {
            unsafe { &mut r.kind.string }
        }
        pub fn hash_of(r: &RValue) -> &HashBody {
            unsafe { &r.kind.hash }
        }
        pub fn hash_mut(r: &mut RValue) -> &mut HashBody {
            unsafe { &mut r.kind.hash }
        }
        pub fn live_cell(r: &RValue) -> bool {
            r.header.is_live()
        }
        pub fn set_age(r: &mut RValue, age: u8) {
            r.header.set_age(age)
        }
        pub fn age(r: &RValue) -> u8 {
            r.header.age()
        }
        pub fn header_old(r: &RValue) -> bool {
            r.header.is_old()
        }
    }
}
use shim::Value as _V;
pub use shim::Value;
pub use value::rvalue::RValue;
use value::rvalue::*;

mod array {
    use super::alloc::GC;
    use super::shim::*;
    use super::value::rvalue::*;
    use super::{alloc, shim::smallvec, shim::smallvec::*, Value};
    use super::alloc::Allocator;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/gc_array.rs"));
}
pub use array::*;
mod structs {
    use super::alloc::{self, Allocator};
    use super::shim::*;
    use super::array::ARRAY_INLINE_CAPA;
    use super::value::rvalue::*;
    use super::shim::smallvec::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/gc_struct.rs"));
}
pub use structs::StructInner;
mod values {
    use super::value::rvalue::*;
    use super::shim::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/gc_value.rs"));
}

// ---------------------------------------------------------------- the model
const NONE: usize = 99;
const OBJECT: usize = 0;
const ARRAY: usize = 1;
const STRUCT: usize = 2;
const HASH: usize = 3;
const STRING: usize = 4;
const RANGE: usize = 5;

fn make(kind: usize) -> Value {
    match kind {
        OBJECT => new_object(),
        ARRAY => new_array(vec![Value::nil(), Value::nil()]),
        STRUCT => new_struct(2),
        HASH => new_hash(),
        STRING => new_string(None),
        _ => new_range(),
    }
    .pack()
}
fn ty(kind: usize) -> ObjTy {
    [ObjTy::OBJECT, ObjTy::ARRAY, ObjTy::STRUCT, ObjTy::HASH, ObjTy::STRING, ObjTy::RANGE][kind]
}
/// v or nil, without a branch.
fn opt(c: bool, v: Value) -> Value {
    let m = (c as u64).wrapping_neg();
    Value::from_ptr((v.id() & m | Value::nil().id() & !m) as *mut RValue)
}
/// Store x as reference s of v, the way the interpreter does.
fn store(mut v: Value, kind: usize, s: usize, x: Value) {
    match kind {
        ARRAY => {
            Array::new_unchecked(v).set_index(s as i64, x).unwrap();
        }
        STRUCT => v.set_struct_slot(s, x),
        HASH => {
            let h = hash_mut(v.rv());
            if h.0.len() < 2 {
                h.0.resize(2, Value::nil());
            }
            h.0[s] = x;
            v.write_barrier(x);
        }
        STRING if s == 0 => {
            string_mut(v.rv()).0 = Some(x);
            v.write_barrier_bulk();
        }
        RANGE => {
            let r = range_mut(v.rv());
            if s == 0 { r.0 = Some(x) } else { r.1 = Some(x) }
        }
        // ivars: kept inline up to the sixth in a plain object, else in a table of their own
        _ => v.rv().set_ivar_by_ivarid(shim::IvarId(if s == 0 { 1 } else { 7 }), x),
    }
}
fn load(v: Value, kind: usize, s: usize) -> Value {
    match kind {
        ARRAY => Some(Array::new_unchecked(v)[s]),
        STRUCT => Some(struct_mut(v.rv()).get(s)),
        HASH => hash_of(v.rv()).0.get(s).copied(),
        STRING if s == 0 => string_mut(v.rv()).0,
        RANGE => if s == 0 { range_mut(v.rv()).0 } else { range_mut(v.rv()).1 },
        _ => v.rv().get_ivar_by_ivarid(shim::IvarId(if s == 0 { 1 } else { 7 })),
    }
    .unwrap_or(Value::nil())
}

/// Which objects there are, what they refer to (a target, and whether the reference is there) and
/// which of them are roots.
struct World<const N: usize> {
    o: [Value; N],
    kind: [usize; N],
    e: [[(usize, bool); 2]; N],
    root: [bool; N],
    /// A collection has found it unreachable.
    gone: [bool; N],
}
impl<const N: usize> World<N> {
    fn new(kind: [usize; N]) -> Self {
        World { o: kind.map(make), kind, e: [[(0, false); 2]; N], root: [false; N], gone: [false; N] }
    }
    fn set(&mut self, i: usize, s: usize, j: usize, there: bool) {
        store(self.o[i], self.kind[i], s, opt(there, self.o[j]));
        self.e[i][s] = (j, there);
    }
    fn reach(&self) -> [bool; N] {
        let mut r = self.root;
        for _ in 0..N {
            for i in 0..N {
                for (j, there) in self.e[i] {
                    r[j] |= r[i] & there;
                }
            }
        }
        r
    }
    fn collect(&mut self, major: bool) {
        let roots = alloc::Roots((0..N).map(|i| opt(self.root[i], self.o[i])).collect());
        alloc::collect(&roots, major);
        let r = self.reach();
        let mut n = 0;
        for i in 0..N {
            if self.gone[i] {
                continue;
            }
            let v = self.o[i];
            if r[i] {
                n += 1;
                check(live_cell(v.rv()), 10);
                check(v.rv().ty() == ty(self.kind[i]), 11);
                for s in 0..2 {
                    let (j, there) = self.e[i][s];
                    check(load(v, self.kind[i], s) == opt(there, self.o[j]), 12);
                }
                check(header_old(v.rv()) == alloc::old(v.rv()), 13);
            } else {
                if major {
                    check(!live_cell(v.rv()), 14);
                }
                self.gone[i] = true;
                self.e[i] = [(0, false); 2];
            }
        }
        alloc::audit(n, major);
    }
    /// A new object takes the place of i, which the program no longer holds.
    fn renew(&mut self, i: usize, kind: usize) {
        let v = make(kind);
        for j in 0..N {
            check(self.gone[j] || self.o[j] != v, 15);
        }
        self.o[i] = v;
        self.kind[i] = kind;
        self.e[i] = [(0, false); 2];
        self.gone[i] = false;
        self.root[i] = false;
    }
}
/// The age of an object not yet old.
fn some_age(v: Value) {
    let a = sym8();
    assume(a < alloc::RGENGC_OLD_AGE);
    set_age(v.rv(), a);
}

/// Three objects of unknown kinds, ages, references and roots; a store or a change of roots; and
/// collections in between.
fn graph(ks: [usize; 3], steps: usize) {
    let mut w = World::<3>::new(ks);
    w.root = [true; 3];
    w.set(0, 0, 1, steps > 1 || sym_bool());
    w.set(1, 1, 2, steps > 1 || sym_bool());
    some_age(w.o[0]);
    if steps == 1 {
        some_age(w.o[1]);
    }
    set_age(w.o[2].rv(), age(w.o[0].rv()));
    w.collect(false);
    for step in 0..steps {
        // the program rearranges what it can reach
        let (i, j) = (pick(3), pick(3));
        assume(!w.gone[i] && !w.gone[j]);
        w.set(i, (i + j) & 1, j, sym_bool());
        if step + 1 == steps {
            for r in &mut w.root {
                *r &= sym_bool();
            }
        }
        w.collect(sym_bool());
    }
    cover(1);
    // a new object may use the cell of a dead one
    if let Some(i) = (0..3).find(|i| w.gone[*i]) {
        w.renew(i, [OBJECT, STRING, ARRAY][i]);
        match (0..3).find(|i| !w.gone[*i] && w.root[*i]) {
            Some(p) => w.set(p, 1, i, sym_bool()),
            None => w.root[i] = sym_bool(),
        }
        cover(2);
        w.collect(false);
        w.collect(true);
    } else {
        w.collect(true);
    }
    w.root = [false; 3];
    w.collect(true);
}

/// Every way of storing a reference into an object that may be old: the referenced object, held
/// by nothing else, stays.
fn barrier(kind: usize, nops: usize) {
    let parent = match kind {
        // an old array with one element of each generation
        ARRAY => new_array(vec![Value::nil(); 3]).pack(),
        k => make(k),
    };
    let other = make(kind);
    let mut roots = alloc::Roots(vec![parent, other]);
    // young or old, and if old with or without a reference to a young one
    some_age(parent);
    some_age(other);
    let extra = make(STRING);
    let referred = sym_bool();
    parent.rv().set_ivar_by_ivarid(shim::IvarId(8), opt(referred, extra));
    let child = make([OBJECT, STRING][pick(2)]);
    some_age(child);
    roots.0.push(child);
    let old = age(parent.rv()) == alloc::RGENGC_OLD_AGE - 1;
    alloc::collect(&roots, false);
    roots.0.pop();
    check(alloc::old(parent.rv()) == old, 20);
    let mut p = parent;
    let mut holder = parent;
    let op = pick(nops);
    match (kind, op) {
        (_, 0) => p.rv().set_ivar_by_ivarid(shim::IvarId(0), child),
        (_, 1) => p.rv().set_ivar_by_ivarid(shim::IvarId(6), child),
        (_, 2) => p.rv().set_ivar_by_ivarid(shim::IvarId(11), child),
        (STRUCT, 3) => p.set_struct_slot(1, child),
        (_, 3) => {
            // Object#... that exchange the bodies of two objects
            if kind == OBJECT || kind == ARRAY {
                let mut fresh = make(kind);
                store(fresh, kind, 0, child);
                if sym_bool() { fresh.rv().swap_kind(p.rv()) } else { p.rv().swap_kind(fresh.rv()) }
                check(load(p, kind, 0) == child, 21);
            } else {
                p.rv().set_ivar_by_ivarid(shim::IvarId(3), child);
            }
        }
        (ARRAY, 4) => Array::new_unchecked(p).push(child),
        (ARRAY, 5) => Array::new_unchecked(p).insert(1, child),
        (ARRAY, 6) => Array::new_unchecked(p).fill(child),
        (ARRAY, 7) => Array::new_unchecked(p).resize(5, child),
        (ARRAY, 8) => Array::new_unchecked(p).insert_many(1, [Value::nil(), child]),
        (ARRAY, 9) => Array::new_unchecked(p).extend([Value::nil(), child]),
        (ARRAY, 10) => Array::new_unchecked(p).extend_from_slice(&[child]),
        (ARRAY, 11) => Array::new_unchecked(p).replace(vec![Value::nil(), child]),
        (ARRAY, 12) => {
            Array::new_unchecked(p).set_index(5, child).unwrap();
        }
        (ARRAY, 13) => {
            Array::new_unchecked(p).set_index(-1, child).unwrap();
        }
        (ARRAY, 14) => {
            Array::new_unchecked(p).set_index2(1, 1, child).unwrap();
        }
        (ARRAY, 15) => {
            // the elements of an array that is then emptied
            let src = Value::array_from_vec(vec![child, child]);
            some_age(src);
            roots.0.push(src);
            roots.0.push(child);
            alloc::collect(&roots, false);
            roots.0.truncate(2);
            Array::new_unchecked(p).set_index2(0, 2, src).unwrap();
            Array::new_unchecked(src).clear();
        }
        (ARRAY, 16) => Array::new_unchecked(p)[2] = child,
        (ARRAY, 17) => Array::new_unchecked(p).swap_with_slice(&mut [child, child, child]),
        (ARRAY, 18) => {
            holder = other;
            Array::new_unchecked(p).push(child);
            Array::new_unchecked(holder).extend_from_slice(&Array::new_unchecked(p)[..]);
            Array::new_unchecked(p).clear();
        }
        _ => return,
    }
    cover(1);
    let id = child.id();
    let was = child.rv().ty();
    for _ in 0..3 {
        alloc::collect(&roots, false);
        check(live_cell(child.rv()) && child.rv().ty() == was && child.id() == id, 22);
    }
    alloc::collect(&roots, true);
    check(live_cell(child.rv()) && child.rv().ty() == was, 23);
    check(alloc::old(parent.rv()), 24);
    if referred {
        check(live_cell(extra.rv()) && extra.rv().ty() == ObjTy::STRING, 25);
    }
    // nothing else is kept, nor anything once the roots are gone
    alloc::audit(3 + referred as usize, true);
    roots.0.clear();
    alloc::collect(&roots, true);
    check(!live_cell(child.rv()) && !live_cell(parent.rv()), 26);
    alloc::audit(0, true);
}

/// A chain longer than the walk may recurse, cut at an unknown place, with a reference back.
fn chain() {
    const N: usize = 8;
    let mut w = World::<N>::new([OBJECT, ARRAY, STRUCT, HASH, OBJECT, RANGE, STRING, OBJECT]);
    for i in 0..N - 1 {
        w.set(i, 0, i + 1, true);
    }
    w.set(N - 1, 1, pick(N), true);
    w.root[0] = true;
    let two = sym8();
    assume(two < alloc::RGENGC_OLD_AGE);
    let ages = pick(3);
    for i in 0..N {
        set_age(w.o[i].rv(), [0, two, (i as u8 & 1) * two][ages]);
    }
    w.collect(false);
    w.root[4] = sym_bool();
    let cut = pick(N - 1);
    w.set(cut, 0, 0, sym_bool());
    w.root[0] = sym_bool();
    w.collect(sym_bool());
    cover(1);
    w.collect(true);
}

/// More objects than a page holds, some of them kept: pages that empty out are used again, no
/// cell is handed out twice, and what is kept stays as it is.
fn pages(n: usize, keep: usize) {
    let mut roots = alloc::Roots(vec![]);
    let x = sym(64);
    let mut kept = vec![];
    for i in 0..n {
        let v = new_float(x ^ i as u64).pack();
        if i % alloc::CELLS == keep {
            kept.push((v, i));
            roots.0.push(v);
            some_age(v);
        }
    }
    check(alloc::pages_in_service() == n.div_ceil(alloc::CELLS), 30);
    cover(1);
    if sym_bool() {
        roots.0.pop();
        kept.pop();
    }
    let verify = |kept: &Vec<(Value, usize)>| {
        for (v, i) in kept {
            check(live_cell(v.rv()) && v.rv().ty() == ObjTy::FLOAT && float_bits(v.rv()) == x ^ *i as u64, 31);
        }
    };
    alloc::collect(&roots, sym_bool());
    verify(&kept);
    alloc::audit(kept.len(), true);
    // as many again: every cell is a new one
    let mut seen = vec![];
    for i in 0..40 {
        let v = new_float(i).pack();
        check(kept.iter().all(|(k, _)| *k != v), 32);
        seen.push(v);
    }
    for i in 0..40 {
        check(float_bits(seen[i].rv()) == i as u64, 33);
    }
    verify(&kept);
    roots.0.extend(seen.iter().take(3));
    alloc::collect(&roots, false);
    verify(&kept);
    for i in 0..3 {
        check(live_cell(seen[i].rv()) && float_bits(seen[i].rv()) == i as u64, 34);
    }
    alloc::audit(kept.len() + 3, true);
    roots.0.clear();
    kept.clear();
    alloc::collect(&roots, true);
    alloc::audit(0, true);
    // with nothing left, a page's worth fits in the pages there are
    let before = alloc::pages_in_service();
    for _ in 0..alloc::CELLS {
        new_float(0).pack();
    }
    check(alloc::pages_in_service() <= before.max(2), 35);
}

/// The buffers of dead objects are given back, each once; those of live ones are not.
fn buffers() {
    let round = |major: bool, age: u8| {
        let a = new_array(vec![Value::integer(1), Value::integer(2)]).pack();
        let s = new_string(None).pack();
        let mut h = make(HASH);
        store(h, HASH, 0, s);
        h.rv().set_ivar_by_ivarid(shim::IvarId(2), a);
        let t = make(STRUCT);
        store(h, HASH, 1, t);
        let roots = alloc::Roots(vec![h]);
        set_age(a.rv(), age);
        set_age(h.rv(), age);
        alloc::collect(&roots, false);
        check(live_cell(a.rv()) && live_cell(s.rv()), 50);
        check(Array::new_unchecked(a)[..] == [Value::integer(1), Value::integer(2)] && string_mut(s.rv()).1 == [7], 51);
        drop(roots);
        let roots = alloc::Roots(vec![]);
        alloc::collect(&roots, major);
        alloc::collect(&roots, true);
        alloc::audit(0, true);
    };
    round(true, 2);
    alloc::tidy();
    let before = live();
    let age = sym8();
    assume(age < alloc::RGENGC_OLD_AGE);
    round(sym_bool(), age);
    cover(1);
    alloc::tidy();
    check(live() == before, 52);
}

/// Garbage that has become old goes even if nobody asks for a full collection; the switches act.
fn policy() {
    let old = new_float(1).pack();
    set_age(old.rv(), 2);
    let mut roots = alloc::Roots(vec![old]);
    alloc::collect(&roots, false);
    roots.0.clear();
    match pick(4) {
        0 => {
            for _ in 0..=alloc::minors_in_a_row() {
                alloc::collect(&roots, false);
            }
            check(!live_cell(old.rv()), 60);
            cover(1);
        }
        1 => {
            alloc::with(|a| a.gc_enabled = false);
            let young = new_float(2).pack();
            alloc::collect(&roots, true);
            check(live_cell(old.rv()) && live_cell(young.rv()), 61);
            check(!unsafe { poll_flag::GC }, 62);
        }
        2 => {
            // full collections only when asked for
            alloc::with(|a| a.set_allow_full_mark(false));
            for _ in 0..=alloc::minors_in_a_row() + 1 {
                alloc::collect(&roots, false);
            }
            check(live_cell(old.rv()), 63);
            alloc::collect(&roots, true);
            check(!live_cell(old.rv()), 64);
        }
        _ => {
            alloc::collect(&roots, true);
            check(!unsafe { poll_flag::GC }, 65);
            alloc::with(|a| a.set_stress(true));
            check(unsafe { poll_flag::GC }, 66);
            alloc::collect(&roots, false);
            check(unsafe { poll_flag::GC }, 67);
        }
    }
}

entries! {
    g01_graph_1 => graph([pick(6), OBJECT, ARRAY], 1);
    g01_graph_2 => graph([[OBJECT, ARRAY][pick(2)], pick(6), STRING], 1);
    g01_graph_3 => graph([OBJECT, STRUCT, HASH], 2);
    g01_barrier_object => barrier(OBJECT, 4);
    g01_barrier_array => barrier(ARRAY, 19);
    g01_barrier_struct => barrier(STRUCT, 4);
    g01_barrier_other => barrier([HASH, STRING][pick(2)], 4);
    g01_chain => chain();
    g01_pages_1 => pages(20 + pick(3) * 63, pick(2) * 63);
    g01_pages_2 => pages(190 + pick(6), [0, 63, 64, 191][pick(4)]);
    g01_pages_3 => pages(200 + 190 * pick(2), [0, 63, 64, 191, 500][pick(5)]);
    g01_buffers => buffers();
    g01_policy => policy();
}

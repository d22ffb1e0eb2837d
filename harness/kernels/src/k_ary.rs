//! D01: arrays as lists (monoruby/src/value/rvalue/array.rs and the positional methods of
//! monoruby/src/builtins/array.rs): which elements an index, a length or a range designates, and what
//! assignment, insertion, removal, filling, rotation and filtering leave.
use crate::v::*;

/// What the code uses of the rest of the interpreter.
mod shim {
    pub use super::array::*;
    pub type Result<T> = std::result::Result<T, MonorubyErr>;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum MonorubyErr {
        Arg,
        Index,
        Range,
        /// raised by the block
        Block,
        Other,
    }
    impl MonorubyErr {
        pub fn argumenterr(_: impl Into<String>) -> Self {
            MonorubyErr::Arg
        }
        pub fn negative_argument() -> Self {
            MonorubyErr::Arg
        }
        pub fn negative_array_size() -> Self {
            MonorubyErr::Arg
        }
        pub fn wrong_number_of_arg_range(_: usize, _: std::ops::RangeInclusive<usize>) -> Self {
            MonorubyErr::Arg
        }
        pub fn indexerr(_: impl Into<String>) -> Self {
            MonorubyErr::Index
        }
        pub fn index_too_small(_: i64, _: i64) -> Self {
            MonorubyErr::Index
        }
        pub fn rangeerr(_: impl Into<String>) -> Self {
            MonorubyErr::Range
        }
        pub fn typeerr(_: impl Into<String>) -> Self {
            MonorubyErr::Other
        }
    }
    pub struct Store;
    pub struct Globals {
        pub store: Store,
    }
    #[derive(Clone, Copy, PartialEq, Eq)]
    pub struct IdentId(u8);
    impl IdentId {
        pub const TO_ARY: IdentId = IdentId(0);
        pub fn get_id(_: &str) -> Self {
            IdentId(1)
        }
    }
    pub type FuncId = IdentId;
    impl Globals {
        pub fn check_method(&self, _: Value, _: IdentId) -> Option<FuncId> {
            None
        }
    }
    #[derive(Clone, Copy)]
    pub struct BytecodePtr;
    #[derive(Clone, Copy)]
    pub struct BlockHandler;
    pub struct ProcData;
    /// What the block (or `==`) of this run answers and does.
    pub struct Executor {
        pub calls: usize,
        pub answer: [bool; 8],
        pub fail_at: usize,
        pub shrink_at: usize,
        pub shrink_to: usize,
        pub recv: Value,
    }
    impl Executor {
        fn call(&mut self) -> Result<bool> {
            let n = self.calls;
            self.calls += 1;
            if n == self.shrink_at {
                self.recv.as_array().truncate(self.shrink_to);
            }
            if n == self.fail_at { Err(MonorubyErr::Block) } else { Ok(self.answer[n]) }
        }
        pub fn get_block_data(&mut self, _: &mut Globals, _: BlockHandler) -> Result<ProcData> {
            Ok(ProcData)
        }
        pub fn invoke_block(&mut self, _: &mut Globals, _: &ProcData, _: &[Value]) -> Result<Value> {
            Ok(if self.call()? { Value::Int(-5) } else { Value::Nil })
        }
        pub fn invoke_block_once(&mut self, _: &mut Globals, _: BlockHandler, _: &[Value]) -> Result<Value> {
            Err(MonorubyErr::Other)
        }
        pub fn invoke_block_iter1(&mut self, _: &mut Globals, _: BlockHandler, _: impl Iterator<Item = Value>) -> Result<()> {
            Err(MonorubyErr::Other)
        }
        pub fn invoke_func_inner(&mut self, _: &mut Globals, _: FuncId, _: Value, _: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
            Err(MonorubyErr::Other)
        }
        pub fn invoke_method_inner(&mut self, _: &mut Globals, _: IdentId, _: Value, _: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
            Err(MonorubyErr::Other)
        }
        pub fn eq_values_bool(&mut self, _: &mut Globals, _: Value, _: Value) -> Result<bool> {
            self.call()
        }
        pub fn with_temp_scope<R>(&mut self, f: impl FnOnce(&mut Executor) -> R) -> R {
            f(self)
        }
        pub fn temp_push(&mut self, _: Value) {}
        pub fn ruby_warn_caller(&mut self, _: &mut Globals, _: &str) -> Result<()> {
            Ok(())
        }
    }
    #[derive(Clone, Copy)]
    pub struct Lfp {
        pub recv: Value,
        pub args: [Option<Value>; 3],
        pub block: bool,
    }
    impl Lfp {
        pub fn self_val(&self) -> Value {
            self.recv
        }
        pub fn arg(&self, i: usize) -> Value {
            self.args[i].unwrap()
        }
        pub fn try_arg(&self, i: usize) -> Option<Value> {
            self.args[i]
        }
        pub fn block(&self) -> Option<BlockHandler> {
            if self.block { Some(BlockHandler) } else { None }
        }
    }
    pub fn array_enumerator(_: &mut Executor, _: Value, _: IdentId, _: BytecodePtr) -> Result<Value> {
        Err(MonorubyErr::Other)
    }

    #[derive(Clone, Copy)]
    pub struct RangeInner {
        pub start: Value,
        pub end: Value,
        pub excl: bool,
    }
    impl RangeInner {
        pub fn start(&self) -> Value {
            self.start
        }
        pub fn end(&self) -> Value {
            self.end
        }
        pub fn exclude_end(&self) -> bool {
            self.excl
        }
    }
    #[derive(PartialEq)]
    pub struct ObjTy(u8);
    impl ObjTy {
        pub const ARITHMETIC_SEQUENCE: ObjTy = ObjTy(1);
    }

    #[derive(Clone, Copy, Default)]
    pub enum Value {
        #[default]
        Nil,
        Int(i64),
        Ary(*mut ArrayInner),
        Range(&'static RangeInner),
    }
    impl std::fmt::Debug for Value {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl Value {
        pub fn nil() -> Self {
            Value::Nil
        }
        pub fn integer(i: i64) -> Self {
            Value::Int(i)
        }
        fn new_array(a: ArrayInner) -> Self {
            Value::Ary(Box::leak(Box::new(a)))
        }
        pub fn array_empty() -> Self {
            Self::new_array(ArrayInner::new())
        }
        pub fn array1(a: Value) -> Self {
            Self::array_from_vec(vec![a])
        }
        pub fn array2(a: Value, b: Value) -> Self {
            Self::array_from_vec(vec![a, b])
        }
        pub fn array_from_vec(v: Vec<Value>) -> Self {
            Self::new_array(ArrayInner::from_vec(v))
        }
        pub fn array_from_iter(i: impl Iterator<Item = Value>) -> Self {
            Self::array_from_vec(i.collect())
        }
        pub fn id(&self) -> u64 {
            match self {
                Value::Ary(p) => *p as u64,
                _ => 1,
            }
        }
        pub fn as_array_inner(&self) -> &ArrayInner {
            match self {
                Value::Ary(p) => unsafe { &**p },
                _ => panic!("not an array"),
            }
        }
        pub fn as_array_inner_mut(&mut self) -> &mut ArrayInner {
            match self {
                Value::Ary(p) => unsafe { &mut **p },
                _ => panic!("not an array"),
            }
        }
        pub fn write_barrier(&self, _: Value) {}
        pub fn write_barrier_bulk(&self) {}
        pub fn as_array(self) -> Array {
            Array::of(self)
        }
        pub fn as_array_mut(self, _: &Store) -> Result<Array> {
            Ok(Array::of(self))
        }
        pub fn try_array_ty(&self) -> Option<Array> {
            if let Value::Ary(_) = self { Some(Array::of(*self)) } else { None }
        }
        pub fn coerce_to_array(&self, _: &mut Executor, _: &mut Globals) -> Result<Array> {
            self.try_array_ty().ok_or(MonorubyErr::Other)
        }
        pub fn is_nil(&self) -> bool {
            matches!(self, Value::Nil)
        }
        pub fn as_bool(&self) -> bool {
            !self.is_nil()
        }
        pub fn try_fixnum(&self) -> Option<i64> {
            if let Value::Int(i) = self { Some(*i) } else { None }
        }
        pub fn coerce_to_int_i64(&self, _: &mut Executor, _: &mut Globals) -> Result<i64> {
            self.try_fixnum().ok_or(MonorubyErr::Other)
        }
        pub fn is_range(&self) -> Option<&'static RangeInner> {
            if let Value::Range(r) = self { Some(r) } else { None }
        }
        pub fn ty(&self) -> Option<ObjTy> {
            None
        }
        pub fn ensure_not_frozen(&self, _: &Store) -> Result<()> {
            Ok(())
        }
        pub fn dup(&self) -> Value {
            Self::new_array(self.as_array_inner().clone())
        }
        pub fn to_s(&self, _: &Store) -> String {
            String::new()
        }
        pub fn get_real_class_name(&self, _: &Globals) -> String {
            String::new()
        }
    }
    pub fn try_convert_to_array(v: &Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Array>> {
        Ok(v.try_array_ty())
    }

    pub struct RValue;
    pub mod alloc {
        pub struct Allocator<T>(T);
        pub trait GC<T> {
            fn mark(&self, a: &mut Allocator<T>);
        }
    }
    impl Value {
        pub fn mark(&self, _: &mut alloc::Allocator<RValue>) {}
    }

    pub mod smallvec {
        use std::ops::{Deref, DerefMut};
        pub trait Arr {
            type Item;
        }
        impl<T, const N: usize> Arr for [T; N] {
            type Item = T;
        }
        pub struct SmallVec<A: Arr>(Vec<A::Item>);
        impl<A: Arr> SmallVec<A> {
            pub fn new() -> Self {
                SmallVec(Vec::new())
            }
            pub fn with_capacity(n: usize) -> Self {
                SmallVec(Vec::with_capacity(n))
            }
            pub fn from_vec(v: Vec<A::Item>) -> Self {
                SmallVec(v)
            }
            pub fn from_iter<I: IntoIterator<Item = A::Item>>(i: I) -> Self {
                SmallVec(i.into_iter().collect())
            }
            pub fn insert_many<I: IntoIterator<Item = A::Item>>(&mut self, at: usize, i: I) {
                self.0.splice(at..at, i);
            }
            pub fn drain(&mut self, r: std::ops::Range<usize>) -> std::vec::Drain<'_, A::Item> {
                self.0.drain(r)
            }
        }
        impl<A: Arr> Deref for SmallVec<A> {
            type Target = Vec<A::Item>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<A: Arr> DerefMut for SmallVec<A> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
        impl<A: Arr> Clone for SmallVec<A>
        where
            A::Item: Clone,
        {
            fn clone(&self) -> Self {
                SmallVec(self.0.clone())
            }
        }
        impl<A: Arr> std::fmt::Debug for SmallVec<A> {
            fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                Ok(())
            }
        }
        pub type Drain<'a, A> = std::vec::Drain<'a, <A as Arr>::Item>;
        macro_rules! smallvec_ {
            () => { $crate::k_ary::shim::smallvec::SmallVec::new() };
        }
        pub(crate) use smallvec_ as smallvec;
    }
}

mod array {
    use super::shim::smallvec::*;
    use super::shim::{alloc, RValue, Executor, Globals, MonorubyErr, Result, Value};
    use monoruby_attr::monoruby_object;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/ary_inner.rs"));
    impl Array {
        pub fn of(v: Value) -> Self {
            Array(v)
        }
    }
}
mod code {
    use super::shim::*;
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/ary_calls.rs"));
    pub type Call = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;
    pub const INDEX: Call = index;
    pub const ASSIGN: Call = index_assign;
    pub const SLICE: Call = slice_;
    pub const INSERT: Call = insert;
    pub const DELETE_AT: Call = delete_at;
    pub const DELETE: Call = delete;
    pub const FIRST: Call = first;
    pub const LAST: Call = last;
    pub const TAKE: Call = take;
    pub const DROP: Call = drop;
    pub const SHIFT: Call = shift;
    pub const POP: Call = pop;
    pub const PUSH: Call = push;
    pub const UNSHIFT: Call = unshift;
    pub const CONCAT: Call = concat;
    pub const FETCH: Call = fetch;
    pub const ROTATE: Call = rotate;
    pub const ROTATE_: Call = rotate_;
    pub const FILL: Call = fill;
    pub const REVERSE: Call = reverse;
    pub const REVERSE_: Call = reverse_;
    pub const COMPACT: Call = compact;
    pub const COMPACT_: Call = compact_;
    pub const TRANSPOSE: Call = transpose;
    pub const PRODUCT: Call = product;
    pub const FLATTEN: Call = flatten;
    pub const FLATTEN_: Call = flatten_;
    pub const FILTER_: Call = filter_;
    pub const KEEP_IF: Call = keep_if;
    pub const REJECT_: Call = reject_;
    pub const DELETE_IF: Call = delete_if;
}

mod h {
    use super::code::*;
    use super::shim::*;
    use crate::v::*;

    /// An element, nil being -1000.
    type List = Vec<i64>;
    const NIL: i64 = -1000;

    fn value(x: i64) -> Value {
        if x == NIL { Value::Nil } else { Value::Int(x) }
    }
    fn list(l: &[i64]) -> Value {
        Value::array_from_vec(l.iter().map(|x| value(*x)).collect())
    }
    fn fresh(n: usize) -> List {
        (0..n).map(|_| sym(8) as i64).collect()
    }
    fn is(v: Value, want: i64) -> bool {
        match v {
            Value::Nil => want == NIL,
            Value::Int(i) => i == want,
            _ => false,
        }
    }
    fn holds(v: Value, want: &[i64]) -> bool {
        match v.try_array_ty() {
            Some(a) => a.len() == want.len() && a.iter().zip(want).fold(true, |r, (x, y)| r & is(*x, *y)),
            None => false,
        }
    }
    fn vm(recv: Value) -> Executor {
        Executor { calls: 0, answer: [true; 8], fail_at: 99, shrink_at: 99, shrink_to: 0, recv }
    }
    fn call(f: Call, recv: Value, args: &[Value]) -> Result<Value> {
        let mut a = [None; 3];
        for (i, v) in args.iter().enumerate() {
            a[i] = Some(*v);
        }
        f(&mut vm(recv), &mut Globals { store: Store }, Lfp { recv, args: a, block: false }, BytecodePtr)
    }
    /// Around the array, or as far out as a number goes.
    fn number(far: bool) -> i64 {
        if far {
            [i64::MIN, i64::MIN + 1, -(1 << 62), (1 << 62) - 1, i64::MAX][pick(5)]
        } else {
            sym(4) as i64 - 8
        }
    }
    fn range() -> (Option<i64>, Option<i64>, bool) {
        let s = if pick(2) == 0 { None } else { Some(sym(4) as i64 - 8) };
        let e = match pick(3) {
            0 => None,
            1 => Some(sym(4) as i64 - 8),
            _ => Some([-(1 << 62), (1 << 62) - 1][pick(2)]),
        };
        (s, e, pick(2) == 1)
    }
    fn range_value(r: (Option<i64>, Option<i64>, bool)) -> Value {
        let v = |x: Option<i64>| x.map_or(Value::Nil, Value::Int);
        Value::Range(Box::leak(Box::new(RangeInner { start: v(r.0), end: v(r.1), excl: r.2 })))
    }
    /// Where a range starts, if in front of nothing, and how far it reaches.
    fn resolve(r: (Option<i64>, Option<i64>, bool), len: usize) -> Option<(usize, usize)> {
        let len = len as i64;
        let mut s = r.0.unwrap_or(0);
        if s < 0 {
            s += len;
        }
        if s < 0 {
            return None;
        }
        let e = match r.1 {
            None => len,
            Some(e) => (if e < 0 { e + len } else { e }) + if r.2 { 0 } else { 1 },
        };
        Some((s as usize, if e > s { (e - s) as usize } else { 0 }))
    }
    fn part(l: &[i64], s: usize, n: usize) -> Option<List> {
        if s > l.len() { None } else { Some(l[s..].iter().take(n).copied().collect()) }
    }

    fn answers(r: Result<Value>, want: Option<List>, id: u32) {
        match (r, want) {
            (Ok(v), Some(w)) => {
                check(holds(v, &w), id);
                cover(1);
            }
            (Ok(v), None) => check(v.is_nil(), id + 1),
            (Err(_), _) => check(false, id + 2),
        }
    }

    /// Element, part and range: read, or taken out.
    pub fn read(max: usize, out: bool) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let f = if out { SLICE } else { INDEX };
        let n = l.len() as i64;
        let mut gone = (0, 0);
        match pick(3) {
            0 => {
                let i = number(pick(2) == 1);
                let r = call(f, a, &[Value::Int(i)]);
                let i = conc(i as u64) as i64;
                let at = if i < 0 { i + n } else { i };
                let hit = at >= 0 && at < n;
                let want = if hit { l[at as usize] } else { NIL };
                check(matches!(r, Ok(v) if is(v, want)), 10);
                if hit {
                    gone = (at as usize, 1);
                }
            }
            1 => {
                let i = number(pick(2) == 1);
                let k = number(pick(2) == 1);
                let r = call(f, a, &[Value::Int(i), Value::Int(k)]);
                let (i, k) = (conc(i as u64) as i64, conc(k as u64) as i64);
                let at = if i < 0 { i + n } else { i };
                if at < 0 || at > n || k < 0 {
                    check(matches!(r, Ok(Value::Nil)), 11);
                } else {
                    gone = (at as usize, (k as usize).min((n - at) as usize));
                    answers(r, part(&l, gone.0, gone.1), 12);
                }
            }
            _ => {
                let r = range();
                let got = call(f, a, &[range_value(r)]);
                match resolve(r, l.len()) {
                    Some((s, k)) if s <= l.len() => {
                        gone = (s, k.min(l.len() - s));
                        answers(got, part(&l, s, k), 15);
                    }
                    _ => check(matches!(got, Ok(Value::Nil)), 18),
                }
            }
        }
        let mut rest = l;
        if out {
            rest.drain(gone.0..gone.0 + gone.1);
        }
        check(holds(a, &rest), 19);
        cover(1);
    }

    /// Replaces `k` elements at `s`, filling up with nil.
    fn splice(l: &List, s: usize, k: usize, new: &[i64]) -> List {
        let mut r: List = l.iter().take(s).copied().collect();
        while r.len() < s {
            r.push(NIL);
        }
        r.extend_from_slice(new);
        if s < l.len() {
            r.extend(l[s..].iter().skip(k));
        }
        r
    }
    /// What is assigned: one element, an array, the array itself.
    pub fn assign(max: usize, ranged: bool) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let (new, v) = match pick(4) {
            0 => {
                let x = sym(8) as i64;
                (vec![x], Value::Int(x))
            }
            1 => (vec![NIL], Value::Nil),
            2 => {
                let m = fresh(pick(4));
                let v = list(&m);
                (m, v)
            }
            _ => (l.clone(), a),
        };
        let n = l.len() as i64;
        if ranged {
            let r = range();
            let got = call(ASSIGN, a, &[range_value(r), v]);
            match resolve(r, l.len()) {
                Some((s, k)) => {
                    check(got.is_ok(), 20);
                    check(holds(a, &splice(&l, s, k, &new)), 21);
                }
                None => {
                    check(matches!(got, Err(MonorubyErr::Range)), 22);
                    check(holds(a, &l), 23);
                }
            }
        } else {
            let i = if pick(4) == 3 { [i64::MIN, 1 << 60, i64::MAX][pick(3)] } else { number(false) };
            let k = [sym(3) as i64 - 2, i64::MAX][pick(2)];
            let got = call(ASSIGN, a, &[Value::Int(i), Value::Int(k), v]);
            let (i, k) = (conc(i as u64) as i64, conc(k as u64) as i64);
            let at = if i < 0 { i + n } else { i };
            if at < 0 || k < 0 || at > 100 {
                check(matches!(got, Err(MonorubyErr::Index)), 24);
                check(holds(a, &l), 25);
            } else {
                check(got.is_ok(), 26);
                check(holds(a, &splice(&l, at as usize, k as usize, &new)), 27);
            }
        }
        cover(1);
    }
    /// One element at an index, also one beyond all arrays.
    pub fn store(max: usize) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let i = if pick(2) == 0 { number(false) } else { [i64::MIN, -(1 << 62), 1 << 60, (1 << 62) - 1, i64::MAX][pick(5)] };
        let x = sym(8) as i64;
        let insert = pick(2) == 1;
        let got = if insert { call(INSERT, a, &[Value::Int(i), list(&[x])]) } else { call(ASSIGN, a, &[Value::Int(i), Value::Int(x)]) };
        let i = conc(i as u64) as i64;
        let n = l.len() as i64;
        let at = if i >= 0 { i } else { i + n + if insert { 1 } else { 0 } };
        if at < 0 || at > 100 {
            check(matches!(got, Err(MonorubyErr::Index)), 30);
            check(holds(a, &l), 31);
        } else {
            check(got.is_ok(), 32);
            check(holds(a, &splice(&l, at as usize, if insert { 0 } else { 1 }, &[x])), 33);
        }
        cover(1);
    }
    /// From either end, and one element.
    pub fn ends(max: usize) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let kind = pick(6);
        let f = [FIRST, LAST, TAKE, DROP, SHIFT, POP][kind];
        let len = l.len();
        let mut rest = l.clone();
        if pick(2) == 0 && kind != 2 && kind != 3 {
            let r = call(f, a, &[]);
            let front = kind == 0 || kind == 4;
            let want = if len == 0 { NIL } else if front { l[0] } else { l[len - 1] };
            check(matches!(r, Ok(v) if is(v, want)), 40);
            if kind >= 4 && len > 0 {
                rest.remove(if front { 0 } else { len - 1 });
            }
        } else {
            let n = number(pick(2) == 1);
            let r = call(f, a, &[Value::Int(n)]);
            let n = conc(n as u64) as i64;
            if n < 0 {
                check(matches!(r, Err(MonorubyErr::Arg)), 41);
            } else {
                let k = (n as usize).min(len);
                let (w, left): (&[i64], &[i64]) = match kind {
                    0 | 2 => (&l[..k], &l),
                    1 => (&l[len - k..], &l),
                    3 => (&l[k..], &l),
                    4 => (&l[..k], &l[k..]),
                    _ => (&l[len - k..], &l[..len - k]),
                };
                answers(r, Some(w.to_vec()), 42);
                rest = left.to_vec();
            }
        }
        check(holds(a, &rest), 45);
        cover(1);
    }
    pub fn single(max: usize) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let i = number(pick(2) == 1);
        let del = pick(2) == 1;
        let r = call(if del { DELETE_AT } else { FETCH }, a, &[Value::Int(i)]);
        let i = conc(i as u64) as i64;
        let n = l.len() as i64;
        let at = if i < 0 { i + n } else { i };
        let mut rest = l.clone();
        if at >= 0 && at < n {
            check(matches!(r, Ok(v) if is(v, l[at as usize])), 46);
            if del {
                rest.remove(at as usize);
            }
        } else if del {
            check(matches!(r, Ok(Value::Nil)), 47);
        } else {
            check(matches!(r, Err(MonorubyErr::Index)), 48);
        }
        check(holds(a, &rest), 49);
        cover(1);
    }
    pub fn rotate(max: usize) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let n = match pick(3) {
            0 => None,
            1 => Some(number(false)),
            _ => Some([i64::MIN, i64::MIN + 1, i64::MAX][pick(3)]),
        };
        let own = pick(2) == 1;
        let args = n.map(Value::Int);
        let r = call(if own { ROTATE_ } else { ROTATE }, a, args.as_slice());
        let n = conc(n.unwrap_or(1) as u64) as i64;
        let k = if l.is_empty() { 0 } else { n.rem_euclid(l.len() as i64) as usize };
        let mut w = l[k..].to_vec();
        w.extend_from_slice(&l[..k]);
        answers(r, Some(w.clone()), 50);
        check(holds(a, if own { &w } else { &l }), 53);
    }
    /// `fill(x)`, `fill(x, start)`, `fill(x, start, length)`, `fill(x, range)`, and with a block.
    pub fn fill(max: usize, block: bool) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let x = if block { -5 } else { sym(8) as i64 };
        let len = l.len();
        let mut args = if block { vec![] } else { vec![Value::Int(x)] };
        let mut w = l.clone();
        let mut at = |s: usize, k: usize| {
            while k > 0 && w.len() < s + k {
                w.push(NIL);
            }
            for i in s..s + k {
                w[i] = x;
            }
        };
        let mut bad = None;
        let s = sym(4) as i64 - 8;
        let start = |s: i64| if s >= 0 { s as usize } else { (s + len as i64).max(0) as usize };
        match pick(4) {
            0 => at(0, len),
            1 => {
                let s = conc(s as u64) as i64;
                args.push(Value::Int(s));
                let s = start(s);
                at(s, len.saturating_sub(s));
            }
            2 => {
                let s = conc(s as u64) as i64;
                let k = [-1, 0, 1, 3, i64::MAX][pick(5)];
                args.push(Value::Int(s));
                args.push(Value::Int(k));
                let s = start(s);
                if k == i64::MAX {
                    bad = Some(MonorubyErr::Arg);
                } else if k > 0 {
                    at(s, k as usize);
                } else {
                    assume(k < 0 || s <= len);
                }
            }
            _ => {
                let e = conc(sym(4)) as i64 - 8;
                let s = conc(s as u64) as i64;
                let r = (if pick(2) == 0 { None } else { Some(s) }, if pick(2) == 0 { None } else { Some(e) }, pick(2) == 1);
                args.push(range_value(r));
                match resolve(r, len) {
                    Some((s, k)) => {
                        assume(k > 0 || s <= len);
                        at(s, k);
                    }
                    None => bad = Some(MonorubyErr::Range),
                }
            }
        }
        let mut v = [None; 3];
        for (i, x) in args.iter().enumerate() {
            v[i] = Some(*x);
        }
        let mut m = vm(a);
        if block {
            assume(w.len() <= 8);
        }
        let r = FILL(&mut m, &mut Globals { store: Store }, Lfp { recv: a, args: v, block }, BytecodePtr);
        match bad {
            None => {
                check(r.is_ok(), 54);
                check(holds(a, &w), 55);
            }
            Some(e) => {
                check(matches!(r, Err(f) if f == e), 56);
                check(holds(a, &l), 57);
            }
        }
        cover(1);
    }
    /// Whole arrays: turned round, without nil, joined.
    pub fn whole(max: usize) {
        let mut l = fresh(pick(max + 1));
        for i in 0..l.len() {
            if pick(2) == 1 {
                l[i] = NIL;
            }
        }
        let a = list(&l);
        let other = fresh(pick(3));
        let mut w = l.clone();
        match pick(7) {
            0 => {
                w.reverse();
                answers(call(REVERSE, a, &[]), Some(w), 60);
                w = l;
            }
            1 => {
                w.reverse();
                answers(call(REVERSE_, a, &[]), Some(w.clone()), 60);
            }
            2 => {
                w.retain(|x| *x != NIL);
                answers(call(COMPACT, a, &[]), Some(w), 60);
                w = l;
            }
            3 => {
                w.retain(|x| *x != NIL);
                let changed = w.len() != l.len();
                answers(call(COMPACT_, a, &[]), if changed { Some(w.clone()) } else { None }, 60);
            }
            4 => {
                w.extend_from_slice(&other);
                answers(call(PUSH, a, &[list(&other)]), Some(w.clone()), 60);
            }
            5 => {
                w = other.clone();
                w.extend_from_slice(&l);
                answers(call(UNSHIFT, a, &[list(&other)]), Some(w.clone()), 60);
            }
            _ => {
                w.extend_from_slice(&other);
                w.extend_from_slice(&l);
                let args = Value::array_from_vec(vec![list(&other), a]);
                answers(call(CONCAT, a, &[args]), Some(w.clone()), 60);
            }
        }
        check(holds(a, &w), 63);
        cover(1);
    }
    fn rows(v: Result<Value>, want: &[List], id: u32) {
        match v {
            Ok(v) if v.try_array_ty().is_some() => {
                let a = v.as_array();
                check(a.len() == want.len(), id);
                for (x, w) in a.iter().zip(want) {
                    check(holds(*x, w), id);
                }
            }
            _ => check(false, id),
        }
    }
    pub fn transpose() {
        let l: Vec<List> = (0..pick(4)).map(|_| fresh(pick(4))).collect();
        let a = Value::array_from_vec(l.iter().map(|r| list(r)).collect());
        let r = call(TRANSPOSE, a, &[]);
        let n = l.first().map_or(0, |r| r.len());
        if l.iter().any(|r| r.len() != n) {
            check(matches!(r, Err(MonorubyErr::Index)), 70);
        } else {
            let w: Vec<List> = (0..n).map(|i| l.iter().map(|r| r[i]).collect()).collect();
            rows(r, &w, 71);
        }
        cover(1);
    }
    pub fn product() {
        let (l, m, k) = (fresh(pick(3)), fresh(pick(4)), pick(3));
        let n = fresh(pick(3));
        let mut w: Vec<List> = l.iter().map(|x| vec![*x]).collect();
        let mut lists = vec![];
        for o in [&m, &n].into_iter().take(k) {
            w = w.iter().flat_map(|r| o.iter().map(move |x| [&r[..], &[*x]].concat())).collect();
            lists.push(list(o));
        }
        rows(call(PRODUCT, list(&l), &[Value::array_from_vec(lists)]), &w, 72);
        cover(1);
    }
    /// Arrays in arrays, to three levels.
    fn tree(depth: usize, flat: &mut Vec<(i64, usize)>, level: usize, changed: &mut usize) -> Value {
        let n = pick(3);
        let mut v = vec![];
        for _ in 0..n {
            if depth > 0 && pick(2) == 1 {
                *changed += 1;
                v.push(tree(depth - 1, flat, level + 1, changed));
            } else {
                let x = sym(8) as i64;
                flat.push((x, level));
                v.push(Value::Int(x));
            }
        }
        Value::array_from_vec(v)
    }
    pub fn flatten(depth: usize) {
        let mut flat = vec![];
        let mut inner = 0;
        let a = tree(depth, &mut flat, 0, &mut inner);
        let own = pick(2) == 1;
        let args = [None, Some(Value::Nil), Some(Value::Int(-1)), Some(Value::Int(i64::MAX))][pick(4)];
        let r = call(if own { FLATTEN_ } else { FLATTEN }, a, args.as_slice());
        let w: List = flat.iter().map(|x| x.0).collect();
        if own && inner == 0 {
            check(matches!(r, Ok(Value::Nil)), 74);
            check(holds(a, &w), 75);
        } else {
            answers(r, Some(w.clone()), 76);
            if own {
                check(holds(a, &w), 79);
            }
        }
        cover(1);
    }
    /// One level only.
    pub fn flatten1() {
        let mut w = vec![];
        let mut v = vec![];
        for _ in 0..pick(4) {
            if pick(2) == 1 {
                let inner = fresh(pick(3));
                let deep = list(&[7]);
                let mut i: Vec<Value> = inner.iter().map(|x| Value::Int(*x)).collect();
                i.push(deep);
                w.extend(i.iter().copied());
                v.push(Value::array_from_vec(i));
            } else {
                let x = Value::Int(sym(8) as i64);
                w.push(x);
                v.push(x);
            }
        }
        let a = Value::array_from_vec(v);
        match call(FLATTEN, a, &[Value::Int(1)]) {
            Ok(r) if r.try_array_ty().is_some() => {
                let r = r.as_array();
                check(r.len() == w.len(), 80);
                for (x, y) in r.iter().zip(&w) {
                    check(
                        match (x, y) {
                            (Value::Int(x), Value::Int(y)) => x == y,
                            (Value::Ary(x), Value::Ary(y)) => x == y,
                            _ => false,
                        },
                        80,
                    );
                }
            }
            _ => check(false, 81),
        }
        cover(1);
    }

    /// `select!`, `keep_if`, `reject!`, `delete_if`: with a block that may raise.
    pub fn filter(max: usize) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let kind = pick(4);
        let f = [FILTER_, KEEP_IF, REJECT_, DELETE_IF][kind];
        let mut m = vm(a);
        let mut w = vec![];
        m.fail_at = pick(l.len() + 1);
        for (i, x) in l.iter().enumerate() {
            m.answer[i] = sym_bool();
            if i >= m.fail_at || m.answer[i] != (kind >= 2) {
                w.push(*x);
            }
        }
        let fails = m.fail_at < l.len();
        let r = f(&mut m, &mut Globals { store: Store }, Lfp { recv: a, args: [None; 3], block: true }, BytecodePtr);
        check(holds(a, &w), 82);
        if fails {
            check(matches!(r, Err(MonorubyErr::Block)), 83);
        } else if w.len() == l.len() && kind % 2 == 0 {
            check(matches!(r, Ok(Value::Nil)), 84);
        } else {
            check(matches!(r, Ok(v) if v.id() == a.id()), 85);
        }
        cover(1);
    }
    /// The block, or `==`, takes elements away while the method runs.
    pub fn shrinking(max: usize) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let kind = pick(6);
        let f = [FILTER_, KEEP_IF, REJECT_, DELETE_IF, DELETE, FILL][kind];
        let mut m = vm(a);
        m.shrink_at = pick(max + 1);
        m.shrink_to = pick(max);
        if pick(2) == 1 {
            m.fail_at = pick(max + 1);
        }
        for i in 0..8 {
            m.answer[i] = sym_bool();
        }
        let args = if kind == 4 { [Some(Value::Int(3)), None, None] } else { [None; 3] };
        let r = f(&mut m, &mut Globals { store: Store }, Lfp { recv: a, args, block: kind != 4 }, BytecodePtr);
        check(r.is_ok() || m.fail_at < 99, 86);
        check(a.as_array().len() <= l.len(), 87);
        cover(1);
    }
    pub fn delete(max: usize) {
        let l = fresh(pick(max + 1));
        let a = list(&l);
        let mut m = vm(a);
        let mut eq = vec![];
        for _ in 0..l.len() {
            eq.push(pick(2) == 1);
        }
        // once to see whether there is one, then for each
        let first = eq.iter().position(|x| *x);
        let mut n = 0;
        for i in 0..first.map_or(l.len(), |f| f + 1) {
            m.answer[n] = eq[i];
            n += 1;
        }
        for i in 0..l.len() {
            if n < 8 {
                m.answer[n] = eq[i];
                n += 1;
            }
        }
        let r = DELETE(&mut m, &mut Globals { store: Store }, Lfp { recv: a, args: [Some(Value::Int(3)), None, None], block: false }, BytecodePtr);
        let w: List = l.iter().zip(&eq).filter(|x| !*x.1).map(|x| *x.0).collect();
        let last = l.iter().zip(&eq).filter(|x| *x.1).map(|x| *x.0).last();
        check(matches!(r, Ok(v) if is(v, last.unwrap_or(NIL))), 88);
        check(holds(a, &w), 89);
        cover(1);
    }
}

entries! {
    d01_read_3 => h::read(3, false);
    d01_read_5 => h::read(5, false);
    d01_slice_3 => h::read(3, true);
    d01_slice_5 => h::read(5, true);
    d01_assign_3 => h::assign(3, false);
    d01_assign_5 => h::assign(5, false);
    d01_assign_range_3 => h::assign(3, true);
    d01_assign_range_5 => h::assign(5, true);
    d01_store_3 => h::store(3);
    d01_store_6 => h::store(6);
    d01_ends_4 => h::ends(4);
    d01_single_4 => h::single(4);
    d01_rotate_5 => h::rotate(5);
    d01_fill_3 => h::fill(3, false);
    d01_fill_5 => h::fill(5, false);
    d01_fill_block => h::fill(3, true);
    d01_whole_4 => h::whole(4);
    d01_transpose => h::transpose();
    d01_product => h::product();
    d01_flatten_2 => h::flatten(2);
    d01_flatten1 => h::flatten1();
    d01_filter_4 => h::filter(4);
    d01_filter_6 => h::filter(6);
    d01_shrinking => h::shrinking(3);
    d01_delete_4 => h::delete(4);
}

use super::builtins::{self as b, BytecodePtr, Lfp};
use std::hash::{BuildHasher, Hasher};

/// The key objects other than fixnums: two strings with the same text, two objects that are `eql?`
/// with the same `hash` (which is also that of the strings), one with the builtin `hash`.
const HEAP: usize = 5;
struct W {
    k: [Value; HEAP],
    vm: Executor,
    g: Globals,
}
fn world() -> W {
    W {
        k: [new_string(5), new_string(5), new_user(5), new_user(5), new_plain()],
        vm: Executor { hashes: 0, refuse: false },
        g: Globals { store: Store },
    }
}
/// 0..5: an object, else an unknown small fixnum
fn key(w: &W, i: usize) -> Value {
    if i < HEAP { w.k[i] } else { Value::fixnum(sym(3) as i64) }
}
fn value() -> Value {
    Value::fixnum(sym(40) as i64)
}
fn user(k: Value) -> bool {
    !k.is_packed_value() && k.rv().ty() == ObjTy::OBJECT && !k.rv().plain
}
fn same(ident: bool, a: Value, b: Value) -> bool {
    if ident || a.is_packed_value() || b.is_packed_value() {
        return a.id() == b.id();
    }
    let (x, y) = (a.rv(), b.rv());
    a.id() == b.id() || x.ty == y.ty && !x.plain && !y.plain && x.code == y.code && x.string == y.string
}

#[derive(Clone, Copy, PartialEq)]
enum Def {
    No,
    Val(Value),
    Proc(Value),
}
/// The hash and what it should be. While it is being iterated over, entries keep their slots.
struct T {
    h: Value,
    slots: Vec<Option<(Value, Value)>>,
    ident: bool,
    def: Def,
    guards: Vec<Value>,
}
impl T {
    fn new(h: Value) -> T {
        T { h, slots: vec![], ident: false, def: Def::No, guards: vec![] }
    }
    fn find(&self, k: Value) -> Option<usize> {
        let mut r = None;
        for (i, s) in self.slots.iter().enumerate() {
            if let Some((x, _)) = s {
                if same(self.ident, *x, k) {
                    r = Some(i);
                }
            }
        }
        r
    }
    fn live(&self) -> usize {
        self.slots.iter().flatten().count()
    }
    fn iterating(&self) -> bool {
        !self.guards.is_empty()
    }
    fn tidy(&mut self) {
        if !self.iterating() {
            self.slots.retain(|s| s.is_some())
        }
    }
    fn kill(&mut self, i: usize) -> (Value, Value) {
        let r = self.slots[i].take().unwrap();
        self.tidy();
        r
    }
    fn f(&self, a: Value, b: Value) -> Lfp {
        Lfp(self.h, [a, b])
    }

    fn insert(&mut self, w: &mut W, k: Value, v: Value) {
        self.h.rv().remembered = false;
        let r = b::index_assign(&mut w.vm, &mut w.g, self.f(k, v), BytecodePtr);
        if w.vm.refuse && user(k) && !self.ident {
            check(r == Err(MonorubyErr::User) || self.iterating() && self.live() == 0 && r.is_err(), 1);
            return;
        }
        match self.find(k) {
            Some(i) => {
                check(r == Ok(v), 2);
                let k = self.slots[i].unwrap().0;
                self.slots[i] = Some((k, v));
            }
            None if self.iterating() => {
                check(r == Err(MonorubyErr::Runtime), 3);
                return;
            }
            None => {
                check(r == Ok(v), 4);
                self.tidy();
                self.slots.push(Some((k, v)));
                check(k.is_packed_value() || self.h.rv().remembered, 5);
            }
        }
        check(v.is_packed_value() || self.h.rv().remembered, 6);
    }
    fn remove(&mut self, w: &mut W, k: Value) {
        let r = b::delete(&mut w.vm, &mut w.g, self.f(k, Value::nil()), BytecodePtr);
        if w.vm.refuse && user(k) && !self.ident {
            // nothing to compare with: `hash` need not be called
            check(r == Err(MonorubyErr::User) || self.live() == 0 && r == Ok(Value::nil()), 7);
            return;
        }
        match self.find(k) {
            Some(i) => {
                let (_, v) = self.kill(i);
                check(r == Ok(v), 8);
            }
            None => check(r == Ok(Value::nil()), 9),
        }
    }
    fn shift(&mut self, w: &mut W) {
        let r = self.h.as_hash().shift(&mut w.vm, &mut w.g);
        match self.slots.iter().position(|s| s.is_some()) {
            Some(i) => {
                let kv = self.kill(i);
                check(r == Ok(Some(kv)), 10);
            }
            None => check(r == Ok(None), 11),
        }
    }
    fn clear(&mut self, w: &mut W) {
        let r = b::clear(&mut w.vm, &mut w.g, self.f(self.h, self.h), BytecodePtr);
        if self.iterating() {
            check(r == Err(MonorubyErr::Runtime), 12);
        } else {
            check(r == Ok(self.h), 13);
            self.slots.clear();
        }
    }
    fn by_identity(&mut self, w: &mut W) {
        let r = b::compare_by_identity(&mut w.vm, &mut w.g, self.f(self.h, self.h), BytecodePtr);
        if self.iterating() {
            check(r == Err(MonorubyErr::Runtime), 14);
        } else {
            check(r == Ok(self.h), 15);
            self.ident = true;
        }
    }
    fn default(&mut self, w: &mut W, d: Def) {
        self.h.rv().remembered = false;
        let r = match d {
            Def::No => self.h.as_hash().set_defalut_value(Value::nil(), &mut w.vm, &mut w.g),
            Def::Val(v) => self.h.as_hash().set_defalut_value(v, &mut w.vm, &mut w.g),
            Def::Proc(p) => self.h.as_hash().set_defalut_proc(Proc(p), &mut w.vm, &mut w.g),
        };
        check(r == Ok(()), 16);
        self.def = d;
        if let Def::Val(v) | Def::Proc(v) = d {
            check(v.is_packed_value() || self.h.rv().remembered, 17);
        }
    }
    fn begin(&mut self, w: &mut W) {
        let r = b::iter_begin(&mut w.vm, &mut w.g, self.f(self.h, self.h), BytecodePtr);
        self.tidy_at_begin();
        self.guards.push(r.unwrap());
    }
    /// Slots left dead by an earlier loop may still be there.
    fn tidy_at_begin(&mut self) {
        if !self.iterating() {
            let n = self.h.as_hash().entry_count();
            let mut s = vec![];
            let mut old = self.slots.iter().flatten();
            for i in 0..n {
                if self.h.as_hash().live_at(i) {
                    s.push(old.next().copied());
                    check(s[i].is_some(), 18);
                } else {
                    s.push(None);
                }
            }
            check(old.next().is_none(), 19);
            self.slots = s;
        }
    }
    fn end(&mut self, w: &mut W) {
        if let Some(x) = self.guards.pop() {
            let _ = b::iter_end(&mut w.vm, &mut w.g, self.f(x, x), BytecodePtr);
            self.tidy();
        }
    }
    fn store_at(&mut self, w: &mut W, i: usize, v: Value) {
        if self.iterating() || self.slots.len() == self.h.as_hash().entry_count() {
            let r = b::set_value_at(&mut w.vm, &mut w.g, self.f(Value::fixnum(i as i64), v), BytecodePtr);
            check(r == Ok(v), 20);
            if i < self.slots.len() {
                if let Some((k, _)) = self.slots[i] {
                    self.slots[i] = Some((k, v));
                }
            }
        }
    }
    fn replace(&mut self, w: &mut W, o: &T) {
        self.h.rv().remembered = false;
        let r = b::replace(&mut w.vm, &mut w.g, self.f(o.h, o.h), BytecodePtr);
        if self.iterating() {
            check(r == Err(MonorubyErr::Runtime), 21);
        } else {
            check(r == Ok(self.h), 22);
            self.slots = o.slots.iter().flatten().map(|x| Some(*x)).collect();
            self.ident = o.ident;
            self.def = o.def;
            check(self.h.rv().remembered || self.slots.iter().flatten().all(|(k, v)| k.is_packed_value() && v.is_packed_value()), 23);
        }
    }
    fn mode_empty(&mut self, w: &mut W, ident: bool) {
        self.clear(w);
        if !self.iterating() {
            check(self.h.as_hash().set_compare_by_identity_empty(ident) == Ok(()), 24);
            self.ident = ident;
        }
    }
    /// A copy: by the builtin, by the object's dup, or by taking the table only.
    fn dup(&self, w: &mut W, how: usize) -> T {
        let h = match how {
            0 => Value::hash_from_inner(self.h.as_hashmap_inner().clone_inner()),
            1 => dup_hash(self.h),
            _ => b::dup_table(&mut w.vm, &mut w.g, self.f(self.h, self.h), BytecodePtr).unwrap(),
        };
        T {
            h,
            slots: self.slots.iter().flatten().map(|x| Some(*x)).collect(),
            ident: self.ident,
            def: if how == 2 { Def::No } else { self.def },
            guards: vec![],
        }
    }

    fn lookup(&self, w: &mut W, k: Value) {
        let e = self.find(k).map(|i| self.slots[i].unwrap().1);
        let once = (user(k) && !self.ident) as u32;
        w.vm.hashes = 0;
        check(self.h.as_hash().get(k, &mut w.vm, &mut w.g) == Ok(e), 30);
        check(w.vm.hashes == once || self.live() == 0 && w.vm.hashes == 0, 31);
        w.vm.hashes = 0;
        check(self.h.as_hash().contains_key(k, &mut w.vm, &mut w.g) == Ok(e.is_some()), 32);
        check(w.vm.hashes == once || self.live() == 0 && w.vm.hashes == 0, 33);
        let d = match self.def {
            Def::No => Value::nil(),
            Def::Val(v) | Def::Proc(v) => v,
        };
        check(self.h.as_hash().index(&mut w.vm, &mut w.g, k) == Ok(e.unwrap_or(d)), 34);
    }
    fn compare(&self, w: &mut W) {
        let h = self.h.as_hash();
        check(h.len() == self.live(), 40);
        check(h.is_empty() == (self.live() == 0), 41);
        check(h.is_compare_by_identity() == self.ident, 42);
        check(h.check_iter().is_err() == self.iterating(), 43);
        match self.def {
            Def::No => check(h.defalut_value() == Some(Value::nil()) && h.defalut_proc().is_none() && h.default_value().is_none(), 44),
            Def::Val(v) => check(h.defalut_value() == Some(v) && h.defalut_proc().is_none() && h.default_value() == Some(v), 45),
            Def::Proc(p) => check(h.defalut_value().is_none() && h.defalut_proc().is_some_and(|x| x.0 == p) && h.default_value().is_none(), 46),
        }
        let mut it = h.iter();
        for e in self.slots.iter().flatten() {
            check(it.next() == Some(*e), 47);
        }
        check(it.next().is_none(), 48);
        if self.iterating() {
            check(h.entry_count() == self.slots.len(), 49);
            for (i, e) in self.slots.iter().enumerate() {
                check(h.entry_at(i) == *e && h.live_at(i) == e.is_some(), 50);
            }
        }
        check(h.entry_count() >= self.live(), 51);
        let n = h.entry_count();
        check(h.entry_at(n).is_none() && !h.live_at(n), 52);
        // the collector finds every reference
        let mut a = super::alloc::Allocator(vec![], std::marker::PhantomData);
        super::alloc::GC::mark(&self.h.as_hashmap_inner(), &mut a);
        let mut young = false;
        let mut see = |v: Value| {
            if !v.is_packed_value() {
                check(a.0.contains(&v.id()), 53);
                young |= !v.rv().old;
            }
        };
        for (k, v) in self.slots.iter().flatten() {
            see(*k);
            see(*v);
        }
        if let Def::Val(v) | Def::Proc(v) = self.def {
            see(v)
        }
        check(self.h.as_hashmap_inner().young_child_exists(&a) == young, 54);
        for i in 0..HEAP {
            self.lookup(w, w.k[i]);
        }
    }
    fn finish(mut self, w: &mut W) {
        while self.iterating() {
            self.end(w);
        }
        check(self.h.as_hash().check_iter().is_ok(), 55);
        free(self.h);
    }
}

/// A hash in one of the forms it can have: `n` fixnum keys, some replaced by objects, by identity or
/// not, with a default or not, with entries deleted in a loop that is over.
fn state(w: &mut W, form: usize) -> T {
    let (n, heap, ident, def, dead) = [
        (0, 0, false, false, 0),
        (2, 0, false, false, 0),
        (3, 0, false, false, 0),
        (4, 0, false, false, 0),
        (3, 2, false, false, 0),
        (3, 2, true, false, 0),
        (5, 2, true, false, 0),
        (2, 1, false, true, 0),
        (2, 1, true, true, 0),
        (5, 1, false, false, 2),
        (4, 2, true, false, 2),
        (3, 0, false, false, 3),
        (2, 0, false, true, 2),
    ][form];
    let mut t = T::new(Value::hash_from_inner(HashmapInner::default()));
    if ident {
        t.by_identity(w);
    }
    for i in 0..n {
        let k = if i < heap { w.k[2 * i] } else { Value::fixnum(i as i64) };
        t.insert(w, k, Value::fixnum(100 + i as i64));
    }
    if def {
        t.default(w, Def::Val(Value::fixnum(77)));
    }
    if dead > 0 {
        t.begin(w);
        for i in 0..dead {
            let k = t.slots[i + (n > dead) as usize].unwrap().0;
            t.remove(w, k);
        }
        t.end(w);
    }
    t
}
const STATES: usize = 13;

fn op(w: &mut W, t: &mut T, o: usize) {
    match o {
        0..=4 => {
            let k = key(w, o);
            t.insert(w, k, value());
        }
        5 => {
            let k = key(w, HEAP);
            t.insert(w, k, value());
        }
        6..=9 => {
            let k = key(w, o - 6);
            t.remove(w, k);
        }
        10 => {
            let k = key(w, HEAP);
            t.remove(w, k);
        }
        11 => t.clear(w),
        12 => t.shift(w),
        13 => t.by_identity(w),
        14 => t.default(w, Def::No),
        15 => {
            let d = w.k[4];
            t.default(w, Def::Val(d))
        }
        16 => {
            let p = w.k[4];
            t.default(w, Def::Proc(p))
        }
        17 => t.begin(w),
        18 => t.end(w),
        19 => t.store_at(w, 1, value()),
        20 => {
            // a copy does not notice what happens to the original, nor the other way round
            let c = t.dup(w, pick(3));
            t.insert(w, Value::fixnum(50), value());
            c.compare(w);
            let mut c = c;
            c.insert(w, Value::fixnum(51), value());
            c.finish(w);
        }
        21 => {
            let f = [0, 2, 4, 5, 6, 8, 9][pick(7)];
            let o = state(w, f);
            t.replace(w, &o);
            o.compare(w);
            o.finish(w);
        }
        22 => t.mode_empty(w, true),
        23 => t.mode_empty(w, false),
        _ => {
            w.vm.refuse = true;
            let k = w.k[2];
            t.insert(w, k, value());
            t.remove(w, k);
            let k = w.k[3];
            t.remove(w, k);
            let r = t.h.as_hash().get(k, &mut w.vm, &mut w.g);
            check(r.is_err() == !t.ident || t.live() == 0, 25);
            w.vm.refuse = false;
        }
    }
}
const OPS: usize = 25;

/// One form, an operation, possibly a loop begun, another operation: like the list.
fn steps(form: usize, third: bool) {
    let l0 = live();
    {
        let mut w = world();
        let mut t = state(&mut w, form);
        let n = pick(2);
        for _ in 0..n {
            t.begin(&mut w);
        }
        let o = pick(OPS);
        op(&mut w, &mut t, o);
        let o = pick(OPS);
        op(&mut w, &mut t, o);
        if third {
            let o = [0, 5, 6, 10, 12, 17, 18][pick(7)];
            op(&mut w, &mut t, o);
        }
        t.compare(&mut w);
        let k = key(&w, HEAP);
        t.lookup(&mut w, k);
        cover(1);
        t.finish(&mut w);
        for k in w.k {
            free(k)
        }
    }
    check(live() == l0, 60);
}

/// Tables around the sizes at which rubymap changes its form: delete some in a loop (and go on in it),
/// then grow.
fn big(n: usize, ident: bool, sized: bool) {
    let l0 = live();
    {
        let mut w = world();
        let mut t = T::new(if sized { Value::hash_with_capacity(n) } else { Value::hash_from_inner(HashmapInner::default()) });
        if ident {
            t.by_identity(&mut w);
        }
        for i in 0..n {
            let k = match i {
                1 => w.k[0],
                3 => w.k[2],
                _ => Value::fixnum(i as i64),
            };
            t.insert(&mut w, k, Value::fixnum(100 + i as i64));
        }
        if pick(2) == 0 {
            t.begin(&mut w);
        }
        let o = [6, 10, 12][pick(3)];
        op(&mut w, &mut t, o);
        if pick(2) == 0 {
            t.end(&mut w);
        }
        let o = [1, 5, 10, 20][pick(4)];
        op(&mut w, &mut t, o);
        if pick(2) == 0 {
            t.end(&mut w);
            for i in 0..pick(3) {
                t.insert(&mut w, Value::fixnum(60 + i as i64), value());
            }
        } else {
            t.compare(&mut w);
            t.by_identity(&mut w);
        }
        t.compare(&mut w);
        let k = Value::fixnum(sym(6) as i64);
        t.lookup(&mut w, k);
        cover(1);
        t.finish(&mut w);
        for k in w.k {
            free(k)
        }
    }
    check(live() == l0, 60);
}

/// Loops within loops, more than the inline form can count, left in order.
fn depth(form: usize) {
    let mut w = world();
    let mut t = state(&mut w, form);
    let n = pick(7);
    for i in 0..n {
        t.begin(&mut w);
        if i == 3 {
            let o = [6, 10, 15, 18, 5][pick(5)];
            op(&mut w, &mut t, o);
        }
    }
    t.compare(&mut w);
    let m = pick(7);
    for _ in 0..m {
        t.end(&mut w);
    }
    let o = [5, 10, 11, 13][pick(4)];
    op(&mut w, &mut t, o);
    t.compare(&mut w);
    cover(1);
    t.finish(&mut w);
}

// K01: `eql?` and `hash` of values

/// What a value is made of, so that two of the same kind are `eql?` exactly when the fields are equal.
#[derive(Clone, Copy, PartialEq)]
struct D {
    kind: usize,
    x: u64,
    y: u64,
    z: u64,
}
const KINDS: usize = 12;
fn make(kind: usize) -> (Value, D) {
    let d = |x, y, z| D { kind, x, y, z };
    match kind {
        0 => {
            let x = sym(62);
            (Value::fixnum(x as i64), d(x, 0, 0))
        }
        1 => {
            let x = sym(61);
            (Value::flonum(x), d(x, 0, 0))
        }
        2 => {
            let x = sym(64);
            (new_big((1 << 64) + x as i128), d(x, 0, 0))
        }
        3 => {
            // what does not fit the immediate form: -0.0, tiny, huge (an infinity is just one more)
            let x = sym(2) << 63 | (0x7ff << 52 & 0u64.wrapping_sub(sym(1)));
            assume(x != 0);
            (new_float(f64::from_bits(x)), d(x, 0, 0))
        }
        4 => {
            let x = sym(64);
            (new_string(x), d(x, 0, 0))
        }
        5 => {
            let x = sym(32);
            (Value::symbol(x), d(x, 0, 0))
        }
        6 => {
            let c = pick(3);
            ([Value::nil(), Value::bool(true), Value::bool(false)][c], d(c as u64, 0, 0))
        }
        7 => {
            let (x, y, z) = (sym(8), sym(8), sym(1));
            (new_range(Value::fixnum(x as i64), Value::fixnum(y as i64), z != 0), d(x, y, z))
        }
        8 => {
            let (x, y) = (sym(8), sym(8));
            (new_array(vec![Value::fixnum(x as i64), Value::fixnum(y as i64)]), d(x, y, 2))
        }
        9 => {
            let x = sym(8);
            (new_array(vec![Value::fixnum(x as i64)]), D { kind: 8, x, y: 0, z: 1 })
        }
        10 => {
            let x = sym(1);
            (new_user(x), d(x, 0, 0))
        }
        _ => {
            let v = new_plain();
            (v, d(v.id(), 0, 0))
        }
    }
}
fn digests(w: &mut W, v: Value) -> (u64, u64) {
    let mut h = Bh.build_hasher();
    check(rubymap::RubyHash::ruby_hash(&Some(v), &mut h, &mut w.vm, &mut w.g).is_ok(), 70);
    (v.calculate_hash(&mut w.vm, &mut w.g).unwrap(), h.finish())
}
fn eql(w: &mut W, a: Value, b: Value) -> bool {
    rubymap::RubyEql::eql(&a, &b, &mut w.vm, &mut w.g).unwrap()
}
/// `eql?` is what it should be, in both directions, and what is `eql?` has the same `hash`.
fn agree(w: &mut W, a: Value, b: Value, e: bool) {
    check(eql(w, a, b) == e, 71);
    check(eql(w, b, a) == e, 72);
    if e {
        let (x, y) = (digests(w, a), digests(w, b));
        check(x == y, 73);
    }
    check(guards_clear(), 74);
}
fn values(kind: usize) {
    let mut w = world();
    let (a, x) = make(kind);
    let (b, y) = make(pick(KINDS));
    let e = if x.kind == 3 && y.kind == 3 { f64::from_bits(x.x) == f64::from_bits(y.x) } else { x == y };
    agree(&mut w, a, b, e);
    agree(&mut w, a, a, true);
    if kind < 2 || kind == 5 || kind == 6 || kind == 4 {
        // the short cut taken for immediates and strings
        check(fast_digest(a) as u64 == digests(&mut w, a).1, 75);
    }
    cover(1);
}
/// A hash of these pairs: inline, boxed, or with a dead entry, by identity or not.
fn hash_of(w: &mut W, form: usize, p: &[(Value, Value)]) -> Value {
    let mut t = T::new(Value::hash_from_inner(HashmapInner::default()));
    if form >= 3 {
        t.by_identity(w);
    }
    if form % 3 == 1 {
        t.default(w, Def::Val(Value::fixnum(1)));
        t.default(w, Def::No);
    }
    if form % 3 == 2 {
        t.insert(w, Value::symbol(9), Value::nil());
        t.begin(w);
    }
    let dead = form % 3 == 2;
    if dead {
        t.remove(w, Value::symbol(9));
        t.end(w);
        t.insert(w, Value::symbol(8), Value::nil());
    }
    for (k, v) in p {
        t.insert(w, *k, *v);
    }
    if dead {
        t.begin(w);
        t.remove(w, Value::symbol(8));
        t.end(w);
    }
    t.h
}
/// Hashes are equal when they hold the same pairs, whatever the order and form; so are their digests.
fn hashes(n: usize, same_order: bool) {
    let mut w = world();
    let ks: Vec<Value> = (0..n).map(|i| if i == 1 { w.k[0] } else { Value::fixnum(i as i64) }).collect();
    let vs: Vec<u64> = (0..2 * n).map(|_| sym(4)).collect();
    let mut p: Vec<_> = (0..n).map(|i| (ks[i], Value::fixnum(vs[i] as i64))).collect();
    let (f, g) = (pick(6), pick(6));
    let a = hash_of(&mut w, f, &p);
    let last = pick(3);
    for i in 0..n {
        p[i] = (if i == 1 && pick(2) == 1 { w.k[1] } else { ks[i] }, Value::fixnum(vs[n + i] as i64));
    }
    if last == 1 && n > 0 {
        p[n - 1].0 = Value::symbol(3);
    }
    if last == 2 {
        p.pop();
    }
    let other = p.len() > 1 && p[1].0.id() != ks[1].id() && f >= 3;
    if !same_order {
        p.reverse();
    }
    let b = hash_of(&mut w, g, &p);
    let mut e = (f >= 3) == (g >= 3) && !(last > 0 && n > 0) && !other;
    for i in 0..n {
        e &= vs[i] == vs[n + i];
    }
    agree(&mut w, a, b, e);
    // as a key, and inside an array
    let (x, y) = (new_array(vec![a]), new_array(vec![b]));
    agree(&mut w, x, y, e);
    let mut t = T::new(Value::hash_from_inner(HashmapInner::default()));
    check(t.h.as_hash().insert(a, Value::bool(true), &mut w.vm, &mut w.g).is_ok(), 76);
    check(t.h.as_hash().get(b, &mut w.vm, &mut w.g) == Ok(if e { Some(Value::bool(true)) } else { None }), 77);
    t.slots.clear();
    cover(1);
}
/// 0.0 (immediate) and -0.0 (an object) are `eql?`, so they are one key.
fn zero() {
    let mut w = world();
    let (a, b) = (Value::flonum(1 << 61), new_float(-0.0));
    check(eql(&mut w, a, b) && eql(&mut w, b, a) && digests(&mut w, a) == digests(&mut w, b), 81);
    cover(1);
}
/// Containers that contain themselves are compared and hashed, and an error in the middle leaves no trace.
fn cyclic() {
    let mut w = world();
    let (a, b) = (new_array(vec![]), new_array(vec![]));
    let x = Value::fixnum(sym(8) as i64);
    let y = Value::fixnum(sym(8) as i64);
    a.rv().array.0 = vec![x, a];
    b.rv().array.0 = vec![y, b];
    agree(&mut w, a, b, x.id() == y.id());
    let h = hash_of(&mut w, 0, &[(Value::fixnum(0), x)]);
    let i = hash_of(&mut w, 1, &[(Value::fixnum(0), y)]);
    check(h.as_hash().insert(Value::symbol(1), h, &mut w.vm, &mut w.g).is_ok(), 78);
    check(i.as_hash().insert(Value::symbol(1), i, &mut w.vm, &mut w.g).is_ok(), 78);
    agree(&mut w, h, i, x.id() == y.id());
    let u = w.k[2];
    a.rv().array.0 = vec![x, u];
    b.rv().array.0 = vec![y, w.k[3]];
    w.vm.refuse = true;
    check(a.calculate_hash(&mut w.vm, &mut w.g).is_err(), 79);
    let r = rubymap::RubyEql::eql(&a, &b, &mut w.vm, &mut w.g);
    check(r.is_err() == (x.id() == y.id()) && r != Ok(true), 80);
    w.vm.refuse = false;
    check(guards_clear(), 74);
    agree(&mut w, a, b, x.id() == y.id());
    cover(1);
}

entries! {
    k01_values_0 => values(0);
    k01_values_1 => values(1);
    k01_values_2 => values(2);
    k01_values_3 => values(3);
    k01_values_4 => values(4);
    k01_values_5 => values(5);
    k01_values_6 => values(6);
    k01_values_7 => values(7);
    k01_values_8 => values(8);
    k01_values_9 => values(9);
    k01_values_10 => values(10);
    k01_values_11 => values(11);
    k01_hashes_0 => hashes(0, true);
    k01_hashes_1 => hashes(1, true);
    k01_hashes_2 => hashes(2, true);
    k01_hashes_5 => hashes(5, true);
    k01_order_2 => hashes(2, false);
    k01_order_3 => hashes(3, false);
    k01_order_9 => hashes(9, false);
    k01_cyclic => cyclic();
    u01_steps_0 => steps(0, false);
    u01_more_0 => steps(0, true);
    u01_steps_1 => steps(1, false);
    u01_more_1 => steps(1, true);
    u01_steps_2 => steps(2, false);
    u01_more_2 => steps(2, true);
    u01_steps_3 => steps(3, false);
    u01_more_3 => steps(3, true);
    u01_steps_4 => steps(4, false);
    u01_more_4 => steps(4, true);
    u01_steps_5 => steps(5, false);
    u01_more_5 => steps(5, true);
    u01_steps_6 => steps(6, false);
    u01_more_6 => steps(6, true);
    u01_steps_7 => steps(7, false);
    u01_more_7 => steps(7, true);
    u01_steps_8 => steps(8, false);
    u01_more_8 => steps(8, true);
    u01_steps_9 => steps(9, false);
    u01_more_9 => steps(9, true);
    u01_steps_10 => steps(10, false);
    u01_more_10 => steps(10, true);
    u01_steps_11 => steps(11, false);
    u01_more_11 => steps(11, true);
    u01_steps_12 => steps(12, false);
    u01_more_12 => steps(12, true);
    u01_depth_1 => depth(1);
    u01_depth_2 => depth(5);
    u01_depth_3 => depth(9);
    u01_big_8 => big(8, false, false);
    u01_big_9 => big(9, false, false);
    u01_big_15 => big(15, false, false);
    u01_big_i8 => big(8, true, false);
    u01_big_i9 => big(9, true, false);
    u01_sized_8 => big(8, false, true);
    u01_sized_9 => big(9, false, true);
    u01_sized_i9 => big(9, true, true);
    k01_zero_known => zero();
}

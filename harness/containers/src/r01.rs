//! R01: the provided key types.
use crate::v::*;
use ruby_traits::{Equivalent, RubyEql, RubyHash, SymEquivalent};
use std::hash::Hasher;

/// Everything written to the hasher.
struct Rec {
    n: usize,
    b: [u8; 96],
}
impl Rec {
    fn new() -> Rec {
        Rec { n: 0, b: [0; 96] }
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, x: &[u8]) {
        let mut i = 0;
        while i < x.len() {
            self.b[self.n] = x[i];
            self.n += 1;
            i += 1;
        }
    }
}
fn same(a: &Rec, b: &Rec) -> bool {
    let mut r = a.n == b.n;
    let mut i = 0;
    while i < 96 {
        r = r & (a.b[i] == b.b[i]);
        i += 1;
    }
    r
}
fn eq<T: RubyEql<(), (), ()> + ?Sized>(a: &T, b: &T) -> bool {
    match a.eql(b, &mut (), &mut ()) {
        Ok(x) => x,
        Err(()) => {
            check(false, 1);
            false
        }
    }
}
fn rec<T: RubyHash<(), (), ()> + ?Sized>(a: &T) -> Rec {
    let mut r = Rec::new();
    check(a.ruby_hash(&mut r, &mut (), &mut ()).is_ok(), 2);
    r
}
fn equiv<Q: Equivalent<K, (), (), ()> + ?Sized, K: ?Sized>(q: &Q, k: &K) -> bool {
    match q.equivalent(k, &mut (), &mut ()) {
        Ok(x) => x,
        Err(()) => {
            check(false, 3);
            false
        }
    }
}
/// the laws for two keys of which `want` says whether they are the same
fn laws<T: RubyEql<(), (), ()> + RubyHash<(), (), ()> + ?Sized>(a: &T, b: &T, want: bool) {
    check(eq(a, b) == want, 10);
    check(eq(b, a) == want, 11);
    check(eq(a, a) && eq(b, b), 12);
    check(!want || same(&rec(a), &rec(b)), 13);
    check(equiv(a, b) == want, 14);
    check(same(&rec(a), &rec(a)), 15);
}
/// and through the reference forms
macro_rules! refs {
    ($a:ident, $b:ident, $want:ident) => {{
        laws(&$a, &$b, $want);
        laws(&&$a, &&$b, $want);
        check(same(&rec(&$a), &rec(&&$a)), 16);
        let (mut x, mut y) = ($a.clone(), $b.clone());
        let (mx, my) = (&mut x, &mut y);
        check(eq(&mx, &my) == $want, 17);
        check(same(&rec(&mx), &rec(&$a)), 18);
    }};
}
macro_rules! ints {
    ($($t:ty, $bits:literal);*) => {{
        let mut k = pick(10);
        $(
            if k == 0 {
                let (x, y) = (sym($bits), sym($bits));
                let (a, b) = (x as $t, y as $t);
                let want = x == y;
                refs!(a, b, want);
                let (p, q) = (Some(a), Some(b));
                laws(&p, &q, want);
                let n: Option<$t> = None;
                laws(&n, &p, false);
                laws(&n, &None, true);
            }
            k = k.wrapping_sub(1);
        )*
        let _ = k;
    }};
}
fn ints() {
    ints!(i8, 8; u8, 8; i16, 16; u16, 16; i32, 32; u32, 32; i64, 64; u64, 64; isize, 64; usize, 64);
    cover(1);
}
fn others() {
    match pick(3) {
        0 => {
            let (a, b) = (sym_bool(), sym_bool());
            let want = a == b;
            refs!(a, b, want);
        }
        1 => {
            let (x, y) = (sym(21) as u32, sym(21) as u32);
            if let (Some(a), Some(b)) = (char::from_u32(x), char::from_u32(y)) {
                let want = x == y;
                refs!(a, b, want);
            }
        }
        _ => laws(&(), &(), true),
    }
    cover(1);
}
/// strings of any bytes below 128 and of two-byte characters
fn text(n: usize) -> (String, Vec<u64>) {
    let mut s = String::new();
    let mut m = Vec::new();
    let mut i = 0;
    while i < n {
        if i + 1 < n && pick(2) == 1 {
            let c = sym(6) | 0x80;
            m.push(c);
            unsafe {
                s.as_mut_vec().push(0xc2);
                s.as_mut_vec().push(c as u8);
            }
            assume(c < 0xc0);
            i += 1;
        } else {
            let c = sym(7);
            m.push(c);
            unsafe { s.as_mut_vec().push(c as u8) };
        }
        i += 1;
    }
    (s, m)
}
fn strings(n: usize) {
    let (a, ma) = text(pick(n + 1));
    let (b, mb) = text(pick(n + 1));
    let mut want = ma.len() == mb.len();
    let mut i = 0;
    while i < ma.len() && i < mb.len() {
        want = want & (ma[i] == mb[i]);
        i += 1;
    }
    laws(&a, &b, want);
    laws::<str>(&a, &b, want);
    // a borrowed form finds the owned key: equal and hashed alike
    check(equiv::<str, String>(&a, &b) == want, 20);
    check(!want || same(&rec::<str>(&a), &rec(&b)), 21);
    laws(&Some(a.clone()), &Some(b.clone()), want);
    check(eq(&a.as_str(), &b.as_str()) == want, 22);
    check(same(&rec(&a.as_str()), &rec(&a)), 23);
    cover(1);
}
fn vecs(n: usize) {
    let mut v = [Vec::new(), Vec::new()];
    let mut j = 0;
    while j < 2 {
        let k = pick(n + 1);
        let mut i = 0;
        while i < k {
            v[j].push(sym(32) as u32);
            i += 1;
        }
        j += 1;
    }
    let [a, b] = v;
    let mut want = a.len() == b.len();
    let mut i = 0;
    while i < a.len() && i < b.len() {
        want = want & (a[i] == b[i]);
        i += 1;
    }
    laws(&a, &b, want);
    check(eq(&a[..], &b[..]) == want && eq(&b[..], &a[..]) == want, 30);
    check(equiv::<[u32], Vec<u32>>(&a, &b) == want, 31);
    laws(&Some(a.clone()), &Some(b.clone()), want);
    cover(1);
}
fn nested() {
    let (n0, n1) = (pick(3), pick(3));
    let mut a: Vec<Vec<Option<u8>>> = Vec::new();
    let mut b = Vec::new();
    let mut want = true;
    let mut j = 0;
    while j < 2 {
        let (la, lb) = if j == 0 { (n0, n1) } else { (1, 1) };
        let (mut p, mut q) = (Vec::new(), Vec::new());
        want = want & (la == lb);
        let mut i = 0;
        while i < la || i < lb {
            let (x, y) = (sym(9), sym(9));
            let o = |x: u64| if x < 256 { Some(x as u8) } else { None };
            if i < la {
                p.push(o(x));
            }
            if i < lb {
                q.push(o(y));
            }
            if i < la && i < lb {
                want = want & (o(x) == o(y));
            }
            i += 1;
        }
        a.push(p);
        b.push(q);
        j += 1;
    }
    laws(&a, &b, want);
    cover(1);
}

/// an element whose n-th comparison or hashing fails
struct F(u8);
struct Ctx {
    left: u64,
    calls: u64,
}
impl Ctx {
    fn call(&mut self, code: u8) -> Result<(), u64> {
        self.calls += 1;
        self.left = self.left.wrapping_sub(1);
        if self.left == 0 {
            Err(1000 + code as u64)
        } else {
            Ok(())
        }
    }
}
impl RubyEql<Ctx, (), u64> for F {
    fn eql(&self, o: &Self, e: &mut Ctx, _: &mut ()) -> Result<bool, u64> {
        e.call(self.0)?;
        Ok(self.0 == o.0)
    }
}
impl RubyHash<Ctx, (), u64> for F {
    fn ruby_hash<H: Hasher>(&self, s: &mut H, e: &mut Ctx, _: &mut ()) -> Result<(), u64> {
        e.call(self.0)?;
        s.write_u8(self.0);
        Ok(())
    }
}
fn errors(n: usize) {
    let (la, lb) = (pick(n + 1), pick(n + 1));
    let a: Vec<F> = (0..la).map(|_| F(sym8())).collect();
    let b: Vec<F> = (0..lb).map(|_| F(sym8())).collect();
    let left = sym(64);
    assume(left >= 1);
    // the specification: element by element, stopping at the first difference or error
    let mut want = Ok(la == lb);
    let mut i = 0;
    while want == Ok(true) && i < la {
        if left == i as u64 + 1 {
            want = Err(1000 + a[i].0 as u64);
        } else {
            want = Ok(a[i].0 == b[i].0);
        }
        i += 1;
    }
    let e = &mut Ctx { left, calls: 0 };
    match pick(5) {
        0 => check(a.eql(&b, e, &mut ()) == want, 40),
        1 => check(a[..].eql(&b[..], e, &mut ()) == want, 41),
        2 => check(Some(a).eql(&Some(b), e, &mut ()) == want, 42),
        3 => check(Equivalent::equivalent(&a[..], &b, e, &mut ()) == want, 43),
        _ => {
            let mut r = Rec::new();
            let got = a.ruby_hash(&mut r, e, &mut ());
            if left <= la as u64 {
                check(got == Err(1000 + a[conc(left) as usize - 1].0 as u64), 44);
            } else {
                check(got == Ok(()), 45);
            }
        }
    }
    check(e.calls <= n as u64, 46);
    cover(1);
}
struct S(u64);
impl ruby_traits::RubySymEql for S {
    fn eql(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
fn symbols() {
    let (x, y) = (sym(64), sym(64));
    check(SymEquivalent::equivalent(&S(x), &S(y)) == (x == y), 50);
    cover(1);
}
entries! {
    r01_ints => ints();
    r01_others => others();
    r01_strings => strings(5);
    r01_strings8 => strings(8);
    r01_vecs => vecs(5);
    r01_nested => nested();
    r01_errors => errors(5);
    r01_symbols => symbols();
}

//! Hash-consed bit-vector expressions (width 1..=128) with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    #[inline]
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    #[inline]
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    #[inline]
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;
pub type FxSet<K> = std::collections::HashSet<K, FxB>;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Concat, // a = high, b = low
    Extract, // k = lo
    ZExt,
    SExt,
    Ite, // a cond, b then, c else
    Not,
    // floating point on ieee bit patterns; k = kind-specific
    FAdd,
    FSub,
    FMul,
    FDiv,
    FSqrt,
    FRound, // k: 0 floor 1 ceil 2 trunc 3 rint/roundeven 4 round (away)
    FEq,
    FLt,
    FLe,
    FNan,
    FFromS, // signed int -> fp of width
    FFromU,
    FToSSat, // fp -> signed int saturating-free (RTZ) guarded by caller
    FToU,
    FExt, // fp width change
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<Node, Id>,
    pub vars: Vec<Id>, // var index -> node
    pub varw: Vec<u16>,
    varsets: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    ev_epoch: Vec<u32>,
    ev_val: Vec<u128>,
    epoch: u32,
    ev_model: u64,
    /// depth of a tree of ite over constants (255: not one)
    itd: Vec<u8>,
    dist: FxMap<(Op, Id, Id), Id>,
    ext: FxMap<(Id, u16, u16), Id>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

impl Default for Pool {
    fn default() -> Self {
        Self::new()
    }
}

impl Pool {
    pub fn new() -> Self {
        Pool {
            nodes: vec![],
            map: FxMap::default(),
            vars: vec![],
            varw: vec![],
            varsets: vec![],
            ev_epoch: vec![],
            ev_val: vec![],
            epoch: 0,
            ev_model: u64::MAX,
            itd: vec![],
            dist: FxMap::default(),
            ext: FxMap::default(),
        }
    }
    #[inline]
    pub fn n(&self, i: Id) -> Node {
        self.nodes[i as usize]
    }
    #[inline]
    pub fn w(&self, i: Id) -> u16 {
        self.nodes[i as usize].w
    }
    #[inline]
    pub fn cv(&self, i: Id) -> Option<u128> {
        let n = &self.nodes[i as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.itd.push(match n.op {
            Op::Const => 0,
            Op::Ite => self.itd[n.b as usize].max(self.itd[n.c as usize]).saturating_add(1),
            _ => 255,
        });
        self.nodes.push(n);
        self.varsets.push(None);
        self.ev_epoch.push(0);
        self.ev_val.push(0);
        self.map.insert(n, i);
        i
    }
    fn mk3(&mut self, op: Op, w: u16, a: Id, b: Id, c: Id, k: u128) -> Id {
        self.mk(Node { op, w, a, b, c, k })
    }
    pub fn konst(&mut self, w: u16, v: u128) -> Id {
        self.mk3(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, w: u16) -> Id {
        let ix = self.vars.len();
        let id = self.mk3(Op::Var, w, 0, 0, 0, ix as u128);
        self.vars.push(id);
        self.varw.push(w);
        id
    }
    pub fn nargs(op: Op) -> usize {
        match op {
            Op::Const | Op::Var => 0,
            Op::Extract
            | Op::ZExt
            | Op::SExt
            | Op::Not
            | Op::FSqrt
            | Op::FRound
            | Op::FNan
            | Op::FFromS
            | Op::FFromU
            | Op::FToSSat
            | Op::FToU
            | Op::FExt => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }
    pub fn varset(&mut self, i: Id) -> std::rc::Rc<Vec<u32>> {
        if let Some(s) = &self.varsets[i as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut st = vec![i];
        while let Some(&x) = st.last() {
            if self.varsets[x as usize].is_some() {
                st.pop();
                continue;
            }
            let n = self.n(x);
            let k = Self::nargs(n.op);
            let ch = [n.a, n.b, n.c];
            let mut ready = true;
            for &y in &ch[..k] {
                if self.varsets[y as usize].is_none() {
                    st.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r = if n.op == Op::Var {
                std::rc::Rc::new(vec![n.k as u32])
            } else if k == 0 {
                std::rc::Rc::new(vec![])
            } else {
                let mut acc = self.varsets[n.a as usize].clone().unwrap();
                for &y in &ch[1..k] {
                    let o = self.varsets[y as usize].clone().unwrap();
                    if std::rc::Rc::ptr_eq(&o, &acc) || o.is_empty() {
                        continue;
                    }
                    if acc.is_empty() {
                        acc = o;
                        continue;
                    }
                    let mut m: Vec<u32> = acc.iter().chain(o.iter()).copied().collect();
                    m.sort_unstable();
                    m.dedup();
                    if m.len() == acc.len() {
                        continue;
                    }
                    if m.len() == o.len() {
                        acc = o;
                        continue;
                    }
                    acc = std::rc::Rc::new(m);
                }
                acc
            };
            self.varsets[x as usize] = Some(r);
            st.pop();
        }
        self.varsets[i as usize].clone().unwrap()
    }

    // ---------- evaluation under a model ----------
    pub fn eval(&mut self, i: Id, mid: u64, model: &dyn Fn(u32) -> u128) -> u128 {
        if let Some(v) = self.cv(i) {
            return v;
        }
        if self.ev_model != mid {
            self.ev_model = mid;
            self.epoch += 1;
        }
        let ep = self.epoch;
        let mut st = vec![i];
        while let Some(&x) = st.last() {
            if self.ev_epoch[x as usize] == ep {
                st.pop();
                continue;
            }
            let n = self.n(x);
            let k = Self::nargs(n.op);
            let ch = [n.a, n.b, n.c];
            let mut ready = true;
            for &y in &ch[..k] {
                if self.ev_epoch[y as usize] != ep {
                    st.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => model(n.k as u32) & mask(n.w),
                _ => {
                    let a = self.ev_val[n.a as usize];
                    let b = if k > 1 { self.ev_val[n.b as usize] } else { 0 };
                    let c = if k > 2 { self.ev_val[n.c as usize] } else { 0 };
                    let aw = self.w(n.a);
                    let bw = if k > 1 { self.w(n.b) } else { 0 };
                    fold(n.op, n.w, n.k, aw, bw, a, b, c)
                }
            };
            self.ev_epoch[x as usize] = ep;
            self.ev_val[x as usize] = v;
            st.pop();
        }
        self.ev_val[i as usize]
    }

    // ---------- constructors ----------
    pub fn not(&mut self, a: Id) -> Id {
        let n = self.n(a);
        match n.op {
            Op::Const => self.konst(n.w, !n.k),
            Op::Not => n.a,
            _ => self.mk3(Op::Not, n.w, a, 0, 0, 0),
        }
    }
    pub fn neg(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let na = self.not(a);
        let one = self.konst(w, 1);
        self.add(na, one)
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x.wrapping_add(y));
            }
            if y == 0 {
                return a;
            }
            let n = self.n(a);
            if n.op == Op::Add {
                if let Some(z) = self.cv(n.b) {
                    let k = self.konst(w, z.wrapping_add(y));
                    return self.add(n.a, k);
                }
            }
            // push constants through ite of constants
            if n.op == Op::Ite && self.ite_consts(a, 24) {
                if let Some(r) = self.dist.get(&(Op::Add, a, b)) {
                    return *r;
                }
                let t = self.add(n.b, b);
                let e = self.add(n.c, b);
                let r = self.ite(n.a, t, e);
                self.dist.insert((Op::Add, a, b), r);
                return r;
            }
        }
        // x + ~x + 1 style
        let nb = self.n(b);
        if nb.op == Op::Not && nb.a == a {
            return self.konst(w, mask(w));
        }
        // (x + c) + y  -> (x+y) + c
        let na = self.n(a);
        if na.op == Op::Add && self.cv(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        if nb.op == Op::Add && self.cv(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // a + ((~a) + y)
        if nb.op == Op::Add {
            let (p, q) = (self.n(nb.a), self.n(nb.b));
            if p.op == Op::Not && p.a == a {
                let m1 = self.konst(w, mask(w));
                return self.add(nb.b, m1);
            }
            if q.op == Op::Not && q.a == a {
                let m1 = self.konst(w, mask(w));
                return self.add(nb.a, m1);
            }
        }
        self.mk3(Op::Add, w, a, b, 0, 0)
    }
    /// is `a` a small tree of ite over constants?
    fn ite_consts(&self, a: Id, depth: u8) -> bool {
        self.itd[a as usize] <= depth
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        let nb = self.neg(b);
        self.add(a, nb)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x.wrapping_mul(y));
            }
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.konst(w, y.trailing_zeros() as u128);
                return self.shl(a, k);
            }
            let n = self.n(a);
            if n.op == Op::Ite && self.ite_consts(a, 24) {
                if let Some(r) = self.dist.get(&(Op::Mul, a, b)) {
                    return *r;
                }
                let t = self.mul(n.b, b);
                let e = self.mul(n.c, b);
                let r = self.ite(n.a, t, e);
                self.dist.insert((Op::Mul, a, b), r);
                return r;
            }
        }
        self.mk3(Op::Mul, w, a, b, 0, 0)
    }
    pub fn div(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let v = fold(op, w, 0, w, w, x, y, 0);
            return self.konst(w, v);
        }
        if let Some(y) = self.cv(b) {
            if y != 0 && y.is_power_of_two() {
                let sh = y.trailing_zeros() as u128;
                if op == Op::UDiv {
                    let k = self.konst(w, sh);
                    return self.lshr(a, k);
                }
                if op == Op::URem {
                    let m = self.konst(w, y - 1);
                    return self.and(a, m);
                }
            }
        }
        self.mk3(op, w, a, b, 0, 0)
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x & y);
            }
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            let n = self.n(a);
            match n.op {
                Op::And => {
                    if let Some(z) = self.cv(n.b) {
                        let k = self.konst(w, z & y);
                        return self.and(n.a, k);
                    }
                }
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let k = self.konst(iw, y);
                    let r = self.and(n.a, k);
                    return self.zext(r, w);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let hk = self.konst(hw, y >> lw);
                    let lk = self.konst(lw, y);
                    let h = self.and(n.a, hk);
                    let l = self.and(n.b, lk);
                    return self.concat(h, l);
                }
                Op::Ite if self.ite_consts(a, 24) => {
                    if let Some(r) = self.dist.get(&(Op::And, a, b)) {
                        return *r;
                    }
                    let t = self.and(n.b, b);
                    let e = self.and(n.c, b);
                    let r = self.ite(n.a, t, e);
                    self.dist.insert((Op::And, a, b), r);
                    return r;
                }
                _ => {}
            }
            // low mask => zext(extract)
            if (y & (y + 1)) == 0 {
                let k = y.count_ones() as u16;
                let e = self.extract(a, 0, k);
                return self.zext(e, w);
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return self.konst(w, 0);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let h = self.and(na.a, nb.a);
            let l = self.and(na.b, nb.b);
            return self.concat(h, l);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (iw, jw) = (self.w(na.a), self.w(nb.a));
            if iw == jw {
                let r = self.and(na.a, nb.a);
                return self.zext(r, w);
            }
        }
        self.mk3(Op::And, w, a, b, 0, 0)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x | y);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            let n = self.n(a);
            match n.op {
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let hk = self.konst(hw, y >> lw);
                    let lk = self.konst(lw, y);
                    let h = self.or(n.a, hk);
                    let l = self.or(n.b, lk);
                    return self.concat(h, l);
                }
                Op::ZExt => {
                    let iw = self.w(n.a);
                    let hk = self.konst(w - iw, y >> iw);
                    let lk = self.konst(iw, y);
                    let l = self.or(n.a, lk);
                    return self.concat(hk, l);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
            return self.konst(w, mask(w));
        }
        // zext(x) | concat(y, 0..)  => concat
        for (p, q) in [(a, b), (b, a)] {
            let (np, nq) = (self.n(p), self.n(q));
            if np.op == Op::ZExt && nq.op == Op::Concat {
                let iw = self.w(np.a);
                let lw = self.w(nq.b);
                if self.cv(nq.b) == Some(0) && iw <= lw {
                    let l = self.zext(np.a, lw);
                    return self.concat(nq.a, l);
                }
            }
            if np.op == Op::Concat && nq.op == Op::Concat && self.w(np.b) == self.w(nq.b) {
                let h = self.or(np.a, nq.a);
                let l = self.or(np.b, nq.b);
                return self.concat(h, l);
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let (iw, jw) = (self.w(na.a), self.w(nb.a));
            if iw == jw {
                let r = self.or(na.a, nb.a);
                return self.zext(r, w);
            }
        }
        self.mk3(Op::Or, w, a, b, 0, 0)
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(w, x ^ y);
            }
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return self.not(a);
            }
            let n = self.n(a);
            if n.op == Op::Xor {
                if let Some(z) = self.cv(n.b) {
                    let k = self.konst(w, z ^ y);
                    return self.xor(n.a, k);
                }
            }
            if n.op == Op::Concat {
                let lw = self.w(n.b);
                let hw = self.w(n.a);
                let hk = self.konst(hw, y >> lw);
                let lk = self.konst(lw, y);
                let h = self.xor(n.a, hk);
                let l = self.xor(n.b, lk);
                return self.concat(h, l);
            }
            if n.op == Op::ZExt {
                let iw = self.w(n.a);
                let hk = self.konst(w - iw, y >> iw);
                let lk = self.konst(iw, y);
                let l = self.xor(n.a, lk);
                return self.concat(hk, l);
            }
        }
        if w == 1 {
            let na = self.n(a);
            if na.op == Op::Not {
                let r = self.xor(na.a, b);
                return self.not(r);
            }
            let nb = self.n(b);
            if nb.op == Op::Not {
                let r = self.xor(a, nb.a);
                return self.not(r);
            }
        }
        self.mk3(Op::Xor, w, a, b, 0, 0)
    }
    pub fn shl(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.konst(w, 0);
            }
            let lo = self.extract(a, 0, w - y as u16);
            let z = self.konst(y as u16, 0);
            return self.concat(lo, z);
        }
        self.mk3(Op::Shl, w, a, b, 0, 0)
    }
    pub fn lshr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            if y >= w as u128 {
                return self.konst(w, 0);
            }
            let hi = self.extract(a, y as u16, w - y as u16);
            return self.zext(hi, w);
        }
        if let Some(0) = self.cv(a) {
            return a;
        }
        self.mk3(Op::LShr, w, a, b, 0, 0)
    }
    pub fn ashr(&mut self, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            let y = (y.min(w as u128 - 1)) as u16;
            let hi = self.extract(a, y, w - y);
            return self.sext_(hi, w);
        }
        self.mk3(Op::AShr, w, a, b, 0, 0)
    }
    pub fn extract(&mut self, a: Id, lo: u16, w: u16) -> Id {
        if !matches!(self.n(a).op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Ite | Op::Not) {
            return self.extract0(a, lo, w);
        }
        if let Some(r) = self.ext.get(&(a, lo, w)) {
            return *r;
        }
        let r = self.extract0(a, lo, w);
        self.ext.insert((a, lo, w), r);
        r
    }
    fn extract0(&mut self, a: Id, lo: u16, w: u16) -> Id {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    let s = self.extract(n.a, iw - 1, 1);
                    return self.sext_(s, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.sext_(e, w);
            }
            Op::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() || w == 1 {
                    let t = self.extract(n.b, lo, w);
                    let e = self.extract(n.c, lo, w);
                    return self.ite(n.a, t, e);
                }
            }
            Op::Not => {
                let e = self.extract(n.a, lo, w);
                return self.not(e);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.add(x, y);
            }
            Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.mul(x, y);
            }
            _ => {}
        }
        self.mk3(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w + nl.w;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            return self.konst(w, (x << nl.w) | y);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        // adjacent extracts
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // high extract adjacent to whole low var: extract(x,k..) ++ extract handled; low may be concat
        if nl.op == Op::Concat {
            let lh = self.n(nl.a);
            if nh.op == Op::Extract && lh.op == Op::Extract && nh.a == lh.a && nh.k == lh.k + lh.w as u128 {
                let e = self.extract(nh.a, lh.k as u16, nh.w + lh.w);
                return self.concat(e, nl.b);
            }
            if let (Some(x), Some(y)) = (self.cv(h), self.cv(nl.a)) {
                let k = self.konst(nh.w + lh.w, (x << lh.w) | y);
                return self.concat(k, nl.b);
            }
        }
        if nl.op == Op::ZExt {
            // h ++ zext(x): normalise to h ++ (0 ++ x) -> concat(concat(h,0), x)
            let iw = self.w(nl.a);
            let z = self.konst(nl.w - iw, 0);
            let hz = self.concat(h, z);
            return self.mk3(Op::Concat, w, hz, nl.a, 0, 0);
        }
        self.mk3(Op::Concat, w, h, l, 0, 0)
    }
    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.cv(n.b).is_some() && self.cv(n.c).is_some() => {
                let t = self.zext(n.b, w);
                let e = self.zext(n.c, w);
                self.ite(n.a, t, e)
            }
            _ => self.mk3(Op::ZExt, w, a, 0, 0, 0),
        }
    }
    pub fn sext_(&mut self, a: Id, w: u16) -> Id {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => {
                let v = sext(n.k, n.w) as u128;
                self.konst(w, v)
            }
            Op::SExt => self.sext_(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ if n.w == 1 => {
                let t = self.konst(w, mask(w));
                let e = self.konst(w, 0);
                self.ite(a, t, e)
            }
            _ => self.mk3(Op::SExt, w, a, 0, 0, 0),
        }
    }
    pub fn ite(&mut self, c: Id, t: Id, e: Id) -> Id {
        if let Some(v) = self.cv(c) {
            return if v != 0 { t } else { e };
        }
        if t == e {
            return t;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, e, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.cv(t), self.cv(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, e),
                (Some(0), None) => {
                    let k = self.not(c);
                    return self.and(k, e);
                }
                (None, Some(0)) => return self.and(c, t),
                (None, Some(1)) => {
                    let k = self.not(c);
                    return self.or(k, t);
                }
                _ => {}
            }
        }
        let nt = self.n(t);
        if nt.op == Op::Ite && nt.a == c {
            return self.ite(c, nt.b, e);
        }
        let ne = self.n(e);
        if ne.op == Op::Ite && ne.a == c {
            return self.ite(c, t, ne.c);
        }
        self.mk3(Op::Ite, w, c, t, e, 0)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(1, 1);
        }
        let (mut a, mut b) = (a, b);
        if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        let n = self.n(a);
        if let Some(y) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.konst(1, (x == y) as u128);
            }
            if n.w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if y > mask(iw) {
                        return self.konst(1, 0);
                    }
                    let k = self.konst(iw, y);
                    return self.eq(n.a, k);
                }
                Op::SExt => {
                    let iw = self.w(n.a);
                    let t = sext(y & mask(iw), iw) as u128 & mask(n.w);
                    if t != y {
                        return self.konst(1, 0);
                    }
                    let k = self.konst(iw, y);
                    return self.eq(n.a, k);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hk = self.konst(n.w - lw, y >> lw);
                    let lk = self.konst(lw, y);
                    let h = self.eq(n.a, hk);
                    let l = self.eq(n.b, lk);
                    return self.and(h, l);
                }
                Op::Add => {
                    if let Some(z) = self.cv(n.b) {
                        let k = self.konst(n.w, y.wrapping_sub(z));
                        return self.eq(n.a, k);
                    }
                }
                Op::Xor => {
                    if let Some(z) = self.cv(n.b) {
                        let k = self.konst(n.w, y ^ z);
                        return self.eq(n.a, k);
                    }
                    if y == 0 {
                        return self.eq(n.a, n.b);
                    }
                }
                Op::Not => {
                    let k = self.konst(n.w, !y);
                    return self.eq(n.a, k);
                }
                Op::Ite => {
                    let (t, e) = (self.cv(n.b), self.cv(n.c));
                    if t.is_some() || e.is_some() {
                        let x = self.eq(n.b, b);
                        let z = self.eq(n.c, b);
                        return self.ite(n.a, x, z);
                    }
                }
                Op::Or if y == 0 => {
                    let x = self.eq(n.a, b);
                    let z = self.eq(n.b, b);
                    return self.and(x, z);
                }
                _ => {}
            }
        } else {
            let m = self.n(b);
            if n.op == Op::ZExt && m.op == Op::ZExt && self.w(n.a) == self.w(m.a) {
                return self.eq(n.a, m.a);
            }
            if n.op == Op::Concat && m.op == Op::Concat && self.w(n.a) == self.w(m.a) {
                let h = self.eq(n.a, m.a);
                let l = self.eq(n.b, m.b);
                return self.and(h, l);
            }
            if n.op == Op::Add && m.op == Op::Add && n.b == m.b {
                return self.eq(n.a, m.a);
            }
            if n.op == Op::Not && m.op == Op::Not {
                return self.eq(n.a, m.a);
            }
            if n.w == 1 && n.op == Op::Not {
                let e = self.eq(n.a, b);
                return self.not(e);
            }
            if n.w == 1 && m.op == Op::Not {
                let e = self.eq(a, m.a);
                return self.not(e);
            }
        }
        self.mk3(Op::Eq, 1, a, b, 0, 0)
    }
    pub fn ult(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(1, 0);
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.konst(1, (x < y) as u128),
            (_, Some(0)) => return self.konst(1, 0),
            (_, Some(1)) => {
                let z = self.konst(w, 0);
                return self.eq(a, z);
            }
            (Some(0), _) => {
                let z = self.konst(w, 0);
                let e = self.eq(b, z);
                return self.not(e);
            }
            (Some(x), _) if x == mask(w) => return self.konst(1, 0),
            (_, Some(y)) if y == mask(w) => {
                let e = self.eq(a, b);
                return self.not(e);
            }
            _ => {}
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let (n, m) = (self.n(a), self.n(b));
        if n.op == Op::ZExt {
            let iw = self.w(n.a);
            if let Some(y) = self.cv(b) {
                if y > mask(iw) {
                    return self.konst(1, 1);
                }
                let k = self.konst(iw, y);
                return self.ult(n.a, k);
            }
            if m.op == Op::ZExt && self.w(m.a) == iw {
                return self.ult(n.a, m.a);
            }
        }
        if m.op == Op::ZExt {
            let iw = self.w(m.a);
            if let Some(x) = self.cv(a) {
                if x >= mask(iw) {
                    return self.konst(1, 0);
                }
                let k = self.konst(iw, x);
                return self.ult(k, m.a);
            }
        }
        if n.op == Op::Ite && self.cv(b).is_some() && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
            let t = self.ult(n.b, b);
            let e = self.ult(n.c, b);
            return self.ite(n.a, t, e);
        }
        if m.op == Op::Ite && self.cv(a).is_some() && (self.cv(m.b).is_some() || self.cv(m.c).is_some()) {
            let t = self.ult(a, m.b);
            let e = self.ult(a, m.c);
            return self.ite(m.a, t, e);
        }
        self.mk3(Op::Ult, 1, a, b, 0, 0)
    }
    pub fn slt(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return self.konst(1, 0);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.konst(1, (sext(x, w) < sext(y, w)) as u128);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            // -1 < b  <=> b >= 0
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        // both provably non-negative -> ult
        let sa = self.extract(a, w - 1, 1);
        let sb = self.extract(b, w - 1, 1);
        match (self.cv(sa), self.cv(sb)) {
            (Some(0), Some(0)) | (Some(1), Some(1)) => return self.ult(a, b),
            (Some(0), Some(1)) => return self.konst(1, 0),
            (Some(1), Some(0)) => return self.konst(1, 1),
            _ => {}
        }
        self.mk3(Op::Slt, 1, a, b, 0, 0)
    }
    pub fn ule(&mut self, a: Id, b: Id) -> Id {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn sle(&mut self, a: Id, b: Id) -> Id {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn fop(&mut self, op: Op, w: u16, a: Id, b: Id, k: u128) -> Id {
        let n = Self::nargs(op);
        if let Some(x) = self.cv(a) {
            if n == 1 {
                let aw = self.w(a);
                let v = fold(op, w, k, aw, 0, x, 0, 0);
                return self.konst(w, v);
            }
            if let Some(y) = self.cv(b) {
                let aw = self.w(a);
                let v = fold(op, w, k, aw, aw, x, y, 0);
                return self.konst(w, v);
            }
        }
        self.mk3(op, w, a, if n > 1 { b } else { 0 }, 0, k)
    }
    /// rebuild node with new children (used for substitution)
    pub fn rebuild(&mut self, n: Node, a: Id, b: Id, c: Id) -> Id {
        match n.op {
            Op::Const => self.konst(n.w, n.k),
            Op::Var => self.vars[n.k as usize],
            Op::Add => self.add(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => self.div(n.op, a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Concat => self.concat(a, b),
            Op::Extract => self.extract(a, n.k as u16, n.w),
            Op::ZExt => self.zext(a, n.w),
            Op::SExt => self.sext_(a, n.w),
            Op::Ite => self.ite(a, b, c),
            Op::Not => self.not(a),
            op => self.fop(op, n.w, a, b, n.k),
        }
    }
    /// substitute known values bottom-up
    pub fn subst(&mut self, i: Id, known: &FxMap<Id, u128>, memo: &mut FxMap<Id, Id>) -> Id {
        let mut st = vec![i];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = self.n(x);
            if n.op == Op::Const {
                memo.insert(x, x);
                st.pop();
                continue;
            }
            if let Some(&v) = known.get(&x) {
                let c = self.konst(n.w, v);
                memo.insert(x, c);
                st.pop();
                continue;
            }
            let k = Self::nargs(n.op);
            let ch = [n.a, n.b, n.c];
            let mut ready = true;
            for &y in &ch[..k] {
                if !memo.contains_key(&y) {
                    st.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let a = if k > 0 { memo[&n.a] } else { 0 };
            let b = if k > 1 { memo[&n.b] } else { 0 };
            let c = if k > 2 { memo[&n.c] } else { 0 };
            let r = if k == 0 || (a == n.a && (k < 2 || b == n.b) && (k < 3 || c == n.c)) {
                x
            } else {
                self.rebuild(n, a, b, c)
            };
            let r = match known.get(&r) {
                Some(&v) => self.konst(n.w, v),
                None => r,
            };
            memo.insert(x, r);
            st.pop();
        }
        memo[&i]
    }
    pub fn show(&self, i: Id, d: u32) -> String {
        let n = self.n(i);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ if d == 0 => format!("#{}", i),
            _ => {
                let k = Self::nargs(n.op);
                let ch = [n.a, n.b, n.c];
                let s: Vec<String> = ch[..k].iter().map(|&c| self.show(c, d - 1)).collect();
                format!("({:?}{} {})", n.op, if n.op == Op::Extract { format!("[{}+{}]", n.k, n.w) } else { String::new() }, s.join(" "))
            }
        }
    }
}

pub fn f_of(v: u128, w: u16) -> f64 {
    match w {
        64 => f64::from_bits(v as u64),
        32 => f32::from_bits(v as u32) as f64,
        _ => panic!("float width {w}"),
    }
}
pub fn f_to(f: f64, w: u16) -> u128 {
    match w {
        64 => f.to_bits() as u128,
        32 => (f as f32).to_bits() as u128,
        _ => panic!("float width {w}"),
    }
}

pub fn fold(op: Op, w: u16, k: u128, aw: u16, bw: u16, a: u128, b: u128, c: u128) -> u128 {
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                u128::MAX
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 {
                    u128::MAX
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u128 - 1) as u32;
            (sext(a, w) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128,
        Op::Concat => (a << bw) | b,
        Op::Extract => a >> k,
        Op::ZExt => a,
        Op::SExt => sext(a, aw) as u128,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::Not => !a,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                let r = match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                };
                r.to_bits() as u128
            } else {
                let (x, y) = (f_of(a, w), f_of(b, w));
                let r = match op {
                    Op::FAdd => x + y,
                    Op::FSub => x - y,
                    Op::FMul => x * y,
                    _ => x / y,
                };
                r.to_bits() as u128
            }
        }
        Op::FSqrt => {
            if w == 32 {
                f32::from_bits(a as u32).sqrt().to_bits() as u128
            } else {
                f_of(a, w).sqrt().to_bits() as u128
            }
        }
        Op::FRound => {
            let x = f_of(a, w);
            let r = match k {
                0 => x.floor(),
                1 => x.ceil(),
                2 => x.trunc(),
                3 => x.round_ties_even(),
                _ => x.round(),
            };
            f_to(r, w)
        }
        Op::FEq => (f_of(a, aw) == f_of(b, aw)) as u128,
        Op::FLt => (f_of(a, aw) < f_of(b, aw)) as u128,
        Op::FLe => (f_of(a, aw) <= f_of(b, aw)) as u128,
        Op::FNan => f_of(a, aw).is_nan() as u128,
        Op::FFromS => {
            let x = sext(a, aw);
            if w == 32 {
                (x as f32).to_bits() as u128
            } else {
                (x as f64).to_bits() as u128
            }
        }
        Op::FFromU => {
            if w == 32 {
                (a as f32).to_bits() as u128
            } else {
                (a as f64).to_bits() as u128
            }
        }
        Op::FToSSat => {
            // truncation towards zero; out-of-range handled by the caller
            let x = f_of(a, aw);
            (x as i128) as u128
        }
        Op::FToU => {
            let x = f_of(a, aw);
            x as u128
        }
        Op::FExt => f_to(f_of(a, aw), w),
        Op::Const | Op::Var => unreachable!(),
    };
    r & mask(w)
}

//! A01: the register file of the JIT's local allocator (monoruby/src/codegen/jitgen/gp_alloc.rs):
//! what is written to registers and stack homes on its advice always leaves every live slot's value
//! where the allocator says it is.
use crate::v::*;

mod shim {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum BinOpK {
        Add,
        Sub,
        Mul,
        Div,
        BitOr,
        BitAnd,
        BitXor,
        Rem,
        Exp,
        Shl,
        Shr,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum GP {
        Rax = 0,
        Rcx = 1,
        Rdx = 2,
        Rsp = 4,
        Rsi = 6,
        Rdi = 7,
        R8 = 8,
        R9 = 9,
        R10 = 10,
        R11 = 11,
        R12 = 12,
        R13 = 13,
        R14 = 14,
        R15 = 15,
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct SlotId(pub u16);

    pub mod gp_alloc {
        use super::*;
        include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../build/gen/gp.rs"));
    }
}
use shim::gp_alloc::*;
use shim::*;

/// Stack homes, registers and what the program's slots really hold.  Values are names: a slot's
/// first value is its number, every computed one is new.
struct Machine {
    home: Vec<(u16, u32)>,
    want: Vec<(u16, u32)>,
    /// slots at or above this are dead unless written later
    dead: Vec<(usize, u16)>,
    reg: [u32; 16],
    next: u32,
}

fn last(log: &[(u16, u32)], s: u16) -> u32 {
    let mut v = s as u32;
    for (t, x) in log {
        // without a branch
        let k = 0u32.wrapping_sub((*t == s) as u32);
        v = (v & !k) | (*x & k);
    }
    v
}

impl Machine {
    fn new() -> Machine {
        Machine { home: vec![], want: vec![], dead: vec![], reg: [u32::MAX; 16], next: 0x10000 }
    }
    fn fresh(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn home(&self, s: SlotId) -> u32 {
        last(&self.home, s.0)
    }
    fn want(&self, s: SlotId) -> u32 {
        last(&self.want, s.0)
    }
    fn live(&self, s: SlotId) -> bool {
        let mut dead = false;
        for &(at, sp) in &self.dead {
            let mut later = false;
            for (t, _) in &self.want[at..] {
                later |= *t == s.0;
            }
            dead |= (s.0 >= sp) & !later;
        }
        !dead
    }
    fn store(&mut self, reg: GP, s: SlotId) {
        let v = self.reg[reg as usize];
        self.home.push((s.0, v));
    }
    fn define(&mut self, s: SlotId) -> u32 {
        let v = self.fresh();
        self.want.push((s.0, v));
        v
    }
    fn drop_above(&mut self, sp: SlotId) {
        self.dead.push((self.want.len(), sp.0));
    }
}

fn slot() -> SlotId {
    SlotId(sym(16) as u16)
}

const KINDS: [BinOpK; 5] = [BinOpK::Add, BinOpK::Sub, BinOpK::Mul, BinOpK::BitAnd, BinOpK::Shl];

/// Any operations over a few slots, the last over any slots at all.
fn run(n: usize, slots: usize, free: bool) {
    let mut prog = vec![];
    let mut m = Machine::new();
    for i in 0..n {
        let mut s = || if free && i + 1 == n { slot() } else { SlotId(1 + pick(slots) as u16) };
        let (dst, lhs, rhs) = (s(), s(), s());
        let next_sp = if free { slot() } else { SlotId(sym(3) as u16) };
        assume(m.live(lhs) & m.live(rhs));
        assume(dst < next_sp);
        prog.push(BinOpInst { kind: KINDS[i], dst, lhs, rhs, next_sp });
        m.drop_above(next_sp);
        m.define(dst);
    }
    execute(m, &prog);
}

/// The shape expressions have: `locals` variables and temporaries above them used as a stack.
fn expressions(n: usize, locals: usize, temps: usize) {
    let mut prog = vec![];
    let mut m = Machine::new();
    let base = 1 + locals;
    let mut sp = base + temps;
    for i in 0..n {
        let r = pick(locals + 1);
        let l = pick(locals + 1);
        let pops = (r == locals) as usize + (l == locals) as usize;
        if sp - base < pops {
            return;
        }
        let rhs = if r == locals { sp -= 1; sp } else { 1 + r };
        let lhs = if l == locals { sp -= 1; sp } else { 1 + l };
        let d = pick(locals + 1);
        let dst = if d == locals { sp += 1; sp - 1 } else { 1 + d };
        let id = |x: usize| SlotId(x as u16);
        prog.push(BinOpInst { kind: KINDS[i], dst: id(dst), lhs: id(lhs), rhs: id(rhs), next_sp: id(sp) });
        m.drop_above(id(sp));
        m.define(id(dst));
    }
    execute(m, &prog);
}

fn execute(mut m: Machine, prog: &[BinOpInst]) {
    let n = prog.len();
    let acts = allocate_run(prog);
    // now execute
    m.next = 0x10000;
    m.want.clear();
    let dead = std::mem::take(&mut m.dead);
    let mut i = 0;
    for a in &acts {
        match *a {
            GpAction::Load { slot, reg, .. } => {
                // a copy in a register that is newer than the home must have been stored before
                m.reg[reg as usize] = m.home(slot);
            }
            GpAction::Spill { reg, slot } => m.store(reg, slot),
            GpAction::BinOp { kind, dst, lhs, rhs } => {
                check(i < n, 1);
                let p = &prog[i];
                check(kind == p.kind, 2);
                check(m.reg[lhs as usize] == m.want(p.lhs), 3);
                check(m.reg[rhs as usize] == m.want(p.rhs), 4);
                // dst is first set to lhs
                check(dst != rhs, 5);
                let v = m.define(p.dst);
                m.reg[dst as usize] = v;
                i += 1;
            }
        }
    }
    check(i == n, 6);
    m.dead = dead;
    let q = slot();
    check(!m.live(q) | (m.home(q) == m.want(q)), 7);
    cover(1);
    obs(acts.len() as u64);
}

fn all() -> [GP; 4] {
    [GP::R8, GP::R9, GP::R10, GP::R11]
}

/// Where slot `q`'s value is, by the register file's account.
fn located(rf: &GpRegFile, m: &Machine, q: SlotId) {
    assume(m.live(q));
    let w = m.want(q);
    // resuming in the interpreter: homes, with the dirty residents written back
    let mut v = m.home(q);
    let mut n = 0;
    for (r, s) in rf.dirty_residents() {
        let hit = s == q;
        v = if hit { m.reg[r as usize] } else { v };
        n += hit as u32;
        check(!rf.is_free(r), 20);
    }
    check(v == w, 21);
    check(n <= 1, 22);
    match rf.reg_of(q) {
        Some(r) => {
            check(m.reg[r as usize] == w, 23);
            check(!rf.is_free(r), 24);
            check(!rf.is_empty(), 25);
        }
        None => check(n == 0, 26),
    }
    match rf.dirty_reg_of(q) {
        Some(r) => check(m.reg[r as usize] == w && n == 1, 27),
        None => check(n == 0, 28),
    }
}

fn take(rf: &mut GpRegFile, m: &mut Machine, pinned: &[GP]) -> GP {
    let (r, spill) = rf.alloc_reg(pinned);
    for p in pinned {
        check(*p != r, 30);
    }
    check(rf.is_free(r), 31);
    if let Some((r2, s)) = spill {
        m.store(r2, s);
    }
    r
}

fn ensure(rf: &mut GpRegFile, m: &mut Machine, s: SlotId, pinned: &[GP]) -> GP {
    match rf.reg_of(s) {
        Some(r) => {
            cover(2);
            r
        }
        None => {
            let r = take(rf, m, pinned);
            m.reg[r as usize] = m.home(s);
            rf.bind(r, s, false);
            r
        }
    }
}

/// The code generator's use of the register file, one operation at a time.
fn step(rf: &mut GpRegFile, m: &mut Machine, slot: &dyn Fn() -> SlotId) {
    match pick(7) {
        0 => {
            // a binary operation
            let (l, r, d, sp) = (slot(), slot(), slot(), slot());
            assume(m.live(l) & m.live(r));
            assume(d < sp);
            let lr = ensure(rf, m, l, &[]);
            let rr = ensure(rf, m, r, &[lr]);
            check(m.reg[lr as usize] == m.want(l), 40);
            check(m.reg[rr as usize] == m.want(r), 41);
            rf.invalidate(d);
            rf.free_above_sp(sp);
            m.drop_above(sp);
            let dr = take(rf, m, &[lr, rr]);
            let v = m.define(d);
            m.reg[dr as usize] = v;
            rf.bind(dr, d, true);
        }
        1 => {
            // a result parked in a register
            let d = slot();
            rf.invalidate(d);
            let dr = take(rf, m, &[]);
            let v = m.define(d);
            m.reg[dr as usize] = v;
            rf.bind(dr, d, true);
        }
        2 => {
            // a definition that goes to the stack
            let d = slot();
            rf.invalidate(d);
            let v = m.define(d);
            m.home.push((d.0, v));
        }
        3 => {
            // a reader that wants the stack home
            let s = slot();
            assume(m.live(s));
            if let Some(r) = rf.sync(s) {
                m.store(r, s);
                check(rf.reg_of(s) == Some(r), 42);
                check(rf.dirty_reg_of(s).is_none(), 43);
            }
            check(m.home(s) == m.want(s), 44);
        }
        4 => {
            let sp = slot();
            rf.free_above_sp(sp);
            m.drop_above(sp);
        }
        5 => {
            // an operand register that the operation destroys
            let s = slot();
            assume(m.live(s));
            let r = ensure(rf, m, s, &[]);
            if let Some(d) = rf.dirty_reg_of(s) {
                check(d == r, 45);
                m.store(d, s);
                rf.sync(s);
            }
            rf.invalidate(s);
            m.reg[r as usize] = m.fresh();
        }
        _ => {
            for (r, s) in rf.take_dirty_spills() {
                m.store(r, s);
            }
            check(rf.is_empty(), 46);
            for r in all() {
                check(rf.is_free(r), 47);
            }
        }
    }
}

const SOME: [u16; 4] = [2, 4, 6, 8];

/// The slot looked for (any), `fill` residents to begin with, and steps of which the last is over
/// any slots and the others over a few.
fn hist(n: usize, fill: usize, few: usize) {
    let mut m = Machine::new();
    let mut rf = GpRegFile::new();
    let q = slot();
    check(rf.is_empty(), 10);
    for i in 0..fill {
        let s = SlotId(SOME[i]);
        if pick(2) == 0 {
            ensure(&mut rf, &mut m, s, &[]);
        } else {
            let r = take(&mut rf, &mut m, &[]);
            let v = m.define(s);
            m.reg[r as usize] = v;
            rf.bind(r, s, true);
        }
    }
    for i in 0..n {
        if i + 1 == n {
            step(&mut rf, &mut m, &slot);
        } else {
            step(&mut rf, &mut m, &|| SlotId([8, 5, 2, 7, 4][pick(few)]));
        }
    }
    located(&rf, &m, q);
    cover(1);
    obs(m.home.len() as u64);
}

entries! {
    a01_run1 => run(1, 0, true);
    a01_run2 => run(2, 4, true);
    a01_run2s => run(2, 5, false);
    a01_run3 => run(3, 2, false);
    a01_expr3 => expressions(3, 3, 2);
    a01_expr3t => expressions(3, 2, 4);
    a01_expr4 => expressions(4, 2, 2);
    a01_expr5 => expressions(5, 1, 3);
    a01_hist1 => hist(1, 0, 0);
    a01_hist2 => hist(2, 0, 3);
    a01_fill3 => hist(1, 3, 0);
    a01_fill4 => hist(1, 4, 0);
    a01_fill32 => hist(2, 3, 3);
    a01_fill42 => hist(2, 4, 2);
}

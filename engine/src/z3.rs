//! Minimal libz3 binding and the bit-vector / floating-point translation.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Cfg = *mut c_void;
type Sym = *mut c_void;
type Params = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> Cfg;
    fn Z3_set_param_value(c: Cfg, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Cfg) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_fpa_sort(c: Ctx, e: c_uint, s: c_uint) -> Sort;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, rm: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, rm: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, rm: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, rm: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_solver(c: Ctx) -> Solver;
    fn Z3_mk_simple_solver(c: Ctx) -> Solver;
    fn Z3_mk_solver_for_logic(c: Ctx, s: Sym) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_push(c: Ctx, s: Solver);
    fn Z3_solver_pop(c: Ctx, s: Solver, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, a: Ast, comp: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, out: *mut u64) -> bool;
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
    fn Z3_solver_to_string(c: Ctx, s: Solver) -> *const c_char;
}
extern "C" fn on_err(c: Ctx, e: c_int) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {}", m.to_string_lossy());
    }
    std::process::exit(4);
}

pub enum Res {
    Sat(Rc<FxMap<u32, u128>>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: Ctx,
    bv: Vec<Ast>,
    bo: Vec<Ast>,
    sorts: Vec<Sort>,
    s_fast: Solver,
    s_bv: Solver,
    s_fp: Solver,
    isfp: Vec<u8>, // 0 unknown 1 no 2 yes
    cache: FxMap<Vec<Id>, Option<Rc<FxMap<u32, u128>>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    uses: u32,
    timeout_ms: u32,
    pub dump_slow: bool,
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

/// every term handed around is kept alive (the context frees unreferenced ones at once)
fn keep(c: Ctx, a: Ast) -> Ast {
    unsafe { Z3_inc_ref(c, a) };
    a
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut z = Z3 {
                c,
                bv: vec![],
                bo: vec![],
                sorts: vec![std::ptr::null_mut(); 260],
                s_fast: std::ptr::null_mut(),
                s_bv: std::ptr::null_mut(),
                s_fp: std::ptr::null_mut(),
                isfp: vec![],
                cache: FxMap::default(),
                queries: 0,
                cache_hits: 0,
                time: 0.0,
                max_time: 0.0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                uses: 0,
                timeout_ms,
                dump_slow: std::env::var("IRSYM_SLOW").is_ok(),
            };
            z.mk_solvers();
            z
        }
    }
    fn mk_solvers(&mut self) {
        unsafe {
            let c = self.c;
            if !self.s_bv.is_null() {
                Z3_solver_dec_ref(c, self.s_fast);
                Z3_solver_dec_ref(c, self.s_bv);
                Z3_solver_dec_ref(c, self.s_fp);
            }
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, cs("rlimit").as_ptr()), self.timeout_ms);
            let pf = Z3_mk_params(c);
            Z3_params_inc_ref(c, pf);
            Z3_params_set_uint(c, pf, Z3_mk_string_symbol(c, cs("rlimit").as_ptr()), self.timeout_ms.min(400_000));
            self.s_fast = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, self.s_fast);
            Z3_solver_set_params(c, self.s_fast, pf);
            self.s_bv = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(c, self.s_bv);
            Z3_solver_set_params(c, self.s_bv, p);
            self.s_fp = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, self.s_fp);
            Z3_solver_set_params(c, self.s_fp, p);
        }
    }
    fn sort(&mut self, w: u16) -> Sort {
        let w = w as usize;
        if self.sorts[w].is_null() {
            unsafe {
                let s = Z3_mk_bv_sort(self.c, w as c_uint);
                Z3_inc_ref(self.c, s);
                self.sorts[w] = s;
            }
        }
        self.sorts[w]
    }
    fn num(&mut self, w: u16, v: u128) -> Ast {
        let s = self.sort(w);
        unsafe {
            keep(self.c, if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), s)
            })
        }
    }
    fn fs(&mut self, w: u16) -> Sort {
        unsafe {
            match w {
                64 => keep(self.c, Z3_mk_fpa_sort(self.c, 11, 53)),
                32 => keep(self.c, Z3_mk_fpa_sort(self.c, 8, 24)),
                _ => panic!("fp width {w}"),
            }
        }
    }
    fn ensure(&mut self, n: usize) {
        while self.bv.len() <= n {
            self.bv.push(std::ptr::null_mut());
            self.bo.push(std::ptr::null_mut());
        }
    }
    /// returns bool-sorted ast for width-1 expr
    fn tbool(&mut self, p: &Pool, i: Id) -> Ast {
        self.ensure(i as usize);
        if !self.bo[i as usize].is_null() {
            return self.bo[i as usize];
        }
        self.trans(p, i);
        self.bo[i as usize]
    }
    fn tbv(&mut self, p: &Pool, i: Id) -> Ast {
        self.ensure(i as usize);
        if !self.bv[i as usize].is_null() {
            return self.bv[i as usize];
        }
        self.trans(p, i);
        if self.bv[i as usize].is_null() {
            // bool only
            let b = self.bo[i as usize];
            let one = self.num(1, 1);
            let zero = self.num(1, 0);
            unsafe {
                let r = Z3_mk_ite(self.c, b, one, zero);
                Z3_inc_ref(self.c, r);
                self.bv[i as usize] = r;
            }
        }
        self.bv[i as usize]
    }
    fn trans(&mut self, p: &Pool, root: Id) {
        let mut st = vec![root];
        while let Some(&x) = st.last() {
            self.ensure(x as usize);
            let n = p.n(x);
            let done = if n.w == 1 { !self.bo[x as usize].is_null() } else { !self.bv[x as usize].is_null() };
            if done {
                st.pop();
                continue;
            }
            let k = Pool::nargs(n.op);
            let ch = [n.a, n.b, n.c];
            let mut ready = true;
            for &y in &ch[..k] {
                self.ensure(y as usize);
                let d = if p.w(y) == 1 { !self.bo[y as usize].is_null() } else { !self.bv[y as usize].is_null() };
                if !d {
                    st.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            self.trans1(p, x, n);
            st.pop();
        }
    }
    fn trans1(&mut self, p: &Pool, x: Id, n: Node) {
        unsafe {
            let c = self.c;
            if n.w == 1 {
                let r = match n.op {
                    Op::Const => {
                        if n.k == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    }
                    Op::Var => {
                        let s = self.sort(1);
                        let v = Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s);
                        Z3_inc_ref(c, v);
                        self.bv[x as usize] = v;
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, v, one)
                    }
                    Op::And => Z3_mk_and(c, 2, [self.tbool(p, n.a), self.tbool(p, n.b)].as_ptr()),
                    Op::Or => Z3_mk_or(c, 2, [self.tbool(p, n.a), self.tbool(p, n.b)].as_ptr()),
                    Op::Xor | Op::Add => Z3_mk_xor(c, self.tbool(p, n.a), self.tbool(p, n.b)),
                    Op::Mul => Z3_mk_and(c, 2, [self.tbool(p, n.a), self.tbool(p, n.b)].as_ptr()),
                    Op::Not => Z3_mk_not(c, self.tbool(p, n.a)),
                    Op::Ite => Z3_mk_ite(c, self.tbool(p, n.a), self.tbool(p, n.b), self.tbool(p, n.c)),
                    Op::Eq => {
                        if p.w(n.a) == 1 {
                            Z3_mk_eq(c, self.tbool(p, n.a), self.tbool(p, n.b))
                        } else {
                            Z3_mk_eq(c, self.tbv(p, n.a), self.tbv(p, n.b))
                        }
                    }
                    Op::Ult => Z3_mk_bvult(c, self.tbv(p, n.a), self.tbv(p, n.b)),
                    Op::Slt => Z3_mk_bvslt(c, self.tbv(p, n.a), self.tbv(p, n.b)),
                    Op::Extract => {
                        let a = self.tbv(p, n.a);
                        let e = Z3_mk_extract(c, n.k as c_uint, n.k as c_uint, a);
                        Z3_inc_ref(c, e);
                        self.bv[x as usize] = e;
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, e, one)
                    }
                    Op::FEq | Op::FLt | Op::FLe => {
                        let s = self.fs(p.w(n.a));
                        let a = keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.a), s));
                        let b = keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.b), s));
                        match n.op {
                            Op::FEq => Z3_mk_fpa_eq(c, a, b),
                            Op::FLt => Z3_mk_fpa_lt(c, a, b),
                            _ => Z3_mk_fpa_leq(c, a, b),
                        }
                    }
                    Op::FNan => {
                        let s = self.fs(p.w(n.a));
                        Z3_mk_fpa_is_nan(c, keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.a), s)))
                    }
                    op => {
                        // generic 1-bit bv op
                        let (a, b) = (self.tbv(p, n.a), if Pool::nargs(op) > 1 { self.tbv(p, n.b) } else { std::ptr::null_mut() });
                        let e = match op {
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            _ => panic!("trans w1 {:?}", op),
                        };
                        Z3_inc_ref(c, e);
                        self.bv[x as usize] = e;
                        let one = self.num(1, 1);
                        Z3_mk_eq(c, e, one)
                    }
                };
                Z3_inc_ref(c, r);
                self.bo[x as usize] = r;
                return;
            }
            let r = match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => {
                    let s = self.sort(n.w);
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), s)
                }
                Op::Ite => {
                    let a = self.tbool(p, n.a);
                    Z3_mk_ite(c, a, self.tbv(p, n.b), self.tbv(p, n.c))
                }
                Op::Not => Z3_mk_bvnot(c, self.tbv(p, n.a)),
                Op::Extract => Z3_mk_extract(c, (n.k as u16 + n.w - 1) as c_uint, n.k as c_uint, self.tbv(p, n.a)),
                Op::ZExt => Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as c_uint, self.tbv(p, n.a)),
                Op::SExt => Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, self.tbv(p, n.a)),
                Op::FSqrt => {
                    let s = self.fs(n.w);
                    let a = keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.a), s));
                    Z3_mk_fpa_to_ieee_bv(c, keep(c, Z3_mk_fpa_sqrt(c, keep(c, Z3_mk_fpa_rne(c)), a)))
                }
                Op::FRound => {
                    let s = self.fs(n.w);
                    let a = keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.a), s));
                    let rm = match n.k {
                        0 => keep(c, Z3_mk_fpa_rtn(c)),
                        1 => keep(c, Z3_mk_fpa_rtp(c)),
                        2 => keep(c, Z3_mk_fpa_rtz(c)),
                        3 => keep(c, Z3_mk_fpa_rne(c)),
                        _ => keep(c, Z3_mk_fpa_rna(c)),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, keep(c, Z3_mk_fpa_round_to_integral(c, rm, a)))
                }
                Op::FFromS | Op::FFromU => {
                    let s = self.fs(n.w);
                    let a = self.tbv(p, n.a);
                    let rm = keep(c, Z3_mk_fpa_rne(c));
                    let f = if n.op == Op::FFromS { Z3_mk_fpa_to_fp_signed(c, rm, a, s) } else { Z3_mk_fpa_to_fp_unsigned(c, rm, a, s) };
                    Z3_mk_fpa_to_ieee_bv(c, keep(c, f))
                }
                Op::FToSSat | Op::FToU => {
                    let s = self.fs(p.w(n.a));
                    let a = keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.a), s));
                    let rm = keep(c, Z3_mk_fpa_rtz(c));
                    if n.op == Op::FToSSat {
                        Z3_mk_fpa_to_sbv(c, rm, a, n.w as c_uint)
                    } else {
                        Z3_mk_fpa_to_ubv(c, rm, a, n.w as c_uint)
                    }
                }
                Op::FExt => {
                    let s = self.fs(p.w(n.a));
                    let d = self.fs(n.w);
                    let a = keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.a), s));
                    Z3_mk_fpa_to_ieee_bv(c, keep(c, Z3_mk_fpa_to_fp_float(c, keep(c, Z3_mk_fpa_rne(c)), a, d)))
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let s = self.fs(n.w);
                    let a = keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.a), s));
                    let b = keep(c, Z3_mk_fpa_to_fp_bv(c, self.tbv(p, n.b), s));
                    let rm = keep(c, Z3_mk_fpa_rne(c));
                    let f = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, keep(c, f))
                }
                op => {
                    let a = self.tbv(p, n.a);
                    let b = self.tbv(p, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => panic!("trans {:?}", op),
                    }
                }
            };
            Z3_inc_ref(c, r);
            self.bv[x as usize] = r;
        }
    }
    fn has_fp(&mut self, p: &Pool, i: Id) -> bool {
        while self.isfp.len() <= i as usize {
            self.isfp.push(0);
        }
        let mut st = vec![i];
        while let Some(&x) = st.last() {
            if self.isfp[x as usize] != 0 {
                st.pop();
                continue;
            }
            let n = p.n(x);
            let k = Pool::nargs(n.op);
            let ch = [n.a, n.b, n.c];
            let mut ready = true;
            for &y in &ch[..k] {
                if self.isfp[y as usize] == 0 {
                    st.push(y);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let own = matches!(
                n.op,
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FRound | Op::FEq | Op::FLt | Op::FLe | Op::FNan | Op::FFromS | Op::FFromU | Op::FToSSat | Op::FToU | Op::FExt
            );
            let y = own || ch[..k].iter().any(|&y| self.isfp[y as usize] == 2);
            self.isfp[x as usize] = if y { 2 } else { 1 };
            st.pop();
        }
        self.isfp[i as usize] == 2
    }
    /// check conjunction of width-1 expressions
    pub fn check(&mut self, p: &mut Pool, cs_: &[Id]) -> Res {
        let mut key: Vec<Id> = cs_.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        let t0 = Instant::now();
        self.queries += 1;
        self.uses += 1;
        if self.uses > 20000 {
            self.uses = 0;
            self.mk_solvers();
        }
        let fp = key.iter().any(|&i| self.has_fp(p, i));
        // small queries: incremental core with a low resource limit; the rest: one-shot tactics
        let mut s = if fp { self.s_fp } else { self.s_fast };
        let c = self.c;
        let r;
        unsafe {
            let mut v = 0;
            if !fp {
                Z3_solver_push(c, s);
                for &i in &key {
                    let a = self.tbool(p, i);
                    Z3_solver_assert(c, s, a);
                }
                v = Z3_solver_check(c, s);
                if v == 0 {
                    Z3_solver_pop(c, s, 1);
                    s = self.s_bv;
                }
            }
            if v == 0 {
                Z3_solver_reset(c, s);
                for &i in &key {
                    let a = self.tbool(p, i);
                    Z3_solver_assert(c, s, a);
                }
                v = Z3_solver_check(c, s);
            }
            r = match v {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vs: Vec<u32> = vec![];
                    for &i in &key {
                        vs.extend(p.varset(i).iter());
                    }
                    vs.sort_unstable();
                    vs.dedup();
                    let mut out = FxMap::default();
                    for v in vs {
                        let id = p.vars[v as usize];
                        let a = self.tbv(p, id);
                        let mut o: Ast = std::ptr::null_mut();
                        if Z3_model_eval(c, m, a, true, &mut o) {
                            Z3_inc_ref(c, o);
                            let mut u = 0u64;
                            let val = if p.varw[v as usize] <= 64 && Z3_get_numeral_uint64(c, o, &mut u) {
                                u as u128
                            } else {
                                CStr::from_ptr(Z3_get_numeral_string(c, o)).to_str().unwrap().parse::<u128>().unwrap()
                            };
                            Z3_dec_ref(c, o);
                            out.insert(v, val);
                        }
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat(Rc::new(out))
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if self.dump_slow && dt > 1.0 {
            unsafe {
                let f = format!("/tmp/slow_{}_{}.smt2", std::process::id(), self.queries);
                let t = CStr::from_ptr(Z3_solver_to_string(c, s)).to_string_lossy().to_string();
                let _ = std::fs::write(&f, t);
                eprintln!("slow query {dt:.2}s {f}");
            }
        }
        if s == self.s_fast {
            unsafe { Z3_solver_pop(c, s, 1) };
        }
        match &r {
            Res::Sat(m) => {
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(key, None);
            }
            _ => {}
        }
        r
    }
}

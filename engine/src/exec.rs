//! Forking symbolic executor over the lowered IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u128),
    S(Id),
    A(Rc<Vec<V>>),
    U,
}

const G_BASE: u64 = 0x1000_0000_0000;
const H_BASE: u64 = 0x2000_0000_0000;
const S_BASE: u64 = 0x3000_0000_0000;
const F_BASE: u64 = 0x4000_0000_0000;
const SLOT: u64 = 1 << 24;
const MAX_ALLOC: u64 = 1 << 22;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub ro: bool,
    pub heap: bool,
    pub data: Vec<u8>,
    pub sh: Vec<u64>, // empty = concrete; 0 concrete, 1 uninit, (id+2)<<8|byte
}
impl Obj {
    fn new(base: u64, size: u64, align: u64, heap: bool) -> Obj {
        Obj { base, size, align, ro: false, heap, data: vec![0; size as usize], sh: vec![1; size as usize] }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub cs: Rc<Vec<V>>,
    pub fx: usize,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<V>,
    pub stack_base: usize,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub unwind: Option<u32>,
    pub catch: bool,
}

pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub stack: Vec<Rc<Obj>>,
    pub gl: Rc<FxMap<u32, Rc<Obj>>>,
    pub path: Vec<Id>,
    pub known: Rc<FxMap<Id, u128>>,
    pub model: Rc<FxMap<u32, u128>>,
    pub mid: u64,
    pub inputs: Vec<Id>,
    pub obs: Vec<(u32, V)>,
    pub steps: u64,
    pub expect_panic: bool,
    pub unwinding: u32,
    pub live: u64,
    pub depth: u32,
}
fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) / 256
}
impl Clone for State {
    fn clone(&self) -> State {
        State {
            frames: self.frames.clone(),
            heap: self.heap.clone(),
            stack: self.stack.clone(),
            gl: self.gl.clone(),
            path: self.path.clone(),
            known: self.known.clone(),
            model: self.model.clone(),
            mid: self.mid,
            inputs: self.inputs.clone(),
            obs: self.obs.clone(),
            steps: self.steps,
            expect_panic: self.expect_panic,
            unwinding: self.unwinding,
            live: self.live,
            depth: self.depth + 1,
        }
    }
}

pub enum Halt {
    Done,
    Assumed,
    Stop, // violation recorded
    Error(String),
}
pub type X<T> = Result<T, Halt>;

#[derive(Clone)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub at: String,
    pub inputs: Vec<u128>,
    pub trace: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Memcpy,
    Memset,
    Memcmp,
    Strlen,
    Memalign,
    Clock,
    Nop,
    Zero,
    Panic,
    PanicNoUnwind,
    Abort,
    Sym,
    Assume,
    Assert,
    Cover,
    Pick,
    ExpectPanic,
    LiveHeap,
    Catch,
    DoPanic,
    Obs,
    Conc,
    RandKeys,
    Libm(&'static str),
    PanicCount,
}

#[derive(Clone)]
enum Target {
    Fn(usize),
    Bi(B),
    Intr(Rc<str>),
    Missing(Rc<str>),
}

struct FnSlot {
    module: usize,
    name: String,
    parsed: Option<(Rc<Func>, Rc<Vec<V>>)>,
    visited: Vec<bool>,
}
struct GlSlot {
    module: usize,
    name: String,
    obj: Option<Rc<Obj>>,
    addr: u64,
}

pub struct Eng {
    pub p: Pool,
    pub z: Z3,
    pub mods: Vec<Module>,
    fns: Vec<FnSlot>,
    targets: Vec<Target>, // indexed by fn address index
    tgt_ix: HashMap<(usize, String), usize>,
    gls: Vec<GlSlot>,
    gl_ix: HashMap<(usize, String), u32>,
    ext_fn: HashMap<String, usize>, // exported function -> module
    ext_gl: HashMap<String, usize>,
    ext_alias: HashMap<String, (usize, String)>,
    pub work: Vec<State>,
    pub viols: Vec<Viol>,
    pub covers: BTreeMap<u64, u64>,
    pub input_vars: HashMap<(usize, u16), Id>,
    pub paths_done: u64,
    pub paths_assumed: u64,
    pub steps: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_sym: u64,
    pub incomplete: Vec<String>,
    pub samples: Vec<(Vec<u128>, Vec<(u32, u128)>)>,
    pub sample_cap: usize,
    pub max_steps: u64,
    pub deadline: Option<std::time::Instant>,
    pub mem_limit: u64,
    ticks: u32,
    pub fork_at: BTreeMap<String, u64>,
    pub fork_dbg: bool,
    /// debugging: concrete inputs, and a trace of the blocks entered
    fixed: Option<Vec<u64>>,
    trace: bool,
    next_mid: u64,
    pub max_viol: usize,
    pub fork_lanes: bool,
    pub concretizations: u64,
}

fn scs(v: u128, w: u16) -> u128 {
    v & mask(w)
}

impl Eng {
    pub fn new(paths: &[String], timeout_ms: u32) -> Eng {
        let mods: Vec<Module> = paths.iter().map(|p| Module::load(p)).collect();
        let mut e = Eng {
            p: Pool::new(),
            z: Z3::new(timeout_ms),
            mods,
            fns: vec![],
            targets: vec![],
            tgt_ix: HashMap::new(),
            gls: vec![],
            gl_ix: HashMap::new(),
            ext_fn: HashMap::new(),
            ext_gl: HashMap::new(),
            ext_alias: HashMap::new(),
            work: vec![],
            viols: vec![],
            covers: BTreeMap::new(),
            input_vars: HashMap::new(),
            paths_done: 0,
            paths_assumed: 0,
            steps: 0,
            forks: 0,
            asserts: 0,
            asserts_sym: 0,
            incomplete: vec![],
            samples: vec![],
            sample_cap: 4,
            max_steps: 3_000_000,
            deadline: None,
            mem_limit: 2600,
            ticks: 0,
            fork_at: BTreeMap::new(),
            fork_dbg: std::env::var("IRSYM_FORKS").is_ok(),
            fixed: std::env::var("IRSYM_IN").ok().map(|t| t.split(',').map(|x| x.parse().unwrap()).collect()),
            trace: std::env::var("IRSYM_TRACE").is_ok(),
            next_mid: 1,
            max_viol: 3,
            fork_lanes: true,
            concretizations: 0,
        };
        e.p.konst(1, 0);
        for (i, m) in e.mods.iter().enumerate() {
            for (n, f) in &m.funcs {
                if !f.3 {
                    e.ext_fn.entry(n.clone()).or_insert(i);
                }
            }
            for (n, g) in &m.globals {
                if !g.2 {
                    let line = &m.text[g.0..g.1];
                    let ext = line.contains("= external ") || line.contains("= extern_weak ");
                    if !ext {
                        e.ext_gl.entry(n.clone()).or_insert(i);
                    }
                }
            }
            for (n, t) in &m.aliases {
                e.ext_alias.entry(n.clone()).or_insert((i, t.clone()));
            }
        }
        e
    }

    // ---------- symbols ----------
    fn builtin(name: &str) -> Option<Target> {
        use B::*;
        let b = match name {
            "vsym" => Sym,
            "vassume" => Assume,
            "vassert" => Assert,
            "vcover" => Cover,
            "vpick" => Pick,
            "vexpect_panic" => ExpectPanic,
            "v_live_heap" => LiveHeap,
            "vcatch" => Catch,
            "vpanic" => DoPanic,
            "vobs" => Obs,
            "vconc" => Conc,
            "memcpy" | "memmove" => Memcpy,
            "memset" => Memset,
            "memcmp" | "bcmp" => Memcmp,
            "strlen" => Strlen,
            "abort" => Abort,
            "__cxa_thread_atexit_impl" => Zero,
            "posix_memalign" => Memalign,
            "clock_gettime" => Clock,
            "pow" | "exp" | "log" | "log2" | "log10" | "sin" | "cos" | "tan" | "fmod" | "cbrt" | "atan" | "atan2" | "exp2" | "fmodf" | "ldexp" => {
                let s: &'static str = Box::leak(name.to_string().into_boxed_str());
                Libm(s)
            }
            _ => {
                if name.ends_with("12___rust_alloc") {
                    Alloc
                } else if name.ends_with("19___rust_alloc_zeroed") {
                    AllocZ
                } else if name.ends_with("14___rust_dealloc") {
                    Dealloc
                } else if name.ends_with("14___rust_realloc") {
                    Realloc
                } else if name.contains("___rust_no_alloc_shim_is_unstable") {
                    Nop
                } else if name.contains("4core9panicking9panic_fmt") || name.contains("17rust_begin_unwind") || name.contains("3std9panicking11begin_panic") || name.contains("18handle_alloc_error") || name.contains("3std9panicking20rust_panic_with_hook") || name.contains("15resume_unwind") {
                    Panic
                } else if name.contains("4core9panicking18panic_nounwind") || name.contains("4core9panicking19panic_cannot_unwind") || name.contains("4core9panicking16panic_in_cleanup") || name.contains("4core9panicking14panic_nounwind") {
                    PanicNoUnwind
                } else if name.contains("19hashmap_random_keys") {
                    RandKeys
                } else if name.contains("7process5abort") || name.contains("14abort_internal") || name.contains("5abort5abort") {
                    Abort
                } else if name.contains("9panicking11panic_count17is_zero_slow_path") {
                    PanicCount
                } else {
                    return None;
                }
            }
        };
        Some(Target::Bi(b))
    }
    fn target(&mut self, module: usize, name: &str) -> usize {
        if let Some(&i) = self.tgt_ix.get(&(module, name.to_string())) {
            return i;
        }
        let local = self.mods[module].funcs.get(name).map(|f| f.3).unwrap_or(false);
        let key = if local { (module, name.to_string()) } else { (usize::MAX, name.to_string()) };
        if let Some(&i) = self.tgt_ix.get(&key) {
            self.tgt_ix.insert((module, name.to_string()), i);
            return i;
        }
        let t = if let Some(t) = Self::builtin(name) {
            t
        } else if name.starts_with("llvm.") {
            Target::Intr(name.into())
        } else {
            let m = if local { Some((module, name.to_string())) } else { self.ext_fn.get(name).map(|m| (*m, name.to_string())) };
            let m = m.or_else(|| self.mods[module].aliases.get(name).map(|t| (module, t.clone()))).or_else(|| self.ext_alias.get(name).cloned());
            match m {
                Some((m, n)) if self.mods[m].funcs.contains_key(&n) => {
                    self.fns.push(FnSlot { module: m, name: n, parsed: None, visited: vec![] });
                    Target::Fn(self.fns.len() - 1)
                }
                _ => Target::Missing(name.into()),
            }
        };
        let i = self.targets.len();
        self.targets.push(t);
        self.tgt_ix.insert(key, i);
        self.tgt_ix.insert((module, name.to_string()), i);
        i
    }
    fn is_fn_name(&self, module: usize, name: &str) -> bool {
        name.starts_with("llvm.") && !self.mods[module].globals.contains_key(name)
            || self.mods[module].funcs.contains_key(name)
            || self.mods[module].aliases.contains_key(name)
            || (!self.mods[module].globals.contains_key(name))
    }
    fn sym_addr(&mut self, module: usize, name: &str) -> Result<u64, String> {
        if self.is_fn_name(module, name) {
            let t = self.target(module, name);
            return Ok(F_BASE + 16 * t as u64);
        }
        let g = self.global(module, name)?;
        Ok(self.gls[g as usize].addr)
    }
    fn global(&mut self, module: usize, name: &str) -> Result<u32, String> {
        if let Some(&i) = self.gl_ix.get(&(module, name.to_string())) {
            return Ok(i);
        }
        let g = self.mods[module].globals.get(name).ok_or_else(|| format!("global {name}"))?;
        let local = g.2;
        let (m, key) = if local {
            (module, (module, name.to_string()))
        } else {
            let m = self.ext_gl.get(name).copied().unwrap_or(module);
            (m, (usize::MAX, name.to_string()))
        };
        if let Some(&i) = self.gl_ix.get(&key) {
            self.gl_ix.insert((module, name.to_string()), i);
            return Ok(i);
        }
        let ix = self.gls.len() as u32;
        let addr_al = {
            let mm = &self.mods[m];
            let g = mm.globals.get(name).unwrap();
            let line = &mm.text[g.0..g.1];
            let (_, _, _, al) = parse_global(mm, line)?;
            al
        };
        let addr = G_BASE + ix as u64 * SLOT + addr_al.max(16);
        self.gls.push(GlSlot { module: m, name: name.to_string(), obj: None, addr });
        self.gl_ix.insert(key, ix);
        self.gl_ix.insert((module, name.to_string()), ix);
        Ok(ix)
    }
    fn global_obj(&mut self, ix: u32) -> Result<Rc<Obj>, String> {
        if let Some(o) = &self.gls[ix as usize].obj {
            return Ok(o.clone());
        }
        let (m, name, addr) = {
            let g = &self.gls[ix as usize];
            (g.module, g.name.clone(), g.addr)
        };
        let (ty, k, cst, al) = {
            let mm = &self.mods[m];
            let g = mm.globals.get(&name).unwrap();
            let line = mm.text[g.0..g.1].to_string();
            parse_global(mm, &line)?
        };
        let k = k.ok_or_else(|| format!("external global {name}"))?;
        let mut o = Obj::new(addr, ty.size(), al, false);
        o.sh = vec![];
        self.fill(m, &mut o, 0, &ty, &k)?;
        o.ro = cst;
        let o = Rc::new(o);
        self.gls[ix as usize].obj = Some(o.clone());
        Ok(o)
    }
    fn fill(&mut self, m: usize, o: &mut Obj, off: u64, ty: &Ty, k: &K) -> Result<(), String> {
        match k {
            K::Zero | K::Undef => {}
            K::Bytes(b) => {
                o.data[off as usize..off as usize + b.len()].copy_from_slice(b);
            }
            K::Agg(v) => {
                for (i, (t, k)) in v.iter().enumerate() {
                    let fo = ty.field_off(i);
                    self.fill(m, o, off + fo, t, k)?;
                }
            }
            K::Splat(b) => {
                for i in 0..ty.nfields() {
                    self.fill(m, o, off + ty.field_off(i), &b.0, &b.1)?;
                }
            }
            _ => {
                let v = self.kint(m, k)?;
                let n = ty.store_size() as usize;
                for i in 0..n {
                    o.data[off as usize + i] = (v >> (8 * i)) as u8;
                }
            }
        }
        Ok(())
    }
    fn kint(&mut self, m: usize, k: &K) -> Result<u128, String> {
        Ok(match k {
            K::Int(v) => *v,
            K::Zero | K::Undef => 0,
            K::Sym(s) => self.sym_addr(m, s)? as u128,
            K::Gep(b, off) => {
                let b = self.kint(m, b)?;
                (b as u64).wrapping_add(*off as u64) as u128
            }
            K::Cast(w, b) => self.kint(m, b)? & mask(*w),
            K::Bin(op, a, b, w) => {
                let (a, b) = (self.kint(m, a)?, self.kint(m, b)?);
                (match op.as_str() {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "shl" => a << (b as u32),
                    _ => return Err(format!("constexpr {op}")),
                }) & mask(*w)
            }
            _ => return Err(format!("kint {k:?}")),
        })
    }
    fn kval(&mut self, m: usize, ty: &Ty, k: &K) -> Result<V, String> {
        Ok(match (ty, k) {
            (_, K::Undef) => self.undef_of(ty),
            (Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..), K::Zero) => {
                let n = ty.nfields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(self.kval(m, ty.field(i), &K::Zero)?);
                }
                V::A(Rc::new(v))
            }
            (_, K::Agg(ks)) => {
                let mut v = Vec::with_capacity(ks.len());
                for (t, k) in ks {
                    v.push(self.kval(m, t, k)?);
                }
                V::A(Rc::new(v))
            }
            (_, K::Splat(b)) => {
                let e = self.kval(m, &b.0, &b.1)?;
                V::A(Rc::new(vec![e; ty.nfields()]))
            }
            (_, K::Bytes(b)) => V::A(Rc::new(b.iter().map(|c| V::C(*c as u128)).collect())),
            _ => V::C(self.kint(m, k)?),
        })
    }
    fn undef_of(&self, ty: &Ty) -> V {
        match ty {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => V::A(Rc::new((0..ty.nfields()).map(|i| self.undef_of(ty.field(i))).collect())),
            _ => V::U,
        }
    }
    fn func(&mut self, fx: usize) -> Result<(Rc<Func>, Rc<Vec<V>>), String> {
        if let Some(p) = &self.fns[fx].parsed {
            return Ok(p.clone());
        }
        let m = self.fns[fx].module;
        let name = self.fns[fx].name.clone();
        let f = parse_func(&self.mods[m], m, &name).map_err(|e| format!("parse {name}: {e}"))?;
        let mut cs = Vec::with_capacity(f.consts.len());
        for (t, k) in &f.consts {
            cs.push(self.kval(m, t, k).map_err(|e| format!("const in {name}: {e}"))?);
        }
        self.fns[fx].visited = vec![false; f.blocks.len()];
        let r = (Rc::new(f), Rc::new(cs));
        self.fns[fx].parsed = Some(r.clone());
        Ok(r)
    }
    pub fn visited(&self) -> Vec<(usize, String, String, Vec<u32>)> {
        self.fns
            .iter()
            .filter(|f| f.visited.iter().any(|x| *x))
            .map(|f| {
                let p = f.parsed.as_ref().unwrap().0.clone();
                let mut d: BTreeSet<u32> = BTreeSet::new();
                for (i, v) in f.visited.iter().enumerate() {
                    if *v {
                        d.extend(p.blocks[i].dbg.iter().copied().filter(|x| *x != 0));
                    }
                }
                (f.module, f.name.clone(), p.pretty.clone(), d.into_iter().collect())
            })
            .collect()
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let m = *self.ext_fn.get(entry).ok_or_else(|| format!("no entry {entry}"))?;
        let t = self.target(m, entry);
        let Target::Fn(fx) = self.targets[t].clone() else { return Err(format!("entry {entry}")) };
        let mut st = State {
            frames: vec![],
            heap: vec![],
            stack: vec![],
            gl: Rc::new(FxMap::default()),
            path: vec![],
            known: Rc::new(FxMap::default()),
            model: Rc::new(FxMap::default()),
            mid: 0,
            inputs: vec![],
            obs: vec![],
            steps: 0,
            expect_panic: false,
            unwinding: 0,
            live: 0,
            depth: 0,
        };
        self.push_frame(&mut st, fx, vec![], None, None, None, false)?;
        self.work.push(st);
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn push_frame(&mut self, st: &mut State, fx: usize, args: Vec<V>, dst: Option<u32>, normal: Option<u32>, unwind: Option<u32>, catch: bool) -> Result<(), String> {
        let (f, cs) = self.func(fx)?;
        self.fns[fx].visited[0] = true;
        let mut regs = vec![V::U; f.nregs as usize];
        if args.len() != f.params.len() {
            return Err(format!("arity {} {} vs {}", f.name, args.len(), f.params.len()));
        }
        for ((_, r), a) in f.params.iter().zip(args) {
            regs[*r as usize] = a;
        }
        if st.frames.len() > 2000 {
            return Err("stack depth".into());
        }
        st.frames.push(Rc::new(Frame { f, cs, fx, blk: 0, ip: 0, regs, stack_base: st.stack.len(), dst, normal, unwind, catch }));
        Ok(())
    }

    // ---------- values ----------
    fn to_id(&mut self, v: &V, w: u16) -> Id {
        match v {
            V::C(c) => self.p.konst(w, *c),
            V::S(i) => *i,
            V::U => self.p.var(w),
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn from_id(&self, i: Id) -> V {
        match self.p.cv(i) {
            Some(c) => V::C(c),
            None => V::S(i),
        }
    }
    fn opnd(&mut self, st: &State, o: &O) -> V {
        let fr = st.frames.last().unwrap();
        let v = match o {
            O::R(r) => &fr.regs[*r as usize],
            O::C(c) => &fr.cs[*c as usize],
            O::K(_) => unreachable!(),
        };
        match v {
            V::S(i) => match st.known.get(i) {
                Some(c) => V::C(*c),
                None => V::S(*i),
            },
            v => v.clone(),
        }
    }
    fn model_val(&mut self, st: &State, e: Id) -> u128 {
        let m = st.model.clone();
        self.p.eval(e, st.mid, &|v| m.get(&v).copied().unwrap_or(0))
    }
    /// Give the unknowns that the path leaves unconstrained distinct values.
    fn spread(&mut self, st: &mut State) {
        let mut used: FxSet<u32> = FxSet::default();
        for &x in &st.path {
            used.extend(self.p.varset(x).iter().copied());
        }
        let mut m = (*st.model).clone();
        let mut x = 0x9e37_79b9_7f4a_7c15u64 ^ self.paths_done.wrapping_mul(0xd134_2543_de82_ef95);
        for v in 0..self.p.varw.len() as u32 {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            if !used.contains(&v) {
                let w = self.p.varw[v as usize].min(64);
                m.insert(v, if w == 64 { x as u128 } else { (x & ((1u64 << w) - 1)) as u128 });
            }
        }
        st.model = Rc::new(m);
        self.next_mid += 1;
        st.mid = self.next_mid;
    }
    fn slice(&mut self, st: &State, c: Id) -> Vec<Id> {
        let mut vars: FxSet<u32> = FxSet::default();
        vars.extend(self.p.varset(c).iter().copied());
        let mut rest: Vec<(Id, Rc<Vec<u32>>)> = vec![];
        for &x in &st.path {
            let vs = self.p.varset(x);
            rest.push((x, vs));
        }
        let mut out = vec![c];
        loop {
            let mut ch = false;
            let mut nr = vec![];
            for (x, vs) in rest {
                if vs.iter().any(|v| vars.contains(v)) {
                    vars.extend(vs.iter().copied());
                    out.push(x);
                    ch = true;
                } else {
                    nr.push((x, vs));
                }
            }
            rest = nr;
            if !ch {
                break;
            }
        }
        out
    }
    /// is path && c satisfiable?  returns the merged model
    fn feasible(&mut self, st: &State, c: Id) -> Option<Option<Rc<FxMap<u32, u128>>>> {
        if let Some(v) = self.p.cv(c) {
            return if v == 1 { Some(Some(st.model.clone())) } else { Some(None) };
        }
        let sl = self.slice(st, c);
        match self.z.check(&mut self.p, &sl) {
            Res::Sat(m) => {
                let mut nm = (*st.model).clone();
                for (k, v) in m.iter() {
                    nm.insert(*k, *v);
                }
                let nm = Rc::new(nm);
                // cross-check: the solver's model must satisfy the query under our own evaluator
                self.next_mid += 1;
                let id = self.next_mid;
                let m2 = nm.clone();
                for &x in &sl {
                    if self.p.eval(x, id, &|v| m2.get(&v).copied().unwrap_or(0)) != 1 {
                        self.note(format!("solver model rejected by evaluator: {}", self.p.show(x, 6)));
                        break;
                    }
                }
                Some(Some(nm))
            }
            Res::Unsat => Some(None),
            Res::Unknown => None,
        }
    }
    fn note(&mut self, s: String) {
        if self.incomplete.len() < 20 && !self.incomplete.contains(&s) {
            self.incomplete.push(s);
        }
    }
    fn learn(&mut self, st: &mut State, c: Id, val: bool) {
        let k = Rc::make_mut(&mut st.known);
        let mut todo = vec![(c, val)];
        while let Some((c, val)) = todo.pop() {
            k.insert(c, val as u128);
            let n = self.p.n(c);
            match n.op {
                Op::Not => todo.push((n.a, !val)),
                Op::And if val && n.w == 1 => {
                    todo.push((n.a, true));
                    todo.push((n.b, true));
                }
                Op::Or if !val && n.w == 1 => {
                    todo.push((n.a, false));
                    todo.push((n.b, false));
                }
                Op::Eq if val => {
                    let (ca, cb) = (self.p.cv(n.a), self.p.cv(n.b));
                    if let Some(v) = cb {
                        k.insert(n.a, v);
                    } else if let Some(v) = ca {
                        k.insert(n.b, v);
                    }
                }
                _ => {}
            }
        }
    }
    fn assume_c(&mut self, st: &mut State, c: Id) {
        st.path.push(c);
        self.learn(st, c, true);
    }
    fn resolve(&mut self, st: &State, c: Id) -> Option<u128> {
        if let Some(v) = self.p.cv(c) {
            return Some(v);
        }
        if let Some(v) = st.known.get(&c) {
            return Some(*v);
        }
        None
    }
    fn simp(&mut self, st: &State, c: Id) -> Id {
        let mut memo = FxMap::default();
        let k = st.known.clone();
        self.p.subst(c, &k, &mut memo)
    }
    fn decide(&mut self, st: &mut State, c: Id) -> X<bool> {
        if let Some(v) = self.resolve(st, c) {
            return Ok(v == 1);
        }
        let s = self.simp(st, c);
        if let Some(v) = self.resolve(st, s) {
            self.learn(st, c, v == 1);
            return Ok(v == 1);
        }
        let v = self.model_val(st, s) == 1;
        let (yes, no) = {
            let n = self.p.not(s);
            if v {
                (s, n)
            } else {
                (n, s)
            }
        };
        match self.feasible(st, no) {
            Some(Some(m)) => {
                if self.trace {
                    eprintln!("fork on {} at {}", self.p.show(s, 6), self.where_(st));
                }
                if self.fork_dbg {
                    let w = self.where_(st);
                    *self.fork_at.entry(w).or_insert(0) += 1;
                }
                let mut s2 = st.clone();
                s2.model = m;
                self.next_mid += 1;
                s2.mid = self.next_mid;
                self.assume_c(&mut s2, no);
                self.learn(&mut s2, c, !v);
                self.forks += 1;
                self.work.push(s2);
                self.assume_c(st, yes);
                self.learn(st, c, v);
            }
            Some(None) => {
                self.learn(st, yes, true);
                self.learn(st, c, v);
            }
            None => {
                self.note("solver unknown on branch".into());
                self.assume_c(st, yes);
                self.learn(st, c, v);
            }
        }
        Ok(v)
    }
    /// pin a symbolic value to one concrete value, forking the rest
    fn conc(&mut self, st: &mut State, v: &V, w: u16) -> X<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::U => Ok(0),
            V::A(_) => Err(Halt::Error("conc aggregate".into())),
            V::S(i) => {
                if let Some(v) = self.resolve(st, *i) {
                    return Ok(v);
                }
                let s = self.simp(st, *i);
                if let Some(v) = self.resolve(st, s) {
                    Rc::make_mut(&mut st.known).insert(*i, v);
                    return Ok(v);
                }
                self.concretizations += 1;
                let val = self.model_val(st, s);
                let k = self.p.konst(w, val);
                let eq = self.p.eq(s, k);
                let r = self.decide(st, eq)?;
                debug_assert!(r);
                let _ = r;
                Rc::make_mut(&mut st.known).insert(*i, val);
                Ok(val)
            }
        }
    }

    // ---------- memory ----------
    fn where_(&self, st: &State) -> String {
        let fr = st.frames.last().unwrap();
        let d = fr.f.blocks[fr.blk as usize].dbg.get(fr.ip as usize).copied().unwrap_or(0);
        let loc = crate::dbg::loc(&self.mods[fr.f.module], d);
        format!("{} ({})", if fr.f.pretty.is_empty() { &fr.f.name } else { &fr.f.pretty }, loc)
    }
    fn backtrace(&self, st: &State) -> Vec<String> {
        st.frames
            .iter()
            .rev()
            .take(12)
            .map(|fr| {
                let d = fr.f.blocks[fr.blk as usize].dbg.get(fr.ip as usize).copied().unwrap_or(0);
                format!("{} {}", if fr.f.pretty.is_empty() { &fr.f.name } else { &fr.f.pretty }, crate::dbg::loc(&self.mods[fr.f.module], d))
            })
            .collect()
    }
    pub fn input_vals(&mut self, st: &State) -> Vec<u128> {
        let ins = st.inputs.clone();
        ins.iter().map(|&i| self.model_val(st, i)).collect()
    }
    fn violate(&mut self, st: &State, kind: &str, msg: String) -> Halt {
        let inputs = self.input_vals(st);
        let at = self.where_(st);
        let trace = self.backtrace(st);
        if !self.viols.iter().any(|v| v.kind == kind && v.msg == msg) {
            self.viols.push(Viol { kind: kind.into(), msg, at, inputs, trace });
        }
        Halt::Stop
    }
    fn obj(&mut self, st: &State, addr: u64, n: u64) -> Result<Rc<Obj>, String> {
        let o = match addr {
            G_BASE..H_BASE => {
                let ix = ((addr - G_BASE) / SLOT) as u32;
                if ix as usize >= self.gls.len() {
                    return Err(format!("wild address {addr:#x}"));
                }
                match st.gl.get(&ix) {
                    Some(o) => o.clone(),
                    None => self.global_obj(ix).map_err(|e| format!("!{e}"))?,
                }
            }
            H_BASE..S_BASE => {
                let ix = ((addr - H_BASE) / SLOT) as usize;
                match st.heap.get(ix) {
                    Some(Some(o)) => o.clone(),
                    Some(None) => return Err(format!("use after free, address {addr:#x}")),
                    None => return Err(format!("wild address {addr:#x}")),
                }
            }
            S_BASE..F_BASE => {
                let ix = ((addr - S_BASE) / SLOT) as usize;
                match st.stack.get(ix) {
                    Some(o) => o.clone(),
                    None => return Err(format!("dangling stack address {addr:#x}")),
                }
            }
            _ => return Err(format!("invalid address {addr:#x}")),
        };
        if addr < o.base || addr + n > o.base + o.size {
            return Err(format!("out of bounds: {} bytes at offset {} of {}-byte {} object", n, addr as i64 - o.base as i64, o.size, if o.heap { "heap" } else { "stack/global" }));
        }
        Ok(o)
    }
    fn obj_chk(&mut self, st: &State, addr: u64, n: u64, what: &str) -> X<Rc<Obj>> {
        match self.obj(st, addr, n) {
            Ok(o) => Ok(o),
            Err(e) if e.starts_with('!') => Err(Halt::Error(e)),
            Err(e) => Err(self.violate(st, "memory", format!("{what}: {e}"))),
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, n: u64) -> X<&'a mut Obj> {
        let o = self.obj_chk(st, addr, n, "write")?;
        if o.ro {
            return Err(self.violate(st, "memory", "write to constant".into()));
        }
        drop(o);
        Ok(match addr {
            G_BASE..H_BASE => {
                let ix = ((addr - G_BASE) / SLOT) as u32;
                let base = self.gls[ix as usize].obj.clone();
                let g = Rc::make_mut(&mut st.gl);
                Rc::make_mut(g.entry(ix).or_insert_with(|| base.unwrap()))
            }
            H_BASE..S_BASE => Rc::make_mut(st.heap[((addr - H_BASE) / SLOT) as usize].as_mut().unwrap()),
            _ => Rc::make_mut(&mut st.stack[((addr - S_BASE) / SLOT) as usize]),
        })
    }
    fn byte_id(&mut self, o: &Obj, i: usize) -> Id {
        let s = if o.sh.is_empty() { 0 } else { o.sh[i] };
        match s {
            0 => self.p.konst(8, o.data[i] as u128),
            1 => self.p.var(8),
            s => {
                let id = ((s >> 8) - 2) as Id;
                let b = (s & 255) as u16;
                let w = self.p.w(id);
                let rem = w - b * 8;
                if rem < 8 {
                    let x = self.p.extract(id, b * 8, rem);
                    self.p.zext(x, 8)
                } else {
                    self.p.extract(id, b * 8, 8)
                }
            }
        }
    }
    fn load_scalar(&mut self, o: &Obj, off: usize, w: u16) -> V {
        let n = (w as usize).div_ceil(8);
        if o.sh.is_empty() || o.sh[off..off + n].iter().all(|s| *s == 0) {
            let mut v = 0u128;
            for i in 0..n {
                v |= (o.data[off + i] as u128) << (8 * i);
            }
            return V::C(v & mask(w));
        }
        let s0 = o.sh[off];
        if o.sh[off..off + n].iter().all(|s| *s == 1) {
            return V::U;
        }
        if s0 > 1 && s0 & 255 == 0 {
            let id = ((s0 >> 8) - 2) as Id;
            if self.p.w(id) == w && (0..n).all(|i| o.sh[off + i] == s0 + i as u64) {
                return V::S(id);
            }
        }
        let mut acc = self.byte_id(o, off);
        for i in 1..n {
            let b = self.byte_id(o, off + i);
            acc = self.p.concat(b, acc);
        }
        if (n as u16) * 8 != w {
            acc = self.p.extract(acc, 0, w);
        }
        self.from_id(acc)
    }
    fn load_ty(&mut self, o: &Obj, off: usize, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) if matches!(**t, Ty::Int(1)) => {
                let v = self.load_scalar(o, off, *n as u16);
                self.split_bits(&v, *n)
            }
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let n = ty.nfields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    v.push(self.load_ty(o, off + ty.field_off(i) as usize, ty.field(i)));
                }
                V::A(Rc::new(v))
            }
            _ => self.load_scalar(o, off, ty.bits()),
        }
    }
    fn split_bits(&mut self, v: &V, n: usize) -> V {
        V::A(Rc::new(
            (0..n)
                .map(|i| match v {
                    V::C(c) => V::C((c >> i) & 1),
                    V::S(id) => {
                        let b = self.p.extract(*id, i as u16, 1);
                        self.from_id(b)
                    }
                    _ => V::U,
                })
                .collect(),
        ))
    }
    fn store_scalar(&mut self, o: &mut Obj, off: usize, w: u16, v: &V) {
        let n = (w as usize).div_ceil(8);
        match v {
            V::C(c) => {
                for i in 0..n {
                    o.data[off + i] = (c >> (8 * i)) as u8;
                }
                if !o.sh.is_empty() {
                    o.sh[off..off + n].fill(0);
                }
            }
            V::U => {
                if o.sh.is_empty() {
                    o.sh = vec![0; o.data.len()];
                }
                o.sh[off..off + n].fill(1);
            }
            V::S(id) => {
                if o.sh.is_empty() {
                    o.sh = vec![0; o.data.len()];
                }
                for i in 0..n {
                    o.sh[off + i] = ((*id as u64 + 2) << 8) | i as u64;
                }
            }
            V::A(_) => panic!("store agg"),
        }
    }
    fn store_ty(&mut self, o: &mut Obj, off: usize, ty: &Ty, v: &V) {
        match (ty, v) {
            (Ty::Vec(n, t), V::A(a)) if matches!(**t, Ty::Int(1)) => {
                let x = self.join_bits(a);
                self.store_scalar(o, off, *n as u16, &x)
            }
            (Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..), V::A(a)) => {
                for (i, x) in a.iter().enumerate() {
                    let t = ty.field(i);
                    self.store_ty(o, off + ty.field_off(i) as usize, t, x);
                }
            }
            (Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..), _) => {
                for i in 0..ty.nfields() {
                    self.store_ty(o, off + ty.field_off(i) as usize, ty.field(i), &V::U);
                }
            }
            _ => self.store_scalar(o, off, ty.bits(), v),
        }
    }
    fn join_bits(&mut self, a: &[V]) -> V {
        if a.iter().all(|x| matches!(x, V::C(_))) {
            let mut r = 0u128;
            for (i, x) in a.iter().enumerate() {
                if let V::C(c) = x {
                    r |= (c & 1) << i;
                }
            }
            return V::C(r);
        }
        let mut acc = self.to_id(&a[0], 1);
        for x in &a[1..] {
            let b = self.to_id(x, 1);
            acc = self.p.concat(b, acc);
        }
        self.from_id(acc)
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        if size > MAX_ALLOC {
            return 0;
        }
        let ix = st.heap.len() as u64;
        let base = H_BASE + ix * SLOT + if align < 32 { 32 + align } else { align };
        let mut o = Obj::new(base, size, align, true);
        if zero {
            o.sh = vec![];
        }
        st.heap.push(Some(Rc::new(o)));
        st.live += 1;
        base
    }
    fn free(&mut self, st: &mut State, addr: u64, size: u64, align: u64) -> X<()> {
        let ok = (H_BASE..S_BASE).contains(&addr);
        let ix = (addr.wrapping_sub(H_BASE) / SLOT) as usize;
        if !ok || ix >= st.heap.len() {
            return Err(self.violate(st, "memory", format!("free of non-heap address {addr:#x}")));
        }
        match &st.heap[ix] {
            None => return Err(self.violate(st, "memory", "double free".into())),
            Some(o) => {
                if o.base != addr || o.size != size || o.align != align {
                    let m = format!("free with wrong layout: size {} align {} (allocated {} align {}), offset {}", size, align, o.size, o.align, addr as i64 - o.base as i64);
                    return Err(self.violate(st, "memory", m));
                }
            }
        }
        st.heap[ix] = None;
        st.live -= 1;
        Ok(())
    }
    fn load(&mut self, st: &mut State, ty: &Ty, pv: &V) -> X<V> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(self.undef_of(ty));
        }
        if let V::S(id) = pv {
            if let Some(v) = self.table_load(st, *id, ty)? {
                return Ok(v);
            }
        }
        let a = self.conc(st, pv, 64)? as u64;
        let o = self.obj_chk(st, a, n, "read")?;
        let off = (a - o.base) as usize;
        Ok(self.load_ty(&o, off, ty))
    }
    /// symbolic index into a constant table: ite chain instead of a fork
    fn table_load(&mut self, st: &mut State, id: Id, ty: &Ty) -> X<Option<V>> {
        if !ty.is_scalar() {
            return Ok(None);
        }
        let id = self.simp(st, id);
        if self.p.cv(id).is_some() {
            return Ok(None);
        }
        let a0 = self.model_val(st, id) as u64;
        if !(G_BASE..H_BASE).contains(&a0) {
            return Ok(None);
        }
        let n = ty.store_size();
        let Ok(o) = self.obj(st, a0, n) else { return Ok(None) };
        if !o.ro || o.size > 4096 {
            return Ok(None);
        }
        // all feasible addresses inside the object?
        let lo = self.p.konst(64, o.base as u128);
        let hi = self.p.konst(64, (o.base + o.size - n) as u128);
        let c1 = self.p.ult(id, lo);
        let c2 = self.p.ult(hi, id);
        let bad = self.p.or(c1, c2);
        match self.feasible(st, bad) {
            Some(None) => {}
            _ => return Ok(None),
        }
        // stride: elements aligned like the model's address
        let sz = n;
        let k = self.p.konst(64, (a0 % sz) as u128);
        let m = self.p.konst(64, sz as u128 - 1);
        if sz.is_power_of_two() {
            let r = self.p.and(id, m);
            let e = self.p.eq(r, k);
            let ne = self.p.not(e);
            if self.feasible(st, ne).map(|x| x.is_some()).unwrap_or(true) {
                return Ok(None);
            }
        } else {
            return Ok(None);
        }
        let mut groups: BTreeMap<u128, Vec<u64>> = BTreeMap::new();
        let mut off = (a0 - o.base) % sz;
        while off + sz <= o.size {
            match self.load_scalar(&o, off as usize, ty.bits()) {
                V::C(c) => groups.entry(c).or_default().push(o.base + off),
                _ => return Ok(None),
            }
            off += sz;
        }
        // most frequent value as default
        let def = *groups.iter().max_by_key(|(_, v)| v.len()).unwrap().0;
        let w = ty.bits();
        let mut acc = self.p.konst(w, def);
        for (val, addrs) in groups {
            if val == def {
                continue;
            }
            let vk = self.p.konst(w, val);
            // contiguous runs as ranges
            let mut i = 0;
            while i < addrs.len() {
                let mut j = i;
                while j + 1 < addrs.len() && addrs[j + 1] == addrs[j] + sz {
                    j += 1;
                }
                let c = if i == j {
                    let k = self.p.konst(64, addrs[i] as u128);
                    self.p.eq(id, k)
                } else {
                    let a = self.p.konst(64, addrs[i] as u128);
                    let b = self.p.konst(64, addrs[j] as u128);
                    let x = self.p.ule(a, id);
                    let y = self.p.ule(id, b);
                    self.p.and(x, y)
                };
                acc = self.p.ite(c, vk, acc);
                i = j + 1;
            }
        }
        Ok(Some(self.from_id(acc)))
    }
    fn store(&mut self, st: &mut State, ty: &Ty, v: &V, pv: &V) -> X<()> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(());
        }
        let a = self.conc(st, pv, 64)? as u64;
        let o = self.obj_mut(st, a, n)? as *mut Obj;
        // the object lives in `st`, which is not touched below
        let o = unsafe { &mut *o };
        let off = (a - o.base) as usize;
        self.store_ty(o, off, ty, v);
        Ok(())
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj_chk(st, s, n, "copy from")?;
        let off = (s - so.base) as usize;
        let data = so.data[off..off + n as usize].to_vec();
        let sh = if so.sh.is_empty() { vec![] } else { so.sh[off..off + n as usize].to_vec() };
        drop(so);
        let o = self.obj_mut(st, d, n)?;
        let off = (d - o.base) as usize;
        o.data[off..off + n as usize].copy_from_slice(&data);
        if sh.iter().all(|x| *x == 0) {
            if !o.sh.is_empty() {
                o.sh[off..off + n as usize].fill(0);
            }
        } else {
            if o.sh.is_empty() {
                o.sh = vec![0; o.data.len()];
            }
            o.sh[off..off + n as usize].copy_from_slice(&sh);
        }
        Ok(())
    }

    // ---------- scalar ops ----------
    fn bin1(&mut self, op: &str, ty: &Ty, a: &V, b: &V) -> X<V> {
        let w = ty.bits();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let o = match op {
                "add" => return Ok(V::C(scs(x.wrapping_add(y), w))),
                "sub" => return Ok(V::C(scs(x.wrapping_sub(y), w))),
                "and" => return Ok(V::C(x & y)),
                "or" => return Ok(V::C(x | y)),
                "xor" => return Ok(V::C(x ^ y)),
                "mul" => Op::Mul,
                "shl" => Op::Shl,
                "lshr" => Op::LShr,
                "ashr" => Op::AShr,
                "udiv" => Op::UDiv,
                "urem" => Op::URem,
                "sdiv" => Op::SDiv,
                "srem" => Op::SRem,
                "fadd" => Op::FAdd,
                "fsub" => Op::FSub,
                "fmul" => Op::FMul,
                "fdiv" => Op::FDiv,
                "frem" => {
                    let r = if w == 32 { (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u128 } else { f_to(f_of(x, w) % f_of(y, w), w) };
                    return Ok(V::C(r));
                }
                _ => return Err(Halt::Error(format!("binop {op}"))),
            };
            return Ok(V::C(fold(o, w, 0, w, w, x, y, 0)));
        }
        let (x, y) = (self.to_id(a, w), self.to_id(b, w));
        let r = match op {
            "add" => self.p.add(x, y),
            "sub" => self.p.sub(x, y),
            "and" => self.p.and(x, y),
            "or" => self.p.or(x, y),
            "xor" => self.p.xor(x, y),
            "mul" => self.p.mul(x, y),
            "shl" => self.p.shl(x, y),
            "lshr" => self.p.lshr(x, y),
            "ashr" => self.p.ashr(x, y),
            "udiv" => self.p.div(Op::UDiv, x, y),
            "urem" => self.p.div(Op::URem, x, y),
            "sdiv" => self.p.div(Op::SDiv, x, y),
            "srem" => self.p.div(Op::SRem, x, y),
            "fadd" => self.p.fop(Op::FAdd, w, x, y, 0),
            "fsub" => self.p.fop(Op::FSub, w, x, y, 0),
            "fmul" => self.p.fop(Op::FMul, w, x, y, 0),
            "fdiv" => self.p.fop(Op::FDiv, w, x, y, 0),
            _ => return Err(Halt::Error(format!("symbolic {op}"))),
        };
        Ok(self.from_id(r))
    }
    fn icmp1(&mut self, pr: &str, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            return V::C(match pr {
                "eq" => x == y,
                "ne" => x != y,
                "ult" => x < y,
                "ule" => x <= y,
                "ugt" => x > y,
                "uge" => x >= y,
                "slt" => sx < sy,
                "sle" => sx <= sy,
                "sgt" => sx > sy,
                _ => sx >= sy,
            } as u128);
        }
        let (x, y) = (self.to_id(a, w), self.to_id(b, w));
        let r = match pr {
            "eq" => self.p.eq(x, y),
            "ne" => {
                let e = self.p.eq(x, y);
                self.p.not(e)
            }
            "ult" => self.p.ult(x, y),
            "ule" => self.p.ule(x, y),
            "ugt" => self.p.ult(y, x),
            "uge" => self.p.ule(y, x),
            "slt" => self.p.slt(x, y),
            "sle" => self.p.sle(x, y),
            "sgt" => self.p.slt(y, x),
            _ => self.p.sle(y, x),
        };
        self.from_id(r)
    }
    fn fcmp1(&mut self, pr: &str, w: u16, a: &V, b: &V) -> X<V> {
        let (x, y) = (self.to_id(a, w), self.to_id(b, w));
        let f = |e: &mut Self, op: Op, x, y| e.p.fop(op, 1, x, y, 0);
        let na = f(self, Op::FNan, x, x);
        let nb = f(self, Op::FNan, y, y);
        let uno = self.p.or(na, nb);
        let base = |e: &mut Self, k: &str| -> Option<Id> {
            Some(match k {
                "eq" => e.p.fop(Op::FEq, 1, x, y, 0),
                "lt" => e.p.fop(Op::FLt, 1, x, y, 0),
                "le" => e.p.fop(Op::FLe, 1, x, y, 0),
                "gt" => e.p.fop(Op::FLt, 1, y, x, 0),
                "ge" => e.p.fop(Op::FLe, 1, y, x, 0),
                _ => return None,
            })
        };
        let r = match pr {
            "ord" => self.p.not(uno),
            "uno" => uno,
            "true" => self.p.konst(1, 1),
            "false" => self.p.konst(1, 0),
            "one" => {
                let e = base(self, "eq").unwrap();
                let o = self.p.or(e, uno);
                self.p.not(o)
            }
            "une" => {
                let e = base(self, "eq").unwrap();
                self.p.not(e)
            }
            _ if pr.starts_with('o') => base(self, &pr[1..]).ok_or_else(|| Halt::Error(format!("fcmp {pr}")))?,
            _ if pr.starts_with('u') => {
                let e = base(self, &pr[1..]).ok_or_else(|| Halt::Error(format!("fcmp {pr}")))?;
                self.p.or(e, uno)
            }
            _ => return Err(Halt::Error(format!("fcmp {pr}"))),
        };
        Ok(self.from_id(r))
    }
    fn lanes2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, &Ty, &V, &V) -> X<V>) -> X<V> {
        if let Ty::Vec(n, t) = ty {
            let mut out = Vec::with_capacity(*n);
            for i in 0..*n {
                let x = self.lane(a, i);
                let y = self.lane(b, i);
                out.push(f(self, t, &x, &y)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        f(self, ty, a, b)
    }
    fn lane(&self, a: &V, i: usize) -> V {
        match a {
            V::A(v) => v[i].clone(),
            _ => V::U,
        }
    }
    fn ite(&mut self, c: Id, ty: &Ty, a: &V, b: &V) -> V {
        match ty {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let n = ty.nfields();
                V::A(Rc::new(
                    (0..n)
                        .map(|i| {
                            let x = self.lane(a, i);
                            let y = self.lane(b, i);
                            self.ite(c, ty.field(i), &x, &y)
                        })
                        .collect(),
                ))
            }
            _ => {
                if matches!(a, V::U) {
                    return b.clone();
                }
                if matches!(b, V::U) {
                    return a.clone();
                }
                let w = ty.bits();
                let (x, y) = (self.to_id(a, w), self.to_id(b, w));
                let r = self.p.ite(c, x, y);
                self.from_id(r)
            }
        }
    }
    fn cast1(&mut self, op: &str, from: &Ty, to: &Ty, v: &V) -> X<V> {
        let (fw, tw) = (from.bits(), to.bits());
        if matches!(v, V::U) && matches!(op, "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr") {
            return Ok(V::U);
        }
        Ok(match op {
            "trunc" => match v {
                V::C(c) => V::C(c & mask(tw)),
                _ => {
                    let i = self.to_id(v, fw);
                    let r = self.p.extract(i, 0, tw);
                    self.from_id(r)
                }
            },
            "zext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => match v {
                V::C(c) => V::C(c & mask(tw)),
                _ => {
                    let i = self.to_id(v, fw);
                    let r = if tw > fw {
                        self.p.zext(i, tw)
                    } else if tw < fw {
                        self.p.extract(i, 0, tw)
                    } else {
                        i
                    };
                    self.from_id(r)
                }
            },
            "sext" => match v {
                V::C(c) => V::C(sext(*c, fw) as u128 & mask(tw)),
                _ => {
                    let i = self.to_id(v, fw);
                    let r = self.p.sext_(i, tw);
                    self.from_id(r)
                }
            },
            "bitcast" => v.clone(),
            "sitofp" | "uitofp" => {
                let i = self.to_id(v, fw);
                let r = self.p.fop(if op == "sitofp" { Op::FFromS } else { Op::FFromU }, tw, i, i, 0);
                self.from_id(r)
            }
            "fptosi" | "fptoui" => {
                let i = self.to_id(v, fw);
                let r = self.p.fop(if op == "fptosi" { Op::FToSSat } else { Op::FToU }, tw, i, i, 0);
                self.from_id(r)
            }
            "fpext" | "fptrunc" => {
                let i = self.to_id(v, fw);
                let r = self.p.fop(Op::FExt, tw, i, i, 0);
                self.from_id(r)
            }
            _ => return Err(Halt::Error(format!("cast {op}"))),
        })
    }
    fn vec_to_int(&mut self, st: &mut State, from: &Ty, v: &V) -> X<V> {
        let Ty::Vec(n, t) = from else { return Ok(v.clone()) };
        let w = t.bits();
        let V::A(a) = v else { return Ok(V::U) };
        if w == 1 && self.fork_lanes {
            let mut r = 0u128;
            for (i, x) in a.iter().enumerate() {
                let b = match x {
                    V::C(c) => c & 1 == 1,
                    V::S(id) => self.decide(st, *id)?,
                    _ => {
                        let id = self.to_id(x, 1);
                        self.decide(st, id)?
                    }
                };
                r |= (b as u128) << i;
            }
            return Ok(V::C(r));
        }
        if *n * w as usize > 128 {
            return Err(Halt::Error("wide vector bitcast".into()));
        }
        if a.iter().all(|x| matches!(x, V::C(_))) {
            let mut r = 0u128;
            for (i, x) in a.iter().enumerate() {
                if let V::C(c) = x {
                    r |= c << (i * w as usize);
                }
            }
            return Ok(V::C(r));
        }
        if a.iter().all(|x| matches!(x, V::U)) {
            return Ok(V::U);
        }
        let mut acc = self.to_id(&a[0], w);
        for x in &a[1..] {
            let b = self.to_id(x, w);
            acc = self.p.concat(b, acc);
        }
        Ok(self.from_id(acc))
    }
    fn int_to_vec(&mut self, to: &Ty, v: &V) -> V {
        let Ty::Vec(n, t) = to else { return v.clone() };
        let w = t.bits();
        V::A(Rc::new(
            (0..*n)
                .map(|i| match v {
                    V::C(c) => V::C((c >> (i * w as usize)) & mask(w)),
                    V::S(id) => {
                        let r = self.p.extract(*id, i as u16 * w, w);
                        self.from_id(r)
                    }
                    _ => V::U,
                })
                .collect(),
        ))
    }

    // ---------- driver ----------
    pub fn run_one(&mut self, mut st: State) {
        let before = st.steps;
        match self.run_state(&mut st) {
            Halt::Done => {
                self.paths_done += 1;
                let k = self.paths_done;
                if self.samples.len() < self.sample_cap && (k <= 2 || k.is_power_of_two()) {
                    self.spread(&mut st);
                    let ins = self.input_vals(&st);
                    let obs = st.obs.clone();
                    let ob: Vec<(u32, u128)> = obs
                        .iter()
                        .map(|(t, v)| {
                            (
                                *t,
                                match v {
                                    V::C(c) => *c,
                                    V::S(i) => self.model_val(&st, *i),
                                    _ => 0,
                                },
                            )
                        })
                        .collect();
                    self.samples.push((ins, ob));
                }
            }
            Halt::Assumed => self.paths_assumed += 1,
            Halt::Stop => {}
            Halt::Error(e) => {
                let w = self.where_safe(&st);
                let bt = self.backtrace(&st).join(" <- ");
                self.note(format!("{e} at {w}"));
                if std::env::var("IRSYM_BT").is_ok() {
                    eprintln!("ERR {e}: {bt}");
                }
            }
        }
        self.steps += st.steps - before;
    }
    fn where_safe(&self, st: &State) -> String {
        if st.frames.is_empty() {
            "end".into()
        } else {
            self.where_(st)
        }
    }
    fn run_state(&mut self, st: &mut State) -> Halt {
        loop {
            st.steps += 1;
            if st.steps > self.max_steps {
                return self.violate(st, "steps", format!("path exceeds {} instructions (possible non-termination)", self.max_steps));
            }
            self.ticks = self.ticks.wrapping_add(1);
            if self.ticks & 0x3fff == 0 && !self.within_limits() {
                return Halt::Stop;
            }
            if let Err(h) = self.step(st) {
                return h;
            }
        }
    }
    /// Drops pending states when memory runs short (reported as incomplete); false when the run must end.
    fn within_limits(&mut self) -> bool {
        if self.deadline.is_some_and(|d| std::time::Instant::now() > d) {
            self.note("time limit".into());
            self.work.clear();
            return false;
        }
        if rss_mb() > self.mem_limit {
            self.note("memory limit: pending paths dropped".into());
            let n = self.work.len();
            if n > 16 {
                self.work.drain(..n - 16);
            }
            if rss_mb() > self.mem_limit + 1200 {
                self.work.clear();
                return false;
            }
        }
        true
    }
    fn set(&mut self, st: &mut State, d: u32, v: V) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        if d != u32::MAX {
            fr.regs[d as usize] = v;
        }
        fr.ip += 1;
    }
    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let fr = st.frames.last().unwrap().clone();
        let from = fr.blk;
        let b = &fr.f.blocks[to as usize];
        self.fns[fr.fx].visited[to as usize] = true;
        if self.trace {
            eprintln!("{} b{from} -> b{to} {:?}", fr.f.name, b.dbg.first());
        }
        if b.phis.is_empty() {
            drop(fr);
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.blk = to;
            fr.ip = 0;
            return Ok(());
        }
        let mut vals = Vec::with_capacity(b.phis.len());
        for (d, _, inc) in &b.phis {
            let o = inc.iter().find(|x| x.0 == from).ok_or_else(|| Halt::Error("phi predecessor".into()))?;
            vals.push((*d, self.opnd(st, &o.1)));
        }
        if self.trace {
            eprintln!("  phis {vals:?}");
        }
        drop(fr);
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.blk = to;
        fr.ip = 0;
        Ok(())
    }
    fn do_ret(&mut self, st: &mut State, v: Option<V>) -> X<()> {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.stack_base);
        if st.frames.is_empty() {
            return Err(Halt::Done);
        }
        let v = if fr.catch { Some(V::C(0)) } else { v };
        let dst = fr.dst;
        let normal = fr.normal;
        drop(fr);
        {
            let c = Rc::make_mut(st.frames.last_mut().unwrap());
            if let (Some(d), Some(v)) = (dst, v) {
                c.regs[d as usize] = v;
            }
            if normal.is_none() {
                c.ip += 1;
            }
        }
        if let Some(n) = normal {
            self.jump(st, n)?;
        }
        Ok(())
    }
    fn unwind(&mut self, st: &mut State, code: u32) -> X<()> {
        st.unwinding = code;
        loop {
            let fr = st.frames.pop().unwrap();
            st.stack.truncate(fr.stack_base);
            if st.frames.is_empty() {
                return Err(Halt::Error("unwound past entry".into()));
            }
            if fr.catch {
                let c = Rc::make_mut(st.frames.last_mut().unwrap());
                if let Some(d) = fr.dst {
                    c.regs[d as usize] = V::C(code as u128);
                }
                match fr.normal {
                    None => c.ip += 1,
                    Some(n) => self.jump(st, n)?,
                }
                return Ok(());
            }
            if let Some(u) = fr.unwind {
                return self.jump(st, u);
            }
        }
    }
    fn panic_(&mut self, st: &mut State, code: u32, msg: String, unwind_lbl: Option<u32>) -> X<()> {
        if st.frames.iter().any(|f| f.catch) {
            if let Some(u) = unwind_lbl {
                st.unwinding = code;
                return self.jump(st, u);
            }
            // unwind from the current frame
            return self.unwind(st, code);
        }
        if st.expect_panic {
            return Err(Halt::Done);
        }
        Err(self.violate(st, "panic", msg))
    }

    fn step(&mut self, st: &mut State) -> X<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = &f.blocks[fr.blk as usize].ins[fr.ip as usize];
        match ins {
            I::Nop => {
                self.set(st, u32::MAX, V::U);
            }
            I::Bin(d, op, ty, a, b) => {
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let r = if ty.is_scalar() { self.bin1(op, ty, &x, &y)? } else { self.lanes2(ty, &x, &y, &mut |e, t, x, y| e.bin1(op, t, x, y))? };
                self.set(st, *d, r);
            }
            I::Icmp(d, pr, ty, a, b) => {
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let r = if ty.is_scalar() { self.icmp1(pr, ty.bits(), &x, &y) } else { self.lanes2(ty, &x, &y, &mut |e, t, x, y| Ok(e.icmp1(pr, t.bits(), x, y)))? };
                self.set(st, *d, r);
            }
            I::Fcmp(d, pr, ty, a, b) => {
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let r = self.lanes2(ty, &x, &y, &mut |e, t, x, y| e.fcmp1(pr, t.bits(), x, y))?;
                self.set(st, *d, r);
            }
            I::FNeg(d, ty, a) => {
                let x = self.opnd(st, a);
                let r = self.lanes2(ty, &x, &x, &mut |e, t, x, _| {
                    let w = t.bits();
                    e.bin1("xor", &Ty::Int(w), x, &V::C(1u128 << (w - 1)))
                })?;
                self.set(st, *d, r);
            }
            I::Gep(d, base, coff, terms) => {
                let b = self.opnd(st, base);
                let r = match &b {
                    V::C(c) if terms.is_empty() => V::C((*c as u64).wrapping_add(*coff as u64) as u128),
                    _ => {
                        let mut cur = self.bin1("add", &Ty::Int(64), &b, &V::C(*coff as u64 as u128))?;
                        for (o, w, sc) in terms {
                            let v = self.opnd(st, o);
                            let v = if *w < 64 { self.cast1("sext", &Ty::Int(*w), &Ty::Int(64), &v)? } else { v };
                            let m = self.bin1("mul", &Ty::Int(64), &v, &V::C(*sc as u64 as u128))?;
                            cur = self.bin1("add", &Ty::Int(64), &cur, &m)?;
                        }
                        cur
                    }
                };
                self.set(st, *d, r);
            }
            I::Load(d, ty, p) => {
                let pv = self.opnd(st, p);
                let v = self.load(st, ty, &pv)?;
                self.set(st, *d, v);
            }
            I::Store(ty, v, p) => {
                let pv = self.opnd(st, p);
                let vv = self.opnd(st, v);
                self.store(st, ty, &vv, &pv)?;
                self.set(st, u32::MAX, V::U);
            }
            I::Alloca(d, ty, cnt, al) => {
                let n = match cnt {
                    Some((_, o)) => {
                        let v = self.opnd(st, o);
                        self.conc(st, &v, 64)? as u64
                    }
                    None => 1,
                };
                let size = ty.size() * n;
                let base = S_BASE + st.stack.len() as u64 * SLOT + if *al < 32 { 32 + al } else { *al };
                st.stack.push(Rc::new(Obj::new(base, size, *al, false)));
                self.set(st, *d, V::C(base as u128));
            }
            I::Cast(d, op, from, to, o) => {
                let v = self.opnd(st, o);
                let r = if *op == "bitcast" && (matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..))) {
                    match (from, to) {
                        (Ty::Vec(n, a), Ty::Vec(m, b)) if n == m && a.bits() == b.bits() => v,
                        _ => {
                            let i = self.vec_to_int(st, from, &v)?;
                            self.int_to_vec(to, &i)
                        }
                    }
                } else if let (Ty::Vec(n, a), Ty::Vec(_, b)) = (from, to) {
                    let mut out = Vec::with_capacity(*n);
                    for i in 0..*n {
                        let x = self.lane(&v, i);
                        out.push(self.cast1(op, a, b, &x)?);
                    }
                    V::A(Rc::new(out))
                } else {
                    self.cast1(op, from, to, &v)?
                };
                self.set(st, *d, r);
            }
            I::Select(d, ct, c, ty, a, b) => {
                let cv = self.opnd(st, c);
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let r = if let (Ty::Vec(n, _), V::A(cl)) = (ct, &cv) {
                    let mut out = vec![];
                    for i in 0..*n {
                        let (l, m) = (self.lane(&x, i), self.lane(&y, i));
                        out.push(match &cl[i] {
                            V::C(c) => {
                                if c & 1 == 1 {
                                    l
                                } else {
                                    m
                                }
                            }
                            V::S(id) => self.ite(*id, ty.field(0), &l, &m),
                            _ => V::U,
                        });
                    }
                    V::A(Rc::new(out))
                } else {
                    match cv {
                        V::C(c) => {
                            if c & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        V::S(id) => self.ite(id, ty, &x, &y),
                        _ => {
                            let id = self.p.var(1);
                            self.ite(id, ty, &x, &y)
                        }
                    }
                };
                self.set(st, *d, r);
            }
            I::ExtractValue(d, _, o, ix) => {
                let mut v = self.opnd(st, o);
                for i in ix {
                    v = self.lane(&v, *i);
                }
                self.set(st, *d, v);
            }
            I::InsertValue(d, ty, o, _, v, ix) => {
                let a = self.opnd(st, o);
                let x = self.opnd(st, v);
                let r = self.insert(ty, a, x, ix);
                self.set(st, *d, r);
            }
            I::ExtractElem(d, _, o, i) => {
                let v = self.opnd(st, o);
                let iv = self.opnd(st, i);
                let k = self.conc(st, &iv, 64)? as usize;
                let r = self.lane(&v, k);
                self.set(st, *d, r);
            }
            I::InsertElem(d, ty, o, v, i) => {
                let a = self.opnd(st, o);
                let x = self.opnd(st, v);
                let iv = self.opnd(st, i);
                let k = self.conc(st, &iv, 64)? as usize;
                let r = self.insert(ty, a, x, &[k]);
                self.set(st, *d, r);
            }
            I::Shuffle(d, ty, a, b, m) => {
                let (x, y) = (self.opnd(st, a), self.opnd(st, b));
                let n = ty.nfields() as i32;
                let r: Vec<V> = m
                    .iter()
                    .map(|&i| {
                        if i < 0 {
                            V::U
                        } else if i < n {
                            self.lane(&x, i as usize)
                        } else {
                            self.lane(&y, (i - n) as usize)
                        }
                    })
                    .collect();
                self.set(st, *d, V::A(Rc::new(r)));
            }
            I::Freeze(d, ty, o) => {
                let v = self.opnd(st, o);
                let r = self.freeze(ty, v);
                self.set(st, *d, r);
            }
            I::Rmw(d, op, ty, p, v) => {
                let pv = self.opnd(st, p);
                let x = self.opnd(st, v);
                let a = self.conc(st, &pv, 64)?;
                let pv = V::C(a);
                let old = self.load(st, ty, &pv)?;
                let nv = match op.as_str() {
                    "xchg" => x,
                    "add" | "sub" | "and" | "or" | "xor" => self.bin1(op, ty, &old, &x)?,
                    _ => return Err(Halt::Error(format!("rmw {op}"))),
                };
                self.store(st, ty, &nv, &pv)?;
                self.set(st, *d, old);
            }
            I::CmpXchg(d, ty, p, c, n) => {
                let pv = self.opnd(st, p);
                let a = self.conc(st, &pv, 64)?;
                let pv = V::C(a);
                let old = self.load(st, ty, &pv)?;
                let cv = self.opnd(st, c);
                let nv = self.opnd(st, n);
                let eq = self.icmp1("eq", ty.bits(), &old, &cv);
                let ok = match eq {
                    V::C(c) => c == 1,
                    V::S(id) => self.decide(st, id)?,
                    _ => true,
                };
                if ok {
                    self.store(st, ty, &nv, &pv)?;
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(ok as u128)])));
            }
            I::LandingPad(d) => {
                self.set(st, *d, V::A(Rc::new(vec![V::C(1), V::C(0)])));
            }
            I::Resume => {
                let c = st.unwinding;
                self.unwind(st, c)?;
            }
            I::Br(t) => self.jump(st, *t)?,
            I::CondBr(c, a, b) => {
                let cv = self.opnd(st, c);
                let t = match cv {
                    V::C(c) => c & 1 == 1,
                    V::S(id) => self.decide(st, id)?,
                    _ => return Err(self.violate(st, "undefined", "branch on a value that was never set (undefined behaviour)".into())),
                };
                self.jump(st, if t { *a } else { *b })?;
            }
            I::Switch(ty, o, def, cases) => {
                let v = self.opnd(st, o);
                let w = ty.bits();
                let id = self.to_id(&v, w);
                let id = self.simp(st, id);
                let cur = match self.resolve(st, id) {
                    Some(c) => c,
                    None => self.model_val(st, id),
                };
                let tgt = cases.iter().find(|c| c.0 == cur).map(|c| c.1).unwrap_or(*def);
                if self.resolve(st, id).is_none() {
                    let cond = if tgt == *def {
                        let mut acc = self.p.konst(1, 1);
                        for (k, t) in cases {
                            if t == def {
                                continue;
                            }
                            let kk = self.p.konst(w, *k);
                            let e = self.p.eq(id, kk);
                            let ne = self.p.not(e);
                            acc = self.p.and(acc, ne);
                        }
                        acc
                    } else {
                        let mut acc = self.p.konst(1, 0);
                        for (k, t) in cases {
                            if *t != tgt {
                                continue;
                            }
                            let kk = self.p.konst(w, *k);
                            let e = self.p.eq(id, kk);
                            acc = self.p.or(acc, e);
                        }
                        acc
                    };
                    self.decide(st, cond)?;
                }
                self.jump(st, tgt)?;
            }
            I::Ret(v) => {
                let x = match v {
                    Some((_, o)) => Some(self.opnd(st, o)),
                    None => None,
                };
                self.do_ret(st, x)?;
            }
            I::Unreachable => return Err(self.violate(st, "unreachable", "reached code the compiler assumes unreachable (undefined behaviour)".into())),
            I::Unsupported(s) => return Err(Halt::Error(format!("unsupported: {s}"))),
            I::Call(c) => self.call(st, c, None, None)?,
            I::Invoke(c, n, u) => self.call(st, c, Some(*n), Some(*u))?,
        }
        Ok(())
    }
    fn freeze(&mut self, ty: &Ty, v: V) -> V {
        match (ty, v) {
            (Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..), v) => {
                let n = ty.nfields();
                V::A(Rc::new(
                    (0..n)
                        .map(|i| {
                            let x = self.lane(&v, i);
                            self.freeze(ty.field(i), x)
                        })
                        .collect(),
                ))
            }
            (_, V::U) => {
                let i = self.p.var(ty.bits());
                V::S(i)
            }
            (_, v) => v,
        }
    }
    fn insert(&mut self, ty: &Ty, a: V, x: V, ix: &[usize]) -> V {
        let mut v = match a {
            V::A(v) => (*v).clone(),
            _ => vec![V::U; ty.nfields()],
        };
        if ix.len() == 1 {
            v[ix[0]] = x;
        } else {
            let inner = v[ix[0]].clone();
            v[ix[0]] = self.insert(ty.field(ix[0]), inner, x, &ix[1..]);
        }
        V::A(Rc::new(v))
    }
    fn fin(&mut self, st: &mut State, c: &CallI, normal: Option<u32>, v: V) -> X<()> {
        {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            if let Some(d) = c.dst {
                fr.regs[d as usize] = v;
            }
            if normal.is_none() {
                fr.ip += 1;
            }
        }
        if let Some(n) = normal {
            self.jump(st, n)?;
        }
        Ok(())
    }
    fn call(&mut self, st: &mut State, c: &CallI, normal: Option<u32>, unwind: Option<u32>) -> X<()> {
        if c.asm {
            return self.fin(st, c, normal, V::U);
        }
        let cv = self.opnd(st, &c.callee);
        let a = self.conc(st, &cv, 64)? as u64;
        if !(F_BASE..F_BASE + 16 * self.targets.len() as u64).contains(&a) || a % 16 != 0 {
            return Err(self.violate(st, "memory", format!("call through invalid function pointer {a:#x}")));
        }
        let t = self.targets[((a - F_BASE) / 16) as usize].clone();
        let mut args: Vec<V> = Vec::with_capacity(c.args.len());
        for (_, o) in &c.args {
            args.push(self.opnd(st, o));
        }
        match t {
            Target::Fn(fx) => self.push_frame(st, fx, args, c.dst, normal, unwind, false).map_err(Halt::Error),
            Target::Bi(b) => self.builtin_call(st, b, c, args, normal, unwind),
            Target::Intr(n) => {
                let v = self.intrinsic(st, &n, c, args)?;
                self.fin(st, c, normal, v)
            }
            Target::Missing(n) => Err(Halt::Error(format!("call of external function {n}"))),
        }
    }
    fn location(&mut self, st: &State, v: &V) -> String {
        let V::C(a) = v else { return "?".into() };
        let Ok(o) = self.obj(st, *a as u64, 24) else { return "?".into() };
        let off = (*a as u64 - o.base) as usize;
        let (V::C(p), V::C(l), V::C(line)) = (self.load_scalar(&o, off, 64), self.load_scalar(&o, off + 8, 64), self.load_scalar(&o, off + 16, 32)) else { return "?".into() };
        if l > 4096 {
            return "?".into();
        }
        let Ok(s) = self.obj(st, p as u64, l as u64) else { return "?".into() };
        let so = (p as u64 - s.base) as usize;
        format!("{}:{}", String::from_utf8_lossy(&s.data[so..so + l as usize]).trim_end_matches('\0'), line)
    }
    fn builtin_call(&mut self, st: &mut State, b: B, c: &CallI, args: Vec<V>, normal: Option<u32>, unwind: Option<u32>) -> X<()> {
        let r = match b {
            B::Alloc | B::AllocZ => {
                let n = self.conc(st, &args[0], 64)? as u64;
                let al = self.conc(st, &args[1], 64)? as u64;
                V::C(self.alloc(st, n, al, b == B::AllocZ) as u128)
            }
            B::Memalign => {
                let al = self.conc(st, &args[1], 64)? as u64;
                let n = self.conc(st, &args[2], 64)? as u64;
                let a = self.alloc(st, n, al, false);
                if a != 0 {
                    self.store(st, &Ty::Int(64), &V::C(a as u128), &args[0])?;
                }
                V::C(if a == 0 { 12 } else { 0 })
            }
            // time stands still
            B::Clock => {
                let d = self.conc(st, &args[1], 64)?;
                self.memset(st, d as u64, &V::C(0), 16)?;
                V::C(0)
            }
            B::Dealloc => {
                let a = self.conc(st, &args[0], 64)? as u64;
                let n = self.conc(st, &args[1], 64)? as u64;
                let al = self.conc(st, &args[2], 64)? as u64;
                self.free(st, a, n, al)?;
                V::U
            }
            B::Realloc => {
                let a = self.conc(st, &args[0], 64)? as u64;
                let n = self.conc(st, &args[1], 64)? as u64;
                let al = self.conc(st, &args[2], 64)? as u64;
                let m = self.conc(st, &args[3], 64)? as u64;
                self.obj_chk(st, a, n, "realloc")?;
                let na = self.alloc(st, m, al, false);
                if na != 0 {
                    self.memcpy(st, na, a, n.min(m))?;
                    self.free(st, a, n, al)?;
                }
                V::C(na as u128)
            }
            B::Memcpy => {
                let d = self.conc(st, &args[0], 64)?;
                let s = self.conc(st, &args[1], 64)?;
                let n = self.conc(st, &args[2], 64)?;
                self.memcpy(st, d as u64, s as u64, n as u64)?;
                V::C(d)
            }
            B::Memset => {
                let d = self.conc(st, &args[0], 64)?;
                let n = self.conc(st, &args[2], 64)?;
                self.memset(st, d as u64, &args[1], n as u64)?;
                V::C(d)
            }
            B::Memcmp => {
                let p = self.conc(st, &args[0], 64)? as u64;
                let q = self.conc(st, &args[1], 64)? as u64;
                let n = self.conc(st, &args[2], 64)? as u64;
                if n == 0 {
                    V::C(0)
                } else {
                    let o1 = self.obj_chk(st, p, n, "memcmp")?;
                    let o2 = self.obj_chk(st, q, n, "memcmp")?;
                    let (i, j) = ((p - o1.base) as usize, (q - o2.base) as usize);
                    let mut acc = self.p.konst(32, 0);
                    for k in (0..n as usize).rev() {
                        let x = self.byte_id(&o1, i + k);
                        let y = self.byte_id(&o2, j + k);
                        let e = self.p.eq(x, y);
                        if self.p.cv(e) == Some(1) {
                            continue;
                        }
                        let lt = self.p.ult(x, y);
                        let neg = self.p.konst(32, 0xffff_ffff);
                        let one = self.p.konst(32, 1);
                        let d = self.p.ite(lt, neg, one);
                        acc = self.p.ite(e, acc, d);
                    }
                    self.from_id(acc)
                }
            }
            B::Strlen => {
                let p = self.conc(st, &args[0], 64)? as u64;
                let o = self.obj_chk(st, p, 1, "strlen")?;
                let mut i = (p - o.base) as usize;
                let s = i;
                while i < o.data.len() && o.data[i] != 0 {
                    i += 1;
                }
                V::C((i - s) as u128)
            }
            B::Nop => V::U,
            B::Zero | B::PanicCount => V::C(if b == B::PanicCount { 1 } else { 0 }),
            B::RandKeys => V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)])),
            B::Panic => {
                let loc = match args.last() {
                    Some(v) => {
                        let v = v.clone();
                        self.location(st, &v)
                    }
                    None => "?".into(),
                };
                return self.panic_(st, 2, format!("panic at {loc}"), unwind);
            }
            B::PanicNoUnwind => {
                let w = self.where_(st);
                return Err(self.violate(st, "abort", format!("non-unwinding panic in {w}")));
            }
            B::Abort => return Err(self.violate(st, "abort", "process abort".into())),
            B::DoPanic => return self.panic_(st, 1, "injected panic".into(), unwind),
            B::Sym => {
                let w = self.conc(st, &args[0], 32)? as u16;
                let k = st.inputs.len();
                let id = match self.input_vars.get(&(k, w)) {
                    Some(i) => *i,
                    None => {
                        let i = self.p.var(w);
                        self.input_vars.insert((k, w), i);
                        i
                    }
                };
                st.inputs.push(id);
                let x = if w < 64 { self.p.zext(id, 64) } else { id };
                match &self.fixed {
                    Some(f) => V::C(f[k] as u128),
                    None => V::S(x),
                }
            }
            B::Pick => {
                // harness-chosen alternative: one concrete branch per value
                let n = self.conc(st, &args[0], 32)? as u64;
                let fr = st.frames.last().unwrap();
                let _ = fr;
                let w = 16u16;
                let k = st.inputs.len();
                let id = match self.input_vars.get(&(k, w)) {
                    Some(i) => *i,
                    None => {
                        let i = self.p.var(w);
                        self.input_vars.insert((k, w), i);
                        i
                    }
                };
                let mut s0 = None;
                let n = if let Some(f) = &self.fixed { f[k] + 1 } else { n };
                for v in 0..n {
                    if self.fixed.is_some() && v + 1 != n {
                        continue;
                    }
                    let kk = self.p.konst(w, v as u128);
                    let eq = self.p.eq(id, kk);
                    let mut s = st.clone();
                    let mut m = (*s.model).clone();
                    let Op::Var = self.p.n(id).op else { unreachable!() };
                    m.insert(self.p.n(id).k as u32, v as u128);
                    s.model = Rc::new(m);
                    self.next_mid += 1;
                    s.mid = self.next_mid;
                    self.assume_c(&mut s, eq);
                    s.inputs.push(id);
                    self.fin(&mut s, c, normal, V::C(v as u128))?;
                    if v + 1 == n {
                        s0 = Some(s);
                    } else {
                        self.forks += 1;
                        self.work.push(s);
                    }
                }
                match s0 {
                    Some(s) => *st = s,
                    None => return Err(Halt::Assumed),
                }
                return Ok(());
            }
            B::Conc => V::C(self.conc(st, &args[0], 64)?),
            B::Assume => match &args[0] {
                V::C(c) => {
                    if c & 1 == 0 {
                        return Err(Halt::Assumed);
                    }
                    V::U
                }
                V::S(id) => {
                    let s = self.simp(st, *id);
                    match self.resolve(st, s) {
                        Some(1) => {}
                        Some(_) => return Err(Halt::Assumed),
                        None => {
                            if self.model_val(st, s) != 1 {
                                match self.feasible(st, s) {
                                    Some(Some(m)) => {
                                        st.model = m;
                                        self.next_mid += 1;
                                        st.mid = self.next_mid;
                                    }
                                    Some(None) => return Err(Halt::Assumed),
                                    None => {
                                        self.note("solver unknown on assumption".into());
                                        return Err(Halt::Assumed);
                                    }
                                }
                            }
                            self.assume_c(st, s);
                            self.learn(st, *id, true);
                        }
                    }
                    V::U
                }
                _ => return Err(Halt::Error("assume undef".into())),
            },
            B::Assert => {
                let id = self.conc(st, &args[1], 32)?;
                self.asserts += 1;
                match &args[0] {
                    V::C(c) => {
                        if c & 1 == 0 {
                            return Err(self.violate(st, "assert", format!("assertion {id} fails")));
                        }
                    }
                    V::S(cid) => {
                        let s = self.simp(st, *cid);
                        match self.resolve(st, s) {
                            Some(1) => {}
                            Some(_) => return Err(self.violate(st, "assert", format!("assertion {id} fails"))),
                            None => {
                                self.asserts_sym += 1;
                                let n = self.p.not(s);
                                match self.feasible(st, n) {
                                    Some(Some(m)) => {
                                        let mut s2 = st.clone();
                                        s2.model = m;
                                        self.next_mid += 1;
                                        s2.mid = self.next_mid;
                                        self.violate(&s2, "assert", format!("assertion {id} fails"));
                                        return Err(Halt::Stop);
                                    }
                                    Some(None) => self.learn(st, s, true),
                                    None => {
                                        self.note(format!("solver unknown on assertion {id}"));
                                    }
                                }
                            }
                        }
                    }
                    _ => return Err(self.violate(st, "assert", format!("assertion {id} on undefined value"))),
                }
                V::U
            }
            B::Cover => {
                let id = self.conc(st, &args[0], 32)?;
                *self.covers.entry(id as u64).or_insert(0) += 1;
                st.obs.push((0, V::C(id)));
                V::U
            }
            B::Obs => {
                st.obs.push((1, args[0].clone()));
                V::U
            }
            B::ExpectPanic => {
                let v = self.conc(st, &args[0], 8)?;
                st.expect_panic = v & 1 == 1;
                V::U
            }
            B::LiveHeap => V::C(st.live as u128),
            B::Catch => {
                let f = self.conc(st, &args[0], 64)? as u64;
                let t = self.targets.get(((f - F_BASE) / 16) as usize).cloned();
                let Some(Target::Fn(fx)) = t else { return Err(Halt::Error("vcatch target".into())) };
                return self.push_frame(st, fx, vec![args[1].clone()], c.dst, normal, unwind, true).map_err(Halt::Error);
            }
            B::Libm(n) => {
                let mut xs = vec![];
                for (i, a) in args.iter().enumerate() {
                    match a {
                        V::C(c) => xs.push(if matches!(c_ty(c, &args, i), 32) { f32::from_bits(*c as u32) as f64 } else { f64::from_bits(*c as u64) }),
                        _ => return Err(Halt::Error(format!("symbolic libm {n}"))),
                    }
                }
                let r = match n {
                    "pow" => xs[0].powf(xs[1]),
                    "exp" => xs[0].exp(),
                    "log" => xs[0].ln(),
                    "log2" => xs[0].log2(),
                    "log10" => xs[0].log10(),
                    "sin" => xs[0].sin(),
                    "cos" => xs[0].cos(),
                    "tan" => xs[0].tan(),
                    "fmod" => xs[0] % xs[1],
                    "cbrt" => xs[0].cbrt(),
                    "atan" => xs[0].atan(),
                    "atan2" => xs[0].atan2(xs[1]),
                    "exp2" => xs[0].exp2(),
                    _ => return Err(Halt::Error(format!("libm {n}"))),
                };
                V::C(r.to_bits() as u128)
            }
        };
        self.fin(st, c, normal, r)
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let v8 = self.cast1("trunc", &Ty::Int(if matches!(v, V::S(i) if self.p.w(*i) == 8) { 8 } else { 32 }), &Ty::Int(8), v)?;
        let o = self.obj_mut(st, d, n)? as *mut Obj;
        let o = unsafe { &mut *o };
        let off = (d - o.base) as usize;
        for i in 0..n as usize {
            self.store_scalar(o, off + i, 8, &v8);
        }
        Ok(())
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, c: &CallI, args: Vec<V>) -> X<V> {
        let base = &n[5..];
        if base.starts_with("lifetime") || base.starts_with("experimental.noalias") || base.starts_with("assume") || base.starts_with("dbg") || base.starts_with("prefetch") || base.starts_with("donothing") || base.starts_with("sideeffect") {
            return Ok(V::U);
        }
        if base.starts_with("memcpy") || base.starts_with("memmove") {
            let d = self.conc(st, &args[0], 64)?;
            let s = self.conc(st, &args[1], 64)?;
            let n = self.conc(st, &args[2], 64)?;
            self.memcpy(st, d as u64, s as u64, n as u64)?;
            return Ok(V::U);
        }
        if base.starts_with("memset") {
            let d = self.conc(st, &args[0], 64)?;
            let n = self.conc(st, &args[2], 64)?;
            let v = args[1].clone();
            let v = match v {
                V::C(c) => V::C(c & 255),
                v => v,
            };
            self.memset(st, d as u64, &v, n as u64)?;
            return Ok(V::U);
        }
        if base.starts_with("threadlocal.address") || base.starts_with("launder") || base.starts_with("expect") || base.starts_with("ptr.annotation") || base.starts_with("strip.invariant") {
            return Ok(args[0].clone());
        }
        if base == "trap" || base.starts_with("ubsantrap") {
            return Err(self.violate(st, "abort", "trap".into()));
        }
        if base.starts_with("load.relative") {
            let p = self.conc(st, &args[0], 64)? as u64;
            let o = self.conc(st, &args[1], 64)? as u64;
            let v = self.load(st, &Ty::Int(32), &V::C(p.wrapping_add(o) as u128))?;
            let v = self.conc(st, &v, 32)?;
            return Ok(V::C(p.wrapping_add(sext(v, 32) as u64) as u128));
        }
        if let Some(t) = base.strip_prefix("is.fpclass.") {
            let (w, mant) = match t {
                "f64" => (64, 52),
                "f32" => (32, 23),
                _ => return Err(Halt::Error(format!("unsupported: is.fpclass.{t}"))),
            };
            let V::C(classes) = args[1] else { return Err(Halt::Error("unsupported: is.fpclass of an unknown class".into())) };
            let x = self.to_id(&args[0], w);
            let body = self.p.extract(x, 0, w - 1);
            let neg = self.p.extract(x, w - 1, 1);
            let inf = (mask(w) >> (mant + 1)) << mant;
            let inf = self.p.konst(w - 1, inf);
            let quiet = self.p.konst(w - 1, (mask(w) >> (mant + 1)) << mant | 1 << (mant - 1));
            let least = self.p.konst(w - 1, 1 << mant);
            let zero = self.p.konst(w - 1, 0);
            let mut acc = self.p.konst(1, 0);
            for k in 0..10 {
                if classes >> k & 1 == 0 {
                    continue;
                }
                let nan = self.p.ult(inf, body);
                let c = match k {
                    0 => {
                        let q = self.p.ult(body, quiet);
                        self.p.and(nan, q)
                    }
                    1 => self.p.ule(quiet, body),
                    2 | 9 => self.p.eq(body, inf),
                    3 | 8 => {
                        let a = self.p.ule(least, body);
                        let b = self.p.ult(body, inf);
                        self.p.and(a, b)
                    }
                    4 | 7 => {
                        let a = self.p.ult(body, least);
                        let b = self.p.ult(zero, body);
                        self.p.and(a, b)
                    }
                    _ => self.p.eq(body, zero),
                };
                let c = match k {
                    0 | 1 => c,
                    2..=5 => self.p.and(c, neg),
                    _ => {
                        let pos = self.p.not(neg);
                        self.p.and(c, pos)
                    }
                };
                acc = self.p.or(acc, c);
            }
            return Ok(self.from_id(acc));
        }
        if base.starts_with("is.constant") {
            return Ok(V::C(0));
        }
        if base.starts_with("vector.reduce.") {
            let V::A(l) = &args[0] else { return Ok(V::U) };
            let Ty::Vec(_, et) = &c.args[0].0 else { return Err(Halt::Error("reduce".into())) };
            let op = base["vector.reduce.".len()..].split('.').next().unwrap();
            let mut acc = l[0].clone();
            for x in &l[1..] {
                acc = match op {
                    "or" | "and" | "add" | "xor" | "mul" => self.bin1(op, et, &acc, x)?,
                    "umax" | "umin" | "smax" | "smin" => self.minmax(op, et.bits(), &acc, x),
                    _ => return Err(Halt::Error(format!("reduce {op}"))),
                };
            }
            return Ok(acc);
        }
        // element-wise
        if c.args.is_empty() {
            return Err(Halt::Error(format!("intrinsic {n}")));
        }
        let ty = c.args[0].0.clone();
        if let Ty::Vec(k, et) = &ty {
            let mut out = vec![];
            for i in 0..*k {
                let a: Vec<V> = args
                    .iter()
                    .zip(&c.args)
                    .map(|(v, (t, _))| if matches!(t, Ty::Vec(..)) { self.lane(v, i) } else { v.clone() })
                    .collect();
                let rt = match &c.ret {
                    Ty::Vec(_, r) => (**r).clone(),
                    r => r.clone(),
                };
                out.push(self.intr1(st, base, et, &rt, &a, n)?);
            }
            return Ok(V::A(Rc::new(out)));
        }
        self.intr1(st, base, &ty, &c.ret, &args, n)
    }
    fn minmax(&mut self, op: &str, w: u16, a: &V, b: &V) -> V {
        let pr = match op {
            "umin" => "ult",
            "umax" => "ugt",
            "smin" => "slt",
            _ => "sgt",
        };
        match self.icmp1(pr, w, a, b) {
            V::C(1) => a.clone(),
            V::C(_) => b.clone(),
            V::S(i) => self.ite(i, &Ty::Int(w), a, b),
            _ => V::U,
        }
    }
    fn intr1(&mut self, _st: &mut State, base: &str, ty: &Ty, ret: &Ty, a: &[V], full: &str) -> X<V> {
        let w = ty.bits();
        let op = base.split('.').next().unwrap();
        let it = Ty::Int(w);
        if base.contains(".with.overflow") {
            let r = self.bin1(&op[1..], &it, &a[0], &a[1])?;
            let signed = op.starts_with('s');
            let ov = match &op[1..] {
                "add" | "sub" | "mul" => {
                    if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                        V::C(ovf(&op[1..], signed, w, *x, *y) as u128)
                    } else {
                        match (&op[1..], signed) {
                            ("add", false) => self.icmp1("ult", w, &r, &a[0]),
                            ("sub", false) => self.icmp1("ult", w, &a[0], &a[1]),
                            ("mul", _) => {
                                let w2 = (w * 2).min(255);
                                if w2 > 128 {
                                    // divide back
                                    if signed {
                                        return Err(Halt::Error("smul 128".into()));
                                    }
                                    let z = self.icmp1("eq", w, &a[0], &V::C(0));
                                    let q = self.bin1("udiv", &it, &r, &a[0])?;
                                    let ne = self.icmp1("ne", w, &q, &a[1]);
                                    let nz = self.bin1("xor", &Ty::Int(1), &z, &V::C(1))?;
                                    self.bin1("and", &Ty::Int(1), &nz, &ne)?
                                } else {
                                    let x2 = self.cast1(if signed { "sext" } else { "zext" }, &it, &Ty::Int(w2), &a[0])?;
                                    let y2 = self.cast1(if signed { "sext" } else { "zext" }, &it, &Ty::Int(w2), &a[1])?;
                                    let m = self.bin1("mul", &Ty::Int(w2), &x2, &y2)?;
                                    let b = self.cast1(if signed { "sext" } else { "zext" }, &it, &Ty::Int(w2), &r)?;
                                    self.icmp1("ne", w2, &m, &b)
                                }
                            }
                            (o, true) => {
                                // sign-based
                                let w2 = w + 1;
                                if w2 > 128 {
                                    return Err(Halt::Error("sadd 128".into()));
                                }
                                let x2 = self.cast1("sext", &it, &Ty::Int(w2), &a[0])?;
                                let y2 = self.cast1("sext", &it, &Ty::Int(w2), &a[1])?;
                                let m = self.bin1(o, &Ty::Int(w2), &x2, &y2)?;
                                let b = self.cast1("sext", &it, &Ty::Int(w2), &r)?;
                                self.icmp1("ne", w2, &m, &b)
                            }
                            _ => unreachable!(),
                        }
                    }
                }
                _ => return Err(Halt::Error(full.into())),
            };
            return Ok(V::A(Rc::new(vec![r, ov])));
        }
        Ok(match op {
            "umin" | "umax" | "smin" | "smax" => self.minmax(op, w, &a[0], &a[1]),
            "usub" => {
                let r = self.bin1("sub", &it, &a[0], &a[1])?;
                match self.icmp1("ult", w, &a[0], &a[1]) {
                    V::C(1) => V::C(0),
                    V::C(_) => r,
                    V::S(i) => self.ite(i, &it, &V::C(0), &r),
                    _ => V::U,
                }
            }
            "uadd" => {
                let r = self.bin1("add", &it, &a[0], &a[1])?;
                match self.icmp1("ult", w, &r, &a[0]) {
                    V::C(1) => V::C(mask(w)),
                    V::C(_) => r,
                    V::S(i) => self.ite(i, &it, &V::C(mask(w)), &r),
                    _ => V::U,
                }
            }
            "sadd" | "ssub" => {
                let w2 = w + 1;
                let x2 = self.cast1("sext", &it, &Ty::Int(w2), &a[0])?;
                let y2 = self.cast1("sext", &it, &Ty::Int(w2), &a[1])?;
                let m = self.bin1(&op[1..], &Ty::Int(w2), &x2, &y2)?;
                let max = V::C(mask(w) >> 1);
                let min = V::C(((1u128 << (w - 1)).wrapping_neg()) & mask(w2));
                let m = self.minmax("smin", w2, &m, &max);
                let m = self.minmax("smax", w2, &m, &min);
                self.cast1("trunc", &Ty::Int(w2), &it, &m)?
            }
            "ucmp" | "scmp" => {
                let rw = ret.bits();
                let lt = self.icmp1(if op == "ucmp" { "ult" } else { "slt" }, w, &a[0], &a[1]);
                let gt = self.icmp1(if op == "ucmp" { "ugt" } else { "sgt" }, w, &a[0], &a[1]);
                let (l, g) = (self.to_id(&lt, 1), self.to_id(&gt, 1));
                let (m1, z, o) = (self.p.konst(rw, mask(rw)), self.p.konst(rw, 0), self.p.konst(rw, 1));
                let x = self.p.ite(g, o, z);
                let r = self.p.ite(l, m1, x);
                self.from_id(r)
            }
            "abs" => {
                let ng = self.bin1("sub", &it, &V::C(0), &a[0])?;
                match self.icmp1("slt", w, &a[0], &V::C(0)) {
                    V::C(1) => ng,
                    V::C(_) => a[0].clone(),
                    V::S(i) => self.ite(i, &it, &ng, &a[0]),
                    _ => V::U,
                }
            }
            "ctpop" => match &a[0] {
                V::C(c) => V::C(c.count_ones() as u128),
                v => {
                    let i = self.to_id(v, w);
                    let mut acc = self.p.konst(w, 0);
                    for k in 0..w {
                        let b = self.p.extract(i, k, 1);
                        let z = if w > 1 { self.p.zext(b, w) } else { b };
                        acc = self.p.add(acc, z);
                    }
                    self.from_id(acc)
                }
            },
            "cttz" | "ctlz" => match &a[0] {
                V::C(c) => {
                    let c = *c;
                    V::C(if c == 0 {
                        w as u128
                    } else if op == "cttz" {
                        c.trailing_zeros() as u128
                    } else {
                        (c.leading_zeros() - (128 - w as u32)) as u128
                    })
                }
                v => {
                    let i = self.to_id(v, w);
                    let mut acc = self.p.konst(w, w as u128);
                    for k in 0..w {
                        let pos = if op == "cttz" { w - 1 - k } else { k };
                        let b = self.p.extract(i, pos, 1);
                        let val = if op == "cttz" { pos } else { w - 1 - pos };
                        let kk = self.p.konst(w, val as u128);
                        acc = self.p.ite(b, kk, acc);
                    }
                    self.from_id(acc)
                }
            },
            "bswap" => {
                let n = w / 8;
                match &a[0] {
                    V::C(c) => {
                        let mut r = 0u128;
                        for k in 0..n {
                            r |= ((c >> (8 * k)) & 255) << (8 * (n - 1 - k));
                        }
                        V::C(r)
                    }
                    v => {
                        let i = self.to_id(v, w);
                        let mut acc = self.p.extract(i, 0, 8);
                        for k in 1..n {
                            let b = self.p.extract(i, 8 * k, 8);
                            acc = self.p.concat(acc, b);
                        }
                        self.from_id(acc)
                    }
                }
            }
            "bitreverse" => match &a[0] {
                V::C(c) => V::C(c.reverse_bits() >> (128 - w as u32)),
                v => {
                    let i = self.to_id(v, w);
                    let mut acc = self.p.extract(i, 0, 1);
                    for k in 1..w {
                        let b = self.p.extract(i, k, 1);
                        acc = self.p.concat(acc, b);
                    }
                    self.from_id(acc)
                }
            },
            "fshl" | "fshr" => {
                let (x, y, s) = (self.to_id(&a[0], w), self.to_id(&a[1], w), self.to_id(&a[2], w));
                let kw = self.p.konst(w, w as u128);
                let m = self.p.div(Op::URem, s, kw);
                let inv = self.p.sub(kw, m);
                let r = if op == "fshl" {
                    let l = self.p.shl(x, m);
                    let r = self.p.lshr(y, inv);
                    self.p.or(l, r)
                } else {
                    let l = self.p.shl(x, inv);
                    let r = self.p.lshr(y, m);
                    self.p.or(l, r)
                };
                self.from_id(r)
            }
            "fabs" => self.bin1("and", &it, &a[0], &V::C(mask(w) >> 1))?,
            "copysign" => {
                let m = self.bin1("and", &it, &a[0], &V::C(mask(w) >> 1))?;
                let s = self.bin1("and", &it, &a[1], &V::C(1u128 << (w - 1)))?;
                self.bin1("or", &it, &m, &s)?
            }
            "floor" | "ceil" | "trunc" | "rint" | "roundeven" | "nearbyint" | "round" => {
                let k = match op {
                    "floor" => 0,
                    "ceil" => 1,
                    "trunc" => 2,
                    "round" => 4,
                    _ => 3,
                };
                let i = self.to_id(&a[0], w);
                let r = self.p.fop(Op::FRound, w, i, i, k);
                self.from_id(r)
            }
            "sqrt" => {
                let i = self.to_id(&a[0], w);
                let r = self.p.fop(Op::FSqrt, w, i, i, 0);
                self.from_id(r)
            }
            "maxnum" | "minnum" | "maximumnum" | "minimumnum" => {
                let (x, y) = (self.to_id(&a[0], w), self.to_id(&a[1], w));
                let nx = self.p.fop(Op::FNan, 1, x, x, 0);
                let ny = self.p.fop(Op::FNan, 1, y, y, 0);
                let lt = if op.starts_with("max") { self.p.fop(Op::FLt, 1, x, y, 0) } else { self.p.fop(Op::FLt, 1, y, x, 0) };
                let r = self.p.ite(lt, y, x);
                let r = self.p.ite(ny, x, r);
                let r = self.p.ite(nx, y, r);
                self.from_id(r)
            }
            "is" => {
                // is.fpclass
                let m = match &a[1] {
                    V::C(c) => *c as u32,
                    _ => return Err(Halt::Error("fpclass".into())),
                };
                let i = self.to_id(&a[0], w);
                let (eb, mb) = if w == 64 { (11, 52) } else { (8, 23) };
                let ex = self.p.extract(i, mb, eb);
                let mn = self.p.extract(i, 0, mb);
                let sg = self.p.extract(i, w - 1, 1);
                let qn = self.p.extract(i, mb - 1, 1);
                let (e1, e0, m0) = (self.p.konst(eb, mask(eb)), self.p.konst(eb, 0), self.p.konst(mb, 0));
                let exf = self.p.eq(ex, e1);
                let exz = self.p.eq(ex, e0);
                let mz = self.p.eq(mn, m0);
                let nmz = self.p.not(mz);
                let nan = self.p.and(exf, nmz);
                let inf = self.p.and(exf, mz);
                let zero = self.p.and(exz, mz);
                let sub = self.p.and(exz, nmz);
                let nexf = self.p.not(exf);
                let nexz = self.p.not(exz);
                let nor = self.p.and(nexf, nexz);
                let ns = self.p.not(sg);
                let nq = self.p.not(qn);
                let mut acc = self.p.konst(1, 0);
                let cls = [(nan, nq), (nan, qn), (inf, sg), (nor, sg), (sub, sg), (zero, sg), (zero, ns), (sub, ns), (nor, ns), (inf, ns)];
                for (k, (x, y)) in cls.iter().enumerate() {
                    if m >> k & 1 == 1 {
                        let t = self.p.and(*x, *y);
                        acc = self.p.or(acc, t);
                    }
                }
                self.from_id(acc)
            }
            "fptosi" | "fptoui" => {
                // saturating
                let rw = ret.bits();
                let i = self.to_id(&a[0], w);
                if let V::C(c) = &a[0] {
                    let x = f_of(*c, w);
                    let r = if op == "fptosi" {
                        let (lo, hi) = (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1);
                        if x.is_nan() {
                            0
                        } else {
                            (x as i128).clamp(lo, hi) as u128 & mask(rw)
                        }
                    } else if x.is_nan() {
                        0
                    } else {
                        (x as u128).min(mask(rw))
                    };
                    return Ok(V::C(r));
                }
                let nan = self.p.fop(Op::FNan, 1, i, i, 0);
                let signed = op == "fptosi";
                let hi_f = 2f64.powi(if signed { rw as i32 - 1 } else { rw as i32 });
                let lo_f = if signed { -2f64.powi(rw as i32 - 1) } else { 0.0 };
                let hk = self.p.konst(w, f_to(hi_f, w));
                let lk = self.p.konst(w, f_to(lo_f, w));
                let too_hi = self.p.fop(Op::FLe, 1, hk, i, 0);
                let too_lo = self.p.fop(Op::FLe, 1, i, lk, 0);
                let conv = self.p.fop(if signed { Op::FToSSat } else { Op::FToU }, rw, i, i, 0);
                let hv = self.p.konst(rw, if signed { mask(rw) >> 1 } else { mask(rw) });
                let lv = self.p.konst(rw, if signed { 1u128 << (rw - 1) } else { 0 });
                let z = self.p.konst(rw, 0);
                let r = self.p.ite(too_lo, lv, conv);
                let r = self.p.ite(too_hi, hv, r);
                let r = self.p.ite(nan, z, r);
                self.from_id(r)
            }
            "fma" | "fmuladd" => {
                if let (V::C(x), V::C(y), V::C(z)) = (&a[0], &a[1], &a[2]) {
                    if w == 64 {
                        return Ok(V::C(f_to(f_of(*x, w).mul_add(f_of(*y, w), f_of(*z, w)), w)));
                    }
                }
                return Err(Halt::Error("symbolic fma".into()));
            }
            "pow" | "powi" | "exp" | "log" | "log10" | "log2" | "sin" | "cos" => {
                let V::C(x) = &a[0] else { return Err(Halt::Error(format!("symbolic {op}"))) };
                let x = f_of(*x, w);
                let r = match op {
                    "pow" | "powi" => {
                        let V::C(y) = &a[1] else { return Err(Halt::Error("symbolic pow".into())) };
                        if op == "pow" {
                            x.powf(f_of(*y, w))
                        } else {
                            x.powi(*y as i32)
                        }
                    }
                    "exp" => x.exp(),
                    "log" => x.ln(),
                    "log10" => x.log10(),
                    "log2" => x.log2(),
                    "sin" => x.sin(),
                    _ => x.cos(),
                };
                V::C(f_to(r, w))
            }
            "ssa" => a[0].clone(),
            _ => return Err(Halt::Error(format!("intrinsic {full}"))),
        })
    }
}

fn c_ty(_c: &u128, _a: &[V], _i: usize) -> u16 {
    64
}

fn ovf(op: &str, signed: bool, w: u16, x: u128, y: u128) -> bool {
    if signed {
        let (a, b) = (sext(x, w), sext(y, w));
        let r = match op {
            "add" => a.checked_add(b),
            "sub" => a.checked_sub(b),
            _ => a.checked_mul(b),
        };
        match r {
            None => true,
            Some(r) => w < 128 && r != sext(r as u128 & mask(w), w),
        }
    } else {
        let r = match op {
            "add" => x.checked_add(y),
            "sub" => x.checked_sub(y),
            _ => x.checked_mul(y),
        };
        match r {
            None => true,
            Some(r) => r & !mask(w) != 0,
        }
    }
}

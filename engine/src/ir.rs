//! LLVM textual IR: lazy per-function parser producing a register-machine form.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    F32,
    F64,
    FOther(u16),
    Vec(usize, Box<Ty>),
    Arr(usize, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Label,
    Meta,
    Opaque,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::FOther(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 | Ty::FOther(_))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(w) => (*w as u64 / 8).max(1),
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64).div_ceil(8)).next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, p) => {
                if *p {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::FOther(w) => *w as u64 / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque => 0,
            Ty::Arr(n, t) => *n as u64 * t.size(),
            Ty::Struct(ts, p) => {
                let mut o = 0u64;
                for t in ts {
                    if !*p {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                if !*p {
                    o = o.next_multiple_of(self.align());
                }
                o
            }
            _ => self.store_size().next_multiple_of(self.align()),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * (t.bits() as u64 / 8),
            Ty::Struct(ts, p) => {
                let mut o = 0u64;
                for (k, t) in ts.iter().enumerate() {
                    if !*p {
                        o = o.next_multiple_of(t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            _ => panic!("field_off {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            Ty::Struct(ts, _) => &ts[i],
            _ => panic!("field {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(ts, _) => ts.len(),
            _ => panic!("nfields {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<(Ty, K)>),
    Bytes(Vec<u8>),
    Sym(String),
    Gep(Box<K>, i64),
    Splat(Box<(Ty, K)>),
    Bin(String, Box<K>, Box<K>, u16),
    Cast(u16, Box<K>),
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(K),
    C(u32),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: O,
    pub args: Vec<(Ty, O)>,
    pub asm: bool,
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca(u32, Ty, Option<(Ty, O)>, u64),
    Load(u32, Ty, O),
    Store(Ty, O, O),
    Gep(u32, O, i64, Vec<(O, u16, i64)>),
    Bin(u32, &'static str, Ty, O, O),
    FNeg(u32, Ty, O),
    Icmp(u32, &'static str, Ty, O, O),
    Fcmp(u32, String, Ty, O, O),
    Cast(u32, &'static str, Ty, Ty, O),
    Select(u32, Ty, O, Ty, O, O),
    ExtractValue(u32, Ty, O, Vec<usize>),
    InsertValue(u32, Ty, O, Ty, O, Vec<usize>),
    ExtractElem(u32, Ty, O, O),
    InsertElem(u32, Ty, O, O, O),
    Shuffle(u32, Ty, O, O, Vec<i32>),
    Call(CallI),
    Freeze(u32, Ty, O),
    Rmw(u32, String, Ty, O, O),
    CmpXchg(u32, Ty, O, O, O),
    Nop,
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, O)>),
    Unreachable,
    Invoke(CallI, u32, u32),
    LandingPad(u32),
    Resume,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Ty, Vec<(u32, O)>)>,
    pub ins: Vec<I>,
    pub dbg: Vec<u32>,
}
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub module: usize,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub dbg_sp: u32,
    pub consts: Vec<(Ty, K)>,
}

impl Func {
    fn lower(&mut self) {
        let mut cs: Vec<(Ty, K)> = vec![];
        fn f(cs: &mut Vec<(Ty, K)>, t: &Ty, o: &mut O) {
            if let O::K(k) = o {
                let ix = cs.len() as u32;
                cs.push((t.clone(), k.clone()));
                *o = O::C(ix);
            }
        }
        for b in &mut self.blocks {
            for (_, t, v) in &mut b.phis {
                for (_, o) in v {
                    f(&mut cs, t, o);
                }
            }
            for i in &mut b.ins {
                match i {
                    I::Alloca(_, _, Some((t, o)), _) => f(&mut cs, t, o),
                    I::Load(_, _, o) => f(&mut cs, &Ty::Ptr, o),
                    I::Store(t, v, p) => {
                        f(&mut cs, t, v);
                        f(&mut cs, &Ty::Ptr, p);
                    }
                    I::Gep(_, b, _, ts) => {
                        f(&mut cs, &Ty::Ptr, b);
                        for (o, w, _) in ts {
                            f(&mut cs, &Ty::Int(*w), o);
                        }
                    }
                    I::Bin(_, _, t, x, y) | I::Icmp(_, _, t, x, y) | I::Fcmp(_, _, t, x, y) | I::Shuffle(_, t, x, y, _) => {
                        f(&mut cs, t, x);
                        f(&mut cs, t, y);
                    }
                    I::FNeg(_, t, x) | I::Cast(_, _, t, _, x) | I::Freeze(_, t, x) => f(&mut cs, t, x),
                    I::Select(_, ct, c, t, x, y) => {
                        f(&mut cs, ct, c);
                        f(&mut cs, t, x);
                        f(&mut cs, t, y);
                    }
                    I::ExtractValue(_, t, x, _) => f(&mut cs, t, x),
                    I::InsertValue(_, t, x, vt, y, _) => {
                        f(&mut cs, t, x);
                        f(&mut cs, vt, y);
                    }
                    I::ExtractElem(_, t, x, i) => {
                        f(&mut cs, t, x);
                        f(&mut cs, &Ty::Int(64), i);
                    }
                    I::InsertElem(_, t, x, y, i) => {
                        f(&mut cs, t, x);
                        let et = t.field(0).clone();
                        f(&mut cs, &et, y);
                        f(&mut cs, &Ty::Int(64), i);
                    }
                    I::Call(c) | I::Invoke(c, _, _) => {
                        f(&mut cs, &Ty::Ptr, &mut c.callee);
                        for (t, o) in &mut c.args {
                            f(&mut cs, t, o);
                        }
                    }
                    I::Rmw(_, _, t, p, v) => {
                        f(&mut cs, &Ty::Ptr, p);
                        f(&mut cs, t, v);
                    }
                    I::CmpXchg(_, t, p, a, b) => {
                        f(&mut cs, &Ty::Ptr, p);
                        f(&mut cs, t, a);
                        f(&mut cs, t, b);
                    }
                    I::CondBr(c, _, _) => f(&mut cs, &Ty::Int(1), c),
                    I::Switch(t, o, _, _) => f(&mut cs, t, o),
                    I::Ret(Some((t, o))) => f(&mut cs, t, o),
                    _ => {}
                }
            }
        }
        self.consts = cs;
    }
}

pub struct Module {
    pub path: String,
    pub text: Rc<String>,
    pub funcs: HashMap<String, (usize, usize, String, bool)>, // start,end byte, pretty, local
    pub globals: HashMap<String, (usize, usize, bool)>,       // line range, local
    pub types: HashMap<String, Ty>,
    pub type_lines: HashMap<String, String>,
    pub aliases: HashMap<String, String>,
}

fn name_at(s: &str) -> Option<(String, usize)> {
    // s starts after '@' or '%'
    let b = s.as_bytes();
    if b.is_empty() {
        return None;
    }
    if b[0] == b'"' {
        let mut i = 1;
        while i < b.len() && b[i] != b'"' {
            i += 1;
        }
        return Some((s[1..i].to_string(), i + 1));
    }
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'.' | b'_' | b'$' | b'-')) {
        i += 1;
    }
    Some((s[..i].to_string(), i))
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut m = Module {
            path: path.to_string(),
            text: Rc::new(String::new()),
            funcs: HashMap::new(),
            globals: HashMap::new(),
            types: HashMap::new(),
            type_lines: HashMap::new(),
            aliases: HashMap::new(),
        };
        let mut pos = 0usize;
        let mut pretty = String::new();
        let bytes = text.as_bytes();
        while pos < bytes.len() {
            let end = text[pos..].find('\n').map(|e| pos + e).unwrap_or(bytes.len());
            let line = &text[pos..end];
            if line.starts_with("define ") {
                let at = find_fn_at(line);
                let (name, _) = name_at(&line[at + 1..]).unwrap();
                let fin = text[end..].find("\n}").map(|e| end + e).unwrap_or(bytes.len());
                let local = line.starts_with("define internal") || line.starts_with("define private");
                m.funcs.insert(name, (pos, fin, std::mem::take(&mut pretty), local));
                pos = fin + 2;
                continue;
            } else if line.starts_with("; ") && !line.starts_with("; Function Attrs") {
                pretty = line[2..].to_string();
            } else if line.starts_with('@') {
                let (name, l) = name_at(&line[1..]).unwrap();
                let rest = &line[1 + l..];
                if rest.contains(" alias ") && !rest.contains("constant") {
                    if let Some(p) = rest.rfind('@') {
                        let (t, _) = name_at(&rest[p + 1..]).unwrap();
                        m.aliases.insert(name, t);
                    }
                } else {
                    let local = rest.starts_with(" = private") || rest.starts_with(" = internal");
                    m.globals.insert(name, (pos, end, local));
                }
            } else if line.starts_with('%') {
                let (name, l) = name_at(&line[1..]).unwrap();
                let rest = line[1 + l..].trim_start().strip_prefix("= type ").unwrap_or("").to_string();
                m.type_lines.insert(name, rest);
            }
            pos = end + 1;
        }
        m.text = Rc::new(text);
        m
    }
}

fn find_fn_at(line: &str) -> usize {
    // first '@' outside of parens/quotes
    let b = line.as_bytes();
    let (mut d, mut q) = (0, false);
    for (i, &c) in b.iter().enumerate() {
        match c {
            b'"' => q = !q,
            b'(' if !q => d += 1,
            b')' if !q => d -= 1,
            b'@' if d == 0 && !q => return i,
            _ => {}
        }
    }
    panic!("no function name in {line}");
}

pub struct P<'a> {
    pub s: &'a str,
    pub i: usize,
    pub m: &'a Module,
    pub regs: HashMap<String, u32>,
    pub blocks: HashMap<String, u32>,
}

pub type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(m: &'a Module, s: &'a str) -> Self {
        P { s, i: 0, m, regs: HashMap::new(), blocks: HashMap::new() }
    }
    fn b(&self) -> &'a [u8] {
        self.s.as_bytes()
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.b()[self.i] == b' ' || self.b()[self.i] == b'\t' || self.b()[self.i] == b'\n') {
                self.i += 1;
            }
            // a printed note, as in the class mask of is.fpclass
            if self.i + 1 < self.s.len() && self.b()[self.i] == b'/' && self.b()[self.i + 1] == b'*' {
                if let Some(k) = self.s[self.i..].find("*/") {
                    self.i += k + 2;
                    continue;
                }
            }
            return;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.b()[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected `{}` at `{}`", t, &self.s[self.i..self.s.len().min(self.i + 80)]))
        }
    }
    fn peek_ident(&mut self) -> &'a str {
        self.ws();
        let b = self.b();
        let mut j = self.i;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.')) {
            j += 1;
        }
        &self.s[self.i..j]
    }
    fn ident(&mut self) -> &'a str {
        let s = self.peek_ident();
        self.i += s.len();
        s
    }
    fn eat_kw(&mut self, t: &str) -> bool {
        if self.peek_ident() == t {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let b = self.b();
        let mut d = 0;
        let mut q = false;
        while self.i < b.len() {
            match b[self.i] {
                b'"' => q = !q,
                b'(' if !q => d += 1,
                b')' if !q => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn uint(&mut self) -> R<u64> {
        self.ws();
        let b = self.b();
        let j = self.i;
        let mut k = j;
        while k < b.len() && b[k].is_ascii_digit() {
            k += 1;
        }
        self.i = k;
        self.s[j..k].parse().map_err(|_| format!("uint at {}", &self.s[j..self.s.len().min(j + 40)]))
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if matches!(c, b'{' | b'[' | b'<' | b'%') {
            return true;
        }
        let id = self.peek_ident();
        if id.len() > 1 && id.starts_with('i') && id[1..].bytes().all(|c| c.is_ascii_digit()) {
            return true;
        }
        matches!(id, "void" | "ptr" | "half" | "float" | "double" | "fp128" | "x86_fp80" | "bfloat" | "label" | "metadata" | "token")
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let t = match c {
            b'{' => {
                self.i += 1;
                let ts = self.ty_list(b'}')?;
                Ty::Struct(ts, false)
            }
            b'[' => {
                self.i += 1;
                let n = self.uint()?;
                self.exp("x")?;
                let t = self.ty()?;
                self.exp("]")?;
                Ty::Arr(n as usize, Box::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let ts = self.ty_list(b'}')?;
                    self.exp(">")?;
                    Ty::Struct(ts, true)
                } else {
                    let n = self.uint()?;
                    self.exp("x")?;
                    let t = self.ty()?;
                    self.exp(">")?;
                    Ty::Vec(n as usize, Box::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let (n, l) = name_at(&self.s[self.i..]).ok_or("type name")?;
                self.i += l;
                if let Some(t) = self.m.types.get(&n) {
                    t.clone()
                } else if let Some(tl) = self.m.type_lines.get(&n) {
                    if tl.starts_with("opaque") || tl.is_empty() {
                        Ty::Opaque
                    } else {
                        let mut p = P::new(self.m, tl);
                        p.ty()?
                    }
                } else {
                    return Err(format!("unknown type %{n}"));
                }
            }
            _ => {
                let id = self.ident();
                match id {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.eat_kw("addrspace") {
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "half" | "bfloat" => Ty::FOther(16),
                    "fp128" => Ty::FOther(128),
                    "x86_fp80" => Ty::FOther(80),
                    "label" => Ty::Label,
                    "metadata" => Ty::Meta,
                    "token" => Ty::Opaque,
                    _ if id.starts_with('i') => {
                        let w: u32 = id[1..].parse().map_err(|_| format!("type {id}"))?;
                        Ty::Int(w as u16)
                    }
                    _ => return Err(format!("type `{}` in {}", id, &self.s[..self.s.len().min(200)])),
                }
            }
        };
        Ok(t)
    }
    fn ty_list(&mut self, close: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        loop {
            if self.peek() == close {
                self.i += 1;
                return Ok(v);
            }
            v.push(self.ty()?);
            self.eat(",");
        }
    }
    fn is_operand_kw(id: &str) -> bool {
        matches!(
            id,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "sub" | "add" | "mul" | "xor" | "trunc" | "bitcast" | "c" | "asm" | "ptrtoaddr" | "shl" | "zext"
        ) || id.starts_with("f0x")
            || id.starts_with("0x")
            || id.starts_with(|c: char| c.is_ascii_digit())
    }
    fn skip_attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // "key"="value"
                self.i += 1;
                while self.b()[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat("=") {
                    self.i += 1;
                    while self.b()[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            if !(c.is_ascii_alphabetic()) {
                return;
            }
            let id = self.peek_ident();
            if Self::is_operand_kw(id) {
                return;
            }
            self.i += id.len();
            if id == "align" {
                if self.peek().is_ascii_digit() {
                    let _ = self.uint();
                }
                continue;
            }
            if self.i < self.s.len() && self.b()[self.i] == b'(' {
                self.skip_parens();
            }
        }
    }
    fn skip_to_type(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            let c = self.peek();
            if c == 0 {
                return;
            }
            if c.is_ascii_alphabetic() {
                let id = self.ident();
                if id == "align" || id == "cc" {
                    let _ = self.uint();
                } else if self.i < self.s.len() && self.b()[self.i] == b'(' {
                    self.skip_parens();
                }
            } else {
                self.i += 1;
            }
        }
    }
    fn reg(&mut self, n: String) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(l)
    }
    fn blk(&mut self, n: String) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n).or_insert(l)
    }
    fn local_name(&mut self) -> R<String> {
        self.exp("%")?;
        let (n, l) = name_at(&self.s[self.i..]).ok_or("name")?;
        self.i += l;
        Ok(n)
    }
    pub fn operand(&mut self, ty: &Ty) -> R<O> {
        if self.peek() == b'%' {
            let n = self.local_name()?;
            return Ok(O::R(self.reg(n)));
        }
        Ok(O::K(self.konst(ty)?))
    }
    pub fn konst(&mut self, ty: &Ty) -> R<K> {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let (n, l) = name_at(&self.s[self.i..]).ok_or("gname")?;
                self.i += l;
                return Ok(K::Sym(n));
            }
            b'{' | b'[' => {
                self.i += 1;
                let close = if c == b'{' { b'}' } else { b']' };
                let v = self.klist(close)?;
                return Ok(K::Agg(v));
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let v = self.klist(b'}')?;
                    self.exp(">")?;
                    return Ok(K::Agg(v));
                }
                let v = self.klist(b'>')?;
                return Ok(K::Agg(v));
            }
            b'-' | b'0'..=b'9' | b'+' => {
                let j = self.i;
                let b = self.b();
                let mut k = j + 1;
                while k < b.len() && (b[k].is_ascii_alphanumeric() || b[k] == b'.' || ((b[k] == b'+' || b[k] == b'-') && (b[k - 1] == b'e' || b[k - 1] == b'E') && !self.s[j..k].starts_with("0x"))) {
                    k += 1;
                }
                let t = &self.s[j..k];
                self.i = k;
                return self.number(t, ty);
            }
            _ => {}
        }
        let id = self.ident();
        if id.starts_with("f0x") {
            let v = u128::from_str_radix(&id[3..], 16).map_err(|e| e.to_string())?;
            return Ok(K::Int(v));
        }
        match id {
            "true" => Ok(K::Int(1)),
            "false" => Ok(K::Int(0)),
            "null" => Ok(K::Int(0)),
            "none" | "zeroinitializer" => Ok(K::Zero),
            "undef" | "poison" => Ok(K::Undef),
            "c" => {
                self.exp("\"")?;
                let b = self.b();
                let mut out = vec![];
                while b[self.i] != b'"' {
                    if b[self.i] == b'\\' {
                        if b[self.i + 1] == b'\\' {
                            out.push(b'\\');
                            self.i += 2;
                        } else {
                            out.push(u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).map_err(|e| e.to_string())?);
                            self.i += 3;
                        }
                    } else {
                        out.push(b[self.i]);
                        self.i += 1;
                    }
                }
                self.i += 1;
                Ok(K::Bytes(out))
            }
            "splat" => {
                self.exp("(")?;
                let t = self.ty()?;
                let k = self.konst(&t)?;
                self.exp(")")?;
                Ok(K::Splat(Box::new((t, k))))
            }
            "getelementptr" => {
                while self.peek() != b'(' {
                    let x = self.ident();
                    if x.is_empty() {
                        return Err("gep flags".into());
                    }
                    if x == "inrange" {
                        self.skip_parens();
                    }
                }
                self.exp("(")?;
                let t = self.ty()?;
                self.exp(",")?;
                let pt = self.ty()?;
                let base = self.konst(&pt)?;
                let mut off = 0i64;
                let mut cur = t.clone();
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty()?;
                    let k = self.konst(&it)?;
                    let K::Int(v) = (match k {
                        K::Zero => K::Int(0),
                        k => k,
                    }) else {
                        return Err("gep idx".into());
                    };
                    let v = crate::expr::sext(v, it.bits()) as i64;
                    if first {
                        off += v * t.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_off(0) as i64 + if matches!(cur, Ty::Struct(..)) { cur.field_off(v as usize) as i64 } else { v * cur.field(0).size() as i64 };
                        let nx = cur.field(if matches!(cur, Ty::Struct(..)) { v as usize } else { 0 }).clone();
                        cur = nx;
                    }
                }
                self.exp(")")?;
                Ok(K::Gep(Box::new(base), off))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "zext" => {
                self.exp("(")?;
                let t = self.ty()?;
                let k = self.konst(&t)?;
                self.exp("to")?;
                let d = self.ty()?;
                self.exp(")")?;
                Ok(K::Cast(d.bits(), Box::new(k)))
            }
            "sub" | "add" | "mul" | "xor" | "shl" => {
                while self.peek() != b'(' {
                    self.ident();
                }
                self.exp("(")?;
                let t = self.ty()?;
                let a = self.konst(&t)?;
                self.exp(",")?;
                let t2 = self.ty()?;
                let b = self.konst(&t2)?;
                self.exp(")")?;
                Ok(K::Bin(id.to_string(), Box::new(a), Box::new(b), t.bits()))
            }
            _ => Err(format!("constant `{}` at `{}`", id, &self.s[self.i..self.s.len().min(self.i + 60)])),
        }
    }
    fn number(&self, t: &str, ty: &Ty) -> R<K> {
        match ty {
            Ty::F64 | Ty::F32 | Ty::FOther(_) => {
                if let Some(k) = t.strip_prefix('+').or(t.strip_prefix('-')) {
                    if k == "qnan" {
                        let neg = t.starts_with('-') as u128;
                        return match ty {
                            Ty::F64 => Ok(K::Int(neg << 63 | 0x7ff8 << 48)),
                            Ty::F32 => Ok(K::Int(neg << 31 | 0x7fc0 << 16)),
                            _ => Err("fother const".into()),
                        };
                    }
                }
                let v = if let Some(h) = t.strip_prefix("0x") {
                    if let Some(h) = h.strip_prefix(|c: char| matches!(c, 'H' | 'K' | 'L' | 'M' | 'R')) {
                        return Ok(K::Int(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?));
                    }
                    f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                } else {
                    t.parse::<f64>().map_err(|e| format!("{t}: {e}"))?
                };
                Ok(K::Int(match ty {
                    Ty::F64 => v.to_bits() as u128,
                    Ty::F32 => (v as f32).to_bits() as u128,
                    _ => return Err("fother const".into()),
                }))
            }
            _ => {
                let w = match ty {
                    Ty::Int(w) => *w,
                    Ty::Ptr => 64,
                    _ => return Err(format!("number {t} for {ty:?}")),
                };
                let v = if let Some(n) = t.strip_prefix('-') {
                    (n.parse::<u128>().map_err(|e| format!("{t}: {e}"))?).wrapping_neg()
                } else {
                    t.parse::<u128>().map_err(|e| format!("{t}: {e}"))?
                };
                Ok(K::Int(v & crate::expr::mask(w)))
            }
        }
    }
    fn klist(&mut self, close: u8) -> R<Vec<(Ty, K)>> {
        let mut v = vec![];
        loop {
            if self.peek() == close {
                self.i += 1;
                return Ok(v);
            }
            let t = self.ty()?;
            let k = self.konst(&t)?;
            v.push((t, k));
            self.eat(",");
        }
    }
    fn typed(&mut self) -> R<(Ty, O)> {
        let t = self.ty()?;
        self.skip_attrs();
        let o = self.operand(&t)?;
        Ok((t, o))
    }
    fn label(&mut self) -> R<u32> {
        self.exp("label")?;
        let n = self.local_name()?;
        Ok(self.blk(n))
    }
}

const BINOPS: &[&str] = &["add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"];
const CASTS: &[&str] = &["trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "ptrtoaddr", "addrspacecast"];
const PREDS: &[&str] = &["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"];
const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "volatile"];

pub fn parse_func(m: &Module, midx: usize, name: &str) -> R<Func> {
    let (s, e, pretty, _) = m.funcs.get(name).ok_or_else(|| format!("no function {name}"))?;
    let text = &m.text[*s..*e];
    let hdr_end = text.find('\n').unwrap_or(text.len());
    let hdr = &text[..hdr_end];
    let mut p = P::new(m, hdr);
    p.exp("define")?;
    p.skip_to_type();
    let ret = p.ty()?;
    // function name
    let at = find_fn_at(hdr);
    p.i = at + 1;
    let (_, l) = name_at(&hdr[p.i..]).unwrap();
    p.i += l;
    p.exp("(")?;
    let mut params = vec![];
    let mut unnamed = 0usize;
    loop {
        if p.eat(")") {
            break;
        }
        if p.eat("...") {
            continue;
        }
        let t = p.ty()?;
        p.skip_attrs();
        if p.peek() == b'%' {
            let n = p.local_name()?;
            let r = p.reg(n);
            params.push((t, r));
        } else {
            let r = p.reg(format!("{unnamed}"));
            params.push((t, r));
        }
        unnamed += 1;
        p.eat(",");
    }
    let dbg_sp = hdr.rfind("!dbg !").and_then(|k| hdr[k + 6..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).unwrap_or(0);
    let mut regs = std::mem::take(&mut p.regs);
    let mut blocks_ix: HashMap<String, u32> = HashMap::new();
    let mut order: Vec<(u32, Block)> = vec![];
    let mut cur: Option<(u32, Block)> = None;
    let body = &text[hdr_end..];
    let mut lines = body.split('\n').peekable();
    while let Some(line) = lines.next() {
        if line.is_empty() || line.starts_with(';') {
            continue;
        }
        let b0 = line.as_bytes()[0];
        if b0 != b' ' && b0 != b'\t' && b0 != b'}' {
            // label
            let (n, _) = if b0 == b'"' {
                let k = line[1..].find('"').unwrap();
                (line[1..1 + k].to_string(), 0)
            } else {
                let k = line.find(':').ok_or_else(|| format!("label? {line}"))?;
                (line[..k].to_string(), 0)
            };
            if let Some(c) = cur.take() {
                order.push(c);
            }
            let l = blocks_ix.len() as u32;
            let ix = *blocks_ix.entry(n).or_insert(l);
            cur = Some((ix, Block { phis: vec![], ins: vec![], dbg: vec![] }));
            continue;
        }
        let mut full: String;
        let mut t = line.trim();
        if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") {
            continue;
        }
        if t.starts_with("switch ") && !t.contains(']') {
            full = t.to_string();
            for l2 in lines.by_ref() {
                full.push(' ');
                full.push_str(l2.trim());
                if l2.trim().starts_with(']') {
                    break;
                }
            }
            t = &full;
        } else if (t.starts_with("invoke ") || t.contains(" = invoke ")) && !t.contains("unwind label") {
            full = t.to_string();
            if let Some(l2) = lines.next() {
                full.push(' ');
                full.push_str(l2.trim());
            }
            t = &full;
        }
        if cur.is_none() {
            // implicit entry block
            let l = blocks_ix.len() as u32;
            let ix = *blocks_ix.entry(format!("{unnamed}")).or_insert(l);
            cur = Some((ix, Block { phis: vec![], ins: vec![], dbg: vec![] }));
        }
        if t == "cleanup" || t.starts_with("cleanup ") || t.starts_with("catch ") || t.starts_with("filter ") {
            continue;
        }
        let dbg: u32 = t.rfind("!dbg !").and_then(|k| t[k + 6..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).unwrap_or(0);
        let mut p = P { s: t, i: 0, m, regs: std::mem::take(&mut regs), blocks: std::mem::take(&mut blocks_ix) };
        let r = parse_ins(&mut p, cur.as_mut().map(|c| &mut c.1).unwrap(), dbg);
        regs = std::mem::take(&mut p.regs);
        blocks_ix = std::mem::take(&mut p.blocks);
        if let Err(e) = r {
            let b = &mut cur.as_mut().unwrap().1;
            b.ins.push(I::Unsupported(format!("{e} in `{}`", &t[..t.len().min(300)])));
            b.dbg.push(dbg);
        }
    }
    if let Some(c) = cur.take() {
        order.push(c);
    }
    let entry = order.first().map(|x| x.0).unwrap_or(0);
    let mut blocks: Vec<Block> = (0..blocks_ix.len()).map(|_| Block { phis: vec![], ins: vec![], dbg: vec![] }).collect();
    for (ix, b) in order {
        blocks[ix as usize] = b;
    }
    if entry != 0 {
        return Err("entry block index".into());
    }
    let mut f = Func { name: name.to_string(), pretty: pretty.clone(), module: midx, ret, params, nregs: regs.len() as u32, blocks, dbg_sp, consts: vec![] };
    f.lower();
    Ok(f)
}

fn parse_call(p: &mut P, dst: Option<u32>) -> R<CallI> {
    p.skip_to_type();
    let ret = p.ty()?;
    if p.peek() == b'(' {
        p.skip_parens();
    }
    let mut asm = false;
    let callee = if p.eat_kw("asm") {
        asm = true;
        while p.peek() != b'(' {
            if p.peek() == b'"' {
                p.i += 1;
                while p.b()[p.i] != b'"' {
                    p.i += 1;
                }
                p.i += 1;
            } else {
                p.i += 1;
            }
        }
        O::K(K::Int(0))
    } else {
        p.operand(&Ty::Ptr)?
    };
    p.exp("(")?;
    let mut args = vec![];
    loop {
        if p.eat(")") {
            break;
        }
        let t = p.ty()?;
        if t == Ty::Meta {
            // skip to , or )
            let b = p.b();
            let mut d = 0;
            while p.i < b.len() {
                match b[p.i] {
                    b'(' => d += 1,
                    b')' if d == 0 => break,
                    b')' => d -= 1,
                    b',' if d == 0 => break,
                    _ => {}
                }
                p.i += 1;
            }
            p.eat(",");
            continue;
        }
        p.skip_attrs();
        let o = p.operand(&t)?;
        args.push((t, o));
        p.eat(",");
    }
    Ok(CallI { dst, ret, callee, args, asm })
}

fn parse_ins(p: &mut P, b: &mut Block, dbg: u32) -> R<()> {
    let mut dst = None;
    if p.peek() == b'%' {
        let n = p.local_name()?;
        p.exp("=")?;
        dst = Some(p.reg(n));
    }
    let mut op = p.ident();
    if matches!(op, "tail" | "musttail" | "notail") {
        op = p.ident();
    }
    let d = dst.unwrap_or(u32::MAX);
    if let Some(bo) = BINOPS.iter().find(|x| **x == op) {
        while FLAGS.contains(&p.peek_ident()) {
            p.ident();
        }
        let t = p.ty()?;
        let x = p.operand(&t)?;
        p.exp(",")?;
        let y = p.operand(&t)?;
        b.ins.push(I::Bin(d, bo, t, x, y));
        b.dbg.push(dbg);
        return Ok(());
    }
    if let Some(c) = CASTS.iter().find(|x| **x == op) {
        while FLAGS.contains(&p.peek_ident()) {
            p.ident();
        }
        let t = p.ty()?;
        let x = p.operand(&t)?;
        p.exp("to")?;
        let t2 = p.ty()?;
        b.ins.push(I::Cast(d, c, t, t2, x));
        b.dbg.push(dbg);
        return Ok(());
    }
    let ins = match op {
        "phi" => {
            while FLAGS.contains(&p.peek_ident()) {
                p.ident();
            }
            let t = p.ty()?;
            let mut v = vec![];
            loop {
                p.exp("[")?;
                let o = p.operand(&t)?;
                p.exp(",")?;
                let n = p.local_name()?;
                let bl = p.blk(n);
                p.exp("]")?;
                v.push((bl, o));
                if !p.eat(",") || p.peek() != b'[' {
                    break;
                }
            }
            b.phis.push((d, t, v));
            return Ok(());
        }
        "icmp" => {
            while FLAGS.contains(&p.peek_ident()) {
                p.ident();
            }
            let pr = p.ident();
            let pr = PREDS.iter().find(|x| **x == pr).ok_or("pred")?;
            let t = p.ty()?;
            let x = p.operand(&t)?;
            p.exp(",")?;
            let y = p.operand(&t)?;
            I::Icmp(d, pr, t, x, y)
        }
        "fcmp" => {
            while FLAGS.contains(&p.peek_ident()) {
                p.ident();
            }
            let pr = p.ident().to_string();
            let t = p.ty()?;
            let x = p.operand(&t)?;
            p.exp(",")?;
            let y = p.operand(&t)?;
            I::Fcmp(d, pr, t, x, y)
        }
        "fneg" => {
            while FLAGS.contains(&p.peek_ident()) {
                p.ident();
            }
            let t = p.ty()?;
            let x = p.operand(&t)?;
            I::FNeg(d, t, x)
        }
        "freeze" => {
            let (t, o) = p.typed()?;
            I::Freeze(d, t, o)
        }
        "alloca" => {
            p.eat_kw("inalloca");
            let t = p.ty()?;
            let mut cnt = None;
            let mut al = t.align();
            while p.eat(",") {
                if p.eat_kw("align") {
                    al = p.uint()?;
                } else if p.peek() == b'!' {
                    break;
                } else {
                    cnt = Some(p.typed()?);
                }
            }
            I::Alloca(d, t, cnt, al)
        }
        "load" => {
            p.eat_kw("atomic");
            p.eat_kw("volatile");
            let t = p.ty()?;
            p.exp(",")?;
            let (_, o) = p.typed()?;
            I::Load(d, t, o)
        }
        "store" => {
            p.eat_kw("atomic");
            p.eat_kw("volatile");
            let (t, v) = p.typed()?;
            p.exp(",")?;
            let (_, o) = p.typed()?;
            I::Store(t, v, o)
        }
        "getelementptr" => {
            while FLAGS.contains(&p.peek_ident()) {
                p.ident();
            }
            let t = p.ty()?;
            p.exp(",")?;
            let (bt, base) = p.typed()?;
            if !matches!(bt, Ty::Ptr) {
                return Err("vector gep".into());
            }
            let mut coff = 0i64;
            let mut terms = vec![];
            let mut cur = t.clone();
            let mut first = true;
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                let (it, o) = p.typed()?;
                let scale;
                if first {
                    scale = t.size() as i64;
                    first = false;
                } else if matches!(cur, Ty::Struct(..)) {
                    let O::K(K::Int(v)) = o else { return Err("struct gep idx".into()) };
                    coff += cur.field_off(v as usize) as i64;
                    let nx = cur.field(v as usize).clone();
                    cur = nx;
                    continue;
                } else {
                    let nx = cur.field(0).clone();
                    cur = nx;
                    scale = cur.size() as i64;
                }
                match o {
                    O::K(K::Int(v)) => coff = coff.wrapping_add((crate::expr::sext(v, it.bits()) as i64).wrapping_mul(scale)),
                    O::K(K::Zero) => {}
                    o => terms.push((o, it.bits(), scale)),
                }
            }
            I::Gep(d, base, coff, terms)
        }
        "select" => {
            while FLAGS.contains(&p.peek_ident()) {
                p.ident();
            }
            let (ct, c) = p.typed()?;
            p.exp(",")?;
            let (t, x) = p.typed()?;
            p.exp(",")?;
            let (_, y) = p.typed()?;
            I::Select(d, ct, c, t, x, y)
        }
        "extractvalue" => {
            let (t, o) = p.typed()?;
            let mut ix = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.uint()? as usize);
            }
            I::ExtractValue(d, t, o, ix)
        }
        "insertvalue" => {
            let (t, o) = p.typed()?;
            p.exp(",")?;
            let (vt, v) = p.typed()?;
            let mut ix = vec![];
            while p.eat(",") {
                if p.peek() == b'!' {
                    break;
                }
                ix.push(p.uint()? as usize);
            }
            I::InsertValue(d, t, o, vt, v, ix)
        }
        "extractelement" => {
            let (t, o) = p.typed()?;
            p.exp(",")?;
            let (_, i) = p.typed()?;
            I::ExtractElem(d, t, o, i)
        }
        "insertelement" => {
            let (t, o) = p.typed()?;
            p.exp(",")?;
            let (_, v) = p.typed()?;
            p.exp(",")?;
            let (_, i) = p.typed()?;
            I::InsertElem(d, t, o, v, i)
        }
        "shufflevector" => {
            let (t, x) = p.typed()?;
            p.exp(",")?;
            let (_, y) = p.typed()?;
            p.exp(",")?;
            let mt = p.ty()?;
            let mk = p.konst(&mt)?;
            let n = mt.nfields();
            let mv = match mk {
                K::Zero => vec![0; n],
                K::Undef => vec![-1; n],
                K::Agg(v) => v
                    .into_iter()
                    .map(|(_, k)| match k {
                        K::Int(i) => i as i32,
                        K::Zero => 0,
                        _ => -1,
                    })
                    .collect(),
                K::Splat(b) => match b.1 {
                    K::Int(i) => vec![i as i32; n],
                    _ => vec![0; n],
                },
                _ => return Err("shuffle mask".into()),
            };
            I::Shuffle(d, t, x, y, mv)
        }
        "call" => {
            while FLAGS.contains(&p.peek_ident()) {
                p.ident();
            }
            I::Call(parse_call(p, dst)?)
        }
        "invoke" => {
            let c = parse_call(p, dst)?;
            let k = p.s[p.i..].find("label").ok_or("invoke")?;
            p.i += k;
            let l = p.label()?;
            p.exp("unwind")?;
            let u = p.label()?;
            I::Invoke(c, l, u)
        }
        "landingpad" => I::LandingPad(d),
        "resume" => I::Resume,
        "fence" => I::Nop,
        "unreachable" => I::Unreachable,
        "br" => {
            if p.peek_ident() == "label" {
                I::Br(p.label()?)
            } else {
                let (_, c) = p.typed()?;
                p.exp(",")?;
                let a = p.label()?;
                p.exp(",")?;
                let e = p.label()?;
                I::CondBr(c, a, e)
            }
        }
        "switch" => {
            let (t, o) = p.typed()?;
            p.exp(",")?;
            let def = p.label()?;
            p.exp("[")?;
            let mut v = vec![];
            while p.peek() != b']' {
                let ct = p.ty()?;
                let K::Int(k) = p.konst(&ct)? else { return Err("switch const".into()) };
                p.exp(",")?;
                let l = p.label()?;
                v.push((k, l));
            }
            I::Switch(t, o, def, v)
        }
        "ret" => {
            if p.eat_kw("void") {
                I::Ret(None)
            } else {
                let x = p.typed()?;
                I::Ret(Some(x))
            }
        }
        "atomicrmw" => {
            p.eat_kw("volatile");
            let o = p.ident().to_string();
            let (_, ptr) = p.typed()?;
            p.exp(",")?;
            let (t, v) = p.typed()?;
            I::Rmw(d, o, t, ptr, v)
        }
        "cmpxchg" => {
            p.eat_kw("weak");
            p.eat_kw("volatile");
            let (_, ptr) = p.typed()?;
            p.exp(",")?;
            let (t, c) = p.typed()?;
            p.exp(",")?;
            let (_, n) = p.typed()?;
            I::CmpXchg(d, t, ptr, c, n)
        }
        _ => return Err(format!("unknown op {op}")),
    };
    b.ins.push(ins);
    b.dbg.push(dbg);
    Ok(())
}

/// parse a global definition line into (type, initializer, constant?, align)
pub fn parse_global(m: &Module, line: &str) -> R<(Ty, Option<K>, bool, u64)> {
    let mut p = P::new(m, line);
    p.exp("@")?;
    let (_, l) = name_at(&line[1..]).unwrap();
    p.i += l;
    p.exp("=")?;
    let mut ext = false;
    let mut cst = false;
    loop {
        if p.is_type_start() {
            break;
        }
        let id = p.ident();
        match id {
            "" => return Err(format!("global {line}")),
            "external" | "extern_weak" => ext = true,
            "constant" => cst = true,
            _ => {}
        }
        if p.i < line.len() && p.b()[p.i] == b'(' {
            p.skip_parens();
        }
    }
    let t = p.ty()?;
    let k = if ext { None } else { Some(p.konst(&t)?) };
    let mut al = t.align();
    if let Some(j) = line[p.i..].find(", align ") {
        let r = &line[p.i + j + 8..];
        let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
        al = r[..e].parse().unwrap_or(al);
    }
    Ok((t, k, cst, al))
}

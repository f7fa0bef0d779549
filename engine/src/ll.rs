//! Parser for textual LLVM IR (the subset rustc emits) into a compact form.
use crate::expr::FxMap;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    St(Vec<Ty>, bool),
    Label,
    Meta,
    Token,
    Fun,
    Named(String),
    Other(String),
}

#[derive(Clone, Debug)]
pub enum C {
    Int(u128),
    Zero,
    Undef,
    Null,
    Sym(String),
    Str(Vec<u8>),
    Agg(Vec<(Ty, C)>),
    Splat(Box<(Ty, C)>),
    Gep(Ty, Box<C>, Vec<(Ty, C)>),
    Cast(String, Ty, Box<C>, Ty),
    Bin(String, Ty, Box<C>, Box<C>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    C(u32), // index into module constant pool (with type)
}

#[derive(Clone, Debug)]
pub struct Call {
    pub dst: Option<u32>,
    pub rty: Ty,
    pub callee: Opd,
    pub args: Vec<(Ty, Opd)>,
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: u8, ty: Ty, a: Opd, b: Opd, dst: u32 },
    FNeg { ty: Ty, a: Opd, dst: u32 },
    ICmp { p: u8, ty: Ty, a: Opd, b: Opd, dst: u32 },
    FCmp { p: String, ty: Ty, a: Opd, b: Opd, dst: u32 },
    Cast { op: u8, from: Ty, to: Ty, a: Opd, dst: u32 },
    Gep { base: Opd, off: i64, terms: Vec<(Opd, i64, u32)>, dst: u32 },
    Load { ty: Ty, p: Opd, dst: u32 },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { size: u64, dst: u32 },
    Select { cty: Ty, ty: Ty, c: Opd, a: Opd, b: Opd, dst: u32 },
    ExtractV { a: Opd, idx: Vec<u32>, dst: u32 },
    InsertV { ty: Ty, a: Opd, v: Opd, idx: Vec<u32>, dst: u32 },
    ExtractE { n: u64, a: Opd, i: Opd, dst: u32 },
    InsertE { ty: Ty, a: Opd, v: Opd, i: Opd, dst: u32 },
    Shuffle { a: Opd, b: Opd, n: u64, mask: Vec<i32>, dst: u32 },
    Rmw { op: String, ty: Ty, p: Opd, v: Opd, dst: u32 },
    CmpXchg { ty: Ty, p: Opd, c: Opd, n: Opd, dst: u32 },
    Copy { a: Opd, dst: u32 },
    Nop,
    Call(Box<Call>),
    // terminators
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { ty: Ty, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Trap,
}

pub const BINOPS: [&str; 18] = [
    "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub",
    "fmul", "fdiv", "frem",
];
pub const ICMPS: [&str; 10] = ["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"];
pub const CASTS: [&str; 13] = [
    "trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp",
    "sitofp", "addrspacecast",
];

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<I>,
    pub dbg: Vec<u32>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub param_tys: Vec<Ty>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub decl: bool,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<C>,
    pub konst: bool,
    pub alias: bool,
    pub weak: bool,
}

#[derive(Default)]
pub struct Module {
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub consts: Vec<(Ty, C)>,
    pub locs: FxMap<u32, (u32, u32)>,           // dbg id -> (line, scope)
    pub inl: FxMap<u32, u32>,                   // dbg id -> inlinedAt
    pub scopes: FxMap<u32, u32>,                // scope -> parent scope
    pub subs: FxMap<u32, (String, String, u32)>, // subprogram -> (linkage name, name, file id)
    pub files: FxMap<u32, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),  // "..."
    CStr(&'a str), // c"..."
    Meta(&'a str),
    Label(&'a str),
    Attr(&'a str), // #12
    P(u8),
    Dots,
    Eof,
}

struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    i: usize,
}
fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Lex<'a> {
    fn next(&mut self) -> T<'a> {
        let b = self.b;
        loop {
            while self.i < b.len() && (b[self.i] == b' ' || b[self.i] == b'\n' || b[self.i] == b'\t' || b[self.i] == b'\r') {
                self.i += 1;
            }
            if self.i < b.len() && b[self.i] == b';' {
                while self.i < b.len() && b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        if self.i >= b.len() {
            return T::Eof;
        }
        let st = self.i;
        let c = b[st];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name;
                if b[self.i] == b'"' {
                    let s0 = self.i + 1;
                    self.i = s0;
                    while b[self.i] != b'"' {
                        self.i += 1;
                    }
                    name = &self.s[s0..self.i];
                    self.i += 1;
                } else {
                    let s0 = self.i;
                    while self.i < b.len() && idch(b[self.i]) {
                        self.i += 1;
                    }
                    name = &self.s[s0..self.i];
                }
                if c == b'%' {
                    T::Local(name)
                } else {
                    T::Global(name)
                }
            }
            b'"' => {
                self.i += 1;
                let s0 = self.i;
                while b[self.i] != b'"' {
                    self.i += 1;
                }
                let r = &self.s[s0..self.i];
                self.i += 1;
                if self.i < b.len() && b[self.i] == b':' {
                    self.i += 1;
                    return T::Label(r);
                }
                T::Str(r)
            }
            b'!' => {
                self.i += 1;
                let s0 = self.i;
                while self.i < b.len() && (idch(b[self.i]) || b[self.i] == b'\\') {
                    self.i += 1;
                }
                T::Meta(&self.s[s0..self.i])
            }
            b'#' => {
                self.i += 1;
                let s0 = self.i;
                while self.i < b.len() && idch(b[self.i]) {
                    self.i += 1;
                }
                T::Attr(&self.s[s0..self.i])
            }
            b'.' if b.get(st + 1) == Some(&b'.') => {
                self.i += 3;
                T::Dots
            }
            b'-' | b'0'..=b'9' | b'+' => {
                self.i += 1;
                while self.i < b.len() && (b[self.i].is_ascii_alphanumeric() || b[self.i] == b'.' || b[self.i] == b'+' || b[self.i] == b'-') {
                    self.i += 1;
                }
                if self.i < b.len() && b[self.i] == b':' {
                    let r = &self.s[st..self.i];
                    self.i += 1;
                    return T::Label(r);
                }
                T::Num(&self.s[st..self.i])
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                while self.i < b.len() && idch(b[self.i]) {
                    self.i += 1;
                }
                let w = &self.s[st..self.i];
                if w == "c" && self.i < b.len() && b[self.i] == b'"' {
                    self.i += 1;
                    let s0 = self.i;
                    while b[self.i] != b'"' {
                        self.i += 1;
                    }
                    let r = &self.s[s0..self.i];
                    self.i += 1;
                    return T::CStr(r);
                }
                if self.i < b.len() && b[self.i] == b':' {
                    self.i += 1;
                    return T::Label(w);
                }
                T::Word(w)
            }
            _ => {
                self.i += 1;
                T::P(c)
            }
        }
    }
}

struct Ps<'a> {
    lx: Lex<'a>,
    t: T<'a>,
    m: Module,
    cpool: HashMap<String, u32>,
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                r.push(b'\\');
                i += 2;
            } else {
                r.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    r
}

impl<'a> Ps<'a> {
    fn adv(&mut self) -> T<'a> {
        let n = self.lx.next();
        std::mem::replace(&mut self.t, n)
    }
    fn isp(&self, c: u8) -> bool {
        self.t == T::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat(c) {
            self.die(&format!("expected '{}'", c as char))
        }
    }
    fn word(&self) -> &'a str {
        if let T::Word(w) = self.t {
            w
        } else {
            ""
        }
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.word() == w {
            self.adv();
            true
        } else {
            false
        }
    }
    fn die(&self, m: &str) -> ! {
        let i = self.lx.i;
        let lo = i.saturating_sub(160);
        let hi = (i + 60).min(self.lx.s.len());
        eprintln!("parse error: {m}: near token {:?}: ...{}...", self.t, String::from_utf8_lossy(&self.lx.b[lo..hi]));
        std::panic::panic_any("parse error")
    }
    fn skip_parens(&mut self) {
        self.exp(b'(');
        let mut d = 1;
        while d > 0 {
            match self.adv() {
                T::P(b'(') => d += 1,
                T::P(b')') => d -= 1,
                T::Eof => self.die("eof"),
                _ => {}
            }
        }
    }
    fn ty_start(&self) -> bool {
        match &self.t {
            T::Word(w) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(b'{') | T::P(b'<') | T::P(b'[') => true,
            T::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let r = match self.adv() {
            T::Word("void") => Ty::Void,
            T::Word("ptr") => {
                if self.word() == "addrspace" {
                    self.adv();
                    self.skip_parens();
                }
                Ty::Ptr
            }
            T::Word("float") => Ty::F32,
            T::Word("double") => Ty::F64,
            T::Word("label") => Ty::Label,
            T::Word("metadata") => Ty::Meta,
            T::Word("token") => Ty::Token,
            T::Word(w) if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                Ty::Int(w[1..].parse().unwrap())
            }
            T::Word(w) => Ty::Other(w.to_string()),
            T::Local(n) => Ty::Named(n.to_string()),
            T::P(b'[') => {
                let n = self.num() as u64;
                if !self.eatw("x") {
                    self.die("x")
                }
                let t = self.ty();
                self.exp(b']');
                Ty::Arr(n, Box::new(t))
            }
            T::P(b'<') => {
                if self.isp(b'{') {
                    self.adv();
                    let v = self.tys(b'}');
                    self.exp(b'>');
                    Ty::St(v, true)
                } else {
                    let n = self.num() as u64;
                    if !self.eatw("x") {
                        self.die("x")
                    }
                    let t = self.ty();
                    self.exp(b'>');
                    Ty::Vec(n, Box::new(t))
                }
            }
            T::P(b'{') => {
                let v = self.tys(b'}');
                Ty::St(v, false)
            }
            _ => self.die("type"),
        };
        // function type
        if self.isp(b'(') && matches!(r, Ty::Void) {
            self.skip_parens();
            return Ty::Fun;
        }
        r
    }
    fn tys(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.ty());
            self.eat(b',');
        }
        v
    }
    fn num(&mut self) -> i128 {
        match self.adv() {
            T::Num(n) => n.parse().unwrap_or_else(|_| self.die("num")),
            _ => self.die("number"),
        }
    }
    fn is_const_expr_word(w: &str) -> bool {
        matches!(w, "getelementptr") || CASTS.contains(&w) || BINOPS.contains(&w)
    }
    fn constant(&mut self, ty: &Ty) -> C {
        match self.adv() {
            T::Num(n) => match ty {
                Ty::F64 | Ty::F32 if n.trim_start_matches(['+', '-']).contains("nan") => {
                    // +qnan, -nan(0x1), +snan(0x1): the payload is at the width of the type
                    let name = n.trim_start_matches(['+', '-']);
                    let mut payload = 0u64;
                    if self.eat(b'(') {
                        if let T::Num(h) = self.adv() {
                            payload = u64::from_str_radix(h.trim_start_matches("0x"), 16).unwrap_or(0);
                        }
                        self.exp(b')');
                    }
                    let (exp, quiet, sign) = if *ty == Ty::F64 { (0x7ffu64 << 52, 1u64 << 51, 1u64 << 63) } else { (0xff << 23, 1 << 22, 1 << 31) };
                    let mut v = exp | payload;
                    if name != "snan" {
                        v |= quiet;
                    }
                    if n.starts_with('-') {
                        v |= sign;
                    }
                    C::Int(v as u128)
                }
                Ty::F64 | Ty::F32 => {
                    let bits = if let Some(h) = n.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        n.parse::<f64>().unwrap().to_bits()
                    };
                    if *ty == Ty::F32 {
                        C::Int((f64::from_bits(bits) as f32).to_bits() as u128)
                    } else {
                        C::Int(bits as u128)
                    }
                }
                _ => {
                    if let Some(h) = n.strip_prefix("u0x") {
                        C::Int(u128::from_str_radix(h, 16).unwrap())
                    } else if n.starts_with('-') {
                        C::Int(n.parse::<i128>().unwrap() as u128)
                    } else {
                        C::Int(n.parse::<u128>().unwrap_or_else(|_| self.die("int const")))
                    }
                }
            },
            T::Word(w) if w.starts_with("f0x") => C::Int(u128::from_str_radix(&w[3..], 16).unwrap_or_else(|_| self.die("float const"))),
            T::Word("true") => C::Int(1),
            T::Word("false") => C::Int(0),
            T::Word("null") => C::Null,
            T::Word("undef") | T::Word("poison") => C::Undef,
            T::Word("zeroinitializer") | T::Word("none") => C::Zero,
            T::Word("splat") => {
                self.exp(b'(');
                let t = self.ty();
                let c = self.constant(&t);
                self.exp(b')');
                C::Splat(Box::new((t, c)))
            }
            // special floating literals of newer LLVM
            T::Word(w @ ("pinf" | "ninf" | "nan" | "qnan" | "inf")) => {
                let v = match w {
                    "ninf" => f64::NEG_INFINITY,
                    "pinf" | "inf" => f64::INFINITY,
                    _ => f64::NAN,
                };
                C::Int(if *ty == Ty::F32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 })
            }
            T::Global(g) => C::Sym(g.to_string()),
            T::CStr(s) => C::Str(unescape(s)),
            T::P(b'[') => C::Agg(self.clist(b']')),
            T::P(b'{') => C::Agg(self.clist(b'}')),
            T::P(b'<') => {
                if self.eat(b'{') {
                    let v = self.clist(b'}');
                    self.exp(b'>');
                    C::Agg(v)
                } else {
                    C::Agg(self.clist(b'>'))
                }
            }
            T::Word("getelementptr") => {
                while !self.isp(b'(') {
                    if self.word() == "inrange" {
                        self.adv();
                        self.skip_parens();
                    } else {
                        self.adv();
                    }
                }
                self.exp(b'(');
                let t = self.ty();
                self.exp(b',');
                let bt = self.ty();
                let b = self.constant(&bt);
                let mut idx = vec![];
                while self.eat(b',') {
                    let it = self.ty();
                    idx.push((it.clone(), self.constant(&it)));
                }
                self.exp(b')');
                C::Gep(t, Box::new(b), idx)
            }
            T::Word(w) if CASTS.contains(&w) => {
                self.exp(b'(');
                let t = self.ty();
                let c = self.constant(&t);
                if !self.eatw("to") {
                    self.die("to")
                }
                let to = self.ty();
                self.exp(b')');
                C::Cast(w.to_string(), t, Box::new(c), to)
            }
            T::Word(w) if BINOPS.contains(&w) => {
                while !self.isp(b'(') {
                    self.adv();
                }
                self.exp(b'(');
                let t = self.ty();
                let a = self.constant(&t);
                self.exp(b',');
                let t2 = self.ty();
                let b = self.constant(&t2);
                self.exp(b')');
                C::Bin(w.to_string(), t, Box::new(a), Box::new(b))
            }
            T::Meta(_) => C::Undef,
            x => self.die(&format!("constant {x:?}")),
        }
    }
    fn clist(&mut self, end: u8) -> Vec<(Ty, C)> {
        let mut v = vec![];
        while !self.eat(end) {
            let t = self.ty();
            let c = self.constant(&t);
            v.push((t, c));
            self.eat(b',');
        }
        v
    }
    fn value(&mut self, ty: &Ty, f: &mut FnCx<'a>) -> Opd {
        if let T::Local(n) = self.t {
            self.adv();
            return Opd::Reg(f.reg(n));
        }
        let st = self.lx.i;
        let _ = st;
        let c = self.constant(ty);
        let key = format!("{:?}|{:?}", ty, c);
        if let Some(&i) = self.cpool.get(&key) {
            return Opd::C(i);
        }
        let i = self.m.consts.len() as u32;
        self.m.consts.push((ty.clone(), c));
        self.cpool.insert(key, i);
        Opd::C(i)
    }
    /// skip parameter/call attributes up to a value
    fn skip_attrs(&mut self) {
        loop {
            match self.t {
                T::Word(w) => {
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "asm" | "nan" | "qnan" | "pinf" | "ninf" | "inf")
                        || Self::is_const_expr_word(w)
                        || w.starts_with("f0x")
                    {
                        return;
                    }
                    self.adv();
                    if w == "align" && matches!(self.t, T::Num(_)) {
                        self.adv();
                    } else if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                T::Str(_) => {
                    self.adv();
                    if self.eat(b'=') {
                        self.adv();
                    }
                }
                T::Attr(_) => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
    fn size_of(&self, t: &Ty) -> (u64, u64) {
        size_align(&self.m.types, t)
    }
    fn parse(&mut self) {
        loop {
            match self.t.clone() {
                T::Eof => break,
                T::Word("source_filename") => {
                    self.adv();
                    self.exp(b'=');
                    self.adv();
                }
                T::Word("target") => {
                    self.adv();
                    self.adv();
                    self.exp(b'=');
                    self.adv();
                }
                T::Word("module") => {
                    self.adv();
                    self.adv();
                    self.adv();
                }
                T::Word("attributes") => {
                    self.adv();
                    self.adv();
                    self.exp(b'=');
                    self.exp(b'{');
                    while !self.eat(b'}') {
                        self.adv();
                    }
                }
                T::Local(n) => {
                    self.adv();
                    self.exp(b'=');
                    self.adv(); // type
                    let t = if self.word() == "opaque" {
                        self.adv();
                        Ty::Other("opaque".into())
                    } else {
                        self.ty()
                    };
                    self.m.types.insert(n.to_string(), t);
                }
                T::Word(w) if w.starts_with('$') => {
                    // comdat
                    self.adv();
                    self.exp(b'=');
                    self.adv();
                    self.adv();
                }
                T::Global(n) => self.global(n),
                T::Word("define") => self.func(false),
                T::Word("declare") => self.func(true),
                T::Meta(_) => self.meta(),
                T::P(b'^') => break, // module summary, always last
                _ => self.die("toplevel"),
            }
        }
    }
    fn meta(&mut self) {
        let n = if let T::Meta(n) = self.t { n } else { "" };
        // raw line parse
        let start = self.lx.i;
        let b = self.lx.b;
        let mut e = start;
        while e < b.len() && b[e] != b'\n' {
            e += 1;
        }
        let line = &self.lx.s[start..e];
        self.lx.i = e;
        self.adv();
        let id: u32 = match n.parse() {
            Ok(i) => i,
            _ => return,
        };
        let field = |k: &str| -> Option<&str> {
            let p = line.find(&format!("{k}: "))?;
            let r = &line[p + k.len() + 2..];
            let e = if r.starts_with('"') { r[1..].find('"')? + 1 } else { r.find([',', ')'])? };
            Some(&r[..e])
        };
        let mref = |s: Option<&str>| -> Option<u32> { s?.strip_prefix('!')?.parse().ok() };
        if line.contains("!DILocation(") {
            let l = field("line").and_then(|x| x.parse().ok()).unwrap_or(0);
            if let Some(s) = mref(field("scope")) {
                self.m.locs.insert(id, (l, s));
            }
            if let Some(s) = mref(field("inlinedAt")) {
                self.m.inl.insert(id, s);
            }
        } else if line.contains("!DISubprogram(") {
            let nm = field("name").unwrap_or("").trim_matches('"').to_string();
            let ln = field("linkageName").unwrap_or("").trim_matches('"').to_string();
            let f = mref(field("file")).unwrap_or(0);
            self.m.subs.insert(id, (ln, nm, f));
        } else if line.contains("!DILexicalBlock") {
            if let Some(s) = mref(field("scope")) {
                self.m.scopes.insert(id, s);
            }
        } else if line.contains("!DIFile(") {
            if let Some(f) = field("filename") {
                self.m.files.insert(id, f.trim_matches('"').to_string());
            }
        }
    }
    fn global(&mut self, n: &str) {
        self.adv();
        self.exp(b'=');
        let mut weak = false;
        let (konst, alias);
        let mut ext = false;
        loop {
            match self.t {
                T::Word("global") => {
                    konst = false;
                    alias = false;
                    self.adv();
                    break;
                }
                T::Word("constant") => {
                    konst = true;
                    alias = false;
                    self.adv();
                    break;
                }
                T::Word("alias") => {
                    konst = true;
                    alias = true;
                    self.adv();
                    break;
                }
                T::Word(w) => {
                    if w == "extern_weak" {
                        weak = true;
                        ext = true;
                    }
                    if w == "external" {
                        ext = true;
                    }
                    self.adv();
                    if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                _ => self.die("global"),
            }
        }
        let ty = self.ty();
        let init;
        if alias {
            self.exp(b',');
            let t = self.ty();
            init = Some(self.constant(&t));
        } else if ext {
            init = None;
        } else {
            init = Some(self.constant(&ty));
        }
        // trailing attributes
        while self.eat(b',') {
            match self.t {
                T::Word(_) => {
                    let w = self.adv();
                    if self.isp(b'(') {
                        self.skip_parens();
                    } else if w != T::Word("comdat") {
                        self.adv();
                    }
                }
                T::Meta(_) => {
                    self.adv();
                    self.adv();
                }
                _ => self.die("global attr"),
            }
        }
        while let T::Attr(_) = self.t {
            self.adv();
        }
        self.m.globals.push(Global { name: n.to_string(), ty, init, konst, alias, weak });
    }
    fn func(&mut self, decl: bool) {
        self.adv();
        // linkage, cc, ret attrs
        loop {
            if let T::Meta(_) = self.t {
                self.adv();
                self.adv();
                continue;
            }
            if self.ty_start() {
                break;
            }
            match self.t {
                T::Word(w) => {
                    self.adv();
                    if self.isp(b'(') {
                        self.skip_parens();
                    } else if w == "align" {
                        self.adv();
                    }
                }
                T::Str(_) => {
                    self.adv();
                }
                _ => self.die("func head"),
            }
        }
        let ret = self.ty();
        let name = match self.adv() {
            T::Global(g) => g.to_string(),
            _ => self.die("fname"),
        };
        self.exp(b'(');
        let mut f = FnCx::default();
        let mut params = vec![];
        let mut ptys = vec![];
        let mut auto = 0;
        while !self.eat(b')') {
            if self.t == T::Dots {
                self.adv();
                continue;
            }
            let t = self.ty();
            self.skip_attrs();
            if let T::Local(n) = self.t {
                self.adv();
                params.push(f.reg(n));
            } else {
                let s: &'static str = Box::leak(format!("{auto}").into_boxed_str());
                params.push(f.reg(s));
            }
            auto += 1;
            ptys.push(t);
            self.eat(b',');
        }
        // trailing attrs
        loop {
            match self.t {
                T::P(b'{') => break,
                T::Word("define") | T::Word("declare") | T::Word("attributes") | T::Word("module") | T::Eof if decl => break,
                T::Word("personality") | T::Word("prefix") | T::Word("prologue") => {
                    self.adv();
                    let t = self.ty();
                    self.constant(&t);
                }
                T::Word("align") => {
                    self.adv();
                    self.adv();
                }
                T::Word(_) => {
                    self.adv();
                    if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                T::Str(_) => {
                    self.adv();
                }
                T::Attr(_) => {
                    self.adv();
                }
                T::Meta(_) => {
                    if decl {
                        // metadata attachments come before the name in declarations
                        break;
                    }
                    self.adv();
                    self.adv();
                }
                _ => self.die("func tail"),
            }
        }
        let mut func = Func { name, params, param_tys: ptys, ret, blocks: vec![], nregs: 0, decl };
        if !decl {
            self.exp(b'{');
            let start = self.lx.i;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.body(&mut f, &mut func)));
            if r.is_err() {
                // something this parser does not know: only paths that call the function suffer
                eprintln!("not understood: {}", func.name);
                func.decl = true;
                func.blocks.clear();
                let end = self.lx.s[start..].find("\n}\n").map_or(self.lx.s.len(), |k| start + k + 3);
                self.lx.i = end;
                self.adv();
            }
        }
        func.nregs = f.n;
        self.m.funcs.push(func);
    }
    fn body(&mut self, f: &mut FnCx<'a>, func: &mut Func) {
        // block index 0 = entry
        let mut order: Vec<u32> = vec![];
        let mut blocks: Vec<Block> = vec![];
        let entry_label = if let T::Label(l) = self.t {
            self.adv();
            l
        } else {
            // an unlabelled entry block takes the next implicit number
            let n = f.regs.keys().filter(|k| k.bytes().all(|c| c.is_ascii_digit())).count();
            Box::leak(format!("{n}").into_boxed_str())
        };
        let cur0 = f.block(entry_label);
        let mut cur = cur0;
        order.push(cur);
        while blocks.len() <= cur as usize {
            blocks.push(Block::default());
        }
        loop {
            if self.eat(b'}') {
                break;
            }
            if let T::Label(l) = self.t {
                self.adv();
                cur = f.block(l);
                while blocks.len() <= cur as usize {
                    blocks.push(Block::default());
                }
                continue;
            }
            if let T::Attr(_) = self.t {
                // debug record
                self.adv();
                self.skip_parens();
                continue;
            }
            let mut dst = None;
            if let T::Local(n) = self.t {
                self.adv();
                self.exp(b'=');
                dst = Some(f.reg(n));
            }
            let b = &mut blocks[cur as usize] as *mut Block;
            let ins = self.instr(dst, f, unsafe { &mut *b });
            let mut dbg = 0;
            // trailing metadata
            while self.isp(b',') || matches!(self.t, T::Attr(_)) {
                if let T::Attr(a) = self.t {
                    if a.starts_with("dbg_") {
                        break;
                    }
                    self.adv();
                    continue;
                }
                self.adv();
                match self.t {
                    T::Meta(k) => {
                        self.adv();
                        if let T::Meta(v) = self.t {
                            if k == "dbg" {
                                dbg = v.parse().unwrap_or(0);
                            }
                            self.adv();
                            if self.isp(b'{') {
                                // inline node
                                while !self.eat(b'}') {
                                    self.adv();
                                }
                            } else if self.isp(b'(') {
                                self.skip_parens();
                            }
                        } else {
                            self.die("meta attach");
                        }
                    }
                    T::Word("align") => {
                        self.adv();
                        self.adv();
                    }
                    T::Word("addrspace") => {
                        self.adv();
                        self.skip_parens();
                    }
                    _ => self.die("instr tail"),
                }
            }
            if let Some(i) = ins {
                let b = &mut blocks[cur as usize];
                b.ins.push(i);
                b.dbg.push(dbg);
            }
        }
        debug_assert_eq!(cur0, 0);
        func.blocks = blocks;
    }
    fn label(&mut self, f: &mut FnCx<'a>) -> u32 {
        if !self.eatw("label") {
            self.die("label")
        }
        match self.adv() {
            T::Local(n) => f.block(n),
            _ => self.die("label name"),
        }
    }
    fn tyval(&mut self, f: &mut FnCx<'a>) -> (Ty, Opd) {
        let t = self.ty();
        if t == Ty::Meta {
            // metadata operand
            while !self.isp(b',') && !self.isp(b')') {
                if self.isp(b'(') {
                    self.skip_parens();
                } else {
                    self.adv();
                }
            }
            return (t, self.kconst(Ty::Int(8), C::Int(0)));
        }
        self.skip_attrs();
        let v = self.value(&t, f);
        (t, v)
    }
    fn kconst(&mut self, t: Ty, c: C) -> Opd {
        let key = format!("{:?}|{:?}", t, c);
        if let Some(&i) = self.cpool.get(&key) {
            return Opd::C(i);
        }
        let i = self.m.consts.len() as u32;
        self.m.consts.push((t, c));
        self.cpool.insert(key, i);
        Opd::C(i)
    }
    fn instr(&mut self, dst: Option<u32>, f: &mut FnCx<'a>, blk: &mut Block) -> Option<I> {
        let w = match self.adv() {
            T::Word(w) => w,
            _ => self.die("instr"),
        };
        let d = dst.unwrap_or(u32::MAX);
        if let Some(op) = BINOPS.iter().position(|x| *x == w) {
            while !self.ty_start() {
                self.adv();
            }
            let ty = self.ty();
            let a = self.value(&ty, f);
            self.exp(b',');
            let b = self.value(&ty, f);
            return Some(I::Bin { op: op as u8, ty, a, b, dst: d });
        }
        if let Some(op) = CASTS.iter().position(|x| *x == w) {
            while !self.ty_start() {
                self.adv();
            }
            let from = self.ty();
            let a = self.value(&from, f);
            if !self.eatw("to") {
                self.die("to")
            }
            let to = self.ty();
            return Some(I::Cast { op: op as u8, from, to, a, dst: d });
        }
        Some(match w {
            "fneg" => {
                while !self.ty_start() {
                    self.adv();
                }
                let (ty, a) = self.tyval(f);
                I::FNeg { ty, a, dst: d }
            }
            "icmp" => {
                if self.word() == "samesign" {
                    self.adv();
                }
                let p = match self.adv() {
                    T::Word(p) => ICMPS.iter().position(|x| *x == p).unwrap() as u8,
                    _ => self.die("pred"),
                };
                let ty = self.ty();
                let a = self.value(&ty, f);
                self.exp(b',');
                let b = self.value(&ty, f);
                I::ICmp { p, ty, a, b, dst: d }
            }
            "fcmp" => {
                let fm = ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
                while fm.contains(&self.word()) {
                    self.adv();
                }
                let p = match self.adv() {
                    T::Word(p) => p.to_string(),
                    _ => self.die("pred"),
                };
                let ty = self.ty();
                let a = self.value(&ty, f);
                self.exp(b',');
                let b = self.value(&ty, f);
                I::FCmp { p, ty, a, b, dst: d }
            }
            "getelementptr" => {
                while matches!(self.word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    self.adv();
                }
                let t = self.ty();
                self.exp(b',');
                let (bt, base) = self.tyval(f);
                if bt != Ty::Ptr {
                    self.die("vector gep")
                }
                let mut off: i64 = 0;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while self.isp(b',') {
                    // could be metadata
                    let save = (self.lx.i, self.t.clone());
                    self.adv();
                    if let T::Meta(_) = self.t {
                        self.lx.i = save.0;
                        self.t = save.1;
                        break;
                    }
                    let (it, iv) = self.tyval(f);
                    let iw = if let Ty::Int(w) = it { w } else { 64 };
                    let kc = match &iv {
                        Opd::C(i) => match &self.m.consts[*i as usize].1 {
                            C::Int(v) => Some(crate::expr::sext128(*v & crate::expr::mask(iw), iw) as i64),
                            C::Zero | C::Undef => Some(0),
                            _ => None,
                        },
                        _ => None,
                    };
                    if first {
                        first = false;
                        let sz = self.size_of(&cur).0 as i64;
                        match kc {
                            Some(k) => off = off.wrapping_add(k.wrapping_mul(sz)),
                            None => terms.push((iv, sz, iw)),
                        }
                        continue;
                    }
                    let mut c2 = cur.clone();
                    while let Ty::Named(n) = &c2 {
                        c2 = self.m.types[n].clone();
                    }
                    match c2 {
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            let sz = self.size_of(&e).0 as i64;
                            match kc {
                                Some(k) => off = off.wrapping_add(k.wrapping_mul(sz)),
                                None => terms.push((iv, sz, iw)),
                            }
                            cur = *e;
                        }
                        Ty::St(ts, packed) => {
                            let k = kc.unwrap() as usize;
                            off += struct_off(&self.m.types, &ts, packed, k) as i64;
                            cur = ts[k].clone();
                        }
                        _ => self.die("gep type"),
                    }
                }
                I::Gep { base, off, terms, dst: d }
            }
            "load" => {
                while matches!(self.word(), "atomic" | "volatile") {
                    self.adv();
                }
                let ty = self.ty();
                self.exp(b',');
                let (_, p) = self.tyval(f);
                self.skip_sync();
                I::Load { ty, p, dst: d }
            }
            "store" => {
                while matches!(self.word(), "atomic" | "volatile") {
                    self.adv();
                }
                let (ty, v) = self.tyval(f);
                self.exp(b',');
                let (_, p) = self.tyval(f);
                self.skip_sync();
                I::Store { ty, v, p }
            }
            "alloca" => {
                let ty = self.ty();
                let size = self.size_of(&ty).0;
                I::Alloca { size, dst: d }
            }
            "select" => {
                let fm = ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
                while fm.contains(&self.word()) {
                    self.adv();
                }
                let (cty, c) = self.tyval(f);
                self.exp(b',');
                let (ty, a) = self.tyval(f);
                self.exp(b',');
                let (_, b) = self.tyval(f);
                I::Select { cty, ty, c, a, b, dst: d }
            }
            "phi" => {
                let fm = ["nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"];
                while fm.contains(&self.word()) {
                    self.adv();
                }
                let ty = self.ty();
                let mut v = vec![];
                loop {
                    self.exp(b'[');
                    let x = self.value(&ty, f);
                    self.exp(b',');
                    let l = match self.adv() {
                        T::Local(n) => f.block(n),
                        _ => self.die("phi label"),
                    };
                    self.exp(b']');
                    v.push((l, x));
                    if self.isp(b',') {
                        let save = (self.lx.i, self.t.clone());
                        self.adv();
                        if !self.isp(b'[') {
                            self.lx.i = save.0;
                            self.t = save.1;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                blk.phis.push((d, v));
                return None;
            }
            "br" => {
                if self.word() == "label" {
                    I::Br(self.label(f))
                } else {
                    let (_, c) = self.tyval(f);
                    self.exp(b',');
                    let a = self.label(f);
                    self.exp(b',');
                    let b = self.label(f);
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.tyval(f);
                self.exp(b',');
                let def = self.label(f);
                self.exp(b'[');
                let mut cases = vec![];
                while !self.eat(b']') {
                    let t = self.ty();
                    let c = self.constant(&t);
                    let wv = if let Ty::Int(w) = t { w } else { 64 };
                    let k = match c {
                        C::Int(k) => k & crate::expr::mask(wv),
                        _ => self.die("case"),
                    };
                    self.exp(b',');
                    let l = self.label(f);
                    cases.push((k, l));
                }
                I::Switch { ty, v, def, cases }
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    I::Ret(None)
                } else {
                    let v = self.value(&t, f);
                    I::Ret(Some((t, v)))
                }
            }
            "unreachable" => I::Unreachable,
            "resume" => {
                self.tyval(f);
                I::Trap
            }
            "landingpad" => {
                self.ty();
                loop {
                    if self.eatw("cleanup") {
                        continue;
                    }
                    if self.eatw("catch") || self.eatw("filter") {
                        self.tyval(f);
                        continue;
                    }
                    break;
                }
                I::Trap
            }
            "extractvalue" => {
                let (_, a) = self.tyval(f);
                let idx = self.idxs();
                I::ExtractV { a, idx, dst: d }
            }
            "insertvalue" => {
                let (ty, a) = self.tyval(f);
                self.exp(b',');
                let (_, v) = self.tyval(f);
                let idx = self.idxs();
                I::InsertV { ty, a, v, idx, dst: d }
            }
            "extractelement" => {
                let (t, a) = self.tyval(f);
                self.exp(b',');
                let (_, i) = self.tyval(f);
                let n = if let Ty::Vec(n, _) = t { n } else { self.die("vec") };
                I::ExtractE { n, a, i, dst: d }
            }
            "insertelement" => {
                let (ty, a) = self.tyval(f);
                self.exp(b',');
                let (_, v) = self.tyval(f);
                self.exp(b',');
                let (_, i) = self.tyval(f);
                I::InsertE { ty, a, v, i, dst: d }
            }
            "shufflevector" => {
                let (t, a) = self.tyval(f);
                self.exp(b',');
                let (_, b) = self.tyval(f);
                self.exp(b',');
                let mt = self.ty();
                let m = self.constant(&mt);
                let n = if let Ty::Vec(n, _) = t { n } else { self.die("vec") };
                let mn = if let Ty::Vec(n, _) = mt { n } else { self.die("vec") };
                let mask: Vec<i32> = match m {
                    C::Zero => vec![0; mn as usize],
                    C::Undef => vec![-1; mn as usize],
                    C::Agg(v) => v.into_iter().map(|(_, c)| if let C::Int(k) = c { k as i32 } else { -1 }).collect(),
                    C::Splat(b) => {
                        let k = if let C::Int(k) = b.1 { k as i32 } else { 0 };
                        vec![k; mn as usize]
                    }
                    _ => self.die("mask"),
                };
                I::Shuffle { a, b, n, mask, dst: d }
            }
            "atomicrmw" => {
                while self.word() == "volatile" {
                    self.adv();
                }
                let op = match self.adv() {
                    T::Word(o) => o.to_string(),
                    _ => self.die("rmw"),
                };
                let (_, p) = self.tyval(f);
                self.exp(b',');
                let (ty, v) = self.tyval(f);
                self.skip_sync();
                I::Rmw { op, ty, p, v, dst: d }
            }
            "cmpxchg" => {
                while matches!(self.word(), "weak" | "volatile") {
                    self.adv();
                }
                let (_, p) = self.tyval(f);
                self.exp(b',');
                let (ty, c) = self.tyval(f);
                self.exp(b',');
                let (_, n) = self.tyval(f);
                self.skip_sync();
                I::CmpXchg { ty, p, c, n, dst: d }
            }
            "fence" => {
                self.skip_sync();
                I::Nop
            }
            "freeze" => {
                let (_, a) = self.tyval(f);
                I::Copy { a, dst: d }
            }
            "tail" | "musttail" | "notail" => {
                self.adv(); // call
                self.call(dst, f, false)
            }
            "call" => self.call(dst, f, false),
            "invoke" => self.call(dst, f, true),
            _ => self.die(&format!("unknown instruction {w}")),
        })
    }
    fn skip_sync(&mut self) {
        loop {
            match self.t {
                T::Word("syncscope") => {
                    self.adv();
                    self.skip_parens();
                }
                T::Word("unordered" | "monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst") => {
                    self.adv();
                }
                _ => return,
            }
        }
    }
    fn idxs(&mut self) -> Vec<u32> {
        let mut v = vec![];
        while self.isp(b',') {
            let save = (self.lx.i, self.t.clone());
            self.adv();
            if let T::Num(n) = self.t {
                v.push(n.parse().unwrap());
                self.adv();
            } else {
                self.lx.i = save.0;
                self.t = save.1;
                break;
            }
        }
        v
    }
    fn call(&mut self, dst: Option<u32>, f: &mut FnCx<'a>, invoke: bool) -> I {
        // cc, ret attrs
        loop {
            if self.ty_start() {
                break;
            }
            match self.t {
                T::Word(w) => {
                    self.adv();
                    if self.isp(b'(') {
                        self.skip_parens();
                    } else if w == "align" {
                        self.adv();
                    }
                }
                T::Str(_) => {
                    self.adv();
                }
                T::Attr(_) => {
                    self.adv();
                }
                _ => self.die("call head"),
            }
        }
        let rty = self.ty();
        // function type
        if self.isp(b'(') {
            self.skip_parens();
        }
        let callee = if self.word() == "asm" {
            // inline asm: keep as a symbol
            self.adv();
            while !matches!(self.t, T::Str(_)) {
                self.adv();
            }
            let s = self.adv();
            self.exp(b',');
            self.adv();
            let txt = if let T::Str(s) = s { s } else { "" };
            self.kconst(Ty::Ptr, C::Sym(format!("asm:{txt}")))
        } else {
            self.value(&Ty::Ptr, f)
        };
        self.exp(b'(');
        let mut args = vec![];
        while !self.eat(b')') {
            args.push(self.tyval(f));
            self.eat(b',');
        }
        loop {
            match self.t {
                T::Attr(a) if !a.starts_with("dbg_") => {
                    self.adv();
                }
                T::Word("nounwind" | "noreturn" | "readnone" | "readonly" | "cold" | "memory" | "willreturn") => {
                    self.adv();
                    if self.isp(b'(') {
                        self.skip_parens();
                    }
                }
                T::P(b'[') => {
                    // operand bundle
                    while !self.eat(b']') {
                        self.adv();
                    }
                }
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            if !self.eatw("to") {
                self.die("to")
            }
            normal = Some(self.label(f));
            if !self.eatw("unwind") {
                self.die("unwind")
            }
            self.label(f);
        }
        I::Call(Box::new(Call { dst, rty, callee, args, normal }))
    }
}

#[derive(Default)]
struct FnCx<'a> {
    regs: HashMap<&'a str, u32>,
    n: u32,
    blks: HashMap<&'a str, u32>,
    nb: u32,
}
impl<'a> FnCx<'a> {
    fn reg(&mut self, n: &'a str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.n;
        self.n += 1;
        self.regs.insert(n, r);
        r
    }
    fn block(&mut self, n: &'a str) -> u32 {
        if let Some(&r) = self.blks.get(n) {
            return r;
        }
        let r = self.nb;
        self.nb += 1;
        self.blks.insert(n, r);
        r
    }
}

pub fn size_align(types: &HashMap<String, Ty>, t: &Ty) -> (u64, u64) {
    match t {
        Ty::Int(w) => {
            let b = ((*w as u64) + 7) / 8;
            let p = b.next_power_of_two();
            let al = p.min(16);
            ((b + al - 1) / al * al, al)
        }
        Ty::Ptr => (8, 8),
        Ty::F32 => (4, 4),
        Ty::F64 => (8, 8),
        Ty::Arr(n, e) => {
            let (s, a) = size_align(types, e);
            (s * n, a)
        }
        Ty::Vec(n, e) => {
            let s = match **e {
                Ty::Int(w) => (w as u64 * n + 7) / 8,
                _ => size_align(types, e).0 * n,
            };
            let p = s.next_power_of_two();
            (p, p)
        }
        Ty::St(ts, packed) => {
            let mut o = 0;
            let mut al = 1;
            for t in ts {
                let (s, a) = size_align(types, t);
                if !packed {
                    o = (o + a - 1) / a * a;
                    al = al.max(a);
                }
                o += s;
            }
            if !packed {
                o = (o + al - 1) / al * al;
            }
            (o, al)
        }
        Ty::Named(n) => match types.get(n) {
            Some(t) => size_align(types, t),
            None => (0, 1),
        },
        _ => (0, 1),
    }
}
pub fn struct_off(types: &HashMap<String, Ty>, ts: &[Ty], packed: bool, k: usize) -> u64 {
    let mut o = 0;
    for (i, t) in ts.iter().enumerate() {
        let (s, a) = size_align(types, t);
        if !packed {
            o = (o + a - 1) / a * a;
        }
        if i == k {
            return o;
        }
        o += s;
    }
    o
}

pub fn parse(src: &str) -> Module {
    let mut p = Ps { lx: Lex { s: src, b: src.as_bytes(), i: 0 }, t: T::Eof, m: Module::default(), cpool: HashMap::new() };
    p.t = p.lx.next();
    p.parse();
    p.m
}

//! Symbolic executor over the parsed IR.
use crate::expr::*;
use crate::ll::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    E(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, Default)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<u32>, // empty or one expression id per byte (0 = concrete)
    pub ro: bool,
    pub kind: u8, // 0 global 1 stack 2 heap
    pub align: u64,
}

#[derive(Clone)]
pub struct Frame {
    pub f: usize,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub allocas: Vec<u32>,
    pub ret_dst: Option<u32>,
    pub ret_blk: Option<u32>,
}

#[derive(Clone, Debug, Default)]
pub struct FileObj {
    pub bytes: Vec<u32>, // expression id per byte (constants included)
}

#[derive(Clone)]
pub struct State {
    pub stack: Vec<Rc<Frame>>,
    pub cur: Frame,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub quarantine: VecDeque<u32>,
    pub pc: Vec<E>,
    pub known: Rc<FxMap<E, bool>>,
    /// terms equal to a constant on this path
    pub eqc: Rc<FxMap<E, E>>,
    pub model: Rc<Model>,
    pub nsym: u32,
    pub steps: u64,
    pub obs: Vec<E>,
    pub files: Vec<FileObj>,
    pub fds: BTreeMap<i32, (usize, u64)>,
    pub names: BTreeMap<String, usize>,
    /// the length no file may exceed
    pub limit: u64,
    pub reached: Vec<u32>,
    pub heap: u64,
    pub depth: u32,
    /// a panic of the code under test is an answer
    pub may_panic: bool,
}

pub enum End {
    Done,
    Infeasible,
    Panic(String),
    Fail(String),
    Mem(String),
    Limit(String),
    Skip,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: String,
    pub msg: String,
    pub vals: Vec<u128>,
    pub trace: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub limit: u64,
    pub resource: u64,
    pub unknown: u64,
    pub insts: u64,
    pub forks: u64,
    pub sym_branches: u64,
}

pub struct Cfg {
    pub max_steps: u64,
    pub max_time: f64,
    pub max_paths: u64,
    pub max_heap: u64,
    pub params: Vec<u64>,
    pub samples: usize,
    pub verbose: u32,
    pub hash_seed: u64,
    pub merge: bool,
    pub max_findings: usize,
}

pub const FN_BASE: u64 = 0x4000_0000;

pub struct Engine {
    pub m: Module,
    pub x: Ctx,
    pub s: Solver,
    pub cfg: Cfg,
    pub consts: Vec<Val>,
    pub fn_by_name: HashMap<String, usize>,
    pub gaddr: HashMap<String, u64>,
    pub builtin: Vec<Option<Bi>>,
    pub globals: Vec<Option<Rc<Obj>>>,
    pub stats: Stats,
    pub findings: Vec<Finding>,
    pub reach: BTreeMap<u32, Vec<u128>>,
    pub executed: Vec<bool>,
    pub exec_dbg: FxSet<u32>,
    pub seen_blk: FxSet<(u32, u32)>,
    pub sample_paths: Vec<(Vec<u128>, Vec<u128>)>,
    pub distances: Vec<u64>,
    pub errno_obj: u64,
    pub limits: BTreeMap<String, u64>,
    pub t0: std::time::Instant,
    pub prof: FxMap<(u32, u32), u64>,
    pub work: Vec<State>,
    pub incomplete: Option<String>,
    pub inlined: BTreeMap<String, u64>,
    pub err_stubs: BTreeMap<String, u64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bi {
    SymVal(u32),
    Assume,
    Fail,
    Reach,
    Observe,
    Concretize,
    Param,
    IsSym,
    MayPanic,
    Stdout,
    Strerror,
    Stdin,
    Limit,
    Statx,
    Note,
    Panic,
    Abort,
    RAlloc,
    RDealloc,
    RRealloc,
    RAllocZ,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    Memchr,
    Nop0,
    RetNeg1,
    RetNull,
    Getrandom,
    Open,
    Read,
    Write,
    Lseek,
    Close,
    Ftruncate,
    ErrnoLoc,
    Sysconf,
    Syscall,
    Intr(u16),
    HashKeys,
    Trunc(u32),
    ReallocN,
    Floor(u32),
    Fmin,
    Fmax,
    Fmod,
}

pub type R<T> = Result<T, Stop>;
pub enum Stop {
    End(End),
    /// the current instruction must be re-executed (a fork was pushed or the state was constrained)
    Retry,
}

macro_rules! mem_err {
    ($($a:tt)*) => { return Err(Stop::End(End::Mem(format!($($a)*)))) }
}

fn elem_ty(t: &Ty) -> Ty {
    match t {
        Ty::Vec(_, e) => (**e).clone(),
        t => t.clone(),
    }
}

impl Engine {
    pub fn width(&self, t: &Ty) -> u32 {
        match t {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F32 => 32,
            Ty::F64 => 64,
            Ty::Vec(n, e) => (*n as u32) * self.width(e),
            _ => panic!("width {:?}", t),
        }
    }
    pub fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.x.konst(*x as u128, w),
            Val::E(e) => {
                debug_assert_eq!(self.x.w(*e), w);
                *e
            }
            Val::A(_) => panic!("to_e on aggregate"),
        }
    }
    pub fn from_e(&self, e: E) -> Val {
        if self.x.w(e) <= 64 {
            if let Some(v) = self.x.cv(e) {
                return Val::I(v as u64);
            }
        }
        Val::E(e)
    }
    pub fn kval(&mut self, v: u128, w: u32) -> Val {
        if w <= 64 {
            Val::I((v & mask(w)) as u64)
        } else {
            Val::E(self.x.konst(v, w))
        }
    }
    fn zero(&mut self, t: &Ty) -> Val {
        match t {
            Ty::Arr(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Vec(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::St(ts, _) => {
                let v = ts.iter().map(|t| self.zero(t)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Named(n) => {
                let t = self.m.types[n].clone();
                self.zero(&t)
            }
            Ty::Void | Ty::Meta | Ty::Token | Ty::Fun | Ty::Label | Ty::Other(_) => Val::I(0),
            _ => {
                let w = self.width(t);
                self.kval(0, w)
            }
        }
    }
    fn cval(&mut self, t: &Ty, c: &C) -> Val {
        match c {
            C::Int(v) => {
                let w = self.width(t);
                self.kval(*v, w)
            }
            C::Zero | C::Undef => self.zero(t),
            C::Null => Val::I(0),
            C::Sym(n) => Val::I(self.sym_addr(n)),
            C::Str(b) => Val::A(Rc::new(b.iter().map(|x| Val::I(*x as u64)).collect())),
            C::Agg(v) => {
                let r = v.iter().map(|(t, c)| self.cval(t, c)).collect();
                Val::A(Rc::new(r))
            }
            C::Splat(b) => {
                let v = self.cval(&b.0, &b.1);
                let n = if let Ty::Vec(n, _) = t { *n } else { 1 };
                Val::A(Rc::new(vec![v; n as usize]))
            }
            C::Gep(t, b, idx) => {
                let base = match self.cval(&Ty::Ptr, b) {
                    Val::I(x) => x,
                    _ => panic!(),
                };
                let mut off = 0i64;
                let mut cur = t.clone();
                for (i, (it, ic)) in idx.iter().enumerate() {
                    let k = match ic {
                        C::Int(v) => {
                            let w = self.width(it);
                            sext128(*v & mask(w), w) as i64
                        }
                        _ => 0,
                    };
                    if i == 0 {
                        off += k * size_align(&self.m.types, &cur).0 as i64;
                        continue;
                    }
                    match cur.clone() {
                        Ty::Arr(_, e) | Ty::Vec(_, e) => {
                            off += k * size_align(&self.m.types, &e).0 as i64;
                            cur = *e;
                        }
                        Ty::St(ts, p) => {
                            off += struct_off(&self.m.types, &ts, p, k as usize) as i64;
                            cur = ts[k as usize].clone();
                        }
                        _ => panic!("const gep"),
                    }
                }
                Val::I(base.wrapping_add(off as u64))
            }
            C::Cast(op, ft, c, tt) => {
                let v = self.cval(ft, c);
                match op.as_str() {
                    "ptrtoint" | "inttoptr" | "bitcast" | "zext" | "addrspacecast" => v,
                    "trunc" => {
                        let w = self.width(tt);
                        match v {
                            // the distance of two objects, in a table for llvm.load.relative
                            Val::I(x) if w == 32 && x >> 32 != 0 && x >> 32 != 0xffff_ffff => {
                                let k = self.distances.iter().position(|d| *d == x).unwrap_or_else(|| {
                                    self.distances.push(x);
                                    self.distances.len() - 1
                                });
                                Val::I(0x4000_0000 + k as u64)
                            }
                            Val::I(x) => Val::I(x & mask(w) as u64),
                            _ => panic!(),
                        }
                    }
                    _ => panic!("const cast {op}"),
                }
            }
            C::Bin(op, t, a, b) => {
                let w = self.width(t);
                let a = self.cval(t, a);
                let b = self.cval(t, b);
                let (a, b) = (self.to_e(&a, w), self.to_e(&b, w));
                let o = match op.as_str() {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "xor" => Op::Xor,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "mul" => Op::Mul,
                    _ => panic!("const bin {op}"),
                };
                let e = self.x.bin(o, a, b);
                self.from_e(e)
            }
        }
    }
    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if let Some(i) = self.fn_by_name.get(n) {
            return (FN_BASE + *i as u64) << 32;
        }
        if n.starts_with("asm:") {
            return (FN_BASE << 32) - 4096;
        }
        panic!("unknown symbol {n}");
    }
    fn put(&mut self, t: &Ty, v: &Val, out: &mut [u8]) {
        match (t, v) {
            (Ty::Named(n), _) => {
                let t = self.m.types[n].clone();
                self.put(&t, v, out)
            }
            (Ty::Arr(_, e), Val::A(vs)) | (Ty::Vec(_, e), Val::A(vs)) => {
                let sz = size_align(&self.m.types, e).0 as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.put(e, x, &mut out[i * sz..(i + 1) * sz]);
                }
            }
            (Ty::St(ts, p), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let o = struct_off(&self.m.types, ts, *p, i) as usize;
                    let sz = size_align(&self.m.types, &ts[i]).0 as usize;
                    self.put(&ts[i], x, &mut out[o..o + sz]);
                }
            }
            (_, Val::I(x)) => {
                for (i, o) in out.iter_mut().enumerate() {
                    *o = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                }
            }
            (_, Val::E(e)) => {
                let x = self.x.cv(*e).expect("const");
                for (i, o) in out.iter_mut().enumerate() {
                    *o = (x >> (8 * i)) as u8;
                }
            }
            _ => panic!("put {:?}", t),
        }
    }

    pub fn new(m: Module, s: Solver, cfg: Cfg) -> Engine {
        let mut e = Engine {
            m,
            x: Ctx::new(),
            s,
            cfg,
            consts: vec![],
            fn_by_name: HashMap::new(),
            gaddr: HashMap::new(),
            builtin: vec![],
            globals: vec![None],
            stats: Default::default(),
            findings: vec![],
            reach: Default::default(),
            executed: vec![],
            exec_dbg: Default::default(),
            seen_blk: Default::default(),
            sample_paths: vec![],
            distances: vec![],
            errno_obj: 0,
            limits: Default::default(),
            t0: std::time::Instant::now(),
            prof: Default::default(),
            work: vec![],
            incomplete: None,
            inlined: Default::default(),
            err_stubs: Default::default(),
        };
        // globals first: addresses, then contents
        for (i, f) in e.m.funcs.iter().enumerate() {
            e.fn_by_name.insert(f.name.clone(), i);
        }
        e.executed = vec![false; e.m.funcs.len()];
        let mut id = 1u64;
        for g in e.m.globals.iter() {
            if g.alias {
                continue;
            }
            if g.weak && g.init.is_none() {
                // weak external data/function: not present
                e.gaddr.insert(g.name.clone(), 0);
                continue;
            }
            e.gaddr.insert(g.name.clone(), id << 32);
            id += 1;
        }
        for i in 0..e.m.globals.len() {
            if e.m.globals[i].alias {
                let n = e.m.globals[i].name.clone();
                let c = e.m.globals[i].init.clone().unwrap();
                if let C::Sym(t) = &c {
                    let a = e.sym_addr(t);
                    e.gaddr.insert(n, a);
                }
            }
        }
        for i in 0..e.m.globals.len() {
            if e.m.globals[i].alias || (e.m.globals[i].weak && e.m.globals[i].init.is_none()) {
                continue;
            }
            let ty = e.m.globals[i].ty.clone();
            let sz = size_align(&e.m.types, &ty).0;
            let mut data = vec![0u8; sz as usize];
            if let Some(c) = e.m.globals[i].init.clone() {
                let v = e.cval(&ty, &c);
                e.put(&ty, &v, &mut data);
            }
            let ro = e.m.globals[i].konst;
            e.globals.push(Some(Rc::new(Obj { data, sym: vec![], ro, kind: 0, align: 1 })));
        }
        // errno
        e.errno_obj = (e.globals.len() as u64) << 32;
        e.globals.push(Some(Rc::new(Obj { data: vec![0; 8], sym: vec![], ro: false, kind: 0, align: 8 })));
        for i in 0..e.m.consts.len() {
            let (t, c) = e.m.consts[i].clone();
            let v = e.cval(&t, &c);
            e.consts.push(v);
        }
        // where a harness looks at the standard output, printing is executed like everything else
        let look = e.m.funcs.iter().any(|f| f.name == "sym_stdout");
        e.builtin = e
            .m
            .funcs
            .iter()
            .map(|f| crate::env::builtin(&f.name, f.decl).filter(|_| !(look && f.name.contains("5stdio6__print") || look && f.name.contains("5stdio6_print"))))
            .collect();
        e
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let f = *self.fn_by_name.get(entry).unwrap_or_else(|| {
            eprintln!("no entry {entry}");
            std::process::exit(3)
        });
        let n = self.m.funcs[f].nregs as usize;
        State {
            stack: vec![],
            cur: Frame { f, regs: vec![Val::I(0); n], blk: 0, ip: 0, allocas: vec![], ret_dst: None, ret_blk: None },
            mem: self.globals.clone(),
            free: vec![],
            quarantine: VecDeque::new(),
            pc: vec![],
            known: Default::default(),
            eqc: Default::default(),
            model: Rc::new(Model::default()),
            nsym: 0,
            steps: 0,
            obs: vec![],
            files: vec![],
            names: Default::default(),
            limit: u64::MAX,
            fds: BTreeMap::new(),
            reached: vec![],
            heap: 0,
            depth: 0,
            may_panic: false,
        }
    }

    // ------------------------------------------------------------------ memory
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8) -> u64 {
        let o = Obj { data: vec![0; size as usize], sym: vec![], ro: false, kind, align };
        if kind == 2 {
            st.heap += size;
        }
        let id = match st.free.pop() {
            Some(i) => i,
            None => {
                st.mem.push(None);
                (st.mem.len() - 1) as u32
            }
        };
        st.mem[id as usize] = Some(Rc::new(o));
        (id as u64) << 32
    }
    pub fn dealloc(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = (addr >> 32) as usize;
        if addr & 0xffff_ffff != 0 || id >= st.mem.len() || st.mem[id].as_ref().map(|o| o.kind) != Some(2) {
            mem_err!("invalid free of {addr:#x}");
        }
        st.heap -= st.mem[id].as_ref().unwrap().data.len() as u64;
        st.mem[id] = None;
        st.quarantine.push_back(id as u32);
        if st.quarantine.len() > 2000 {
            let i = st.quarantine.pop_front().unwrap();
            st.free.push(i);
        }
        Ok(())
    }
    pub fn obj<'a>(&self, st: &'a State, addr: u64, n: u64, what: &str) -> R<(&'a Obj, usize)> {
        let id = (addr >> 32) as usize;
        let off = addr & 0xffff_ffff;
        match st.mem.get(id) {
            Some(Some(o)) if off + n <= o.data.len() as u64 => Ok((o, off as usize)),
            Some(Some(o)) => mem_err!("{what} of {n} bytes at offset {off} of an object of {} bytes", o.data.len()),
            _ => {
                if id == 0 {
                    mem_err!("{what} of {n} bytes at address {addr:#x} (null or dangling)")
                } else {
                    mem_err!("{what} of {n} bytes at {addr:#x}: freed or no object")
                }
            }
        }
    }
    pub fn obj_mut<'a>(&self, st: &'a mut State, addr: u64, n: u64, what: &str) -> R<(&'a mut Obj, usize)> {
        let id = (addr >> 32) as usize;
        let off = addr & 0xffff_ffff;
        match st.mem.get(id) {
            Some(Some(o)) if off + n <= o.data.len() as u64 => {
                if o.ro {
                    mem_err!("{what} to read-only memory");
                }
            }
            Some(Some(o)) => mem_err!("{what} of {n} bytes at offset {off} of an object of {} bytes", o.data.len()),
            _ => mem_err!("{what} of {n} bytes at {addr:#x}: no object"),
        }
        Ok((Rc::make_mut(st.mem.get_mut(id).unwrap().as_mut().unwrap()), off as usize))
    }
    pub fn load_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Val> {
        // integer of 8*n bits
        let (o, off) = self.obj(st, addr, n, "read")?;
        let nn = n as usize;
        if o.sym.is_empty() || o.sym[off..off + nn].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut v = 0u64;
                for i in (0..nn).rev() {
                    v = (v << 8) | o.data[off + i] as u64;
                }
                return Ok(Val::I(v));
            }
            let mut v = 0u128;
            for i in (0..nn).rev() {
                v = (v << 8) | o.data[off + i] as u128;
            }
            return Ok(Val::E(self.x.konst(v, 8 * n as u32)));
        }
        let bytes: Vec<E> = (0..nn)
            .map(|i| if o.sym[off + i] != 0 { o.sym[off + i] } else { self.x.konst(o.data[off + i] as u128, 8) })
            .collect();
        let mut e = bytes[nn - 1];
        for i in (0..nn - 1).rev() {
            e = self.x.concat(e, bytes[i]);
        }
        Ok(self.from_e(e))
    }
    pub fn store_bytes(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) -> R<()> {
        let nn = n as usize;
        match v {
            Val::I(x) => {
                let (o, off) = self.obj_mut(st, addr, n, "write")?;
                for i in 0..nn {
                    o.data[off + i] = if i < 8 { (x >> (8 * i)) as u8 } else { 0 };
                }
                if !o.sym.is_empty() {
                    for i in 0..nn {
                        o.sym[off + i] = 0;
                    }
                }
            }
            Val::E(e) => {
                let mut bs: Vec<(u8, u32)> = Vec::with_capacity(nn);
                for i in 0..nn {
                    let b = self.x.extract(*e, 8 * i as u32, 8);
                    match self.x.cv(b) {
                        Some(k) => bs.push((k as u8, 0)),
                        None => bs.push((0, b)),
                    }
                }
                let (o, off) = self.obj_mut(st, addr, n, "write")?;
                if o.sym.is_empty() && bs.iter().any(|b| b.1 != 0) {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..nn {
                    o.data[off + i] = bs[i].0;
                    if !o.sym.is_empty() {
                        o.sym[off + i] = bs[i].1;
                    }
                }
            }
            Val::A(_) => panic!("store agg"),
        }
        Ok(())
    }
    pub fn load(&mut self, st: &State, addr: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Named(n) => {
                let t = self.m.types[n].clone();
                self.load(st, addr, &t)
            }
            Ty::Arr(n, e) | Ty::Vec(n, e) => {
                if let Ty::Int(w) = **e {
                    if w < 8 {
                        // packed bit vector
                        let tot = *n as u32 * w;
                        let v = self.load_bytes(st, addr, ((tot + 7) / 8) as u64)?;
                        let wb = (tot + 7) / 8 * 8;
                        let ev = self.to_e(&v, wb);
                        let mut r = vec![];
                        for i in 0..*n {
                            let b = self.x.extract(ev, i as u32 * w, w);
                            r.push(self.from_e(b));
                        }
                        return Ok(Val::A(Rc::new(r)));
                    }
                }
                let sz = size_align(&self.m.types, e).0;
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.load(st, addr.wrapping_add(i * sz), e)?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::St(ts, p) => {
                let mut r = vec![];
                for i in 0..ts.len() {
                    let o = struct_off(&self.m.types, ts, *p, i);
                    r.push(self.load(st, addr.wrapping_add(o), &ts[i])?);
                }
                Ok(Val::A(Rc::new(r)))
            }
            _ => {
                let w = self.width(t);
                let n = ((w + 7) / 8) as u64;
                let v = self.load_bytes(st, addr, n)?;
                if w as u64 == n * 8 {
                    return Ok(v);
                }
                match v {
                    Val::I(x) if w <= 64 => Ok(Val::I(x & mask(w) as u64)),
                    v => {
                        let e = self.to_e(&v, 8 * n as u32);
                        let r = self.x.extract(e, 0, w);
                        Ok(self.from_e(r))
                    }
                }
            }
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> R<()> {
        match (t, v) {
            (Ty::Named(n), _) => {
                let t = self.m.types[n].clone();
                self.store(st, addr, &t, v)
            }
            (Ty::Arr(_, e), Val::A(vs)) | (Ty::Vec(_, e), Val::A(vs)) => {
                if let Ty::Int(w) = **e {
                    if w < 8 {
                        let mut acc = self.to_e(&vs[0], w);
                        for x in vs[1..].iter() {
                            let xe = self.to_e(x, w);
                            acc = self.x.concat(xe, acc);
                        }
                        let tot = self.x.w(acc);
                        let wb = (tot + 7) / 8 * 8;
                        let z = self.x.zext(acc, wb);
                        let z = self.from_e(z);
                        return self.store_bytes(st, addr, (wb / 8) as u64, &z);
                    }
                }
                let sz = size_align(&self.m.types, e).0;
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, addr.wrapping_add(i as u64 * sz), e, x)?;
                }
                Ok(())
            }
            (Ty::St(ts, p), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let o = struct_off(&self.m.types, ts, *p, i);
                    self.store(st, addr.wrapping_add(o), &ts[i], x)?;
                }
                Ok(())
            }
            _ => {
                let w = self.width(t);
                let n = ((w + 7) / 8) as u64;
                if w as u64 == n * 8 {
                    return self.store_bytes(st, addr, n, v);
                }
                let e = self.to_e(v, w);
                let e = self.x.zext(e, 8 * n as u32);
                let v = self.from_e(e);
                self.store_bytes(st, addr, n, &v)
            }
        }
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 || dst == src {
            return Ok(());
        }
        let (o, so) = self.obj(st, src, n, "read")?;
        let nn = n as usize;
        let data = o.data[so..so + nn].to_vec();
        let sym = if o.sym.is_empty() || o.sym[so..so + nn].iter().all(|x| *x == 0) { vec![] } else { o.sym[so..so + nn].to_vec() };
        let (d, off) = self.obj_mut(st, dst, n, "write")?;
        d.data[off..off + nn].copy_from_slice(&data);
        if !sym.is_empty() {
            if d.sym.is_empty() {
                d.sym = vec![0; d.data.len()];
            }
            d.sym[off..off + nn].copy_from_slice(&sym);
        } else if !d.sym.is_empty() {
            d.sym[off..off + nn].fill(0);
        }
        Ok(())
    }
    pub fn byte_e(&mut self, st: &State, addr: u64) -> R<E> {
        let (o, off) = self.obj(st, addr, 1, "read")?;
        if !o.sym.is_empty() && o.sym[off] != 0 {
            return Ok(o.sym[off]);
        }
        let b = o.data[off];
        Ok(self.x.konst(b as u128, 8))
    }
    pub fn cstr(&self, st: &State, addr: u64, n: Option<u64>) -> String {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        if let Some(Some(o)) = st.mem.get(id) {
            if off <= o.data.len() {
                let d = &o.data[off..];
                let l = match n {
                    Some(n) => (n as usize).min(d.len()),
                    None => d.iter().position(|c| *c == 0).unwrap_or(d.len()),
                };
                return String::from_utf8_lossy(&d[..l]).into_owned();
            }
        }
        String::new()
    }

    // ------------------------------------------------------------------ constraints
    pub fn assume(&mut self, st: &mut State, c: E) {
        if c == Ctx::T {
            return;
        }
        // split conjunctions for better slicing
        let n = self.x.n(c);
        if n.op == Op::And {
            self.assume(st, n.a);
            self.assume(st, n.b);
            return;
        }
        if st.known.contains_key(&c) {
            return;
        }
        st.pc.push(c);
        let neg = self.x.not(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, true);
        k.insert(neg, false);
        if n.op == Op::Eq {
            let (a, b) = (n.a, n.b);
            let q = Rc::make_mut(&mut st.eqc);
            if self.x.cv(b).is_some() {
                q.insert(a, b);
            } else if self.x.cv(a).is_some() {
                q.insert(b, a);
            }
        }
    }
    /// rewrite e with what the path already decided
    pub fn simp(&mut self, st: &State, e: E) -> E {
        let mut memo: FxMap<E, E> = Default::default();
        let mut budget = 400usize;
        self.simp_rec(st, e, &mut memo, &mut budget)
    }
    fn simp_rec(&mut self, st: &State, e: E, memo: &mut FxMap<E, E>, budget: &mut usize) -> E {
        let n = self.x.n(e);
        if n.op == Op::Const {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        if n.w == 1 {
            if let Some(&b) = st.known.get(&e) {
                return if b { Ctx::T } else { Ctx::F };
            }
        }
        if let Some(&k) = st.eqc.get(&e) {
            return k;
        }
        if *budget == 0 || n.op == Op::Var {
            return e;
        }
        *budget -= 1;
        let r = match n.op {
            Op::Ite => {
                let c = self.simp_rec(st, n.a, memo, budget);
                match self.x.cv(c) {
                    Some(1) => self.simp_rec(st, n.b, memo, budget),
                    Some(_) => self.simp_rec(st, n.c, memo, budget),
                    None => {
                        let a = self.simp_rec(st, n.b, memo, budget);
                        let b = self.simp_rec(st, n.c, memo, budget);
                        self.x.ite(c, a, b)
                    }
                }
            }
            Op::Not => {
                let a = self.simp_rec(st, n.a, memo, budget);
                self.x.not(a)
            }
            Op::Extract => {
                let a = self.simp_rec(st, n.a, memo, budget);
                self.x.extract(a, n.b, n.w as u32)
            }
            Op::ZExt => {
                let a = self.simp_rec(st, n.a, memo, budget);
                self.x.zext(a, n.w as u32)
            }
            Op::SExt => {
                let a = self.simp_rec(st, n.a, memo, budget);
                self.x.sext(a, n.w as u32)
            }
            Op::Concat => {
                let a = self.simp_rec(st, n.a, memo, budget);
                let b = self.simp_rec(st, n.b, memo, budget);
                self.x.concat(a, b)
            }
            Op::FSqrt | Op::FRound | Op::FConv | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF => {
                let a = self.simp_rec(st, n.a, memo, budget);
                self.x.un(n.op, a, n.b, n.w as u32)
            }
            _ => {
                let a = self.simp_rec(st, n.a, memo, budget);
                let b = self.simp_rec(st, n.b, memo, budget);
                if a == n.a && b == n.b { e } else { self.x.bin(n.op, a, b) }
            }
        };
        let r = match st.known.get(&r) {
            Some(&b) if self.x.w(r) == 1 => if b { Ctx::T } else { Ctx::F },
            _ => r,
        };
        memo.insert(e, r);
        r
    }
    /// an undecided boolean inside e that selects between values (ITE condition or 0/1 cast)
    fn inner_bool(&self, e: E, depth: u32) -> Option<E> {
        let n = self.x.n(e);
        if depth == 0 {
            return None;
        }
        match n.op {
            Op::Ite => Some(n.a),
            Op::ZExt | Op::SExt if self.x.w(n.a) == 1 => Some(n.a),
            Op::ZExt | Op::SExt | Op::Extract | Op::Not if n.w > 1 => self.inner_bool(n.a, depth - 1),
            Op::Add | Op::Sub | Op::Mul | Op::Concat | Op::And | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if n.w > 1 => {
                self.inner_bool(n.a, depth - 1).or_else(|| self.inner_bool(n.b, depth - 1))
            }
            _ => None,
        }
    }
    /// decide the comparisons of a compound condition that the order of terms already settles
    fn settle(&mut self, st: &State, c: E) -> E {
        let mut atoms: Vec<E> = vec![];
        let mut seen: FxSet<E> = Default::default();
        let mut work = vec![c];
        let mut only_bool = true;
        while let Some(e) = work.pop() {
            if !seen.insert(e) || seen.len() > 60 {
                continue;
            }
            let n = self.x.n(e);
            match n.op {
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => atoms.push(e),
                Op::Eq if self.x.w(n.a) > 1 => atoms.push(e),
                Op::Const | Op::Var | Op::Extract => {}
                Op::Not => work.push(n.a),
                Op::And | Op::Or | Op::Xor | Op::Eq => {
                    work.push(n.a);
                    work.push(n.b);
                }
                Op::Ite => {
                    work.push(n.a);
                    work.push(n.b);
                    work.push(n.c);
                }
                _ => only_bool = false,
            }
        }
        let _ = only_bool;
        if atoms.len() < 2 || atoms.len() > 16 {
            return c;
        }
        let mut memo: FxMap<E, E> = Default::default();
        let mut any = false;
        for a in atoms {
            let na = self.x.not(a);
            let v = if crate::solver::Solver::order_unsat(&self.x, &st.pc, a) {
                false
            } else if crate::solver::Solver::order_unsat(&self.x, &st.pc, na) {
                true
            } else {
                continue;
            };
            memo.insert(a, if v { Ctx::T } else { Ctx::F });
            any = true;
        }
        if !any {
            return c;
        }
        let mut budget = 400usize;
        self.simp_rec(st, c, &mut memo, &mut budget)
    }
    /// feasibility of c under the state; Some(model) if satisfiable
    pub fn feasible(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        if c == Ctx::F {
            return Ok(None);
        }
        match st.known.get(&c) {
            Some(true) => return Ok(Some(st.model.clone())),
            Some(false) => return Ok(None),
            None => {}
        }
        if self.x.eval(c, &st.model) == 1 {
            return Ok(Some(st.model.clone()));
        }
        match self.s.check(&self.x, &st.pc, c, &st.model) {
            (Res::Sat, Some(m)) => Ok(Some(Rc::new(m))),
            (Res::Unsat, _) => Ok(None),
            _ => {
                self.stats.unknown += 1;
                Err(Stop::End(End::Limit("solver gave no answer".into())))
            }
        }
    }
    /// decide a boolean: forks when both are possible (the other side is pushed for later, to re-execute)
    pub fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.x.cv(c) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&c) {
            return Ok(*v);
        }
        self.stats.sym_branches += 1;
        let c = {
            let mut k = self.simp(st, c);
            if self.x.cv(k).is_none() {
                k = self.settle(st, k);
            }
            if let Some(v) = self.x.cv(k) {
                let nc = self.x.not(c);
                let kn = Rc::make_mut(&mut st.known);
                kn.insert(c, v == 1);
                kn.insert(nc, v != 1);
                return Ok(v == 1);
            }
            if k != c {
                // remember the outcome under the original name as well
                let r = self.decide2(st, k)?;
                let nc = self.x.not(c);
                let kn = Rc::make_mut(&mut st.known);
                kn.insert(c, r);
                kn.insert(nc, !r);
                return Ok(r);
            }
            c
        };
        self.decide2(st, c)
    }
    fn decide2(&mut self, st: &mut State, c: E) -> R<bool> {
        let here = self.x.eval(c, &st.model) == 1;
        let nc = self.x.not(c);
        let (mine, other) = if here { (c, nc) } else { (nc, c) };
        match self.s.check(&self.x, &st.pc, other, &st.model) {
            (Res::Sat, Some(m)) => {
                *self.prof.entry((st.cur.f as u32, st.cur.blk)).or_insert(0) += 1;
                let mut o = st.clone();
                o.model = Rc::new(m);
                o.depth += 1;
                st.depth += 1;
                self.assume(&mut o, other);
                self.stats.forks += 1;
                self.work.push(o);
                self.assume(st, mine);
            }
            (Res::Unsat, _) => {
                // implied: remember without adding to the path condition
                let k = Rc::make_mut(&mut st.known);
                k.insert(mine, true);
                k.insert(other, false);
            }
            _ => {
                self.stats.unknown += 1;
                return Err(Stop::End(End::Limit("solver gave no answer".into())));
            }
        }
        Ok(here)
    }
    /// a concrete value for v, forking over all feasible values (at most `cap`)
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32, cap: usize, what: &str) -> R<u64> {
        let e = match v {
            Val::I(x) => return Ok(*x),
            Val::E(e) => *e,
            _ => panic!(),
        };
        if let Some(k) = self.x.cv(e) {
            return Ok(k as u64);
        }
        let mine = self.x.eval(e, &st.model);
        let k = self.x.konst(mine, w);
        let ceq = self.x.eq(e, k);
        // enumerate the other values
        let mut tmp = st.pc.len();
        let _ = &mut tmp;
        let mut base = st.pc.clone();
        let ne = self.x.not(ceq);
        base.push(ne);
        let mut n = 1;
        let mut extra = ne;
        let mut model = st.model.clone();
        let mut pcx = st.pc.clone();
        loop {
            match self.s.check(&self.x, &pcx, extra, &model) {
                (Res::Sat, Some(m)) => {
                    let val = self.x.eval(e, &m);
                    n += 1;
                    if n > cap {
                        *self.limits.entry(format!("more than {cap} values for {what}")).or_insert(0) += 1;
                        return Err(Stop::End(End::Limit(format!("more than {cap} values for {what}"))));
                    }
                    let kk = self.x.konst(val, w);
                    let c = self.x.eq(e, kk);
                    let mut o = st.clone();
                    o.model = Rc::new(m);
                    o.depth += 1;
                    self.assume(&mut o, c);
                    self.stats.forks += 1;
                    *self.prof.entry((st.cur.f as u32, st.cur.blk)).or_insert(0) += 1;
                    model = o.model.clone();
                    self.work.push(o);
                    pcx.push(extra);
                    extra = self.x.not(c);
                }
                (Res::Unsat, _) => break,
                _ => {
                    self.stats.unknown += 1;
                    return Err(Stop::End(End::Limit("solver gave no answer".into())));
                }
            }
        }
        self.assume(st, ceq);
        Ok(mine as u64)
    }
    /// leaves of an ITE tree over constants, with their conditions
    fn leaves(&mut self, e: E, cond: E, out: &mut Vec<(E, u64)>) {
        let n = self.x.n(e);
        if n.op == Op::Ite {
            let c1 = self.x.and(cond, n.a);
            self.leaves(n.b, c1, out);
            let nn = self.x.not(n.a);
            let c2 = self.x.and(cond, nn);
            self.leaves(n.c, c2, out);
        } else {
            out.push((cond, self.x.cv(e).unwrap() as u64));
        }
    }
    fn ite_val(&mut self, c: E, t: &Ty, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let tys: Vec<Ty> = match t {
                    Ty::St(ts, _) => ts.clone(),
                    Ty::Arr(n, e) | Ty::Vec(n, e) => vec![(**e).clone(); *n as usize],
                    Ty::Named(n) => {
                        let t = self.m.types[n].clone();
                        return self.ite_val(c, &t, a, b);
                    }
                    _ => panic!(),
                };
                let r = (0..x.len()).map(|i| self.ite_val(c, &tys[i], &x[i], &y[i])).collect();
                Val::A(Rc::new(r))
            }
            (Val::I(x), Val::I(y)) if x == y => Val::I(*x),
            _ => {
                let w = self.width(t);
                let (x, y) = (self.to_e(a, w), self.to_e(b, w));
                let e = self.x.ite(c, x, y);
                self.from_e(e)
            }
        }
    }
    pub fn load_any(&mut self, st: &mut State, p: &Val, t: &Ty) -> R<Val> {
        let e = match p {
            Val::I(a) => return self.load(st, *a, t),
            Val::E(e) => *e,
            _ => panic!(),
        };
        if let Some(k) = self.x.cv(e) {
            return self.load(st, k as u64, t);
        }
        let mut e = e;
        if !self.cfg.merge {
            e = self.simp(st, e);
            if let Some(k) = self.x.cv(e) {
                return self.load(st, k as u64, t);
            }
        }
        let l = self.x.leaves[e as usize];
        if l == 0 && !self.cfg.merge {
            // split on the conditions inside the address
            while let Some(c) = self.inner_bool(e, 8) {
                self.decide(st, c)?;
                let n = self.simp(st, e);
                if n == e {
                    break;
                }
                e = n;
                if let Some(k) = self.x.cv(e) {
                    return self.load(st, k as u64, t);
                }
            }
        }
        if l > 1 && l <= 24 {
            let mut lv = vec![];
            self.leaves(e, Ctx::T, &mut lv);
            let vals: Vec<R<Val>> = lv.iter().map(|(_, a)| self.load(st, *a, t)).collect();
            if !self.cfg.merge && vals.iter().any(|v| !matches!(v, Ok(Val::I(_)))) {
                // the contents are symbolic: one path per address, so that path conditions stay simple
                let mut cur = e;
                while self.x.cv(cur).is_none() {
                    let n = self.x.n(cur);
                    cur = if self.decide(st, n.a)? { n.b } else { n.c };
                }
                let a = self.x.cv(cur).unwrap() as u64;
                return self.load(st, a, t);
            }
            let mut acc: Option<Val> = None;
            for (c, a) in lv.into_iter().rev() {
                match self.load(st, a, t) {
                    Ok(v) => {
                        acc = Some(match acc {
                            None => v,
                            Some(o) => self.ite_val(c, t, &v, &o),
                        })
                    }
                    Err(x) => {
                        if self.feasible(st, c)?.is_some() {
                            // a feasible invalid access: follow it
                            if self.decide(st, c)? {
                                return Err(x);
                            }
                        }
                    }
                }
            }
            if let Some(v) = acc {
                return Ok(v);
            }
        }
        // table lookup in one object: base object by the model, in-bounds checked by the solver
        let mine = self.x.eval(e, &st.model) as u64;
        let id = mine >> 32;
        let w = match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => self.width(t),
            _ => 0,
        };
        if w > 0 && w % 8 == 0 {
            if let Some(Some(o)) = st.mem.get(id as usize) {
                let size = o.data.len() as u64;
                let n = (w / 8) as u64;
                if size <= 1024 && size >= n {
                    let base = self.x.konst((id << 32) as u128, 64);
                    let d = self.x.bin(Op::Sub, e, base);
                    let lim = self.x.konst((size - n) as u128, 64);
                    let inb = self.x.bin(Op::Ule, d, lim);
                    if self.decide(st, inb)? {
                        // collect feasible offsets lazily: all offsets with the right stride
                        let mut vals: Vec<(u64, Val)> = vec![];
                        let mut acc: Option<Val> = None;
                        let stride = self.stride(d);
                        let mut off = 0;
                        while off + n <= size {
                            let v = self.load(st, (id << 32) + off, t)?;
                            vals.push((off, v));
                            off += stride;
                        }
                        if vals.len() <= 256 {
                            for (off, v) in vals.into_iter().rev() {
                                acc = Some(match acc {
                                    None => v,
                                    Some(o) => {
                                        let k = self.x.konst(off as u128, 64);
                                        let c = self.x.eq(d, k);
                                        self.ite_val(c, t, &v, &o)
                                    }
                                });
                            }
                            return Ok(acc.unwrap());
                        }
                    }
                }
            }
        }
        let a = self.concretize(st, p, 64, 300, "load address")?;
        self.load(st, a, t)
    }
    /// a power of two that divides every value of e
    fn stride(&self, e: E) -> u64 {
        let n = self.x.n(e);
        match n.op {
            Op::Concat => {
                if self.x.cv(n.b) == Some(0) {
                    1 << self.x.w(n.b).min(12)
                } else {
                    1
                }
            }
            Op::ZExt => self.stride(n.a),
            Op::Add | Op::Sub => self.stride(n.a).min(self.stride(n.b)),
            Op::Const => {
                let v = self.x.cv(e).unwrap();
                if v == 0 {
                    1 << 12
                } else {
                    1 << v.trailing_zeros().min(12)
                }
            }
            _ => 1,
        }
    }
    pub fn addr(&mut self, st: &mut State, p: &Val) -> R<u64> {
        self.concretize(st, p, 64, 64, "store address")
    }

    // ------------------------------------------------------------------ evaluation
    #[inline]
    pub fn op(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => st.cur.regs[*r as usize].clone(),
            Opd::C(i) => self.consts[*i as usize].clone(),
        }
    }
    fn lanes(&mut self, v: &Val) -> Vec<Val> {
        match v {
            Val::A(x) => x.to_vec(),
            _ => panic!("lanes"),
        }
    }
    pub fn binop(&mut self, st: &mut State, op: u8, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(_, e) = t {
            let (x, y) = (self.lanes(a), self.lanes(b));
            let mut r = vec![];
            for i in 0..x.len() {
                r.push(self.binop(st, op, e, &x[i], &y[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let w = self.width(t);
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w) as u64;
            let r = match op {
                0 => x.wrapping_add(y) & m,
                1 => x.wrapping_sub(y) & m,
                2 => x.wrapping_mul(y) & m,
                3 | 5 => {
                    if y == 0 {
                        mem_err!("division by zero (undefined behaviour)");
                    }
                    if op == 3 { x / y } else { x % y }
                }
                4 | 6 => {
                    if y == 0 {
                        mem_err!("division by zero (undefined behaviour)");
                    }
                    let (sx, sy) = (sext128(x as u128, w), sext128(y as u128, w));
                    (if op == 4 { sx.wrapping_div(sy) } else { sx.wrapping_rem(sy) }) as u64 & m
                }
                7 => x & y,
                8 => x | y,
                9 => x ^ y,
                10 => if y >= w as u64 { 0 } else { (x << y) & m },
                11 => if y >= w as u64 { 0 } else { x >> y },
                12 => ((sext128(x as u128, w) >> y.min(w as u64 - 1)) as u64) & m,
                _ => {
                    let (x, y) = (self.x.konst(x as u128, w), self.x.konst(y as u128, w));
                    let o = [Op::FAdd, Op::FSub, Op::FMul, Op::FDiv, Op::FRem][op as usize - 13];
                    let e = self.x.bin(o, x, y);
                    return Ok(self.from_e(e));
                }
            };
            return Ok(Val::I(r));
        }
        let o = [
            Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr,
            Op::AShr, Op::FAdd, Op::FSub, Op::FMul, Op::FDiv, Op::FRem,
        ][op as usize];
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let e = self.x.bin(o, x, y);
        Ok(self.from_e(e))
    }
    pub fn icmp(&mut self, p: u8, t: &Ty, a: &Val, b: &Val) -> Val {
        if let Ty::Vec(_, e) = t {
            let (x, y) = (self.lanes(a), self.lanes(b));
            let r = (0..x.len()).map(|i| self.icmp(p, e, &x[i], &y[i])).collect();
            return Val::A(Rc::new(r));
        }
        let w = self.width(t);
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = if p < 6 {
                match p {
                    0 => x == y,
                    1 => x != y,
                    2 => x > y,
                    3 => x >= y,
                    4 => x < y,
                    _ => x <= y,
                }
            } else {
                let (sx, sy) = (sext128(x as u128, w), sext128(y as u128, w));
                match p {
                    6 => sx > sy,
                    7 => sx >= sy,
                    8 => sx < sy,
                    _ => sx <= sy,
                }
            };
            return Val::I(r as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let e = match p {
            0 => self.x.bin(Op::Eq, x, y),
            1 => {
                let q = self.x.bin(Op::Eq, x, y);
                self.x.not(q)
            }
            2 => self.x.bin(Op::Ult, y, x),
            3 => self.x.bin(Op::Ule, y, x),
            4 => self.x.bin(Op::Ult, x, y),
            5 => self.x.bin(Op::Ule, x, y),
            6 => self.x.bin(Op::Slt, y, x),
            7 => self.x.bin(Op::Sle, y, x),
            8 => self.x.bin(Op::Slt, x, y),
            _ => self.x.bin(Op::Sle, x, y),
        };
        self.from_e(e)
    }
    pub fn cast(&mut self, op: u8, from: &Ty, to: &Ty, a: &Val) -> Val {
        if op == 5 {
            // bitcast
            match (from, to) {
                (Ty::Vec(..), Ty::Vec(..)) if from == to => return a.clone(),
                (Ty::Vec(n, e), _) => {
                    let w = self.width(e);
                    let l = self.lanes(a);
                    if let Ty::Vec(n2, e2) = to {
                        let w2 = self.width(e2);
                        // via lane regrouping
                        let mut out = vec![];
                        if w2 >= w {
                            let k = (w2 / w) as usize;
                            for i in 0..*n2 as usize {
                                let mut acc = self.to_e(&l[i * k], w);
                                for j in 1..k {
                                    let h = self.to_e(&l[i * k + j], w);
                                    acc = self.x.concat(h, acc);
                                }
                                out.push(self.from_e(acc));
                            }
                        } else {
                            let k = w / w2;
                            for i in 0..*n as usize {
                                let v = self.to_e(&l[i], w);
                                for j in 0..k {
                                    let b = self.x.extract(v, j * w2, w2);
                                    out.push(self.from_e(b));
                                }
                            }
                        }
                        return Val::A(Rc::new(out));
                    }
                    let mut acc = self.to_e(&l[0], w);
                    for x in l[1..].iter() {
                        let xe = self.to_e(x, w);
                        acc = self.x.concat(xe, acc);
                    }
                    return self.from_e(acc);
                }
                (_, Ty::Vec(n, e)) => {
                    let w = self.width(e);
                    let fw = self.width(from);
                    let v = self.to_e(a, fw);
                    let mut out = vec![];
                    for i in 0..*n as u32 {
                        let b = self.x.extract(v, i * w, w);
                        out.push(self.from_e(b));
                    }
                    return Val::A(Rc::new(out));
                }
                _ => return a.clone(),
            }
        }
        if let (Ty::Vec(_, fe), Ty::Vec(_, te)) = (from, to) {
            let l = self.lanes(a);
            let r = l.iter().map(|x| self.cast(op, fe, te, x)).collect();
            return Val::A(Rc::new(r));
        }
        let (fw, tw) = (self.width(from), self.width(to));
        if let Val::I(x) = a {
            match op {
                0 => return Val::I(x & mask(tw) as u64),
                1 if tw <= 64 => return Val::I(*x),
                2 if tw <= 64 => return Val::I((sext128(*x as u128, fw) as u64) & mask(tw) as u64),
                3 | 4 => {
                    if tw <= 64 {
                        return Val::I(x & mask(tw) as u64);
                    }
                }
                _ => {}
            }
        }
        let e = self.to_e(a, fw);
        let r = match op {
            0 => self.x.extract(e, 0, tw),
            1 => self.x.zext(e, tw),
            2 => self.x.sext(e, tw),
            3 | 4 => {
                if tw > fw {
                    self.x.zext(e, tw)
                } else if tw < fw {
                    self.x.extract(e, 0, tw)
                } else {
                    e
                }
            }
            6 | 7 => self.x.un(Op::FConv, e, 0, tw),
            8 => self.x.un(Op::FToUI, e, 0, tw),
            9 => self.x.un(Op::FToSI, e, 0, tw),
            10 => self.x.un(Op::UIToF, e, 0, tw),
            11 => self.x.un(Op::SIToF, e, 0, tw),
            _ => e,
        };
        self.from_e(r)
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let from = st.cur.blk;
        let f = &self.m.funcs[st.cur.f];
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, ins) = &blk.phis[0];
                let o = &ins.iter().find(|(p, _)| *p == from).expect("phi").1;
                let v = self.op(st, o);
                st.cur.regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(blk.phis.len());
                let k = blk.phis[0].1.iter().position(|(p, _)| *p == from).expect("phi");
                for (d, ins) in &blk.phis {
                    let o = if ins[k].0 == from { &ins[k].1 } else { &ins.iter().find(|(p, _)| *p == from).expect("phi").1 };
                    vals.push((*d, self.op(st, o)));
                }
                for (d, v) in vals {
                    st.cur.regs[d as usize] = v;
                }
            }
        }
        st.cur.blk = b;
        st.cur.ip = 0;
        if self.seen_blk.insert((st.cur.f as u32, b)) {
            for d in &self.m.funcs[st.cur.f].blocks[b as usize].dbg {
                if *d != 0 {
                    self.exec_dbg.insert(*d);
                }
            }
        }
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.cur.regs[d as usize] = v;
    }

    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut show = |fr: &Frame| {
            let f = &self.m.funcs[fr.f];
            let d = f.blocks[fr.blk as usize].dbg.get((fr.ip as usize).min(f.blocks[fr.blk as usize].dbg.len().saturating_sub(1))).copied().unwrap_or(0);
            let mut s = demangle(&f.name);
            let mut d = d;
            let mut k = 0;
            while d != 0 && k < 6 {
                if let Some((l, sc)) = self.m.locs.get(&d) {
                    let (name, file) = self.scope_name(*sc);
                    s.push_str(&format!(" <{name} {file}:{l}>"));
                }
                d = self.m.inl.get(&d).copied().unwrap_or(0);
                k += 1;
            }
            v.push(s);
        };
        show(&st.cur);
        for f in st.stack.iter().rev() {
            show(f);
        }
        v.truncate(14);
        v
    }
    pub fn scope_name(&self, mut sc: u32) -> (String, String) {
        for _ in 0..64 {
            if let Some((_ln, n, f)) = self.m.subs.get(&sc) {
                return (n.clone(), self.m.files.get(f).cloned().unwrap_or_default());
            }
            match self.m.scopes.get(&sc) {
                Some(p) => sc = *p,
                None => break,
            }
        }
        (String::new(), String::new())
    }

    pub fn run(&mut self, entry: &str) {
        let st = self.initial(entry);
        self.t0 = std::time::Instant::now();
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_time {
                self.incomplete = Some(format!("time budget of {}s, {} states left", self.cfg.max_time, self.work.len() + 1));
                break;
            }
            if self.stats.paths >= self.cfg.max_paths {
                self.incomplete = Some(format!("path budget of {}, {} states left", self.cfg.max_paths, self.work.len() + 1));
                break;
            }
            let end = self.run_path(&mut st);
            self.stats.paths += 1;
            match end {
                End::Done => {
                    self.stats.done += 1;
                    let first = self.sample_paths.len() < self.cfg.samples;
                    // keep the first paths and then a spread of later ones
                    if first || (self.stats.done.is_power_of_two()) {
                        let mut vals: Vec<u128> = (0..st.nsym as usize).map(|i| st.model.vals.get(i).copied().unwrap_or(0)).collect();
                        vals.truncate(st.nsym as usize);
                        let obs = st.obs.iter().map(|e| self.x.eval(*e, &st.model)).collect();
                        self.sample_paths.push((vals, obs));
                    }
                }
                End::Infeasible => self.stats.infeasible += 1,
                End::Skip => self.stats.resource += 1,
                End::Panic(_) if st.may_panic => self.stats.done += 1,
                End::Panic(m) => self.finding(&st, "panic", m),
                End::Fail(m) => self.finding(&st, "assert", m),
                End::Mem(m) => self.finding(&st, "memory", m),
                End::Limit(m) => {
                    self.stats.limit += 1;
                    *self.limits.entry(m.clone()).or_insert(0) += 1;
                    if m.starts_with("steps") {
                        self.finding(&st, "hang", m);
                    } else if self.cfg.verbose > 0 {
                        eprintln!("limit: {m}\n  {}", self.backtrace(&st).join("\n  "));
                    }
                }
            }
            if self.findings.len() >= self.cfg.max_findings {
                if !self.work.is_empty() {
                    self.incomplete = Some(format!("stopped after {} findings", self.findings.len()));
                }
                break;
            }
        }
    }
    fn finding(&mut self, st: &State, kind: &str, msg: String) {
        let trace = self.backtrace(st);
        // one finding per (kind, message, innermost frames)
        let key: String = trace.iter().take(3).cloned().collect::<Vec<_>>().join("|");
        if self.findings.iter().any(|f| f.kind == kind && f.msg == msg && f.trace.iter().take(3).cloned().collect::<Vec<_>>().join("|") == key) {
            *self.limits.entry(format!("repeat finding: {kind} {msg}")).or_insert(0) += 1;
            return;
        }
        let vals = (0..st.nsym as usize).map(|i| st.model.vals.get(i).copied().unwrap_or(0)).collect();
        if self.cfg.verbose > 0 {
            eprintln!("FINDING {kind}: {msg}\n  {}", trace.join("\n  "));
        }
        self.findings.push(Finding { kind: kind.into(), msg, vals, trace });
    }
    fn run_path(&mut self, st: &mut State) -> End {
        loop {
            if st.steps & 0xfff == 0 {
                if st.steps > self.cfg.max_steps {
                    return End::Limit(format!("steps: more than {} instructions on one path", self.cfg.max_steps));
                }
                if self.t0.elapsed().as_secs_f64() > self.cfg.max_time * 1.1 + 5.0 {
                    self.incomplete = Some("time budget inside a path".into());
                    return End::Limit("time".into());
                }
            }
            st.steps += 1;
            self.stats.insts += 1;
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Retry) => {}
                Err(Stop::End(e)) => return e,
            }
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        // the module is immutable while running: borrow the instruction through a raw pointer
        let ins: &I = unsafe {
            let f = &*(&self.m.funcs[st.cur.f] as *const Func);
            let b = &f.blocks[st.cur.blk as usize];
            &*(&b.ins[st.cur.ip as usize] as *const I)
        };
        match ins {
            I::Bin { op, ty, a, b, dst } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = self.binop(st, *op, ty, &x, &y)?;
                self.set(st, *dst, v);
            }
            I::FNeg { ty, a, dst } => {
                let x = self.op(st, a);
                let v = self.fneg(ty, &x);
                self.set(st, *dst, v);
            }
            I::ICmp { p, ty, a, b, dst } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = self.icmp(*p, ty, &x, &y);
                self.set(st, *dst, v);
            }
            I::FCmp { p, ty, a, b, dst } => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let v = self.fcmp(p, ty, &x, &y);
                self.set(st, *dst, v);
            }
            I::Cast { op, from, to, a, dst } => {
                let x = self.op(st, a);
                let v = self.cast(*op, from, to, &x);
                self.set(st, *dst, v);
            }
            I::Gep { base, off, terms, dst } => {
                let b = self.op(st, base);
                let mut conc = *off as u64;
                let mut symb: Option<E> = None;
                match &b {
                    Val::I(x) => conc = conc.wrapping_add(*x),
                    Val::E(e) => symb = Some(*e),
                    _ => panic!("gep base"),
                }
                for (o, sc, w) in terms {
                    match self.op(st, o) {
                        Val::I(x) => {
                            let i = sext128(x as u128, *w) as i64;
                            conc = conc.wrapping_add(i.wrapping_mul(*sc) as u64);
                        }
                        Val::E(e) => {
                            let e = if *w < 64 { self.x.sext(e, 64) } else { e };
                            let k = self.x.konst(*sc as u64 as u128, 64);
                            let t = self.x.bin(Op::Mul, e, k);
                            symb = Some(match symb {
                                None => t,
                                Some(s) => self.x.bin(Op::Add, s, t),
                            });
                        }
                        _ => panic!("gep idx"),
                    }
                }
                let v = match symb {
                    None => Val::I(conc),
                    Some(s) => {
                        let k = self.x.konst(conc as u128, 64);
                        let e = self.x.bin(Op::Add, s, k);
                        self.from_e(e)
                    }
                };
                self.set(st, *dst, v);
            }
            I::Load { ty, p, dst } => {
                let a = self.op(st, p);
                let v = self.load_any(st, &a, ty)?;
                self.set(st, *dst, v);
            }
            I::Store { ty, v, p } => {
                let a = self.op(st, p);
                let x = self.op(st, v);
                let a = self.addr(st, &a)?;
                self.store(st, a, ty, &x)?;
            }
            I::Alloca { size, dst } => {
                let a = self.alloc(st, *size, 16, 1);
                st.cur.allocas.push((a >> 32) as u32);
                self.set(st, *dst, Val::I(a));
            }
            I::Select { cty, ty, c, a, b, dst } => {
                let c = self.op(st, c);
                let v = match (cty, &c) {
                    (Ty::Vec(..), Val::A(cs)) => {
                        let (x, y) = (self.op(st, a), self.op(st, b));
                        let (x, y) = (self.lanes(&x), self.lanes(&y));
                        let et = elem_ty(ty);
                        let mut r = vec![];
                        for i in 0..x.len() {
                            r.push(match &cs[i] {
                                Val::I(k) => if *k != 0 { x[i].clone() } else { y[i].clone() },
                                Val::E(e) => self.ite_val(*e, &et, &x[i], &y[i]),
                                _ => panic!(),
                            });
                        }
                        Val::A(Rc::new(r))
                    }
                    (_, Val::I(k)) => {
                        if *k != 0 { self.op(st, a) } else { self.op(st, b) }
                    }
                    (_, Val::E(e)) => {
                        if let Some(k) = st.known.get(e).copied() {
                            if k { self.op(st, a) } else { self.op(st, b) }
                        } else {
                            let (x, y) = (self.op(st, a), self.op(st, b));
                            self.ite_val(*e, ty, &x, &y)
                        }
                    }
                    _ => panic!("select"),
                };
                self.set(st, *dst, v);
            }
            I::ExtractV { a, idx, dst } => {
                let mut v = self.op(st, a);
                for i in idx {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, *dst, v);
            }
            I::InsertV { ty, a, v, idx, dst } => {
                let mut x = self.op(st, a);
                if let Val::I(_) = x {
                    x = self.zero(ty);
                }
                let v = self.op(st, v);
                fn ins(x: &mut Val, idx: &[u32], v: Val) {
                    if idx.is_empty() {
                        *x = v;
                        return;
                    }
                    match x {
                        Val::A(r) => ins(&mut Rc::make_mut(r)[idx[0] as usize], &idx[1..], v),
                        _ => panic!("insertvalue"),
                    }
                }
                ins(&mut x, idx, v);
                self.set(st, *dst, x);
            }
            I::ExtractE { a, i, dst, .. } => {
                let v = self.op(st, a);
                let i = self.op(st, i);
                let k = self.concretize(st, &i, 64, 64, "lane")?;
                let l = self.lanes(&v);
                let r = l[k as usize % l.len()].clone();
                self.set(st, *dst, r);
            }
            I::InsertE { ty, a, v, i, dst } => {
                let x = self.op(st, a);
                let v = self.op(st, v);
                let i = self.op(st, i);
                let k = match i {
                    Val::I(k) => k,
                    _ => return self.unsupported("symbolic lane"),
                };
                let mut l = match x {
                    Val::A(_) => self.lanes(&x),
                    _ => {
                        let z = self.zero(ty);
                        self.lanes(&z)
                    }
                };
                l[k as usize] = v;
                self.set(st, *dst, Val::A(Rc::new(l)));
            }
            I::Shuffle { a, b, n, mask, dst } => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                let mut l = self.lanes(&x);
                l.extend(self.lanes(&y));
                let _ = n;
                let r = mask.iter().map(|m| if *m < 0 { l[0].clone() } else { l[*m as usize].clone() }).collect();
                self.set(st, *dst, Val::A(Rc::new(r)));
            }
            I::Rmw { op, ty, p, v, dst } => {
                let p = self.op(st, p);
                let a = self.addr(st, &p)?;
                let v = self.op(st, v);
                let old = self.load(st, a, ty)?;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binop(st, 0, ty, &old, &v)?,
                    "sub" => self.binop(st, 1, ty, &old, &v)?,
                    "and" => self.binop(st, 7, ty, &old, &v)?,
                    "or" => self.binop(st, 8, ty, &old, &v)?,
                    "xor" => self.binop(st, 9, ty, &old, &v)?,
                    "umax" | "umin" | "max" | "min" => {
                        let p = match op.as_str() {
                            "umax" => 2,
                            "umin" => 4,
                            "max" => 6,
                            _ => 8,
                        };
                        let c = self.icmp(p, ty, &old, &v);
                        match c {
                            Val::I(1) => old.clone(),
                            Val::I(_) => v,
                            Val::E(e) => self.ite_val(e, ty, &old, &v),
                            _ => panic!(),
                        }
                    }
                    o => return self.unsupported(&format!("atomicrmw {o}")),
                };
                self.store(st, a, ty, &new)?;
                self.set(st, *dst, old);
            }
            I::CmpXchg { ty, p, c, n, dst } => {
                let p = self.op(st, p);
                let a = self.addr(st, &p)?;
                let c = self.op(st, c);
                let n = self.op(st, n);
                let old = self.load(st, a, ty)?;
                let eq = self.icmp(0, ty, &old, &c);
                let ok = match eq {
                    Val::I(k) => k != 0,
                    Val::E(e) => self.decide(st, e)?,
                    _ => panic!(),
                };
                if ok {
                    self.store(st, a, ty, &n)?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![old, Val::I(ok as u64)])));
            }
            I::Copy { a, dst } => {
                let v = self.op(st, a);
                self.set(st, *dst, v);
            }
            I::Nop => {}
            I::Call(c) => return self.call(st, c),
            I::Br(b) => {
                self.goto(st, *b);
                return Ok(());
            }
            I::CondBr(c, a, b) => {
                let t = match self.op(st, c) {
                    Val::I(k) => k & 1 != 0,
                    Val::E(e) => self.decide(st, e)?,
                    _ => panic!("br"),
                };
                self.goto(st, if t { *a } else { *b });
                return Ok(());
            }
            I::Switch { ty, v, def, cases } => {
                let v = self.op(st, v);
                match v {
                    Val::I(x) => {
                        let t = cases.iter().find(|(k, _)| *k == x as u128).map(|c| c.1).unwrap_or(*def);
                        self.goto(st, t);
                    }
                    Val::E(e) => {
                        let w = self.width(ty);
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut any = Ctx::F;
                        for (k, b) in cases {
                            let kk = self.x.konst(*k, w);
                            let c = self.x.eq(e, kk);
                            any = self.x.or(any, c);
                            match groups.iter_mut().find(|g| g.0 == *b) {
                                Some(g) => g.1 = self.x.or(g.1, c),
                                None => groups.push((*b, c)),
                            }
                        }
                        let none = self.x.not(any);
                        match groups.iter_mut().find(|g| g.0 == *def) {
                            Some(g) => g.1 = self.x.or(g.1, none),
                            None => groups.push((*def, none)),
                        }
                        let last = groups.len() - 1;
                        let mut target = groups[last].0;
                        for (i, (b, c)) in groups.iter().enumerate() {
                            if i == last {
                                break;
                            }
                            if self.decide(st, *c)? {
                                target = *b;
                                break;
                            }
                        }
                        self.goto(st, target);
                    }
                    _ => panic!("switch"),
                }
                return Ok(());
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|(_, o)| self.op(st, o));
                for a in std::mem::take(&mut st.cur.allocas) {
                    st.mem[a as usize] = None;
                    st.free.push(a);
                }
                let (rd, rb) = (st.cur.ret_dst, st.cur.ret_blk);
                match st.stack.pop() {
                    None => return Err(Stop::End(End::Done)),
                    Some(f) => {
                        st.cur = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                        if let (Some(d), Some(v)) = (rd, r) {
                            st.cur.regs[d as usize] = v;
                        }
                        match rb {
                            Some(b) => self.goto(st, b),
                            None => st.cur.ip += 1,
                        }
                    }
                }
                return Ok(());
            }
            I::Unreachable => return Err(Stop::End(End::Mem("reached an unreachable instruction (undefined behaviour)".into()))),
            I::Trap => return Err(Stop::End(End::Mem("unwinding path".into()))),
        }
        st.cur.ip += 1;
        Ok(())
    }
    pub fn unsupported<T>(&mut self, m: &str) -> R<T> {
        *self.err_stubs.entry(m.to_string()).or_insert(0) += 1;
        Err(Stop::End(End::Limit(format!("unsupported: {m}"))))
    }
    pub fn fneg(&mut self, t: &Ty, a: &Val) -> Val {
        if let Ty::Vec(_, e) = t {
            let l = self.lanes(a);
            let r = l.iter().map(|x| self.fneg(e, x)).collect();
            return Val::A(Rc::new(r));
        }
        let w = self.width(t);
        let x = self.to_e(a, w);
        let k = self.x.konst(1u128 << (w - 1), w);
        let e = self.x.bin(Op::Xor, x, k);
        self.from_e(e)
    }
    pub fn fcmp(&mut self, p: &str, t: &Ty, a: &Val, b: &Val) -> Val {
        if let Ty::Vec(_, e) = t {
            let (x, y) = (self.lanes(a), self.lanes(b));
            let r = (0..x.len()).map(|i| self.fcmp(p, e, &x[i], &y[i])).collect();
            return Val::A(Rc::new(r));
        }
        let w = self.width(t);
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let e = self.x.fcmp(p, x, y);
        self.from_e(e)
    }
    fn call(&mut self, st: &mut State, c: &Call) -> R<()> {
        let callee = self.op(st, &c.callee);
        let addr = match callee {
            Val::I(a) => a,
            v => self.concretize(st, &v, 64, 32, "function pointer")?,
        };
        if addr == (FN_BASE << 32) - 4096 {
            // inline assembly: a barrier which passes its operand on, or the detection of the
            // processor's features (none)
            if let Some(d) = c.dst {
                let z = match &c.args[..] {
                    [(t, o)] if *t == c.rty => self.op(st, o),
                    _ => self.zero(&c.rty),
                };
                self.set(st, d, z);
            }
            return self.after_call(st, c);
        }
        let id = addr >> 32;
        if id < FN_BASE || (id - FN_BASE) as usize >= self.m.funcs.len() {
            mem_err!("call through invalid function pointer {addr:#x}");
        }
        let fi = (id - FN_BASE) as usize;
        if let Some(b) = self.builtin[fi] {
            let mut args = Vec::with_capacity(c.args.len());
            for (_, o) in &c.args {
                args.push(self.op(st, o));
            }
            let v = crate::env::call(self, st, b, fi, c, args)?;
            if let (Some(d), Some(v)) = (c.dst, v) {
                self.set(st, d, v);
            }
            return self.after_call(st, c);
        }
        if self.m.funcs[fi].decl {
            let n = self.m.funcs[fi].name.clone();
            return self.unsupported(&format!("external function {n}"));
        }
        if st.stack.len() > 3000 {
            return Err(Stop::End(End::Mem("stack overflow (call depth over 3000)".into())));
        }
        self.executed[fi] = true;
        let f = &self.m.funcs[fi];
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (i, (_, o)) in c.args.iter().enumerate() {
            if i < f.params.len() {
                regs[f.params[i] as usize] = self.op(st, o);
            }
        }
        let nf = Frame { f: fi, regs, blk: 0, ip: 0, allocas: vec![], ret_dst: c.dst, ret_blk: c.normal };
        let old = std::mem::replace(&mut st.cur, nf);
        st.stack.push(Rc::new(old));
        if self.seen_blk.insert((fi as u32, 0)) {
            for d in &self.m.funcs[fi].blocks[0].dbg {
                if *d != 0 {
                    self.exec_dbg.insert(*d);
                }
            }
        }
        Ok(())
    }
    fn after_call(&mut self, st: &mut State, c: &Call) -> R<()> {
        match c.normal {
            Some(b) => self.goto(st, b),
            None => st.cur.ip += 1,
        }
        Ok(())
    }
}

pub fn demangle(n: &str) -> String {
    // readable approximation of a v0 / legacy mangled name: the identifiers in order
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let s = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[s..i].parse().unwrap_or(0);
            let st = if i < b.len() && b[i] == b'_' { i + 1 } else { i };
            if l > 0 && st + l <= b.len() && n.is_char_boundary(st + l) && n[st..st + l].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                out.push(&n[st..st + l]);
                i = st + l;
            }
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backref: s<base62>_ or B<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}

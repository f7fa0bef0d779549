//! Environment model: harness primitives, LLVM intrinsics, allocator, libc, panics.
use crate::exec::*;
use crate::expr::*;
use crate::ll::*;
use crate::solver::Res;
use std::rc::Rc;

const INTR: &[&str] = &[
    "llvm.assume", "llvm.lifetime", "llvm.memcpy", "llvm.memmove", "llvm.memset", "llvm.umul.with.overflow",
    "llvm.smul.with.overflow", "llvm.uadd.with.overflow", "llvm.sadd.with.overflow", "llvm.usub.with.overflow",
    "llvm.ssub.with.overflow", "llvm.ctpop", "llvm.ctlz", "llvm.cttz", "llvm.fshl", "llvm.fshr", "llvm.trap",
    "llvm.usub.sat", "llvm.uadd.sat", "llvm.ssub.sat", "llvm.sadd.sat", "llvm.threadlocal.address", "llvm.is.constant",
    "llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax", "llvm.experimental.noalias", "llvm.abs", "llvm.bswap",
    "llvm.x86.sse2.pause", "llvm.ucmp", "llvm.scmp", "llvm.bitreverse", "llvm.load.relative", "llvm.fabs", "llvm.floor",
    "llvm.ceil", "llvm.trunc", "llvm.rint", "llvm.round", "llvm.sqrt", "llvm.minnum", "llvm.maxnum", "llvm.copysign",
    "llvm.fptosi.sat", "llvm.fptoui.sat", "llvm.expect", "llvm.vector.reduce", "llvm.fmuladd", "llvm.fma",
    "llvm.prefetch", "llvm.roundeven", "llvm.nearbyint", "llvm.is.fpclass", "llvm.x86.sse2.pmovmskb", "llvm.dbg",
    "llvm.ptrmask", "llvm.powi", "llvm.minimumnum", "llvm.maximumnum", "llvm.stacksave", "llvm.stackrestore", "llvm.donothing",
    "llvm.invariant", "llvm.launder", "llvm.strip", "llvm.objectsize", "llvm.sideeffect", "llvm.pow", "llvm.minimum", "llvm.maximum",
];

pub fn builtin(n: &str, decl: bool) -> Option<Bi> {
    if n.starts_with("llvm.") {
        // longest match
        let mut best: Option<usize> = None;
        for (i, p) in INTR.iter().enumerate() {
            let ok = n.starts_with(p) && n[p.len()..].chars().next().map_or(true, |c| c == '.');
            if ok && best.map_or(true, |b| INTR[b].len() < p.len()) {
                best = Some(i);
            }
        }
        return best.map(|b| Bi::Intr(b as u16));
    }
    let r = match n {
        "sym_val8" => Bi::SymVal(8),
        "sym_val16" => Bi::SymVal(16),
        "sym_val32" => Bi::SymVal(32),
        "sym_val64" => Bi::SymVal(64),
        "sym_assume" => Bi::Assume,
        "sym_fail" => Bi::Fail,
        "sym_reach" => Bi::Reach,
        "sym_observe" => Bi::Observe,
        "sym_concretize" => Bi::Concretize,
        "sym_param" => Bi::Param,
        "sym_is_symbolic" => Bi::IsSym,
        "sym_may_panic" => Bi::MayPanic,
        "__xpg_strerror_r" => Bi::Strerror,
        "sym_limit" => Bi::Limit,
        "sym_stdin" => Bi::Stdin,
        "sym_stdout" => Bi::Stdout,
        "sym_scratch" => Bi::Nop0,
        "sym_note" => Bi::Note,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "memcmp" => Bi::Memcmp,
        "bcmp" => Bi::Bcmp,
        "strlen" => Bi::Strlen,
        "memchr" => Bi::Memchr,
        "abort" | "exit" | "_exit" => Bi::Abort,
        "getenv" | "secure_getenv" => Bi::RetNull,
        "open64" | "open" => Bi::Open,
        "read" => Bi::Read,
        "write" => Bi::Write,
        "lseek64" | "lseek" => Bi::Lseek,
        "close" => Bi::Close,
        "ftruncate64" | "ftruncate" => Bi::Ftruncate,
        "fsync" | "fdatasync" | "unlink" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_create"
        | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "sigaction" | "signal" | "sched_yield" | "pthread_key_delete" => Bi::Nop0,
        "statx" => Bi::Statx,
        "fstat64" | "stat64" | "lstat64" | "fcntl" | "ioctl" | "poll" => Bi::RetNeg1,
        "getrandom" => Bi::Getrandom,
        "__errno_location" => Bi::ErrnoLoc,
        "sysconf" => Bi::Sysconf,
        "syscall" => Bi::Syscall,
        "floor" => Bi::Floor(0),
        "ceil" => Bi::Floor(1),
        "trunc" => Bi::Floor(2),
        "rint" | "roundeven" | "nearbyint" => Bi::Floor(3),
        "round" => Bi::Floor(4),
        "fmin" => Bi::Fmin,
        "fmax" => Bi::Fmax,
        "fmod" => Bi::Fmod,
        _ => {
            if !n.starts_with("_R") && !n.starts_with("_ZN") {
                return None;
            }
            if n.ends_with("___rust_alloc") {
                Bi::RAlloc
            } else if n.ends_with("___rust_dealloc") {
                Bi::RDealloc
            } else if n.ends_with("___rust_realloc") {
                Bi::RRealloc
            } else if n.ends_with("___rust_alloc_zeroed") {
                Bi::RAllocZ
            } else if n.ends_with("no_alloc_shim_is_unstable_v2") || n.contains("no_alloc_shim_is_unstable") {
                Bi::Nop0
            } else if n.contains("4core9panicking")
                || n.contains("rust_begin_unwind")
                || n.contains("3std9panicking11begin_panic")
                || n.contains("3std9panicking15panic_with_hook")
                || n.contains("18handle_alloc_error")
                || n.contains("17capacity_overflow")
            {
                // comparison helpers in core::panicking are not panics
                Bi::Panic
            } else if n.contains("5stdio6__print") || n.contains("5stdio7__eprint") || n.contains("5stdio7_eprint") || n.contains("5stdio6_print") {
                Bi::Nop0
            } else if n.contains("hashmap_random_keys") {
                Bi::HashKeys
            } else if n.contains("3std7process5abort") {
                Bi::Abort
            } else {
                let _ = decl;
                return None;
            }
        }
    };
    Some(r)
}

fn location(en: &Engine, st: &State, a: &Val) -> Option<String> {
    if let Val::I(p) = a {
        let (o, off) = en.obj(st, *p, 24, "loc").ok()?;
        if !o.ro && o.kind != 0 {
            return None;
        }
        let rd = |i: usize, n: usize| -> u64 {
            let mut v = 0u64;
            for k in (0..n).rev() {
                v = (v << 8) | o.data[off + i + k] as u64;
            }
            v
        };
        let (fp, fl, line) = (rd(0, 8), rd(8, 8), rd(16, 4));
        if fl > 0 && fl < 300 {
            let s = en.cstr(st, fp, Some(fl));
            if s.contains(".rs") {
                return Some(format!("{s}:{line}"));
            }
        }
    }
    None
}

fn int(v: &Val) -> u64 {
    match v {
        Val::I(x) => *x,
        _ => panic!("symbolic integer argument to a modelled call"),
    }
}

pub fn call(en: &mut Engine, st: &mut State, b: Bi, fi: usize, c: &Call, mut args: Vec<Val>) -> R<Option<Val>> {
    // the compiler may merge two such calls into one with selected arguments
    if matches!(b, Bi::Fail | Bi::Reach | Bi::Param | Bi::Note) {
        for a in args.iter_mut().take(2) {
            if let Val::E(e) = a {
                let e = *e;
                let w = en.x.w(e);
                *a = Val::I(en.concretize(st, &Val::E(e), w, 64, "argument of a harness call")?);
            }
        }
    }
    Ok(match b {
        Bi::SymVal(w) => {
            let i = st.nsym;
            st.nsym += 1;
            if let Some(&ow) = en.x.vars.get(i as usize) {
                if ow != 0 && ow != w {
                    // same position with another width on another path: distinct variable index space
                    // is kept by always declaring 64-bit variables and truncating
                }
            }
            let v = en.x.var(i, 64);
            let e = if w < 64 { en.x.extract(v, 0, w) } else { v };
            Some(Val::E(e))
        }
        Bi::Assume => {
            match &args[0] {
                Val::I(k) => {
                    if k & 1 == 0 {
                        return Err(Stop::End(End::Infeasible));
                    }
                }
                Val::E(e) => {
                    let e = *e;
                    if en.x.eval(e, &st.model) == 1 {
                        en.assume(st, e);
                    } else {
                        match en.s.check(&en.x, &st.pc, e, &st.model) {
                            (Res::Sat, Some(m)) => {
                                st.model = Rc::new(m);
                                en.assume(st, e);
                            }
                            (Res::Unsat, _) => return Err(Stop::End(End::Infeasible)),
                            _ => {
                                en.stats.unknown += 1;
                                return Err(Stop::End(End::Limit("solver gave no answer".into())));
                            }
                        }
                    }
                }
                _ => panic!(),
            }
            None
        }
        Bi::Fail => {
            let p = int(&args[0]);
            let n = int(&args[1]);
            let m = en.cstr(st, p, Some(n));
            return Err(Stop::End(End::Fail(m)));
        }
        Bi::Reach => {
            let k = int(&args[0]) as u32;
            if !st.reached.contains(&k) {
                st.reached.push(k);
            }
            if !en.reach.contains_key(&k) {
                let vals = (0..st.nsym as usize).map(|i| st.model.vals.get(i).copied().unwrap_or(0)).collect();
                en.reach.insert(k, vals);
            }
            None
        }
        Bi::Observe => {
            let e = en.to_e(&args[0], 64);
            st.obs.push(e);
            None
        }
        Bi::Concretize => {
            let v = args[0].clone();
            Some(Val::I(en.concretize(st, &v, 64, 4096, "harness choice")?))
        }
        Bi::Param => {
            let i = int(&args[0]) as usize;
            let d = int(&args[1]);
            Some(Val::I(en.cfg.params.get(i).copied().unwrap_or(d)))
        }
        Bi::IsSym => Some(Val::I(1)),
        Bi::MayPanic => {
            st.may_panic = int(&args[0]) & 1 == 1;
            None
        }
        Bi::Note => {
            if en.cfg.verbose > 1 {
                let p = int(&args[0]);
                let n = int(&args[1]);
                let s = en.cstr(st, p, Some(n));
                let v = match &args[2] {
                    Val::I(x) => format!("{x:#x}"),
                    Val::E(e) => en.x.show(*e, 5),
                    _ => "?".into(),
                };
                eprintln!("note {s}: {v}");
            }
            None
        }
        Bi::Panic => {
            let name = demangle(&en.m.funcs[fi].name);
            let mut loc = None;
            for a in args.iter().rev() {
                if let Some(l) = location(en, st, a) {
                    loc = Some(l);
                    break;
                }
            }
            let mut msg = name.rsplit("::").next().unwrap_or("").to_string();
            if name.ends_with("panicking::panic") || msg == "panic" {
                if let (Some(Val::I(p)), Some(Val::I(n))) = (args.first(), args.get(1)) {
                    if *n < 200 {
                        msg = en.cstr(st, *p, Some(*n));
                    }
                }
            }
            return Err(Stop::End(End::Panic(format!("{msg} at {}", loc.unwrap_or_else(|| "?".into())))));
        }
        Bi::Abort => return Err(Stop::End(End::Panic("process abort".into()))),
        Bi::RAlloc | Bi::RAllocZ | Bi::Malloc => {
            let size = en.concretize(st, &args[0].clone(), 64, 300, "allocation size")?;
            if size > en.cfg.max_heap || st.heap + size > en.cfg.max_heap {
                if st.may_panic {
                    return Err(Stop::End(End::Panic("out of memory".into())));
                }
                *en.limits.entry(format!("allocation over {} bytes", en.cfg.max_heap)).or_insert(0) += 1;
                return Err(Stop::End(End::Skip));
            }
            let al = if b == Bi::Malloc { 16 } else { args.get(1).map(|a| if let Val::I(x) = a { *x } else { 16 }).unwrap_or(16) };
            Some(Val::I(en.alloc(st, size, al, 2)))
        }
        Bi::Calloc => {
            let n = en.concretize(st, &args[0].clone(), 64, 300, "allocation size")?;
            let m = en.concretize(st, &args[1].clone(), 64, 300, "allocation size")?;
            let size = n.saturating_mul(m);
            if size > en.cfg.max_heap || st.heap + size > en.cfg.max_heap {
                if st.may_panic {
                    return Err(Stop::End(End::Panic("out of memory".into())));
                }
                *en.limits.entry(format!("allocation over {} bytes", en.cfg.max_heap)).or_insert(0) += 1;
                return Err(Stop::End(End::Skip));
            }
            Some(Val::I(en.alloc(st, size, 16, 2)))
        }
        Bi::PosixMemalign => {
            let p = int(&args[0]);
            let size = en.concretize(st, &args[2].clone(), 64, 300, "allocation size")?;
            let a = en.alloc(st, size, 16, 2);
            en.store_bytes(st, p, 8, &Val::I(a))?;
            Some(Val::I(0))
        }
        Bi::RRealloc | Bi::Realloc => {
            let p = en.concretize(st, &args[0].clone(), 64, 16, "realloc pointer")?;
            let ni = if b == Bi::RRealloc { 3 } else { 1 };
            let size = en.concretize(st, &args[ni].clone(), 64, 300, "allocation size")?;
            if size > en.cfg.max_heap || st.heap + size > en.cfg.max_heap {
                if st.may_panic {
                    return Err(Stop::End(End::Panic("out of memory".into())));
                }
                *en.limits.entry(format!("allocation over {} bytes", en.cfg.max_heap)).or_insert(0) += 1;
                return Err(Stop::End(End::Skip));
            }
            let a = en.alloc(st, size, 16, 2);
            if p != 0 {
                let old = en.obj(st, p, 0, "realloc")?.0.data.len() as u64;
                en.copy(st, a, p, old.min(size))?;
                en.dealloc(st, p)?;
            }
            Some(Val::I(a))
        }
        Bi::ReallocN => None,
        Bi::RDealloc | Bi::Free => {
            let p = en.concretize(st, &args[0].clone(), 64, 16, "free pointer")?;
            en.dealloc(st, p)?;
            None
        }
        Bi::Memcmp | Bi::Bcmp => {
            let n = en.concretize(st, &args[2].clone(), 64, 64, "memcmp length")?;
            if n == 0 {
                return Ok(Some(Val::I(0)));
            }
            let p = en.concretize(st, &args[0].clone(), 64, 16, "memcmp pointer")?;
            let q = en.concretize(st, &args[1].clone(), 64, 16, "memcmp pointer")?;
            let conc = {
                let (o1, f1) = en.obj(st, p, n, "read")?;
                let (o2, f2) = en.obj(st, q, n, "read")?;
                let nn = n as usize;
                let s1 = o1.sym.is_empty() || o1.sym[f1..f1 + nn].iter().all(|x| *x == 0);
                let s2 = o2.sym.is_empty() || o2.sym[f2..f2 + nn].iter().all(|x| *x == 0);
                if s1 && s2 {
                    Some(o1.data[f1..f1 + nn].cmp(&o2.data[f2..f2 + nn]))
                } else {
                    None
                }
            };
            if let Some(o) = conc {
                return Ok(Some(Val::I(match o {
                    std::cmp::Ordering::Less => 0xffff_ffff,
                    std::cmp::Ordering::Equal => 0,
                    std::cmp::Ordering::Greater => 1,
                })));
            }
            let zero = en.x.konst(0, 32);
            let m1 = en.x.konst(0xffff_ffff, 32);
            let one = en.x.konst(1, 32);
            let mut r = zero;
            if b == Bi::Bcmp {
                let mut eq = Ctx::T;
                for i in 0..n {
                    let (x, y) = (en.byte_e(st, p + i)?, en.byte_e(st, q + i)?);
                    let e = en.x.eq(x, y);
                    eq = en.x.and(eq, e);
                }
                r = en.x.ite(eq, zero, one);
            } else {
                for i in (0..n).rev() {
                    let (x, y) = (en.byte_e(st, p + i)?, en.byte_e(st, q + i)?);
                    let e = en.x.eq(x, y);
                    let lt = en.x.bin(Op::Ult, x, y);
                    let d = en.x.ite(lt, m1, one);
                    r = en.x.ite(e, r, d);
                }
            }
            Some(en.from_e(r))
        }
        Bi::Strlen => {
            let p = int(&args[0]);
            let (o, off) = en.obj(st, p, 1, "strlen")?;
            let n = o.data[off..].iter().position(|x| *x == 0).unwrap_or(0);
            Some(Val::I(n as u64))
        }
        Bi::Memchr => {
            let p = int(&args[0]);
            let n = int(&args[2]);
            let ce = en.to_e(&args[1], 32);
            let ch = en.x.extract(ce, 0, 8);
            for i in 0..n {
                let x = en.byte_e(st, p + i)?;
                let e = en.x.eq(x, ch);
                if en.decide(st, e)? {
                    return Ok(Some(Val::I(p + i)));
                }
            }
            Some(Val::I(0))
        }
        Bi::Nop0 => zero_ret(en, c),
        Bi::Statx => {
            let fd = int(&args[0]) as i32;
            match st.fds.get(&fd).copied() {
                Some((f, _)) => {
                    let p = int(&args[4]);
                    for i in 0..32 {
                        en.store_bytes(st, p + i * 8, 8, &Val::I(0))?;
                    }
                    en.store_bytes(st, p, 4, &Val::I(0x7ff))?;
                    en.store_bytes(st, p + 28, 2, &Val::I(0o100644))?;
                    let n = st.files[f].bytes.len() as u64;
                    en.store_bytes(st, p + 40, 8, &Val::I(n))?;
                    Some(Val::I(0))
                }
                None => {
                    let e = en.errno_obj;
                    en.store_bytes(st, e, 4, &Val::I(38))?;
                    Some(Val::I(0xffff_ffff))
                }
            }
        }
        Bi::Strerror => {
            let p = int(&args[1]);
            for (i, c) in b"error\0".iter().enumerate() {
                en.store_bytes(st, p + i as u64, 1, &Val::I(*c as u64))?;
            }
            Some(Val::I(0))
        }
        Bi::Limit => {
            st.limit = en.concretize(st, &args[0].clone(), 64, 64, "file size limit")?;
            None
        }
        Bi::Stdin => {
            match st.names.get("in") {
                Some(f) => st.fds.insert(0, (*f, 0)),
                None => return en.unsupported("no file named in"),
            };
            None
        }
        Bi::RetNeg1 => {
            let e = en.errno_obj;
            en.store_bytes(st, e, 4, &Val::I(38))?;
            Some(Val::I(0xffff_ffff))
        }
        Bi::RetNull => Some(Val::I(0)),
        Bi::HashKeys => {
            let s = en.cfg.hash_seed;
            Some(Val::A(Rc::new(vec![Val::I(0x0123_4567_89ab_cdef ^ s), Val::I(0xfeed_f00d_dead_beef ^ s.rotate_left(17))])))
        }
        Bi::Getrandom => {
            let p = int(&args[0]);
            let n = int(&args[1]);
            fill_random(en, st, p, n)?;
            Some(Val::I(n))
        }
        Bi::Syscall => {
            let nr = int(&args[0]);
            match nr {
                318 => {
                    let p = int(&args[1]);
                    let n = int(&args[2]);
                    fill_random(en, st, p, n)?;
                    Some(Val::I(n))
                }
                202 => Some(Val::I(0)), // futex
                _ => return en.unsupported(&format!("syscall {nr}")),
            }
        }
        Bi::Open => {
            let path = en.cstr(st, int(&args[0]), None);
            let fl = int(&args[1]);
            let temp = fl & 0o20200000 == 0o20200000 || fl & 0o200 != 0;
            let known = if temp { None } else { st.names.get(&path).copied() };
            if known.is_none() && fl & 0o100 == 0 && !temp {
                let e = en.errno_obj;
                en.store_bytes(st, e, 4, &Val::I(2))?;
                return Ok(Some(Val::I(u64::MAX)));
            }
            let f = match known {
                Some(f) => f,
                None => {
                    st.files.push(FileObj::default());
                    st.files.len() - 1
                }
            };
            if !temp {
                st.names.insert(path, f);
            }
            if fl & 0o1000 != 0 {
                st.files[f].bytes.clear();
            }
            let fd = st.fds.keys().next_back().map_or(3, |k| (k + 1).max(3));
            st.fds.insert(fd, (f, 0));
            Some(Val::I(fd as u64))
        }
        Bi::Stdout => {
            if int(&args[0]) & 1 == 1 {
                st.files.push(FileObj::default());
                st.fds.insert(1, (st.files.len() - 1, 0));
                let f = st.files.len() - 1;
                st.names.insert("stdout".into(), f);
            } else {
                st.fds.remove(&1);
            }
            None
        }
        Bi::Close => {
            let fd = int(&args[0]) as i32;
            st.fds.remove(&fd);
            Some(Val::I(0))
        }
        Bi::Ftruncate => {
            let fd = int(&args[0]) as i32;
            let n = int(&args[1]) as usize;
            if let Some((f, _)) = st.fds.get(&fd).copied() {
                let z = en.x.konst(0, 8);
                st.files[f].bytes.resize(n, z);
            }
            Some(Val::I(0))
        }
        Bi::Lseek => {
            let fd = int(&args[0]) as i32;
            let off = en.concretize(st, &args[1].clone(), 64, 64, "seek offset")? as i64;
            let wh = int(&args[2]);
            match st.fds.get(&fd).copied() {
                Some((f, pos)) => {
                    let base = match wh {
                        0 => 0,
                        1 => pos as i64,
                        _ => st.files[f].bytes.len() as i64,
                    };
                    let np = base.checked_add(off).unwrap_or(-1);
                    if np < 0 {
                        let e = en.errno_obj;
                        en.store_bytes(st, e, 4, &Val::I(22))?;
                        return Ok(Some(Val::I(u64::MAX)));
                    }
                    st.fds.insert(fd, (f, np as u64));
                    Some(Val::I(np as u64))
                }
                None => Some(Val::I(u64::MAX)),
            }
        }
        Bi::Read => {
            let fd = int(&args[0]) as i32;
            let p = int(&args[1]);
            let n = en.concretize(st, &args[2].clone(), 64, 64, "read length")?;
            match st.fds.get(&fd).copied() {
                Some((f, pos)) => {
                    let len = st.files[f].bytes.len() as u64;
                    let k = n.min(len.saturating_sub(pos));
                    for i in 0..k {
                        let b = st.files[f].bytes[(pos + i) as usize];
                        let v = en.from_e(b);
                        en.store_bytes(st, p + i, 1, &v)?;
                    }
                    st.fds.insert(fd, (f, pos + k));
                    Some(Val::I(k))
                }
                None => Some(Val::I(u64::MAX)),
            }
        }
        Bi::Write => {
            let fd = int(&args[0]) as i32;
            let p = int(&args[1]);
            let n = en.concretize(st, &args[2].clone(), 64, 64, "write length")?;
            if fd == 2 && std::env::var_os("FCBSYM_STDERR").is_some() {
                eprint!("{}", en.cstr(st, p, Some(n)));
            }
            if fd == 2 || (fd == 1 && !st.fds.contains_key(&1)) {
                return Ok(Some(Val::I(n)));
            }
            match st.fds.get(&fd).copied() {
                Some((_, pos)) if n > 0 && pos >= st.limit => {
                    let e = en.errno_obj;
                    en.store_bytes(st, e, 4, &Val::I(27))?;
                    Some(Val::I(u64::MAX))
                }
                Some((f, pos)) => {
                    let n = n.min(st.limit - pos);
                    let z = en.x.konst(0, 8);
                    for i in 0..n {
                        let b = en.byte_e(st, p + i)?;
                        let k = (pos + i) as usize;
                        if st.files[f].bytes.len() <= k {
                            st.files[f].bytes.resize(k + 1, z);
                        }
                        st.files[f].bytes[k] = b;
                    }
                    st.fds.insert(fd, (f, pos + n));
                    Some(Val::I(n))
                }
                None => Some(Val::I(u64::MAX)),
            }
        }
        Bi::ErrnoLoc => Some(Val::I(en.errno_obj)),
        Bi::Sysconf => Some(Val::I(4096)),
        Bi::Trunc(_) => None,
        Bi::Floor(k) => {
            let e = en.to_e(&args[0], 64);
            let r = en.x.un(Op::FRound, e, k, 64);
            Some(en.from_e(r))
        }
        Bi::Fmin => Some(fminmax(en, &args[0], &args[1], 64, false)),
        Bi::Fmax => Some(fminmax(en, &args[0], &args[1], 64, true)),
        Bi::Fmod => {
            let t = Ty::F64;
            let (a, b2) = (args[0].clone(), args[1].clone());
            Some(en.binop(st, 17, &t, &a, &b2)?)
        }
        Bi::Intr(i) => return intr(en, st, INTR[i as usize], fi, c, &mut args),
    })
}

fn zero_ret(en: &mut Engine, c: &Call) -> Option<Val> {
    match c.rty {
        Ty::Void | Ty::Fun => None,
        Ty::Int(w) => Some(en.kval(0, w)),
        _ => Some(Val::I(0)),
    }
}

fn fill_random(en: &mut Engine, st: &mut State, p: u64, n: u64) -> R<()> {
    let mut s = en.cfg.hash_seed ^ 0x9e37_79b9_7f4a_7c15;
    for i in 0..n {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        en.store_bytes(st, p + i, 1, &Val::I(s & 0xff))?;
    }
    Ok(())
}

fn fminmax(en: &mut Engine, a: &Val, b: &Val, w: u32, max: bool) -> Val {
    // IEEE minNum/maxNum: the other operand when one is NaN
    let (x, y) = (en.to_e(a, w), en.to_e(b, w));
    let nx = en.x.fcmp("uno", x, x);
    let lt = if max { en.x.fcmp("olt", x, y) } else { en.x.fcmp("ogt", x, y) };
    let take_y = en.x.or(nx, lt);
    let r = en.x.ite(take_y, y, x);
    en.from_e(r)
}

fn vmap1(en: &mut Engine, t: &Ty, a: &Val, f: &mut dyn FnMut(&mut Engine, &Ty, &Val) -> R<Val>) -> R<Val> {
    if let (Ty::Vec(_, e), Val::A(x)) = (t, a) {
        let mut r = vec![];
        for v in x.iter() {
            r.push(f(en, e, v)?);
        }
        return Ok(Val::A(Rc::new(r)));
    }
    f(en, t, a)
}
fn vmap2(en: &mut Engine, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Engine, &Ty, &Val, &Val) -> R<Val>) -> R<Val> {
    if let (Ty::Vec(_, e), Val::A(x), Val::A(y)) = (t, a, b) {
        let mut r = vec![];
        for i in 0..x.len() {
            r.push(f(en, e, &x[i], &y[i])?);
        }
        return Ok(Val::A(Rc::new(r)));
    }
    f(en, t, a, b)
}

fn intr(en: &mut Engine, st: &mut State, n: &str, fi: usize, c: &Call, args: &mut Vec<Val>) -> R<Option<Val>> {
    let t0 = c.args.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
    let _ = fi;
    Ok(match n {
        "llvm.assume" | "llvm.lifetime" | "llvm.experimental.noalias" | "llvm.x86.sse2.pause" | "llvm.prefetch" | "llvm.dbg"
        | "llvm.stackrestore" | "llvm.donothing" | "llvm.invariant" | "llvm.sideeffect" => zero_ret(en, c),
        "llvm.stacksave" => Some(Val::I(0)),
        "llvm.threadlocal.address" | "llvm.launder" | "llvm.strip" | "llvm.expect" => Some(args[0].clone()),
        "llvm.is.constant" | "llvm.objectsize" => Some(Val::I(0)),
        "llvm.trap" => return Err(Stop::End(End::Panic("trap".into()))),
        "llvm.memcpy" | "llvm.memmove" => {
            let len = en.concretize(st, &args[2].clone(), 64, 300, "copy length")?;
            if len == 0 {
                return Ok(None);
            }
            let d = en.addr(st, &args[0].clone())?;
            // symbolic source: concretise
            let s = en.concretize(st, &args[1].clone(), 64, 300, "copy source")?;
            en.copy(st, d, s, len)?;
            None
        }
        "llvm.memset" => {
            let len = en.concretize(st, &args[2].clone(), 64, 300, "set length")?;
            if len == 0 {
                return Ok(None);
            }
            let d = en.addr(st, &args[0].clone())?;
            match &args[1] {
                Val::I(b) => {
                    let b = *b as u8;
                    let (o, off) = en.obj_mut(st, d, len, "write")?;
                    o.data[off..off + len as usize].fill(b);
                    if !o.sym.is_empty() {
                        o.sym[off..off + len as usize].fill(0);
                    }
                }
                v => {
                    for i in 0..len {
                        en.store_bytes(st, d + i, 1, v)?;
                    }
                }
            }
            None
        }
        "llvm.uadd.with.overflow" | "llvm.usub.with.overflow" | "llvm.umul.with.overflow" | "llvm.sadd.with.overflow"
        | "llvm.ssub.with.overflow" | "llvm.smul.with.overflow" => {
            let w = en.width(&t0);
            let (a, b) = (en.to_e(&args[0], w), en.to_e(&args[1], w));
            let (r, o) = match n {
                "llvm.uadd.with.overflow" => {
                    let r = en.x.bin(Op::Add, a, b);
                    let o = en.x.bin(Op::Ult, r, a);
                    (r, o)
                }
                "llvm.usub.with.overflow" => {
                    let r = en.x.bin(Op::Sub, a, b);
                    let o = en.x.bin(Op::Ult, a, b);
                    (r, o)
                }
                "llvm.umul.with.overflow" => {
                    let r = en.x.bin(Op::Mul, a, b);
                    let o = if let Some(k) = en.x.cv(b).or(en.x.cv(a)) {
                        let v = if en.x.cv(b).is_some() { a } else { b };
                        if k == 0 {
                            Ctx::F
                        } else {
                            let lim = en.x.konst(mask(w) / k, w);
                            en.x.bin(Op::Ult, lim, v)
                        }
                    } else if w <= 64 {
                        let (za, zb) = (en.x.zext(a, 2 * w), en.x.zext(b, 2 * w));
                        let p = en.x.bin(Op::Mul, za, zb);
                        let h = en.x.extract(p, w, w);
                        let z = en.x.konst(0, w);
                        let e = en.x.eq(h, z);
                        en.x.not(e)
                    } else {
                        // division form
                        let z = en.x.konst(0, w);
                        let az = en.x.eq(a, z);
                        let q = en.x.bin(Op::UDiv, r, a);
                        let e = en.x.eq(q, b);
                        let ok = en.x.or(az, e);
                        en.x.not(ok)
                    };
                    (r, o)
                }
                _ => {
                    if w > 64 {
                        return en.unsupported("wide signed overflow");
                    }
                    let (sa, sb) = (en.x.sext(a, 2 * w), en.x.sext(b, 2 * w));
                    let op = match n {
                        "llvm.sadd.with.overflow" => Op::Add,
                        "llvm.ssub.with.overflow" => Op::Sub,
                        _ => Op::Mul,
                    };
                    let p = en.x.bin(op, sa, sb);
                    let r = en.x.bin(op, a, b);
                    let sr = en.x.sext(r, 2 * w);
                    let e = en.x.eq(p, sr);
                    (r, en.x.not(e))
                }
            };
            let v = vec![en.from_e(r), en.from_e(o)];
            Some(Val::A(Rc::new(v)))
        }
        "llvm.ctpop" | "llvm.ctlz" | "llvm.cttz" | "llvm.bswap" | "llvm.bitreverse" | "llvm.abs" | "llvm.fabs" | "llvm.floor"
        | "llvm.ceil" | "llvm.trunc" | "llvm.rint" | "llvm.nearbyint" | "llvm.roundeven" | "llvm.round" | "llvm.sqrt" => {
            let a = args[0].clone();
            let nn = n.to_string();
            Some(vmap1(en, &t0, &a, &mut |en, t, v| un1(en, &nn, t, v))?)
        }
        "llvm.fshl" | "llvm.fshr" => {
            let w = en.width(&t0);
            let (a, b) = (en.to_e(&args[0], w), en.to_e(&args[1], w));
            let s = match &args[2] {
                Val::I(s) => *s % w as u64,
                _ => {
                    // rotate by a symbolic amount
                    let s = en.to_e(&args[2], w);
                    let k = en.x.konst(w as u128, w);
                    let s = en.x.bin(Op::URem, s, k);
                    let z = en.x.konst(0, w);
                    let inv = en.x.bin(Op::Sub, k, s);
                    let isz = en.x.eq(s, z);
                    let (h, l) = if n == "llvm.fshl" { (s, inv) } else { (inv, s) };
                    let x = en.x.bin(Op::Shl, a, h);
                    let y = en.x.bin(Op::LShr, b, l);
                    let r = en.x.bin(Op::Or, x, y);
                    let r = en.x.ite(isz, if n == "llvm.fshl" { a } else { b }, r);
                    return Ok(Some(en.from_e(r)));
                }
            } as u32;
            let r = if s == 0 {
                if n == "llvm.fshl" { a } else { b }
            } else if n == "llvm.fshl" {
                let h = en.x.extract(a, 0, w - s);
                let l = en.x.extract(b, w - s, s);
                en.x.concat(h, l)
            } else {
                let h = en.x.extract(a, 0, s);
                let l = en.x.extract(b, s, w - s);
                en.x.concat(h, l)
            };
            Some(en.from_e(r))
        }
        "llvm.usub.sat" | "llvm.uadd.sat" | "llvm.ssub.sat" | "llvm.sadd.sat" | "llvm.umin" | "llvm.umax" | "llvm.smin"
        | "llvm.smax" | "llvm.ucmp" | "llvm.scmp" | "llvm.minnum" | "llvm.maxnum" | "llvm.copysign" | "llvm.minimumnum"
        | "llvm.maximumnum" | "llvm.ptrmask" => {
            let (a, b) = (args[0].clone(), args[1].clone());
            let nn = n.to_string();
            let rw = match &c.rty {
                Ty::Int(w) => *w,
                _ => 64,
            };
            Some(vmap2(en, &t0, &a, &b, &mut |en, t, x, y| bi2(en, &nn, t, x, y, rw))?)
        }
        "llvm.fptosi.sat" | "llvm.fptoui.sat" => {
            let a = args[0].clone();
            let to = c.rty.clone();
            let op = if n == "llvm.fptosi.sat" { Op::FToSI } else { Op::FToUI };
            match (&t0, &to) {
                (Ty::Vec(_, _), Ty::Vec(_, e)) => {
                    let tw = en.width(e);
                    Some(vmap1(en, &t0, &a, &mut |en, t, v| {
                        let w = en.width(t);
                        let x = en.to_e(v, w);
                        let r = en.x.un(op, x, 0, tw);
                        Ok(en.from_e(r))
                    })?)
                }
                _ => {
                    let (w, tw) = (en.width(&t0), en.width(&to));
                    let x = en.to_e(&a, w);
                    let r = en.x.un(op, x, 0, tw);
                    Some(en.from_e(r))
                }
            }
        }
        "llvm.fmuladd" => {
            // unfused on this target (no FMA feature enabled)
            let (a, b, d) = (args[0].clone(), args[1].clone(), args[2].clone());
            let m = en.binop(st, 15, &t0, &a, &b)?;
            Some(en.binop(st, 13, &t0, &m, &d)?)
        }
        "llvm.load.relative" => {
            let p = int(&args[0]);
            let off = en.concretize(st, &args[1].clone(), 64, 64, "place in a table of strings")?;
            let v = en.load_bytes(st, p.wrapping_add(off), 4)?;
            let v = int(&v);
            let d = match en.distances.get((v as usize).wrapping_sub(0x4000_0000)) {
                Some(d) => *d as i64,
                None => sext128(v as u128, 32) as i64,
            };
            Some(Val::I(p.wrapping_add(d as u64)))
        }
        "llvm.x86.sse2.pmovmskb" => {
            if let Val::A(x) = &args[0] {
                let x = x.clone();
                let mut acc: Option<E> = None;
                for v in x.iter() {
                    let e = en.to_e(v, 8);
                    let s = en.x.extract(e, 7, 1);
                    acc = Some(match acc {
                        None => s,
                        Some(a) => en.x.concat(s, a),
                    });
                }
                let r = en.x.zext(acc.unwrap(), 32);
                Some(en.from_e(r))
            } else {
                return en.unsupported("pmovmskb");
            }
        }
        "llvm.vector.reduce" => {
            let name = en.m.funcs[fi].name.clone();
            let l = match &args[0] {
                Val::A(x) => x.to_vec(),
                _ => return en.unsupported("reduce"),
            };
            let et = match &t0 {
                Ty::Vec(_, e) => (**e).clone(),
                _ => return en.unsupported("reduce"),
            };
            let kind = name.trim_start_matches("llvm.vector.reduce.").split('.').next().unwrap_or("").to_string();
            let mut acc = l[0].clone();
            for v in &l[1..] {
                acc = match kind.as_str() {
                    "add" => en.binop(st, 0, &et, &acc, v)?,
                    "mul" => en.binop(st, 2, &et, &acc, v)?,
                    "and" => en.binop(st, 7, &et, &acc, v)?,
                    "or" => en.binop(st, 8, &et, &acc, v)?,
                    "xor" => en.binop(st, 9, &et, &acc, v)?,
                    "umax" | "umin" | "smax" | "smin" => bi2(en, &format!("llvm.{kind}"), &et, &acc, v, 0)?,
                    _ => return en.unsupported(&name),
                };
            }
            Some(acc)
        }
        "llvm.is.fpclass" => {
            let w = en.width(&t0);
            let x = en.to_e(&args[0], w);
            let k = int(&args[1]);
            let (mb, eb) = if w == 64 { (52u32, 11u32) } else { (23, 8) };
            let man = en.x.extract(x, 0, mb);
            let ex = en.x.extract(x, mb, eb);
            let sg = en.x.extract(x, w - 1, 1);
            let z = en.x.konst(0, mb);
            let mz = en.x.eq(man, z);
            let nmz = en.x.not(mz);
            let e1 = en.x.konst(mask(eb), eb);
            let emax = en.x.eq(ex, e1);
            let e0k = en.x.konst(0, eb);
            let e0 = en.x.eq(ex, e0k);
            let ne = en.x.or(emax, e0);
            let norm = en.x.not(ne);
            let ns = en.x.not(sg);
            let q = en.x.extract(man, mb - 1, 1);
            let nq = en.x.not(q);
            let nan = en.x.and(emax, nmz);
            let cls = [
                en.x.and(nan, nq),
                en.x.and(nan, q),
                {
                    let i = en.x.and(emax, mz);
                    en.x.and(i, sg)
                },
                en.x.and(norm, sg),
                {
                    let i = en.x.and(e0, nmz);
                    en.x.and(i, sg)
                },
                {
                    let i = en.x.and(e0, mz);
                    en.x.and(i, sg)
                },
                {
                    let i = en.x.and(e0, mz);
                    en.x.and(i, ns)
                },
                {
                    let i = en.x.and(e0, nmz);
                    en.x.and(i, ns)
                },
                en.x.and(norm, ns),
                {
                    let i = en.x.and(emax, mz);
                    en.x.and(i, ns)
                },
            ];
            let mut r = Ctx::F;
            for (i, c) in cls.iter().enumerate() {
                if k >> i & 1 == 1 {
                    r = en.x.or(r, *c);
                }
            }
            Some(en.from_e(r))
        }
        _ => return en.unsupported(&format!("intrinsic {n}")),
    })
}

fn un1(en: &mut Engine, n: &str, t: &Ty, a: &Val) -> R<Val> {
    let w = en.width(t);
    if let Val::I(x) = a {
        let x = *x;
        let r = match n {
            "llvm.ctpop" => Some(x.count_ones() as u64),
            "llvm.ctlz" => Some((x.leading_zeros() - (64 - w)) as u64),
            "llvm.cttz" => Some(x.trailing_zeros().min(w) as u64),
            _ => None,
        };
        if let Some(r) = r {
            return Ok(Val::I(r));
        }
    }
    let e = en.to_e(a, w);
    let r = match n {
        "llvm.bswap" => {
            let mut acc = en.x.extract(e, 0, 8);
            for i in 1..w / 8 {
                let b = en.x.extract(e, 8 * i, 8);
                acc = en.x.concat(acc, b);
            }
            acc
        }
        "llvm.bitreverse" => {
            let mut acc = en.x.extract(e, 0, 1);
            for i in 1..w {
                let b = en.x.extract(e, i, 1);
                acc = en.x.concat(acc, b);
            }
            acc
        }
        "llvm.ctpop" => {
            let mut acc = en.x.konst(0, w);
            for i in 0..w {
                let b = en.x.extract(e, i, 1);
                let z = en.x.zext(b, w);
                acc = en.x.bin(Op::Add, acc, z);
            }
            acc
        }
        "llvm.cttz" => {
            let mut acc = en.x.konst(w as u128, w);
            for i in (0..w).rev() {
                let b = en.x.extract(e, i, 1);
                let k = en.x.konst(i as u128, w);
                acc = en.x.ite(b, k, acc);
            }
            acc
        }
        "llvm.ctlz" => {
            let mut acc = en.x.konst(w as u128, w);
            for i in 0..w {
                let b = en.x.extract(e, i, 1);
                let k = en.x.konst((w - 1 - i) as u128, w);
                acc = en.x.ite(b, k, acc);
            }
            acc
        }
        "llvm.abs" => {
            let s = en.x.extract(e, w - 1, 1);
            let z = en.x.konst(0, w);
            let ng = en.x.bin(Op::Sub, z, e);
            en.x.ite(s, ng, e)
        }
        "llvm.fabs" => {
            let k = en.x.konst(mask(w) >> 1, w);
            en.x.bin(Op::And, e, k)
        }
        "llvm.sqrt" => en.x.un(Op::FSqrt, e, 0, w),
        _ => {
            let k = match n {
                "llvm.floor" => 0,
                "llvm.ceil" => 1,
                "llvm.trunc" => 2,
                "llvm.round" => 4,
                _ => 3,
            };
            en.x.un(Op::FRound, e, k, w)
        }
    };
    Ok(en.from_e(r))
}

fn bi2(en: &mut Engine, n: &str, t: &Ty, a: &Val, b: &Val, rw: u32) -> R<Val> {
    let w = en.width(t);
    if matches!(n, "llvm.minnum" | "llvm.minimumnum") {
        return Ok(fminmax(en, a, b, w, false));
    }
    if matches!(n, "llvm.maxnum" | "llvm.maximumnum") {
        return Ok(fminmax(en, a, b, w, true));
    }
    let (x, y) = (en.to_e(a, w), en.to_e(b, w));
    let r = match n {
        "llvm.usub.sat" => {
            let d = en.x.bin(Op::Sub, x, y);
            let z = en.x.konst(0, w);
            let c = en.x.bin(Op::Ult, x, y);
            en.x.ite(c, z, d)
        }
        "llvm.uadd.sat" => {
            let d = en.x.bin(Op::Add, x, y);
            let m = en.x.konst(mask(w), w);
            let c = en.x.bin(Op::Ult, d, x);
            en.x.ite(c, m, d)
        }
        "llvm.ssub.sat" | "llvm.sadd.sat" => {
            let (sx, sy) = (en.x.sext(x, w + 1), en.x.sext(y, w + 1));
            let s = en.x.bin(if n == "llvm.ssub.sat" { Op::Sub } else { Op::Add }, sx, sy);
            let hi = en.x.konst(mask(w) >> 1, w + 1);
            let lo = en.x.konst((1u128 << (w - 1)).wrapping_neg(), w + 1);
            let c1 = en.x.bin(Op::Slt, hi, s);
            let c2 = en.x.bin(Op::Slt, s, lo);
            let r = en.x.ite(c1, hi, s);
            let r = en.x.ite(c2, lo, r);
            en.x.extract(r, 0, w)
        }
        "llvm.umin" | "llvm.umax" | "llvm.smin" | "llvm.smax" => {
            let c = match n {
                "llvm.umin" => en.x.bin(Op::Ult, x, y),
                "llvm.umax" => en.x.bin(Op::Ult, y, x),
                "llvm.smin" => en.x.bin(Op::Slt, x, y),
                _ => en.x.bin(Op::Slt, y, x),
            };
            en.x.ite(c, x, y)
        }
        "llvm.ucmp" | "llvm.scmp" => {
            let lt = en.x.bin(if n == "llvm.ucmp" { Op::Ult } else { Op::Slt }, x, y);
            let eq = en.x.eq(x, y);
            let (m, z, o) = (en.x.konst(mask(rw), rw), en.x.konst(0, rw), en.x.konst(1, rw));
            let r = en.x.ite(eq, z, o);
            en.x.ite(lt, m, r)
        }
        "llvm.copysign" => {
            let s = en.x.extract(y, w - 1, 1);
            let m = en.x.extract(x, 0, w - 1);
            en.x.concat(s, m)
        }
        "llvm.ptrmask" => en.x.bin(Op::And, x, y),
        _ => return en.unsupported(n),
    };
    Ok(en.from_e(r))
}

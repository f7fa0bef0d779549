//! Z3 through its C API (dlopen), one incremental solver kept in step with the path condition.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn dlopen(f: *const c_char, fl: c_int) -> P;
    fn dlsym(h: P, n: *const c_char) -> P;
}

macro_rules! api {
    ($($name:ident : fn($($t:ty),*) $(-> $r:ty)?;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($t),*) $(-> $r)?,)* }
        impl Api {
            unsafe fn load(h: P) -> Api {
                Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    if p.is_null() { panic!("z3: no symbol {}", stringify!($name)); }
                    std::mem::transmute(p)
                },)* }
            }
        }
    }
}
api! {
    Z3_mk_config: fn() -> P;
    Z3_mk_context: fn(P) -> P;
    Z3_get_full_version: fn() -> *const c_char;
    Z3_set_error_handler: fn(P, P);
    Z3_get_error_code: fn(P) -> c_int;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_bool_sort: fn(P) -> P;
    Z3_mk_const: fn(P, P, P) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> P;
    Z3_mk_true: fn(P) -> P;
    Z3_mk_false: fn(P) -> P;
    Z3_mk_not: fn(P, P) -> P;
    Z3_mk_and: fn(P, c_uint, *const P) -> P;
    Z3_mk_or: fn(P, c_uint, *const P) -> P;
    Z3_mk_xor: fn(P, P, P) -> P;
    Z3_mk_eq: fn(P, P, P) -> P;
    Z3_mk_ite: fn(P, P, P, P) -> P;
    Z3_mk_bvadd: fn(P, P, P) -> P;
    Z3_mk_bvsub: fn(P, P, P) -> P;
    Z3_mk_bvmul: fn(P, P, P) -> P;
    Z3_mk_bvudiv: fn(P, P, P) -> P;
    Z3_mk_bvsdiv: fn(P, P, P) -> P;
    Z3_mk_bvurem: fn(P, P, P) -> P;
    Z3_mk_bvsrem: fn(P, P, P) -> P;
    Z3_mk_bvand: fn(P, P, P) -> P;
    Z3_mk_bvor: fn(P, P, P) -> P;
    Z3_mk_bvxor: fn(P, P, P) -> P;
    Z3_mk_bvnot: fn(P, P) -> P;
    Z3_mk_bvshl: fn(P, P, P) -> P;
    Z3_mk_bvlshr: fn(P, P, P) -> P;
    Z3_mk_bvashr: fn(P, P, P) -> P;
    Z3_mk_bvult: fn(P, P, P) -> P;
    Z3_mk_bvule: fn(P, P, P) -> P;
    Z3_mk_bvslt: fn(P, P, P) -> P;
    Z3_mk_bvsle: fn(P, P, P) -> P;
    Z3_mk_concat: fn(P, P, P) -> P;
    Z3_mk_extract: fn(P, c_uint, c_uint, P) -> P;
    Z3_mk_zero_ext: fn(P, c_uint, P) -> P;
    Z3_mk_sign_ext: fn(P, c_uint, P) -> P;
    Z3_mk_fpa_sort_64: fn(P) -> P;
    Z3_mk_fpa_sort_32: fn(P) -> P;
    Z3_mk_fpa_rne: fn(P) -> P;
    Z3_mk_fpa_rna: fn(P) -> P;
    Z3_mk_fpa_rtn: fn(P) -> P;
    Z3_mk_fpa_rtp: fn(P) -> P;
    Z3_mk_fpa_rtz: fn(P) -> P;
    Z3_mk_fpa_to_fp_bv: fn(P, P, P) -> P;
    Z3_mk_fpa_to_ieee_bv: fn(P, P) -> P;
    Z3_mk_fpa_add: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sub: fn(P, P, P, P) -> P;
    Z3_mk_fpa_mul: fn(P, P, P, P) -> P;
    Z3_mk_fpa_div: fn(P, P, P, P) -> P;
    Z3_mk_fpa_sqrt: fn(P, P, P) -> P;
    Z3_mk_fpa_round_to_integral: fn(P, P, P) -> P;
    Z3_mk_fpa_to_fp_float: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_signed: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_fp_unsigned: fn(P, P, P, P) -> P;
    Z3_mk_fpa_to_sbv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_to_ubv: fn(P, P, P, c_uint) -> P;
    Z3_mk_fpa_is_nan: fn(P, P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_mk_tactic: fn(P, *const c_char) -> P;
    Z3_tactic_inc_ref: fn(P, P);
    Z3_mk_solver_from_tactic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P);
    Z3_solver_dec_ref: fn(P, P);
    Z3_solver_assert: fn(P, P, P);
    Z3_solver_push: fn(P, P);
    Z3_solver_pop: fn(P, P, c_uint);
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_check_assumptions: fn(P, P, c_uint, *const P) -> c_int;
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_model_inc_ref: fn(P, P);
    Z3_model_dec_ref: fn(P, P);
    Z3_model_eval: fn(P, P, P, bool, *mut P) -> bool;
    Z3_get_numeral_string: fn(P, P) -> *const c_char;
    Z3_get_bool_value: fn(P, P) -> c_int;
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P);
    Z3_params_set_uint: fn(P, P, P, c_uint);
    Z3_solver_set_params: fn(P, P, P);
    Z3_inc_ref: fn(P, P);
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    z: Api,
    c: P,
    ast: Vec<P>,
    inc: P,
    stack: Vec<E>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub fpq: u64,
    pub version: String,
    vars_in: FxMap<u32, std::rc::Rc<Vec<u32>>>,
    since_reset: u64,
    pub timeout_ms: u32,
    pub sat_core: crate::sat::Sat,
    cache: FxMap<(u64, u64), Option<std::rc::Rc<Vec<(u32, u128)>>>>,
    pub cache_hits: u64,
    pub core_queries: u64,
    pub order_queries: u64,
    pub core_fallback: u64,
    pub xchecked: u64,
    /// every n-th unsatisfiable answer of the built-in core is asked of Z3 too
    pub xcheck: u64,
    pub max_conf: u64,
}

unsafe extern "C" fn on_err(_c: P, _e: c_int) {
    eprintln!("z3 error code {}", _e);
    std::process::exit(3)
}

impl Solver {
    pub fn new(lib: &str, timeout_ms: u32) -> Solver {
        unsafe {
            let n = CString::new(lib).unwrap();
            let h = dlopen(n.as_ptr(), 2);
            if h.is_null() {
                panic!("cannot open {lib}");
            }
            let z = Api::load(h);
            let cfg = (z.Z3_mk_config)();
            // plain (non reference counted) context: terms live as long as the context
            let c = {
                let n = CString::new("Z3_mk_context").unwrap();
                let _ = n;
                (z.Z3_mk_context)(cfg)
            };
            (z.Z3_set_error_handler)(c, on_err as *mut c_void);
            let version = CStr::from_ptr((z.Z3_get_full_version)()).to_string_lossy().into_owned();
            let mut s = Solver {
                z,
                c,
                ast: vec![],
                inc: std::ptr::null_mut(),
                stack: vec![],
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                fpq: 0,
                version,
                vars_in: Default::default(),
                since_reset: 0,
                timeout_ms,
                sat_core: crate::sat::Sat::new(),
                cache: Default::default(),
                cache_hits: 0,
                core_queries: 0,
                order_queries: 0,
                core_fallback: 0,
                xchecked: 0,
                xcheck: std::env::var("XCHECK").ok().and_then(|x| x.parse().ok()).unwrap_or(200),
                max_conf: 20_000,
            };
            s.inc = s.fresh("QF_BV");
            s
        }
    }
    unsafe fn fresh(&self, logic: &str) -> P {
        let z = &self.z;
        let l = CString::new(logic).unwrap();
        let s = if logic == "fp" {
            let n = CString::new("qffpbv").unwrap();
            let t = (z.Z3_mk_tactic)(self.c, n.as_ptr());
            (z.Z3_tactic_inc_ref)(self.c, t);
            (z.Z3_mk_solver_from_tactic)(self.c, t)
        } else {
            let sym = (z.Z3_mk_string_symbol)(self.c, l.as_ptr());
            (z.Z3_mk_solver_for_logic)(self.c, sym)
        };
        (z.Z3_solver_inc_ref)(self.c, s);
        let p = (z.Z3_mk_params)(self.c);
        (z.Z3_params_inc_ref)(self.c, p);
        let n = CString::new("timeout").unwrap();
        let sym = (z.Z3_mk_string_symbol)(self.c, n.as_ptr());
        (z.Z3_params_set_uint)(self.c, p, sym, self.timeout_ms);
        (z.Z3_solver_set_params)(self.c, s, p);
        s
    }
    /// translate to z3: width 1 -> Bool, otherwise bit-vector
    fn tr(&mut self, x: &Ctx, e: E) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(x.nodes.len(), std::ptr::null_mut());
        }
        let r = self.ast[e as usize];
        if !r.is_null() {
            return r;
        }
        let n = x.n(e);
        let w = n.w as u32;
        unsafe {
            let c = self.c;
            let r = match n.op {
                Op::Const => {
                    let v = x.cv(e).unwrap();
                    if w == 1 {
                        if v == 1 { (self.z.Z3_mk_true)(c) } else { (self.z.Z3_mk_false)(c) }
                    } else {
                        let s = CString::new(v.to_string()).unwrap();
                        (self.z.Z3_mk_numeral)(c, s.as_ptr(), (self.z.Z3_mk_bv_sort)(c, w))
                    }
                }
                Op::Var => {
                    let s = CString::new(format!("v{}_{}", n.a, w)).unwrap();
                    let sy = (self.z.Z3_mk_string_symbol)(c, s.as_ptr());
                    let so = if w == 1 { (self.z.Z3_mk_bool_sort)(c) } else { (self.z.Z3_mk_bv_sort)(c, w) };
                    (self.z.Z3_mk_const)(c, sy, so)
                }
                Op::Not => {
                    let a = self.tr(x, n.a);
                    if w == 1 { (self.z.Z3_mk_not)(c, a) } else { (self.z.Z3_mk_bvnot)(c, a) }
                }
                Op::Ite => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    let d = self.tr(x, n.c);
                    (self.z.Z3_mk_ite)(c, a, b, d)
                }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    if w == 1 {
                        let v = [a, b];
                        match n.op {
                            Op::And => (self.z.Z3_mk_and)(c, 2, v.as_ptr()),
                            Op::Or => (self.z.Z3_mk_or)(c, 2, v.as_ptr()),
                            _ => (self.z.Z3_mk_xor)(c, a, b),
                        }
                    } else {
                        match n.op {
                            Op::And => (self.z.Z3_mk_bvand)(c, a, b),
                            Op::Or => (self.z.Z3_mk_bvor)(c, a, b),
                            _ => (self.z.Z3_mk_bvxor)(c, a, b),
                        }
                    }
                }
                Op::Eq => {
                    let a = self.tr(x, n.a);
                    let b = self.tr(x, n.b);
                    (self.z.Z3_mk_eq)(c, a, b)
                }
                Op::Concat => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    (self.z.Z3_mk_concat)(c, a, b)
                }
                Op::Extract => {
                    let a = self.bv(x, n.a);
                    let r = (self.z.Z3_mk_extract)(c, n.b + w - 1, n.b, a);
                    if w == 1 { self.tobool(r) } else { r }
                }
                Op::ZExt => {
                    let a = self.bv(x, n.a);
                    (self.z.Z3_mk_zero_ext)(c, w - x.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.bv(x, n.a);
                    (self.z.Z3_mk_sign_ext)(c, w - x.w(n.a), a)
                }
                Op::FSqrt => {
                    let a = self.fp(x, n.a);
                    let r = (self.z.Z3_mk_fpa_sqrt)(c, (self.z.Z3_mk_fpa_rne)(c), a);
                    (self.z.Z3_mk_fpa_to_ieee_bv)(c, r)
                }
                Op::FRound => {
                    let a = self.fp(x, n.a);
                    let rm = match n.b {
                        0 => (self.z.Z3_mk_fpa_rtn)(c),
                        1 => (self.z.Z3_mk_fpa_rtp)(c),
                        2 => (self.z.Z3_mk_fpa_rtz)(c),
                        3 => (self.z.Z3_mk_fpa_rne)(c),
                        _ => (self.z.Z3_mk_fpa_rna)(c),
                    };
                    let r = (self.z.Z3_mk_fpa_round_to_integral)(c, rm, a);
                    (self.z.Z3_mk_fpa_to_ieee_bv)(c, r)
                }
                Op::FConv => {
                    let a = self.fp(x, n.a);
                    let so = self.fsort(w);
                    let r = (self.z.Z3_mk_fpa_to_fp_float)(c, (self.z.Z3_mk_fpa_rne)(c), a, so);
                    (self.z.Z3_mk_fpa_to_ieee_bv)(c, r)
                }
                Op::SIToF | Op::UIToF => {
                    let a = self.bv(x, n.a);
                    let so = self.fsort(w);
                    let rm = (self.z.Z3_mk_fpa_rne)(c);
                    let r = if n.op == Op::SIToF {
                        (self.z.Z3_mk_fpa_to_fp_signed)(c, rm, a, so)
                    } else {
                        (self.z.Z3_mk_fpa_to_fp_unsigned)(c, rm, a, so)
                    };
                    (self.z.Z3_mk_fpa_to_ieee_bv)(c, r)
                }
                Op::FToSI | Op::FToUI => self.ftoi(x, n),
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let a = self.fp(x, n.a);
                    let b = self.fp(x, n.b);
                    let rm = (self.z.Z3_mk_fpa_rne)(c);
                    let r = match n.op {
                        Op::FAdd => (self.z.Z3_mk_fpa_add)(c, rm, a, b),
                        Op::FSub => (self.z.Z3_mk_fpa_sub)(c, rm, a, b),
                        Op::FMul => (self.z.Z3_mk_fpa_mul)(c, rm, a, b),
                        _ => (self.z.Z3_mk_fpa_div)(c, rm, a, b),
                    };
                    (self.z.Z3_mk_fpa_to_ieee_bv)(c, r)
                }
                Op::FRem => {
                    eprintln!("symbolic frem unsupported");
                    std::process::exit(3)
                }
                _ => {
                    let a = self.bv(x, n.a);
                    let b = self.bv(x, n.b);
                    let f = match n.op {
                        Op::Add => self.z.Z3_mk_bvadd,
                        Op::Sub => self.z.Z3_mk_bvsub,
                        Op::Mul => self.z.Z3_mk_bvmul,
                        Op::UDiv => self.z.Z3_mk_bvudiv,
                        Op::SDiv => self.z.Z3_mk_bvsdiv,
                        Op::URem => self.z.Z3_mk_bvurem,
                        Op::SRem => self.z.Z3_mk_bvsrem,
                        Op::Shl => self.z.Z3_mk_bvshl,
                        Op::LShr => self.z.Z3_mk_bvlshr,
                        Op::AShr => self.z.Z3_mk_bvashr,
                        Op::Ult => self.z.Z3_mk_bvult,
                        Op::Ule => self.z.Z3_mk_bvule,
                        Op::Slt => self.z.Z3_mk_bvslt,
                        Op::Sle => self.z.Z3_mk_bvsle,
                        o => panic!("tr {:?}", o),
                    };
                    let r = f(c, a, b);
                    if w == 1 && matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                        self.tobool(r)
                    } else {
                        r
                    }
                }
            };
            (self.z.Z3_inc_ref)(c, r);
            if self.ast.len() <= e as usize {
                self.ast.resize(x.nodes.len(), std::ptr::null_mut());
            }
            self.ast[e as usize] = r;
            r
        }
    }
    unsafe fn tobool(&self, r: P) -> P {
        let one = CString::new("1").unwrap();
        let k = (self.z.Z3_mk_numeral)(self.c, one.as_ptr(), (self.z.Z3_mk_bv_sort)(self.c, 1));
        (self.z.Z3_mk_eq)(self.c, r, k)
    }
    /// bit-vector view
    fn bv(&mut self, x: &Ctx, e: E) -> P {
        let a = self.tr(x, e);
        if x.w(e) != 1 {
            return a;
        }
        unsafe {
            let c = self.c;
            let so = (self.z.Z3_mk_bv_sort)(c, 1);
            let one = CString::new("1").unwrap();
            let zero = CString::new("0").unwrap();
            let k1 = (self.z.Z3_mk_numeral)(c, one.as_ptr(), so);
            let k0 = (self.z.Z3_mk_numeral)(c, zero.as_ptr(), so);
            (self.z.Z3_mk_ite)(c, a, k1, k0)
        }
    }
    unsafe fn fsort(&self, w: u32) -> P {
        if w == 64 { (self.z.Z3_mk_fpa_sort_64)(self.c) } else { (self.z.Z3_mk_fpa_sort_32)(self.c) }
    }
    fn fp(&mut self, x: &Ctx, e: E) -> P {
        let a = self.bv(x, e);
        unsafe {
            let so = self.fsort(x.w(e));
            (self.z.Z3_mk_fpa_to_fp_bv)(self.c, a, so)
        }
    }
    unsafe fn ftoi(&mut self, x: &Ctx, n: Node) -> P {
        // saturating conversion: clamp cases by comparing in the FP domain through to_sbv/to_ubv
        let c = self.c;
        let w = n.w as u32;
        let signed = n.op == Op::FToSI;
        let a = self.fp(x, n.a);
        let rm = (self.z.Z3_mk_fpa_rtz)(c);
        let conv = if signed {
            (self.z.Z3_mk_fpa_to_sbv)(c, rm, a, w)
        } else {
            (self.z.Z3_mk_fpa_to_ubv)(c, rm, a, w)
        };
        // thresholds as fp constants of the source width, compared as bit keys
        let num = |s: &Self, v: u128, w: u32| {
            let cs = CString::new(v.to_string()).unwrap();
            (s.z.Z3_mk_numeral)(c, cs.as_ptr(), (s.z.Z3_mk_bv_sort)(c, w))
        };
        let ws = x.w(n.a);
        let abv = self.bv(x, n.a);
        let bits = |f: f64| -> u128 {
            if ws == 64 { f.to_bits() as u128 } else { (f as f32).to_bits() as u128 }
        };
        // sign bit and magnitude
        let sbit = (self.z.Z3_mk_extract)(c, ws - 1, ws - 1, abv);
        let neg = self.tobool(sbit);
        let m = num(self, mask(ws) >> 1, ws);
        let mag = (self.z.Z3_mk_bvand)(c, abv, m);
        let hi = if signed { 2f64.powi(w as i32 - 1) } else { 2f64.powi(w as i32) };
        let khi = num(self, bits(hi), ws);
        let big = (self.z.Z3_mk_bvule)(c, khi, mag); // |a| >= hi (or nan)
        let nan = (self.z.Z3_mk_fpa_is_nan)(c, a);
        let zero = num(self, 0, w);
        let (maxv, minv) = if signed {
            (num(self, mask(w) >> 1, w), num(self, 1u128 << (w - 1), w))
        } else {
            (num(self, mask(w), w), zero)
        };
        let sat = (self.z.Z3_mk_ite)(c, neg, minv, maxv);
        let inner = (self.z.Z3_mk_ite)(c, big, sat, conv);
        let inner = if signed { inner } else { (self.z.Z3_mk_ite)(c, neg, zero, inner) };
        (self.z.Z3_mk_ite)(c, nan, zero, inner)
    }

    pub fn vars_of(&mut self, x: &Ctx, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.vars_in.get(&e) {
            return v.clone();
        }
        let n = x.n(e);
        let mut r: Vec<u32> = vec![];
        let kids: &[u32] = match n.op {
            Op::Const => &[],
            Op::Var => {
                r.push(n.a);
                &[]
            }
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => &[n.a],
            Op::FSqrt | Op::FRound | Op::FConv | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF => &[n.a],
            Op::Ite => &[n.a, n.b, n.c],
            _ => &[n.a, n.b],
        };
        for &k in kids {
            let v = self.vars_of(x, k);
            r.extend(v.iter());
        }
        r.sort_unstable();
        r.dedup();
        let r = std::rc::Rc::new(r);
        self.vars_in.insert(e, r.clone());
        r
    }

    fn get_model(&mut self, x: &Ctx, s: P, base: &Model, only: Option<&[bool]>) -> Model {
        let mut m = Model { vals: base.vals.clone(), cache: Default::default() };
        unsafe {
            let zm = (self.z.Z3_solver_get_model)(self.c, s);
            (self.z.Z3_model_inc_ref)(self.c, zm);
            if m.vals.len() < x.vars.len() {
                m.vals.resize(x.vars.len(), 0);
            }
            for i in 0..x.vars.len() {
                let w = x.vars[i];
                if w == 0 {
                    continue;
                }
                if let Some(o) = only {
                    if !o.get(i).copied().unwrap_or(false) {
                        continue;
                    }
                }
                let nm = CString::new(format!("v{}_{}", i, w)).unwrap();
                let sy = (self.z.Z3_mk_string_symbol)(self.c, nm.as_ptr());
                let so = if w == 1 { (self.z.Z3_mk_bool_sort)(self.c) } else { (self.z.Z3_mk_bv_sort)(self.c, w) };
                let k = (self.z.Z3_mk_const)(self.c, sy, so);
                let mut out: P = std::ptr::null_mut();
                if (self.z.Z3_model_eval)(self.c, zm, k, true, &mut out) {
                    m.vals[i] = if w == 1 {
                        ((self.z.Z3_get_bool_value)(self.c, out) == 1) as u128
                    } else {
                        CStr::from_ptr((self.z.Z3_get_numeral_string)(self.c, out)).to_str().unwrap().parse().unwrap()
                    };
                }
            }
            (self.z.Z3_model_dec_ref)(self.c, zm);
        }
        m
    }

    /// Is pc /\ extra satisfiable?  pc is satisfied by `base`.
    pub fn check(&mut self, x: &Ctx, pc: &[E], extra: E, base: &Model) -> (Res, Option<Model>) {
        if extra == Ctx::F {
            return (Res::Unsat, None);
        }
        self.queries += 1;
        let t0 = Instant::now();
        // slice: constraints connected to extra through shared variables
        let mut inset: Vec<bool> = vec![false; x.vars.len()];
        for &v in self.vars_of(x, extra).iter() {
            inset[v as usize] = true;
        }
        let mut taken = vec![false; pc.len()];
        let mut fp = x.fp[extra as usize];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let vs = self.vars_of(x, c);
                if vs.iter().any(|&v| inset[v as usize]) {
                    taken[i] = true;
                    fp |= x.fp[c as usize];
                    for &v in vs.iter() {
                        if !inset[v as usize] {
                            inset[v as usize] = true;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        // the sliced query: order-independent key
        let mut slice: Vec<E> = pc.iter().enumerate().filter(|(i, _)| taken[*i]).map(|(_, &c)| c).collect();
        let key = {
            let mut s = slice.clone();
            s.sort_unstable();
            use std::hash::Hasher;
            let mut h1 = Fx::default();
            let mut h2 = Fx::default();
            h2.write_u64(0x9e37_79b9_7f4a_7c15);
            for &c in s.iter().chain(std::iter::once(&u32::MAX)).chain(std::iter::once(&extra)) {
                h1.write_u64(c as u64);
                h2.write_u64(c as u64 ^ 0x5bd1_e995_0000_0000);
            }
            (h1.finish(), h2.finish())
        };
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            let r = match r {
                None => {
                    self.unsat += 1;
                    (Res::Unsat, None)
                }
                Some(vs) => {
                    self.sat += 1;
                    let mut m = Model { vals: base.vals.clone(), cache: Default::default() };
                    if m.vals.len() < x.vars.len() {
                        m.vals.resize(x.vars.len(), 0);
                    }
                    for &(v, b) in vs.iter() {
                        m.vals[v as usize] = b;
                    }
                    self.recheck(x, &slice, extra, &m);
                    (Res::Sat, Some(m))
                }
            };
            self.time += t0.elapsed().as_secs_f64();
            return r;
        }
        if self.max_conf > 0 && Self::order_unsat(x, &slice, extra) {
            self.order_queries += 1;
            if self.xcheck > 0 && self.order_queries % self.xcheck == 0 && !fp {
                self.xchecked += 1;
                let (r, _) = self.z3(x, &slice, false, extra, base, &inset);
                if r == Res::Sat {
                    eprintln!("Z3 contradicts the order check on {}", x.show(extra, 6));
                    std::process::exit(3);
                }
            }
            self.unsat += 1;
            self.cache.insert(key, None);
            self.time += t0.elapsed().as_secs_f64();
            return (Res::Unsat, None);
        }
        if !fp && self.max_conf > 0 {
            self.core_queries += 1;
            if self.sat_core.size() > 4_000_000 {
                self.sat_core = crate::sat::Sat::new();
            }
            let mut lits: Vec<u32> = slice.iter().map(|&c| self.sat_core.lit(x, c)).collect();
            lits.push(self.sat_core.lit(x, extra));
            let r = self.sat_core.solve(&lits, self.max_conf);
            use crate::sat::SRes;
            if t0.elapsed().as_secs_f64() > 0.05 && std::env::var("SLOWQ").is_ok() {
                eprintln!("SLOW {:.3}s {:?}", t0.elapsed().as_secs_f64(), r);
                for &c in &slice {
                    eprintln!("   {}", x.show(c, 12));
                }
                eprintln!("  ? {}", x.show(extra, 12));
            }
            let out = match r {
                SRes::Sat => {
                    let mut m = Model { vals: base.vals.clone(), cache: Default::default() };
                    if m.vals.len() < x.vars.len() {
                        m.vals.resize(x.vars.len(), 0);
                    }
                    let mut vs = vec![];
                    for (v, &i) in inset.iter().enumerate() {
                        if i {
                            let b = x.var_node(v as u32).and_then(|e| self.sat_core.word(e)).unwrap_or(0);
                            m.vals[v] = b;
                            vs.push((v as u32, b));
                        }
                    }
                    self.sat_core.done();
                    self.sat += 1;
                    self.recheck(x, &slice, extra, &m);
                    self.cache.insert(key, Some(std::rc::Rc::new(vs)));
                    Some((Res::Sat, Some(m)))
                }
                SRes::Unsat => {
                    self.sat_core.done();
                    if self.xcheck > 0 && self.core_queries % self.xcheck == 0 {
                        self.xchecked += 1;
                        let (r, _) = self.z3(x, &slice, false, extra, base, &inset);
                        if r == Res::Sat {
                            eprintln!("Z3 contradicts the built-in solver on {}", x.show(extra, 6));
                            std::process::exit(3);
                        }
                    }
                    self.unsat += 1;
                    self.cache.insert(key, None);
                    Some((Res::Unsat, None))
                }
                SRes::Unknown => {
                    self.core_fallback += 1;
                    None
                }
            };
            if let Some(o) = out {
                self.time += t0.elapsed().as_secs_f64();
                return o;
            }
        }
        slice.shrink_to_fit();
        let r = self.z3(x, &slice, fp, extra, base, &inset);
        if t0.elapsed().as_secs_f64() > 0.2 && std::env::var("SLOWQ").is_ok() {
            eprintln!("SLOWZ3 fp={fp} {:.3}s {:?}", t0.elapsed().as_secs_f64(), r.0);
            for &c in &slice {
                eprintln!("   {}", x.show(c, 12));
            }
            eprintln!("  ? {}", x.show(extra, 12));
        }
        match &r {
            (Res::Unsat, _) => {
                self.unsat += 1;
                self.cache.insert(key, None);
            }
            (Res::Sat, Some(m)) => {
                self.sat += 1;
                let vs = inset.iter().enumerate().filter(|(_, i)| **i).map(|(v, _)| (v as u32, m.vals[v])).collect();
                self.cache.insert(key, Some(std::rc::Rc::new(vs)));
            }
            _ => self.unknown += 1,
        }
        self.time += t0.elapsed().as_secs_f64();
        r
    }
    /// Order theory: comparisons between terms (taken as opaque) form a graph; the query is
    /// unsatisfiable when the new comparison closes a strict cycle. (Incomplete, sound.)
    pub fn order_unsat(x: &Ctx, slice: &[E], extra: E) -> bool {
        // (u, v, strict): u <= v / u < v
        fn edges(x: &Ctx, c: E, signed: bool, out: &mut Vec<(E, E, bool)>) {
            let n = x.n(c);
            match n.op {
                Op::Eq if x.w(n.a) > 1 => {
                    out.push((n.a, n.b, false));
                    out.push((n.b, n.a, false));
                }
                Op::Ult if !signed => out.push((n.a, n.b, true)),
                Op::Ule if !signed => out.push((n.a, n.b, false)),
                Op::Slt if signed => out.push((n.a, n.b, true)),
                Op::Sle if signed => out.push((n.a, n.b, false)),
                Op::And if n.w == 1 => {
                    edges(x, n.a, signed, out);
                    edges(x, n.b, signed, out);
                }
                Op::Not => {
                    let m = x.n(n.a);
                    match m.op {
                        Op::Ult if !signed => out.push((m.b, m.a, false)),
                        Op::Ule if !signed => out.push((m.b, m.a, true)),
                        Op::Slt if signed => out.push((m.b, m.a, false)),
                        Op::Sle if signed => out.push((m.b, m.a, true)),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let ne = {
            let n = x.n(extra);
            if n.op == Op::Not && x.n(n.a).op == Op::Eq && x.w(x.n(n.a).a) > 1 {
                let m = x.n(n.a);
                Some((m.a, m.b))
            } else {
                None
            }
        };
        for signed in [false, true] {
            let mut mine = vec![];
            edges(x, extra, signed, &mut mine);
            if mine.is_empty() && ne.is_none() {
                continue;
            }
            let mut es = vec![];
            for &c in slice {
                edges(x, c, signed, &mut es);
            }
            let mut consts: Vec<(u128, E)> = vec![];
            for &(a, b, _) in es.iter().chain(mine.iter()) {
                for t in [a, b] {
                    if let Some(v) = x.cv(t) {
                        let w = x.w(t);
                        let v = if signed { v ^ (1u128 << (w - 1)) } else { v };
                        // only constants of one width are comparable
                        consts.push(((w as u128) << 120 | v, t));
                    }
                }
            }
            consts.sort_unstable();
            consts.dedup();
            for p in consts.windows(2) {
                if p[0].0 >> 120 == p[1].0 >> 120 {
                    es.push((p[0].1, p[1].1, true));
                }
            }
            es.extend(mine.iter().copied());
            let mut adj: FxMap<E, Vec<(E, bool)>> = Default::default();
            for &(a, b, s) in &es {
                adj.entry(a).or_default().push((b, s));
            }
            // path from v to u; need a strict edge?
            let path = |from: E, to: E, need: bool| -> bool {
                let mut best: FxMap<E, bool> = Default::default();
                let mut w = vec![(from, false)];
                best.insert(from, false);
                while let Some((n, s)) = w.pop() {
                    if n == to && (s || !need) {
                        return true;
                    }
                    if let Some(v) = adj.get(&n) {
                        for &(m, st) in v {
                            let ns = s || st;
                            match best.get(&m) {
                                Some(true) => continue,
                                Some(false) if !ns => continue,
                                _ => {}
                            }
                            best.insert(m, ns);
                            w.push((m, ns));
                        }
                    }
                }
                false
            };
            if let Some((a, b)) = ne {
                if path(a, b, false) && path(b, a, false) {
                    return true;
                }
                continue;
            }
            for &(u, v, strict) in &mine {
                if path(v, u, !strict) {
                    return true;
                }
            }
        }
        false
    }
    fn recheck(&self, x: &Ctx, slice: &[E], extra: E, m: &Model) {
        for &c in slice.iter().chain(std::iter::once(&extra)) {
            if x.eval(c, m) != 1 {
                eprintln!("solver/evaluator disagree on {}", x.show(c, 6));
                std::process::exit(3);
            }
        }
    }
    fn z3(&mut self, x: &Ctx, slice: &[E], fp: bool, extra: E, base: &Model, inset: &[bool]) -> (Res, Option<Model>) {
        unsafe {
            if fp {
                self.fpq += 1;
                let s = self.fresh("fp");
                for &c in slice {
                    let a = self.tr(x, c);
                    (self.z.Z3_solver_assert)(self.c, s, a);
                }
                let a = self.tr(x, extra);
                (self.z.Z3_solver_assert)(self.c, s, a);
                let r = (self.z.Z3_solver_check)(self.c, s);
                let out = self.finish(x, s, r, base, inset, slice, extra);
                (self.z.Z3_solver_dec_ref)(self.c, s);
                out
            } else {
                self.since_reset += 1;
                if self.since_reset > 3000 {
                    (self.z.Z3_solver_dec_ref)(self.c, self.inc);
                    self.inc = self.fresh("QF_BV");
                    self.stack.clear();
                    self.since_reset = 0;
                }
                // keep the assertion stack in step with the sliced path condition
                let want = slice;
                let mut k = 0;
                while k < self.stack.len() && k < want.len() && self.stack[k] == want[k] {
                    k += 1;
                }
                if self.stack.len() > k {
                    (self.z.Z3_solver_pop)(self.c, self.inc, (self.stack.len() - k) as u32);
                    self.stack.truncate(k);
                }
                for &c in &want[k..] {
                    let a = self.tr(x, c);
                    (self.z.Z3_solver_push)(self.c, self.inc);
                    (self.z.Z3_solver_assert)(self.c, self.inc, a);
                    self.stack.push(c);
                }
                let a = self.tr(x, extra);
                (self.z.Z3_solver_push)(self.c, self.inc);
                (self.z.Z3_solver_assert)(self.c, self.inc, a);
                let r = (self.z.Z3_solver_check)(self.c, self.inc);
                let s = self.inc;
                let out = self.finish(x, s, r, base, inset, slice, extra);
                (self.z.Z3_solver_pop)(self.c, self.inc, 1);
                out
            }
        }
    }
    fn finish(&mut self, x: &Ctx, s: P, r: c_int, base: &Model, inset: &[bool], pc: &[E], extra: E) -> (Res, Option<Model>) {
        match r {
            1 => {
                let m = self.get_model(x, s, base, Some(inset));
                // the solver's assignment is re-evaluated by our own evaluator: the encoding and the
                // evaluator have to agree on every constraint
                if x.eval(extra, &m) != 1 {
                    eprintln!("solver/evaluator disagree on {}", x.show(extra, 6));
                    std::process::exit(3);
                }
                for &c in pc {
                    if x.eval(c, &m) != 1 {
                        eprintln!("solver/evaluator disagree on pc {}", x.show(c, 6));
                        std::process::exit(3);
                    }
                }
                (Res::Sat, Some(m))
            }
            -1 => {
                (Res::Unsat, None)
            }
            _ => {
                (Res::Unknown, None)
            }
        }
    }
}

//! Hash-consed bit-vector expressions with a simplifier and a concrete evaluator.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Not,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    // floating point, operands and results are IEEE bit patterns
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FRound, // b: 0 floor 1 ceil 2 trunc 3 rint(even) 4 round(away)
    FConv,  // fp -> fp of other width
    FToSI,  // saturating, NaN -> 0
    FToUI,
    SIToF,
    UIToF,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, u32>,
    wide: Vec<u128>,
    widemap: FxMap<u128, u32>,
    /// number of leaves when the node is an ITE tree over constants (1 for a constant), 0 otherwise
    pub leaves: Vec<u16>,
    /// contains a floating point arithmetic node
    pub fp: Vec<bool>,
    pub vars: Vec<u32>, // var index -> width
    dyadic: FxMap<u32, Option<(E, i32)>>,
}

const MAX_LEAVES: u16 = 24;

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: vec![],
            map: Default::default(),
            wide: vec![],
            widemap: Default::default(),
            leaves: vec![],
            fp: vec![],
            vars: vec![],
            dyadic: Default::default(),
        };
        c.konst(0, 1); // id 0 = false
        c.konst(1, 1); // id 1 = true
        c
    }
    pub const F: E = 0;
    pub const T: E = 1;
    fn mk(&mut self, n: Node) -> E {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as u32;
        self.map.insert(n, id);
        self.nodes.push(n);
        let (lv, fp) = match n.op {
            Op::Const => (1, false),
            Op::Var => (0, false),
            Op::Ite => {
                let x = self.leaves[n.b as usize];
                let y = self.leaves[n.c as usize];
                (
                    if x > 0 && y > 0 { x.saturating_add(y) } else { 0 },
                    self.fp[n.a as usize] || self.fp[n.b as usize] || self.fp[n.c as usize],
                )
            }
            Op::Not | Op::ZExt | Op::SExt | Op::Extract => (0, self.fp[n.a as usize]),
            Op::FAdd
            | Op::FSub
            | Op::FMul
            | Op::FDiv
            | Op::FRem
            | Op::FSqrt
            | Op::FRound
            | Op::FConv
            | Op::FToSI
            | Op::FToUI
            | Op::SIToF
            | Op::UIToF => (0, true),
            _ => (0, self.fp[n.a as usize] || self.fp[n.b as usize]),
        };
        self.leaves.push(lv);
        self.fp.push(fp);
        id
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        if w <= 64 {
            self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: v as u32, c: (v >> 32) as u32 })
        } else {
            let k = match self.widemap.get(&v) {
                Some(&k) => k,
                None => {
                    self.wide.push(v);
                    let k = self.wide.len() as u32;
                    self.widemap.insert(v, k);
                    k
                }
            };
            self.mk(Node { op: Op::Const, w: w as u16, a: k, b: 0, c: 0 })
        }
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        while self.vars.len() <= idx as usize {
            self.vars.push(0)
        }
        self.vars[idx as usize] = w;
        self.mk(Node { op: Op::Var, w: w as u16, a: idx, b: 0, c: 0 })
    }
    pub fn var_node(&self, idx: u32) -> Option<E> {
        let w = *self.vars.get(idx as usize)?;
        self.map.get(&Node { op: Op::Var, w: w as u16, a: idx, b: 0, c: 0 }).copied()
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            Some(if n.a == 0 { (n.b as u128) | ((n.c as u128) << 32) } else { self.wide[n.a as usize - 1] })
        } else {
            None
        }
    }
    fn fold2(op: Op, x: u128, y: u128, w: u32) -> u128 {
        let m = mask(w);
        let sx = sext128(x, w);
        let sy = sext128(y, w);
        match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::UDiv => if y == 0 { m } else { x / y },
            Op::URem => if y == 0 { x } else { x % y },
            Op::SDiv => {
                if y == 0 {
                    if sx >= 0 { m } else { 1 }
                } else {
                    (sx.wrapping_div(sy) as u128) & m
                }
            }
            Op::SRem => if y == 0 { x } else { (sx.wrapping_rem(sy) as u128) & m },
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
            Op::LShr => if y >= w as u128 { 0 } else { x >> y },
            Op::AShr => {
                let s = if y >= w as u128 { (w - 1) as u128 } else { y };
                ((sx >> s) as u128) & m
            }
            Op::Eq => (x == y) as u128,
            Op::Ult => (x < y) as u128,
            Op::Ule => (x <= y) as u128,
            Op::Slt => (sx < sy) as u128,
            Op::Sle => (sx <= sy) as u128,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                if w == 64 {
                    let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    (match op {
                        Op::FAdd => a + b,
                        Op::FSub => a - b,
                        Op::FMul => a * b,
                        Op::FDiv => a / b,
                        _ => a % b,
                    })
                    .to_bits() as u128
                } else {
                    let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op {
                        Op::FAdd => a + b,
                        Op::FSub => a - b,
                        Op::FMul => a * b,
                        Op::FDiv => a / b,
                        _ => a % b,
                    })
                    .to_bits() as u128
                }
            }
            _ => panic!("fold2 {:?}", op),
        }
    }
    fn fold1(op: Op, x: u128, wi: u32, b: u32, wo: u32) -> u128 {
        let m = mask(wo);
        let fx = |x: u128| if wi == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
        match op {
            Op::Not => !x & m,
            Op::Extract => (x >> b) & m,
            Op::ZExt => x,
            Op::SExt => (sext128(x, wi) as u128) & m,
            Op::FSqrt => {
                if wo == 64 {
                    fx(x).sqrt().to_bits() as u128
                } else {
                    f32::from_bits(x as u32).sqrt().to_bits() as u128
                }
            }
            Op::FRound => {
                let v = fx(x);
                let r = match b {
                    0 => v.floor(),
                    1 => v.ceil(),
                    2 => v.trunc(),
                    3 => v.round_ties_even(),
                    _ => v.round(),
                };
                if wo == 64 {
                    r.to_bits() as u128
                } else {
                    (r as f32).to_bits() as u128
                }
            }
            Op::FConv => {
                if wo == 64 {
                    fx(x).to_bits() as u128
                } else {
                    (fx(x) as f32).to_bits() as u128
                }
            }
            Op::FToSI => {
                let v = fx(x);
                let lo = -(2f64.powi(wo as i32 - 1));
                let hi = 2f64.powi(wo as i32 - 1);
                let r: i128 = if v.is_nan() {
                    0
                } else if v < lo {
                    -(1i128 << (wo - 1))
                } else if v >= hi {
                    (1i128 << (wo - 1)) - 1
                } else {
                    v as i128
                };
                (r as u128) & m
            }
            Op::FToUI => {
                let v = fx(x);
                let hi = 2f64.powi(wo as i32);
                if v.is_nan() || v <= 0.0 {
                    0
                } else if v >= hi {
                    m
                } else {
                    v as u128
                }
            }
            Op::SIToF => {
                let s = sext128(x, wi);
                if wo == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 }
            }
            Op::UIToF => {
                if wo == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 }
            }
            _ => panic!("fold1 {:?}", op),
        }
    }
    fn is_cite(&self, e: E) -> bool {
        let l = self.leaves[e as usize];
        l > 1 && l <= MAX_LEAVES
    }
    fn commut(op: Op) -> bool {
        matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        let (mut ca, mut cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(Self::fold2(op, x, y, w), rw);
        }
        if Self::commut(op) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        // push through ITE trees of constants
        if cb.is_some() && self.is_cite(a) {
            return self.map_ite_l(op, a, b);
        }
        if ca.is_some() && self.is_cite(b) {
            return self.map_ite_r(op, a, b);
        }
        let m = mask(w);
        let na = self.n(a);
        let nb = self.n(b);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                    if na.op == Op::Sub {
                        if let Some(k2) = self.cv(na.a) {
                            let kk = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Sub, kk, na.b);
                        }
                    }
                }
                // (x - y) + y
                if na.op == Op::Sub && na.b == b {
                    return na.a;
                }
                if nb.op == Op::Sub && nb.b == a {
                    return nb.a;
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = cb {
                    let kk = self.konst(k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, kk);
                }
                if na.op == Op::Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if nb.op == Op::Add {
                        if let (Some(k1), Some(k2)) = (self.cv(na.b), self.cv(nb.b)) {
                            let d = self.bin(Op::Sub, na.a, nb.a);
                            let kk = self.konst(k1.wrapping_sub(k2), w);
                            return self.bin(Op::Add, d, kk);
                        }
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if w == 1 {
                    if self.is_neg(a, b) {
                        return Self::F;
                    }
                    // absorption with nested and
                    if na.op == Op::And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                }
                if let Some(k) = cb {
                    // contiguous mask
                    if w > 1 {
                        let lo = k.trailing_zeros();
                        let run = (k >> lo).trailing_ones();
                        if (k >> lo) == mask(run) {
                            let x = self.extract(a, lo, run);
                            let mut r = x;
                            if lo > 0 {
                                let z = self.konst(0, lo);
                                r = self.concat(r, z);
                            }
                            return self.zext(r, w);
                        }
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.cv(na.b) {
                            let kk = self.konst(k & k2, w);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                if w == 1 {
                    if self.is_neg(a, b) {
                        return Self::T;
                    }
                    if na.op == Op::Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                } else if let Some(r) = self.or_disjoint(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return self.not(a);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        if op != Op::AShr {
                            return self.konst(0, w);
                        }
                        let s = self.extract(a, w - 1, 1);
                        return self.sext(s, w);
                    }
                    let k = k as u32;
                    match op {
                        Op::Shl => {
                            let x = self.extract(a, 0, w - k);
                            let z = self.konst(0, k);
                            return self.concat(x, z);
                        }
                        Op::LShr => {
                            let x = self.extract(a, k, w - k);
                            return self.zext(x, w);
                        }
                        _ => {
                            let x = self.extract(a, k, w - k);
                            return self.sext(x, w);
                        }
                    }
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::Eq => {
                if a == b {
                    return Self::T;
                }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    if self.is_neg(a, b) {
                        return Self::F;
                    }
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => {
                            let wi = self.w(na.a);
                            if k > mask(wi) {
                                return Self::F;
                            }
                            let kk = self.konst(k, wi);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let wi = self.w(na.a);
                            let lowk = k & mask(wi);
                            if (sext128(lowk, wi) as u128) & m != k {
                                return Self::F;
                            }
                            let kk = self.konst(lowk, wi);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let wl = self.w(na.b);
                            let kh = self.konst(k >> wl, w - wl);
                            let kl = self.konst(k, wl);
                            let x = self.bin(Op::Eq, na.a, kh);
                            if x == Self::F {
                                return x;
                            }
                            let y = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Sub if k == 0 => return self.bin(Op::Eq, na.a, na.b),
                        Op::Xor if k == 0 => return self.bin(Op::Eq, na.a, na.b),
                        Op::Xor => {
                            if let Some(k2) = self.cv(na.b) {
                                let kk = self.konst(k ^ k2, w);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Not => {
                            let kk = self.konst(!k, w);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Or if k == 0 => {
                            let z = self.konst(0, w);
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let x = self.cv(na.b);
                            let y = self.cv(na.c);
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, na.b, b);
                                let q = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, p, q);
                            }
                        }
                        _ => {}
                    }
                } else {
                    // both symbolic
                    if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                        let x = self.bin(Op::Eq, na.a, nb.a);
                        let y = self.bin(Op::Eq, na.b, nb.b);
                        return self.bin(Op::And, x, y);
                    }
                    if na.op == nb.op
                        && (na.op == Op::ZExt || na.op == Op::SExt)
                        && self.w(na.a) == self.w(nb.a)
                    {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(m) {
                    return Self::F;
                }
                if cb == Some(1) {
                    let z = self.konst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.konst(0, w);
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if let Some(k) = cb {
                    if na.op == Op::ZExt {
                        let wi = self.w(na.a);
                        if k > mask(wi) {
                            return Self::T;
                        }
                        let kk = self.konst(k, wi);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                    if k == m {
                        let e = self.bin(Op::Eq, a, b);
                        return self.not(e);
                    }
                }
                if let Some(k) = ca {
                    if nb.op == Op::ZExt {
                        let wi = self.w(nb.a);
                        if k >= mask(wi) {
                            return Self::F;
                        }
                        let kk = self.konst(k, wi);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
                if w == 1 {
                    let x = self.not(a);
                    return self.bin(Op::And, x, b);
                }
            }
            Op::Ule => {
                let x = self.bin(Op::Ult, b, a);
                return self.not(x);
            }
            Op::Sle => {
                let x = self.bin(Op::Slt, b, a);
                return self.not(x);
            }
            Op::Slt => {
                if a == b {
                    return Self::F;
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
                if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Slt, na.a, nb.a);
                }
                if let Some(k) = cb {
                    let sk = sext128(k, w);
                    if na.op == Op::ZExt {
                        if sk <= 0 {
                            return Self::F;
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                    if na.op == Op::SExt {
                        let wi = self.w(na.a);
                        let lo = -(1i128 << (wi - 1));
                        let hi = (1i128 << (wi - 1)) - 1;
                        if sk > hi {
                            return Self::T;
                        }
                        if sk <= lo {
                            return Self::F;
                        }
                        let kk = self.konst(k, wi);
                        return self.bin(Op::Slt, na.a, kk);
                    }
                    if sk == 0 {
                        return self.extract(a, w - 1, 1);
                    }
                }
                if let Some(k) = ca {
                    let sk = sext128(k, w);
                    if nb.op == Op::ZExt {
                        if sk < 0 {
                            return Self::T;
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                    if nb.op == Op::SExt {
                        let wi = self.w(nb.a);
                        let lo = -(1i128 << (wi - 1));
                        let hi = (1i128 << (wi - 1)) - 1;
                        if sk >= hi {
                            return Self::F;
                        }
                        if sk < lo {
                            return Self::T;
                        }
                        let kk = self.konst(k, wi);
                        return self.bin(Op::Slt, kk, nb.a);
                    }
                    if sk == -1 {
                        let s = self.extract(b, w - 1, 1);
                        return self.not(s);
                    }
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw as u16, a, b, c: 0 })
    }
    fn map_ite_l(&mut self, op: Op, a: E, b: E) -> E {
        let n = self.n(a);
        if n.op == Op::Ite {
            let x = self.map_ite_l(op, n.b, b);
            let y = self.map_ite_l(op, n.c, b);
            return self.ite(n.a, x, y);
        }
        self.bin(op, a, b)
    }
    fn map_ite_r(&mut self, op: Op, a: E, b: E) -> E {
        let n = self.n(b);
        if n.op == Op::Ite {
            let x = self.map_ite_r(op, a, n.b);
            let y = self.map_ite_r(op, a, n.c);
            return self.ite(n.a, x, y);
        }
        self.bin(op, a, b)
    }
    fn is_neg(&self, a: E, b: E) -> bool {
        let na = self.n(a);
        let nb = self.n(b);
        (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a)
    }
    /// or of two values with syntactically disjoint bits -> concat
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        // Concat(x, 0_k) | ZExt(y) with w(y) <= k
        for (p, q) in [(a, b), (b, a)] {
            let np = self.n(p);
            if np.op == Op::Concat && self.cv(np.b) == Some(0) {
                let k = self.w(np.b);
                let nq = self.n(q);
                if nq.op == Op::ZExt && self.w(nq.a) <= k {
                    let y = self.zext(nq.a, k);
                    return Some(self.concat(np.a, y));
                }
            }
            // ZExt(Concat(x,0_k)) | ZExt(y)
            if np.op == Op::ZExt {
                let ni = self.n(np.a);
                if ni.op == Op::Concat && self.cv(ni.b) == Some(0) {
                    let k = self.w(ni.b);
                    let nq = self.n(q);
                    if nq.op == Op::ZExt && self.w(nq.a) <= k {
                        let y = self.zext(nq.a, k);
                        let c = self.concat(ni.a, y);
                        let w = self.w(p);
                        return Some(self.zext(c, w));
                    }
                }
            }
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        let w = n.w as u32;
        if let Some(v) = self.cv(a) {
            return self.konst(!v, w);
        }
        if n.op == Op::Not {
            return n.a;
        }
        if self.is_cite(a) {
            let x = self.not(n.b);
            let y = self.not(n.c);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0 })
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w as u32 + nl.w as u32;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.cv(hi), self.cv(lo)) {
            return self.konst((x << nl.w) | y, w);
        }
        if self.cv(hi) == Some(0) {
            return self.zext(lo, w);
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
            return self.extract(nh.a, nl.b, w);
        }
        // the pieces of a term whose top was flipped (a negation, stored and loaded)
        if nh.op == Op::Xor && nl.op == Op::Extract {
            if let Some(k) = self.cv(nh.b) {
                let x = self.n(nh.a);
                if x.op == Op::Extract && x.a == nl.a && x.b == nl.b + nl.w as u32 {
                    let e = self.extract(nl.a, nl.b, w);
                    let k = self.konst(k << nl.w, w);
                    return self.bin(Op::Xor, e, k);
                }
            }
        }
        // the pieces of one choice
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let x = self.concat(nh.b, nl.b);
            let y = self.concat(nh.c, nl.c);
            if self.n(x).op != Op::Concat && self.n(y).op != Op::Concat {
                return self.ite(nh.a, x, y);
            }
        }
        // extract(hi part of x) ++ x low piece that is a plain trunc handled above; also hi ++ (concat)
        if nl.op == Op::Concat {
            // reassociate to check merging hi with lo.hi
            let nlh = self.n(nl.a);
            if nh.op == Op::Extract && nlh.op == Op::Extract && nh.a == nlh.a && nh.b == nlh.b + nlh.w as u32 {
                let m = self.extract(nh.a, nlh.b, nh.w as u32 + nlh.w as u32);
                return self.concat(m, nl.b);
            }
        }
        if nh.op == Op::Concat {
            // left-assoc -> right-assoc canonical form: (x ++ y) ++ z  => x ++ (y ++ z)
            let t = self.concat(nh.b, lo);
            return self.concat(nh.a, t);
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ y = zext(x ++ y)
            let t = self.concat(nh.a, lo);
            return self.zext(t, w);
        }
        self.mk(Node { op: Op::Concat, w: w as u16, a: hi, b: lo, c: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w as u32);
        if lo == 0 && w == n.w as u32 {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.konst(v >> lo, w);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let x = self.extract(n.a, 0, lo + w - wl);
                let y = self.extract(n.b, lo, wl - lo);
                return self.concat(x, y);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                if lo >= wi {
                    return self.konst(0, w);
                }
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, wi - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let wi = self.w(n.a);
                if lo + w <= wi {
                    return self.extract(n.a, lo, w);
                }
                if lo < wi {
                    let x = self.extract(n.a, lo, wi - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, wi - 1, 1);
                return self.sext(x, w);
            }
            Op::Ite => {
                if self.is_cite(a) || w <= 8 && (self.cv(n.b).is_some() || self.cv(n.c).is_some()) {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.cv(n.b).is_some() || self.n(n.a).op == Op::Concat || self.n(n.b).op == Op::Concat {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w <= 64 && n.w > 64 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: w as u16, a, b: lo, c: 0 })
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.konst(v, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if self.is_cite(a) {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::ZExt, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = self.n(a);
        if n.w as u32 == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.konst(sext128(v, n.w as u32) as u128, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if self.is_cite(a) {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Node { op: Op::SExt, w: w as u16, a, b: 0, c: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if c == Self::T {
            return a;
        }
        if c == Self::F {
            return b;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if a == Self::T {
                return self.or(c, b);
            }
            if a == Self::F {
                let nn = self.not(c);
                return self.and(nn, b);
            }
            if b == Self::F {
                return self.and(c, a);
            }
            if b == Self::T {
                let nn = self.not(c);
                return self.or(nn, a);
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let d = self.or(c, nb.a);
            return self.ite(d, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w: w as u16, a: c, b: a, c: b })
    }
    pub fn un(&mut self, op: Op, a: E, b: u32, wo: u32) -> E {
        // floating point unary / conversions
        if let Some(v) = self.cv(a) {
            let wi = self.w(a);
            return self.konst(Self::fold1(op, v, wi, b, wo), wo);
        }
        if self.is_cite(a) {
            let n = self.n(a);
            let x = self.un(op, n.b, b, wo);
            let y = self.un(op, n.c, b, wo);
            return self.ite(n.a, x, y);
        }
        if matches!(op, Op::FToSI | Op::FToUI) {
            if let Some(r) = self.dy_to_int(a, op == Op::FToSI, wo) {
                return r;
            }
        }
        self.mk(Node { op, w: wo as u16, a, b, c: 0 })
    }

    // ---- exact dyadic form of a floating point term: value = bv (signed) * 2^exp, with no
    // rounding anywhere below (the sign of a zero is not represented)
    /// least and greatest signed value a term can have by its form
    fn bounds(&mut self, e: E, depth: u32) -> (i128, i128) {
        let w = self.w(e).min(120);
        let full = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        if self.w(e) > 120 {
            return full;
        }
        if let Some(v) = self.cv(e) {
            let v = sext128(v, w);
            return (v, v);
        }
        if depth == 0 {
            return full;
        }
        let n = self.n(e);
        let (lo, hi) = match n.op {
            Op::SExt => self.bounds(n.a, depth - 1),
            Op::ZExt => match self.bounds(n.a, depth - 1) {
                (l, h) if l >= 0 => (l, h),
                _ => (0, (1i128 << self.w(n.a)) - 1),
            },
            Op::Add | Op::Sub | Op::Mul => {
                let (a, b) = self.bounds(n.a, depth - 1);
                let (c, d) = self.bounds(n.b, depth - 1);
                match n.op {
                    Op::Add => (a + c, b + d),
                    Op::Sub => (a - d, b - c),
                    _ if w > 60 && [a, b, c, d].iter().any(|x| x.abs() >> 60 != 0) => return full,
                    _ => {
                        let p = [a * c, a * d, b * c, b * d];
                        (*p.iter().min().unwrap(), *p.iter().max().unwrap())
                    }
                }
            }
            Op::Ite => {
                let (a, b) = self.bounds(n.b, depth - 1);
                let (c, d) = self.bounds(n.c, depth - 1);
                (a.min(c), b.max(d))
            }
            _ => return full,
        };
        if lo < full.0 || hi > full.1 {
            full
        } else {
            (lo, hi)
        }
    }
    /// a signed term in as few bits as its form shows to be enough
    fn narrow(&mut self, e: E) -> E {
        let (lo, hi) = self.bounds(e, 16);
        let mag = |v: i128| if v < 0 { !v } else { v };
        let k = 129 - (mag(lo).max(mag(hi)) as u128).leading_zeros();
        if k < self.w(e) {
            self.extract(e, 0, k)
        } else {
            e
        }
    }
    fn dy_align(&mut self, x: E, ex: i32, y: E, ey: i32) -> Option<(E, E, i32)> {
        let e = ex.min(ey);
        let (wx, wy) = (self.w(x) + (ex - e) as u32, self.w(y) + (ey - e) as u32);
        let w = wx.max(wy);
        if w > 120 {
            return None;
        }
        let mut sh = |t: E, d: u32| {
            let t = self.sext(t, w);
            if d == 0 {
                t
            } else {
                let k = self.konst(d as u128, w);
                self.bin(Op::Shl, t, k)
            }
        };
        Some((sh(x, (ex - e) as u32), sh(y, (ey - e) as u32), e))
    }
    fn dy_const(&mut self, v: f64) -> Option<(E, i32)> {
        if !v.is_finite() {
            return None;
        }
        if v == 0.0 {
            return Some((self.konst(0, 1), 0));
        }
        let b = v.to_bits();
        let ex = ((b >> 52) & 0x7ff) as i32;
        if ex == 0 {
            return None;
        }
        let m = (b & ((1 << 52) - 1)) | 1 << 52;
        let tz = m.trailing_zeros();
        let m = (m >> tz) as i128;
        let w = 128 - m.leading_zeros() + 1;
        let m = if v < 0.0 { -m } else { m };
        Some((self.konst(m as u128 & mask(w), w), ex - 1075 + tz as i32))
    }
    pub fn dy(&mut self, e: E) -> Option<(E, i32)> {
        if let Some(v) = self.cv(e) {
            return match self.w(e) {
                64 => self.dy_const(f64::from_bits(v as u64)),
                32 => self.dy_const(f32::from_bits(v as u32) as f64),
                _ => None,
            };
        }
        let n = self.n(e);
        if !matches!(
            n.op,
            Op::SIToF | Op::UIToF | Op::FConv | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRound | Op::Ite | Op::Xor
        ) {
            return None;
        }
        if let Some(&r) = self.dyadic.get(&e) {
            return r;
        }
        let r = self.dy1(e, n);
        // keep only what the format holds exactly
        let lim = if self.w(e) == 64 { (54, 900) } else { (25, 100) };
        let r = r.filter(|&(b, x)| self.w(b) <= lim.0 && x.abs() < lim.1);
        self.dyadic.insert(e, r);
        r
    }
    fn dy1(&mut self, e: E, n: Node) -> Option<(E, i32)> {
        let wf = self.w(e);
        if wf != 64 && wf != 32 {
            return None;
        }
        match n.op {
            Op::SIToF => Some((self.narrow(n.a), 0)),
            Op::UIToF => {
                if self.bounds(n.a, 16).0 >= 0 {
                    return Some((self.narrow(n.a), 0));
                }
                let w = self.w(n.a);
                Some((self.zext(n.a, w + 1), 0))
            }
            Op::FConv => self.dy(n.a),
            Op::FAdd | Op::FSub => {
                let (x, ex) = self.dy(n.a)?;
                let (y, ey) = self.dy(n.b)?;
                let (x, y, ex) = self.dy_align(x, ex, y, ey)?;
                let w = self.w(x) + 1;
                if w > 120 {
                    return None;
                }
                let (x, y) = (self.sext(x, w), self.sext(y, w));
                Some((self.bin(if n.op == Op::FAdd { Op::Add } else { Op::Sub }, x, y), ex))
            }
            Op::FMul => {
                let (x, ex) = self.dy(n.a)?;
                let (y, ey) = self.dy(n.b)?;
                // a power of two only moves the exponent
                for (p, q) in [(x, y), (y, x)] {
                    if self.cv(p) == Some(1) && self.w(p) == 2 {
                        return Some((q, ex + ey));
                    }
                }
                let w = self.w(x) + self.w(y);
                if w > 120 {
                    return None;
                }
                let (x, y) = (self.sext(x, w), self.sext(y, w));
                Some((self.bin(Op::Mul, x, y), ex + ey))
            }
            Op::FDiv => {
                let (x, ex) = self.dy(n.a)?;
                let (y, ey) = self.dy(n.b)?;
                if self.cv(y) == Some(1) && self.w(y) == 2 {
                    return Some((x, ex - ey));
                }
                None
            }
            Op::FRound if n.b <= 1 => {
                let (x, ex) = self.dy(n.a)?;
                if ex >= 0 {
                    return Some((x, ex));
                }
                let w = self.w(x) + 1;
                let s = (-ex) as u32;
                if s >= w {
                    return None;
                }
                let mut x = self.sext(x, w);
                if n.b == 1 {
                    let k = self.konst((1u128 << s) - 1, w);
                    x = self.bin(Op::Add, x, k);
                }
                Some((self.extract(x, s, w - s), 0))
            }
            Op::Ite => {
                let (x, ex) = self.dy(n.b)?;
                let (y, ey) = self.dy(n.c)?;
                let (x, y, ex) = self.dy_align(x, ex, y, ey)?;
                Some((self.ite(n.a, x, y), ex))
            }
            Op::Xor => {
                let top = Some(1u128 << (wf - 1));
                let a = if self.cv(n.b) == top {
                    n.a
                } else if self.cv(n.a) == top {
                    n.b
                } else {
                    return None;
                };
                let (x, ex) = self.dy(a)?;
                let w = self.w(x) + 1;
                let x = self.sext(x, w);
                let z = self.konst(0, w);
                Some((self.bin(Op::Sub, z, x), ex))
            }
            _ => None,
        }
    }
    /// saturating conversion of an exact dyadic term to an integer
    fn dy_to_int(&mut self, a: E, signed: bool, wo: u32) -> Option<E> {
        let (x, ex) = self.dy(a)?;
        let w = (self.w(x) as i32 + ex.max(0)) as u32 + 1;
        if w > 120 || (ex < 0 && (-ex) as u32 >= w) {
            return None;
        }
        let mut x = self.sext(x, w);
        if ex > 0 {
            let k = self.konst(ex as u128, w);
            x = self.bin(Op::Shl, x, k);
        } else if ex < 0 {
            // towards zero
            let s = (-ex) as u32;
            let z = self.konst(0, w);
            let neg = self.bin(Op::Slt, x, z);
            let k = self.konst((1u128 << s) - 1, w);
            let up = self.bin(Op::Add, x, k);
            let t = self.ite(neg, up, x);
            let f = self.extract(t, s, w - s);
            x = self.sext(f, w);
        }
        let big = w.max(wo + 2);
        if big > 120 {
            return None;
        }
        let x = self.sext(x, big);
        let (lo, hi) = if signed { (-(1i128 << (wo - 1)), (1i128 << (wo - 1)) - 1) } else { (0, (1i128 << wo) - 1) };
        let (l, h) = (self.konst(lo as u128 & mask(big), big), self.konst(hi as u128 & mask(big), big));
        let below = self.bin(Op::Slt, x, l);
        let above = self.bin(Op::Slt, h, x);
        let t = self.ite(above, h, x);
        let t = self.ite(below, l, t);
        Some(self.extract(t, 0, wo))
    }

    // ---- floating comparison on bit patterns
    fn f_isnan(&mut self, a: E) -> E {
        let w = self.w(a);
        let (inf, mm) = if w == 64 {
            (0x7ff0_0000_0000_0000u128, 0x7fff_ffff_ffff_ffffu128)
        } else {
            (0x7f80_0000u128, 0x7fff_ffffu128)
        };
        let k = self.konst(mm, w);
        let x = self.bin(Op::And, a, k);
        let i = self.konst(inf, w);
        self.bin(Op::Ult, i, x)
    }
    fn f_key(&mut self, a: E) -> E {
        // monotone unsigned key, -0 mapped to +0
        let w = self.w(a);
        let mm = self.konst(mask(w) >> 1, w);
        let mag = self.bin(Op::And, a, mm);
        let z = self.konst(0, w);
        let isz = self.eq(mag, z);
        let s = self.extract(a, w - 1, 1);
        let top = self.konst(1u128 << (w - 1), w);
        let neg = self.bin(Op::Sub, top, mag);
        let pos = self.bin(Op::Add, top, mag);
        let _ = isz;
        self.ite(s, neg, pos)
    }
    pub fn fcmp(&mut self, pred: &str, a: E, b: E) -> E {
        match pred {
            "true" => return Self::T,
            "false" => return Self::F,
            _ => {}
        }
        if let (Some((x, ex)), Some((y, ey))) = (self.dy(a), self.dy(b)) {
            if let Some((x, y, _)) = self.dy_align(x, ex, y, ey) {
                return match &pred[1..] {
                    "no" => Self::F,
                    "rd" => Self::T,
                    "eq" => self.bin(Op::Eq, x, y),
                    "ne" => {
                        let e = self.bin(Op::Eq, x, y);
                        self.not(e)
                    }
                    "lt" => self.bin(Op::Slt, x, y),
                    "le" => self.bin(Op::Sle, x, y),
                    "gt" => self.bin(Op::Slt, y, x),
                    "ge" => self.bin(Op::Sle, y, x),
                    p => panic!("fcmp {p}"),
                };
            }
        }
        // an exact finite term against an infinity
        for (p, q, swap) in [(a, b, false), (b, a, true)] {
            let inf = match (self.w(q), self.cv(q)) {
                (64, Some(v)) if (0x7fe0_0000_0000_0000..=0x7ff0_0000_0000_0000).contains(&v) => 1,
                (64, Some(v)) if (0xffe0_0000_0000_0000..=0xfff0_0000_0000_0000).contains(&v) => -1,
                (32, Some(0x7f80_0000)) => 1,
                (32, Some(0xff80_0000)) => -1,
                _ => continue,
            };
            // less than 2^954 in magnitude, or than 2^125
            if self.dy(p).is_none() {
                continue;
            }
            // p < q iff inf > 0; seen from (a, b)
            let less = (inf > 0) != swap;
            return match &pred[1..] {
                "no" | "eq" => Self::F,
                "rd" | "ne" => Self::T,
                "lt" | "le" => if less { Self::T } else { Self::F },
                "gt" | "ge" => if less { Self::F } else { Self::T },
                x => panic!("fcmp {x}"),
            };
        }
        let na = self.f_isnan(a);
        let nb = self.f_isnan(b);
        let un = self.or(na, nb);
        if pred == "uno" {
            return un;
        }
        let ord = self.not(un);
        if pred == "ord" {
            return ord;
        }
        let (ka, kb) = (self.f_key(a), self.f_key(b));
        let r = match &pred[1..] {
            "eq" => self.bin(Op::Eq, ka, kb),
            "ne" => {
                let e = self.bin(Op::Eq, ka, kb);
                self.not(e)
            }
            "lt" => self.bin(Op::Ult, ka, kb),
            "le" => self.bin(Op::Ule, ka, kb),
            "gt" => self.bin(Op::Ult, kb, ka),
            "ge" => self.bin(Op::Ule, kb, ka),
            x => panic!("fcmp {x}"),
        };
        if pred.starts_with('o') {
            self.and(ord, r)
        } else {
            self.or(un, r)
        }
    }

    pub fn eval(&self, e: E, m: &Model) -> u128 {
        if let Some(v) = self.cv(e) {
            return v;
        }
        let mut cache = m.cache.borrow_mut();
        self.ev(e, m, &mut cache)
    }
    fn ev(&self, e: E, m: &Model, cache: &mut FxMap<u32, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.cv(e).unwrap(),
            Op::Var => return m.vals.get(n.a as usize).copied().unwrap_or(0) & mask(n.w as u32),
            _ => {}
        }
        if let Some(&v) = cache.get(&e) {
            return v;
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Not => !self.ev(n.a, m, cache) & mask(w),
            Op::Extract => (self.ev(n.a, m, cache) >> n.b) & mask(w),
            Op::ZExt => self.ev(n.a, m, cache),
            Op::SExt => (sext128(self.ev(n.a, m, cache), self.w(n.a)) as u128) & mask(w),
            Op::Ite => {
                if self.ev(n.a, m, cache) != 0 {
                    self.ev(n.b, m, cache)
                } else {
                    self.ev(n.c, m, cache)
                }
            }
            Op::Concat => {
                let h = self.ev(n.a, m, cache);
                let l = self.ev(n.b, m, cache);
                (h << self.w(n.b)) | l
            }
            Op::FSqrt | Op::FRound | Op::FConv | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF => {
                let x = self.ev(n.a, m, cache);
                Self::fold1(n.op, x, self.w(n.a), n.b, w)
            }
            _ => {
                let x = self.ev(n.a, m, cache);
                let y = self.ev(n.b, m, cache);
                Self::fold2(n.op, x, y, self.w(n.a))
            }
        };
        cache.insert(e, v);
        v
    }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.n(e);
        if let Some(v) = self.cv(e) {
            return format!("{:#x}:{}", v, n.w);
        }
        if d == 0 {
            return "..".into();
        }
        match n.op {
            Op::Var => format!("v{}:{}", n.a, n.w),
            Op::Extract => format!("{}[{}+{}]", self.show(n.a, d - 1), n.b, n.w),
            Op::Not | Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Op::Ite => format!(
                "Ite({},{},{})",
                self.show(n.a, d - 1),
                self.show(n.b, d - 1),
                self.show(n.c, d - 1)
            ),
            Op::FSqrt | Op::FRound | Op::FConv | Op::FToSI | Op::FToUI | Op::SIToF | Op::UIToF => {
                format!("{:?}({})", n.op, self.show(n.a, d - 1))
            }
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}

#[derive(Default, Debug)]
pub struct Model {
    pub vals: Vec<u128>,
    pub cache: std::cell::RefCell<FxMap<u32, u128>>,
}

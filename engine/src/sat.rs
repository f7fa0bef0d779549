//! Bit-blaster and incremental CDCL SAT solver: decides the bit-vector queries.
//! Every satisfying assignment is re-evaluated by expr.rs; unsatisfiable answers are
//! cross-checked against Z3 on a sample (see solver.rs).
use crate::expr::*;

pub type Lit = u32; // var*2 + negated
pub const LT: Lit = 0;
pub const LF: Lit = 1;
#[inline(always)]
fn neg(l: Lit) -> Lit {
    l ^ 1
}
#[inline(always)]
fn var(l: Lit) -> usize {
    (l >> 1) as usize
}

#[derive(Clone, Copy)]
struct Watch {
    c: u32,
    b: Lit,
}
const NOREASON: u32 = u32::MAX;

pub struct Sat {
    // clause arena: [len | learnt<<31, lbd, lits..]
    ar: Vec<u32>,
    learnts: Vec<u32>,
    watches: Vec<Vec<Watch>>,
    val: Vec<i8>, // per literal
    level: Vec<u32>,
    reason: Vec<u32>,
    trail: Vec<Lit>,
    lim: Vec<usize>,
    qhead: usize,
    act: Vec<f64>,
    inc: f64,
    phase: Vec<bool>,
    heap: Vec<u32>,
    hpos: Vec<i32>,
    seen: Vec<bool>,
    incone: Vec<u32>,
    stamp: u32,
    fanin: Vec<[Lit; 3]>,
    gates: FxMap<(u8, Lit, Lit, Lit), Lit>,
    bits: Vec<(u32, u16)>, // node -> (start, len) in lits
    lits: Vec<Lit>,
    assumed: Vec<Lit>,
    pub conflicts: u64,
    pub props: u64,
    maxlearnt: usize,
    lbdstamp: Vec<u32>,
    lbdn: u32,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum SRes {
    Sat,
    Unsat,
    Unknown,
}

impl Sat {
    pub fn new() -> Sat {
        let mut s = Sat {
            ar: vec![],
            learnts: vec![],
            watches: vec![],
            val: vec![],
            level: vec![],
            reason: vec![],
            trail: vec![],
            lim: vec![],
            qhead: 0,
            act: vec![],
            inc: 1.0,
            phase: vec![],
            heap: vec![],
            hpos: vec![],
            seen: vec![],
            incone: vec![],
            stamp: 0,
            fanin: vec![],
            gates: Default::default(),
            bits: vec![],
            lits: vec![],
            assumed: vec![],
            conflicts: 0,
            props: 0,
            maxlearnt: 8000,
            lbdstamp: vec![],
            lbdn: 0,
        };
        let t = s.newvar([LF; 3]); // variable 0: true
        s.enqueue(t, NOREASON);
        s
    }
    pub fn size(&self) -> usize {
        self.level.len()
    }
    fn newvar(&mut self, f: [Lit; 3]) -> Lit {
        let v = self.level.len();
        self.watches.push(vec![]);
        self.watches.push(vec![]);
        self.val.push(0);
        self.val.push(0);
        self.level.push(0);
        self.reason.push(NOREASON);
        self.act.push(0.0);
        self.phase.push(false);
        self.hpos.push(-1);
        self.seen.push(false);
        self.incone.push(0);
        self.fanin.push(f);
        (v as Lit) * 2
    }
    #[inline(always)]
    fn enqueue(&mut self, l: Lit, r: u32) {
        self.val[l as usize] = 1;
        self.val[neg(l) as usize] = -1;
        let v = var(l);
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    /// add a clause; only at level 0
    fn clause(&mut self, c: &[Lit]) {
        if !self.lim.is_empty() {
            self.cancel(0);
            self.assumed.clear();
        }
        let mut v: Vec<Lit> = vec![];
        for &l in c {
            if self.val[l as usize] == 1 {
                return;
            }
            if self.val[l as usize] == -1 {
                continue;
            }
            if v.contains(&neg(l)) {
                return;
            }
            if !v.contains(&l) {
                v.push(l);
            }
        }
        match v.len() {
            0 => panic!("definitions are inconsistent"),
            1 => self.enqueue(v[0], NOREASON),
            _ => {
                self.alloc(&v, false, 0);
            }
        }
    }
    fn alloc(&mut self, v: &[Lit], learnt: bool, lbd: u32) -> u32 {
        let c = self.ar.len() as u32;
        self.ar.push(v.len() as u32 | ((learnt as u32) << 31));
        self.ar.push(lbd);
        self.ar.extend_from_slice(v);
        self.watches[neg(v[0]) as usize].push(Watch { c, b: v[1] });
        self.watches[neg(v[1]) as usize].push(Watch { c, b: v[0] });
        c
    }
    fn propagate(&mut self) -> u32 {
        let mut confl = NOREASON;
        while self.qhead < self.trail.len() {
            let p = self.trail[self.qhead];
            self.qhead += 1;
            self.props += 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let mut i = 0;
            let mut j = 0;
            let np = neg(p);
            while i < ws.len() {
                let w = ws[i];
                i += 1;
                if self.val[w.b as usize] == 1 {
                    ws[j] = w;
                    j += 1;
                    continue;
                }
                let base = w.c as usize;
                let len = (self.ar[base] & 0x7fff_ffff) as usize;
                if len == 0 {
                    continue; // deleted
                }
                let ls = base + 2;
                if self.ar[ls] == np {
                    self.ar.swap(ls, ls + 1);
                }
                let first = self.ar[ls];
                let nw = Watch { c: w.c, b: first };
                if first != w.b && self.val[first as usize] == 1 {
                    ws[j] = nw;
                    j += 1;
                    continue;
                }
                let mut found = false;
                for k in 2..len {
                    let l = self.ar[ls + k];
                    if self.val[l as usize] != -1 {
                        self.ar[ls + 1] = l;
                        self.ar[ls + k] = np;
                        self.watches[neg(l) as usize].push(nw);
                        found = true;
                        break;
                    }
                }
                if found {
                    continue;
                }
                ws[j] = nw;
                j += 1;
                if self.val[first as usize] == -1 {
                    confl = w.c;
                    self.qhead = self.trail.len();
                    while i < ws.len() {
                        ws[j] = ws[i];
                        i += 1;
                        j += 1;
                    }
                } else {
                    self.enqueue(first, w.c);
                }
            }
            ws.truncate(j);
            self.watches[p as usize] = ws;
            if confl != NOREASON {
                break;
            }
        }
        confl
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let to = self.lim[lvl];
        for i in (to..self.trail.len()).rev() {
            let l = self.trail[i];
            let v = var(l);
            self.val[l as usize] = 0;
            self.val[neg(l) as usize] = 0;
            self.phase[v] = l & 1 == 0;
            if self.incone[v] == self.stamp && self.hpos[v] < 0 {
                self.hins(v as u32);
            }
        }
        self.trail.truncate(to);
        self.lim.truncate(lvl);
        self.qhead = to;
    }
    // ---- heap
    fn up(&mut self, mut i: usize) {
        let x = self.heap[i];
        while i > 0 {
            let p = (i - 1) >> 1;
            if self.act[x as usize] <= self.act[self.heap[p] as usize] {
                break;
            }
            self.heap[i] = self.heap[p];
            self.hpos[self.heap[i] as usize] = i as i32;
            i = p;
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn down(&mut self, mut i: usize) {
        let x = self.heap[i];
        loop {
            let mut c = 2 * i + 1;
            if c >= self.heap.len() {
                break;
            }
            if c + 1 < self.heap.len() && self.act[self.heap[c + 1] as usize] > self.act[self.heap[c] as usize] {
                c += 1;
            }
            if self.act[self.heap[c] as usize] <= self.act[x as usize] {
                break;
            }
            self.heap[i] = self.heap[c];
            self.hpos[self.heap[i] as usize] = i as i32;
            i = c;
        }
        self.heap[i] = x;
        self.hpos[x as usize] = i as i32;
    }
    fn hins(&mut self, v: u32) {
        self.hpos[v as usize] = self.heap.len() as i32;
        self.heap.push(v);
        self.up(self.heap.len() - 1);
    }
    fn hpop(&mut self) -> Option<u32> {
        let x = *self.heap.first()?;
        let l = self.heap.pop().unwrap();
        self.hpos[x as usize] = -1;
        if !self.heap.is_empty() {
            self.heap[0] = l;
            self.hpos[l as usize] = 0;
            self.down(0);
        }
        Some(x)
    }
    fn bump(&mut self, v: usize) {
        self.act[v] += self.inc;
        if self.act[v] > 1e100 {
            for a in self.act.iter_mut() {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        if self.hpos[v] >= 0 {
            self.up(self.hpos[v] as usize);
        }
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<Lit>, usize, u32) {
        let mut out: Vec<Lit> = vec![0];
        let mut cnt = 0;
        let mut p: Lit = u32::MAX;
        let mut idx = self.trail.len();
        let cur = self.lim.len() as u32;
        let mut clear: Vec<usize> = vec![];
        loop {
            let base = confl as usize;
            let len = (self.ar[base] & 0x7fff_ffff) as usize;
            for k in 0..len {
                let q = self.ar[base + 2 + k];
                if q == p {
                    continue;
                }
                let v = var(q);
                if !self.seen[v] && self.level[v] > 0 {
                    self.seen[v] = true;
                    clear.push(v);
                    self.bump(v);
                    if self.level[v] >= cur {
                        cnt += 1;
                    } else {
                        out.push(q);
                    }
                }
            }
            loop {
                idx -= 1;
                if self.seen[var(self.trail[idx])] {
                    break;
                }
            }
            p = self.trail[idx];
            confl = self.reason[var(p)];
            cnt -= 1;
            if cnt == 0 {
                break;
            }
            self.seen[var(p)] = false;
        }
        out[0] = neg(p);
        // local minimisation
        let mut k = 1;
        for i in 1..out.len() {
            let l = out[i];
            let r = self.reason[var(l)];
            let mut keep = r == NOREASON;
            if !keep {
                let base = r as usize;
                let len = (self.ar[base] & 0x7fff_ffff) as usize;
                for t in 0..len {
                    let q = self.ar[base + 2 + t];
                    if var(q) != var(l) && !self.seen[var(q)] && self.level[var(q)] > 0 {
                        keep = true;
                        break;
                    }
                }
            }
            if keep {
                out[k] = l;
                k += 1;
            }
        }
        out.truncate(k);
        for v in clear {
            self.seen[v] = false;
        }
        // backjump level
        let mut bt = 0;
        if out.len() > 1 {
            let mut m = 1;
            for i in 2..out.len() {
                if self.level[var(out[i])] > self.level[var(out[m])] {
                    m = i;
                }
            }
            out.swap(1, m);
            bt = self.level[var(out[1])] as usize;
        }
        // lbd
        self.lbdn += 1;
        let mut lbd = 0;
        for &l in &out {
            let lv = self.level[var(l)] as usize;
            if self.lbdstamp.len() <= lv {
                self.lbdstamp.resize(lv + 1, 0);
            }
            if self.lbdstamp[lv] != self.lbdn {
                self.lbdstamp[lv] = self.lbdn;
                lbd += 1;
            }
        }
        (out, bt, lbd)
    }
    fn reduce(&mut self) {
        let mut ls = std::mem::take(&mut self.learnts);
        ls.sort_by_key(|&c| (self.ar[c as usize + 1], self.ar[c as usize] & 0x7fff_ffff));
        let keep = ls.len() / 2;
        let mut out = vec![];
        for (i, c) in ls.into_iter().enumerate() {
            let base = c as usize;
            let first = self.ar[base + 2];
            let locked = self.reason[var(first)] == c && self.val[first as usize] == 1;
            if i < keep || self.ar[base + 1] <= 2 || locked {
                out.push(c);
            } else {
                self.ar[base] = 0x8000_0000; // length 0: deleted
            }
        }
        self.learnts = out;
        self.maxlearnt += 500;
    }
    fn mark(&mut self, roots: &[Lit]) {
        self.stamp += 1;
        for v in self.heap.drain(..) {
            self.hpos[v as usize] = -1;
        }
        let st = self.stamp;
        let mut work: Vec<u32> = vec![];
        for &l in roots {
            let v = var(l);
            if v != 0 && self.incone[v] != st {
                self.incone[v] = st;
                work.push(v as u32);
            }
        }
        let mut i = 0;
        while i < work.len() {
            let v = work[i] as usize;
            i += 1;
            for &l in &self.fanin[v] {
                let u = var(l);
                if u != 0 && self.incone[u] != st {
                    self.incone[u] = st;
                    work.push(u as u32);
                }
            }
        }
        for v in work {
            // assigned ones come back through cancel()
            if self.val[2 * v as usize] == 0 {
                self.hpos[v as usize] = self.heap.len() as i32;
                self.heap.push(v);
            }
        }
        for i in (0..self.heap.len() / 2).rev() {
            self.down(i);
        }
    }
    fn luby(mut i: u64) -> u64 {
        loop {
            let mut k = 1;
            while (1u64 << k) - 1 < i + 1 {
                k += 1;
            }
            if (1u64 << k) - 1 == i + 1 {
                return 1 << (k - 1);
            }
            i -= (1u64 << (k - 1)) - 1;
        }
    }
    pub fn solve(&mut self, assumps: &[Lit], max_conf: u64) -> SRes {
        // keep the part of the trail that belongs to the common prefix of assumptions
        let mut k = 0;
        while k < self.lim.len() && k < self.assumed.len() && k < assumps.len() && self.assumed[k] == assumps[k] {
            k += 1;
        }
        self.cancel(k);
        self.assumed = assumps.to_vec();
        // first propagate the assumptions only; most queries end here
        let mut marked = false;
        let mut conf = 0u64;
        let mut restart = 0u64;
        let mut budget = 100 * Self::luby(0);
        loop {
            let c = self.propagate();
            if c != NOREASON {
                conf += 1;
                self.conflicts += 1;
                if self.lim.is_empty() {
                    panic!("definitions are inconsistent");
                }
                if !marked {
                    self.mark(assumps);
                    marked = true;
                }
                let (cl, bt, lbd) = self.analyze(c);
                self.cancel(bt);
                if cl.len() == 1 {
                    self.enqueue(cl[0], NOREASON);
                } else {
                    let cr = self.alloc(&cl, true, lbd);
                    self.learnts.push(cr);
                    self.enqueue(cl[0], cr);
                }
                self.inc /= 0.95;
                if conf > max_conf {
                    self.cancel(0);
                    return SRes::Unknown;
                }
                budget = budget.saturating_sub(1);
                continue;
            }
            if budget == 0 {
                restart += 1;
                budget = 100 * Self::luby(restart);
                self.cancel(assumps.len().min(self.lim.len()));
            }
            if self.learnts.len() > self.maxlearnt {
                self.reduce();
            }
            if self.lim.len() < assumps.len() {
                let p = assumps[self.lim.len()];
                match self.val[p as usize] {
                    1 => self.lim.push(self.trail.len()),
                    -1 => return SRes::Unsat,
                    _ => {
                        self.lim.push(self.trail.len());
                        self.enqueue(p, NOREASON);
                    }
                }
                continue;
            }
            if !marked {
                self.mark(assumps);
                marked = true;
            }
            let mut next = None;
            while let Some(v) = self.hpop() {
                if self.val[2 * v as usize] == 0 {
                    next = Some(v);
                    break;
                }
            }
            match next {
                None => return SRes::Sat,
                Some(v) => {
                    let l = 2 * v + if self.phase[v as usize] { 0 } else { 1 };
                    self.lim.push(self.trail.len());
                    self.enqueue(l, NOREASON);
                }
            }
        }
    }
    pub fn value(&self, l: Lit) -> bool {
        self.val[l as usize] == 1
    }
    // ---- gates
    fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == LF || b == LF || a == neg(b) {
            return LF;
        }
        if a == LT || a == b {
            return b;
        }
        if b == LT {
            return a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&o) = self.gates.get(&(0, a, b, 0)) {
            return o;
        }
        let o = self.newvar([a, b, LT]);
        self.clause(&[neg(o), a]);
        self.clause(&[neg(o), b]);
        self.clause(&[o, neg(a), neg(b)]);
        self.gates.insert((0, a, b, 0), o);
        o
    }
    fn or(&mut self, a: Lit, b: Lit) -> Lit {
        neg(self.and(neg(a), neg(b)))
    }
    fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        if a == b {
            return LF;
        }
        if a == neg(b) {
            return LT;
        }
        if a <= 1 {
            return if a == LT { neg(b) } else { b };
        }
        if b <= 1 {
            return if b == LT { neg(a) } else { a };
        }
        let inv = (a & 1) ^ (b & 1);
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if let Some(&o) = self.gates.get(&(1, a, b, 0)) {
            return o ^ inv;
        }
        let o = self.newvar([a, b, LT]);
        self.clause(&[neg(o), a, b]);
        self.clause(&[neg(o), neg(a), neg(b)]);
        self.clause(&[o, neg(a), b]);
        self.clause(&[o, a, neg(b)]);
        self.gates.insert((1, a, b, 0), o);
        o ^ inv
    }
    fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == LT || a == b {
            return a;
        }
        if c == LF {
            return b;
        }
        if a == LT || a == c {
            return self.or(c, b);
        }
        if a == LF || a == neg(c) {
            return self.and(neg(c), b);
        }
        if b == LT || b == neg(c) {
            return self.or(neg(c), a);
        }
        if b == LF || b == c {
            return self.and(c, a);
        }
        if a == neg(b) {
            return neg(self.xor(c, a));
        }
        let (c, a, b) = if c & 1 == 1 { (neg(c), b, a) } else { (c, a, b) };
        let inv = a & 1;
        let (a, b) = (a ^ inv, b ^ inv);
        if let Some(&o) = self.gates.get(&(2, c, a, b)) {
            return o ^ inv;
        }
        let o = self.newvar([c, a, b]);
        self.clause(&[neg(c), neg(a), o]);
        self.clause(&[neg(c), a, neg(o)]);
        self.clause(&[c, neg(b), o]);
        self.clause(&[c, b, neg(o)]);
        self.clause(&[neg(a), neg(b), o]);
        self.clause(&[a, b, neg(o)]);
        self.gates.insert((2, c, a, b), o);
        o ^ inv
    }
    fn maj(&mut self, a: Lit, b: Lit, c: Lit) -> Lit {
        let mut v = [a, b, c];
        v.sort_unstable();
        let [a, b, c] = v;
        if a == LT {
            return self.or(b, c);
        }
        if a == LF {
            return self.and(b, c);
        }
        if a == b || b == c {
            return b;
        }
        if a == neg(b) {
            return c;
        }
        if b == neg(c) {
            return a;
        }
        if let Some(&o) = self.gates.get(&(3, a, b, c)) {
            return o;
        }
        let o = self.newvar([a, b, c]);
        self.clause(&[neg(a), neg(b), o]);
        self.clause(&[neg(a), neg(c), o]);
        self.clause(&[neg(b), neg(c), o]);
        self.clause(&[a, b, neg(o)]);
        self.clause(&[a, c, neg(o)]);
        self.clause(&[b, c, neg(o)]);
        self.gates.insert((3, a, b, c), o);
        o
    }
    fn add(&mut self, a: &[Lit], b: &[Lit], mut c: Lit) -> (Vec<Lit>, Lit) {
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let t = self.xor(a[i], b[i]);
            r.push(self.xor(t, c));
            c = self.maj(a[i], b[i], c);
        }
        (r, c)
    }
    fn inv(a: &[Lit]) -> Vec<Lit> {
        a.iter().map(|&l| neg(l)).collect()
    }
    fn negate(&mut self, a: &[Lit]) -> Vec<Lit> {
        let n = Self::inv(a);
        let z = vec![LF; a.len()];
        self.add(&n, &z, LT).0
    }
    /// a < b unsigned: borrow of a - b
    fn ult(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut c = LF;
        for i in 0..a.len() {
            c = self.maj(neg(a[i]), b[i], c);
        }
        c
    }
    fn slt(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let n = a.len() - 1;
        let mut x = a.to_vec();
        let mut y = b.to_vec();
        x[n] = neg(x[n]);
        y[n] = neg(y[n]);
        self.ult(&x, &y)
    }
    fn eqv(&mut self, a: &[Lit], b: &[Lit]) -> Lit {
        let mut xs: Vec<Lit> = (0..a.len()).map(|i| neg(self.xor(a[i], b[i]))).collect();
        self.conj(&mut xs)
    }
    fn conj(&mut self, xs: &mut Vec<Lit>) -> Lit {
        xs.retain(|&x| x != LT);
        xs.sort_unstable();
        xs.dedup();
        if xs.is_empty() {
            return LT;
        }
        if xs.len() == 1 {
            return xs[0];
        }
        if xs.contains(&LF) {
            return LF;
        }
        while xs.len() > 1 {
            let mut n = vec![];
            for c in xs.chunks(2) {
                n.push(if c.len() == 2 { self.and(c[0], c[1]) } else { c[0] });
            }
            *xs = n;
        }
        xs[0]
    }
    fn muxv(&mut self, c: Lit, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        (0..a.len()).map(|i| self.mux(c, a[i], b[i])).collect()
    }
    fn mulv(&mut self, a: &[Lit], b: &[Lit]) -> Vec<Lit> {
        let w = a.len();
        let consts = |v: &[Lit]| v.iter().filter(|&&l| l <= 1).count();
        let (a, b) = if consts(a) > consts(b) { (b, a) } else { (a, b) };
        let mut acc = vec![LF; w];
        for i in 0..w {
            if b[i] == LF {
                continue;
            }
            let mut row = vec![LF; w];
            for j in 0..w - i {
                row[i + j] = self.and(a[j], b[i]);
            }
            acc = self.add(&acc, &row, LF).0;
        }
        acc
    }
    fn udivrem(&mut self, a: &[Lit], b: &[Lit]) -> (Vec<Lit>, Vec<Lit>) {
        let w = a.len();
        let mut r = vec![LF; w];
        let mut q = vec![LF; w];
        for i in (0..w).rev() {
            let top = r[w - 1];
            let mut s = vec![a[i]];
            s.extend_from_slice(&r[..w - 1]);
            // s (w+1 bits with top) >= b ?
            let lt = self.ult(&s, b);
            let ge = self.or(top, neg(lt));
            let nb = Self::inv(b);
            let d = self.add(&s, &nb, LT).0;
            r = self.muxv(ge, &d, &s);
            q[i] = ge;
        }
        // b == 0: every step subtracts zero, q = all ones, r = a, as SMT-LIB wants
        (q, r)
    }
    fn shift(&mut self, a: &[Lit], s: &[Lit], op: Op) -> Vec<Lit> {
        let w = a.len();
        let fill = if op == Op::AShr { a[w - 1] } else { LF };
        let mut r = a.to_vec();
        let mut big = LF;
        for k in 0..s.len() {
            if k < 20 && (1usize << k) < w {
                let d = 1usize << k;
                let sh: Vec<Lit> = (0..w)
                    .map(|i| {
                        if op == Op::Shl {
                            if i >= d { r[i - d] } else { LF }
                        } else if i + d < w {
                            r[i + d]
                        } else {
                            fill
                        }
                    })
                    .collect();
                r = self.muxv(s[k], &sh, &r);
            } else {
                big = self.or(big, s[k]);
            }
        }
        let f = vec![fill; w];
        self.muxv(big, &f, &r)
    }
    pub fn blast(&mut self, x: &Ctx, e: E) -> (u32, u16) {
        if self.bits.len() < x.nodes.len() {
            self.bits.resize(x.nodes.len(), (0, 0));
        }
        let r = self.bits[e as usize];
        if r.1 != 0 {
            return r;
        }
        let n = x.n(e);
        let w = n.w as usize;
        let get = |s: &mut Sat, k: E| -> Vec<Lit> {
            let (st, len) = s.blast(x, k);
            s.lits[st as usize..st as usize + len as usize].to_vec()
        };
        let v: Vec<Lit> = match n.op {
            Op::Const => {
                let c = x.cv(e).unwrap();
                (0..w).map(|i| if c >> i & 1 == 1 { LT } else { LF }).collect()
            }
            Op::Var => (0..w).map(|_| self.newvar([LT; 3])).collect(),
            Op::Not => Self::inv(&get(self, n.a)),
            Op::Extract => get(self, n.a)[n.b as usize..n.b as usize + w].to_vec(),
            Op::ZExt => {
                let mut v = get(self, n.a);
                v.resize(w, LF);
                v
            }
            Op::SExt => {
                let mut v = get(self, n.a);
                let t = *v.last().unwrap();
                v.resize(w, t);
                v
            }
            Op::Concat => {
                let mut v = get(self, n.b);
                v.extend(get(self, n.a));
                v
            }
            Op::Ite => {
                let c = get(self, n.a)[0];
                let a = get(self, n.b);
                let b = get(self, n.c);
                self.muxv(c, &a, &b)
            }
            _ => {
                let a = get(self, n.a);
                let b = get(self, n.b);
                match n.op {
                    Op::And => (0..w).map(|i| self.and(a[i], b[i])).collect(),
                    Op::Or => (0..w).map(|i| self.or(a[i], b[i])).collect(),
                    Op::Xor => (0..w).map(|i| self.xor(a[i], b[i])).collect(),
                    Op::Add => self.add(&a, &b, LF).0,
                    Op::Sub => {
                        let nb = Self::inv(&b);
                        self.add(&a, &nb, LT).0
                    }
                    Op::Mul => self.mulv(&a, &b),
                    Op::UDiv => self.udivrem(&a, &b).0,
                    Op::URem => self.udivrem(&a, &b).1,
                    Op::SDiv | Op::SRem => {
                        let sa = a[w - 1];
                        let sb = b[w - 1];
                        let na = self.negate(&a);
                        let nb = self.negate(&b);
                        let ua = self.muxv(sa, &na, &a);
                        let ub = self.muxv(sb, &nb, &b);
                        let (q, r) = self.udivrem(&ua, &ub);
                        if n.op == Op::SDiv {
                            let s = self.xor(sa, sb);
                            let nq = self.negate(&q);
                            self.muxv(s, &nq, &q)
                        } else {
                            let nr = self.negate(&r);
                            self.muxv(sa, &nr, &r)
                        }
                    }
                    Op::Shl | Op::LShr | Op::AShr => self.shift(&a, &b, n.op),
                    Op::Eq => vec![self.eqv(&a, &b)],
                    Op::Ult => vec![self.ult(&a, &b)],
                    Op::Ule => vec![neg(self.ult(&b, &a))],
                    Op::Slt => vec![self.slt(&a, &b)],
                    Op::Sle => vec![neg(self.slt(&b, &a))],
                    o => panic!("blast {o:?}"),
                }
            }
        };
        assert!(v.len() == w);
        let st = self.lits.len() as u32;
        self.lits.extend(v);
        self.bits[e as usize] = (st, w as u16);
        (st, w as u16)
    }
    pub fn lit(&mut self, x: &Ctx, e: E) -> Lit {
        let (s, n) = self.blast(x, e);
        assert!(n == 1);
        self.lits[s as usize]
    }
    /// bits of an already translated variable
    pub fn word(&self, e: E) -> Option<u128> {
        let (s, n) = *self.bits.get(e as usize)?;
        if n == 0 {
            return None;
        }
        let mut v = 0u128;
        for i in 0..n as usize {
            if self.value(self.lits[s as usize + i]) {
                v |= 1 << i;
            }
        }
        Some(v)
    }
    pub fn done(&mut self) {
        let n = self.assumed.len();
        self.cancel(n);
    }
}

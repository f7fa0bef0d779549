// The attribute index (static B+tree): build, lookup in memory / through a
// reader / over range requests, serialisation, operators, multi-field queries.
use chrono::{DateTime, Utc};
use fcb_core::static_btree::*;
use harness::{entries, net, sym};
use std::io::{Cursor, Seek, SeekFrom};

mod top {
    pub fn i8() -> i8 { i8::MAX }
    pub fn u8() -> u8 { u8::MAX }
    pub fn i16() -> i16 { i16::MAX }
    pub fn u16() -> u16 { u16::MAX }
    pub fn i32() -> i32 { i32::MAX }
    pub fn u32() -> u32 { u32::MAX }
    pub fn i64() -> i64 { i64::MAX }
    pub fn u64() -> u64 { u64::MAX }
    pub fn bool() -> bool { true }
}
/// A key type with symbolic values and an order of their own, taken from the
/// documented meaning of the type rather than from the crate.
trait KG: Key + 'static {
    type R: Copy + PartialOrd;
    fn sym() -> (Self, Self::R);
    fn kt(&self) -> KeyType;
    /// the greatest key of the type, where a value can have it
    fn top() -> Option<Self::R>;
    fn stream(sm: &mut StreamMultiIndex, f: &str, i: StreamIndex<Self>, len: u64);
}
macro_rules! prim {
    ($($t:ident $v:ident $a:ident),*) => {$(
        impl KG for $t {
            type R = $t;
            fn sym() -> ($t, $t) { let v = sym::$t(); (v, v) }
            fn kt(&self) -> KeyType { KeyType::$v(*self) }
            fn top() -> Option<$t> { Some(top::$t()) }
            fn stream(sm: &mut StreamMultiIndex, f: &str, i: StreamIndex<Self>, len: u64) { sm.$a(f.to_string(), i, len) }
        })*};
}
prim!(i8 Int8 add_i8_index, u8 UInt8 add_u8_index, i16 Int16 add_i16_index, u16 UInt16 add_u16_index, i32 Int32 add_i32_index,
    u32 UInt32 add_u32_index, i64 Int64 add_i64_index, u64 UInt64 add_u64_index, bool Bool add_bool_index);
impl KG for Float<f64> {
    type R = f64;
    fn sym() -> (Self, f64) {
        let v = sym::f64();
        (Float(v), v)
    }
    fn kt(&self) -> KeyType {
        KeyType::Float64(*self)
    }
    fn top() -> Option<Self::R> {
        Some(f64::INFINITY)
    }
    fn stream(sm: &mut StreamMultiIndex, f: &str, i: StreamIndex<Self>, len: u64) {
        sm.add_f64_index(f.to_string(), i, len)
    }
}
impl KG for Float<f32> {
    type R = f32;
    fn sym() -> (Self, f32) {
        let v = sym::f32();
        (Float(v), v)
    }
    fn kt(&self) -> KeyType {
        KeyType::Float32(*self)
    }
    fn top() -> Option<Self::R> {
        Some(f32::INFINITY)
    }
    fn stream(sm: &mut StreamMultiIndex, f: &str, i: StreamIndex<Self>, len: u64) {
        sm.add_f32_index(f.to_string(), i, len)
    }
}
/// instants from every decade the format can name, next to each other and on both sides of 1970
const TIMES: [(i64, u32); 6] = [
    (-62135596800, 0),       // 0001-01-01
    (-1, 999_999_999),       // just before the epoch
    (0, 0),                  // the epoch
    (1_700_000_000, 0),
    (1_700_000_000, 1),
    (253402300799, 999_999_999), // 9999-12-31T23:59:59.999999999
];
impl KG for DateTime<Utc> {
    type R = (i64, u32);
    fn sym() -> (Self, (i64, u32)) {
        let (s, n) = TIMES[sym::choose(TIMES.len() as u64)];
        (DateTime::from_timestamp(s, n).unwrap(), (s, n))
    }
    fn kt(&self) -> KeyType {
        KeyType::DateTime(*self)
    }
    fn top() -> Option<Self::R> {
        Some(TIMES[5])
    }
    fn stream(sm: &mut StreamMultiIndex, f: &str, i: StreamIndex<Self>, len: u64) {
        sm.add_datetime_index(f.to_string(), i, len)
    }
}
fn short_string() -> (String, [u8; 3]) {
    let n = sym::choose(3);
    let s = sym::ascii(n);
    let mut r = [0u8; 3];
    for (i, c) in s.bytes().enumerate() {
        r[i] = c;
    }
    (s, r)
}
macro_rules! strings {
    ($($n:literal $v:ident $a:ident),*) => {$(
        impl KG for FixedStringKey<$n> {
            type R = [u8; 3];
            fn sym() -> (Self, [u8; 3]) { let (s, r) = short_string(); (FixedStringKey::from_str(&s), r) }
            fn kt(&self) -> KeyType { KeyType::$v(self.clone()) }
            fn top() -> Option<Self::R> { None }
            fn stream(sm: &mut StreamMultiIndex, f: &str, i: StreamIndex<Self>, len: u64) { sm.$a(f.to_string(), i, len) }
        })*};
}
strings!(20 StringKey20 add_string_index20, 50 StringKey50 add_string_index50, 100 StringKey100 add_string_index100);

/// runs $f::<K>() for the key type number $k
macro_rules! with_kind {
    ($k:expr, $f:ident $(, $a:expr)*) => {
        match $k {
            0 => $f::<i32>($($a),*),
            1 => $f::<i8>($($a),*),
            2 => $f::<u8>($($a),*),
            3 => $f::<i16>($($a),*),
            4 => $f::<u16>($($a),*),
            5 => $f::<u32>($($a),*),
            6 => $f::<i64>($($a),*),
            7 => $f::<u64>($($a),*),
            8 => $f::<bool>($($a),*),
            9 => $f::<Float<f64>>($($a),*),
            10 => $f::<Float<f32>>($($a),*),
            11 => $f::<DateTime<Utc>>($($a),*),
            12 => $f::<FixedStringKey<20>>($($a),*),
            13 => $f::<FixedStringKey<50>>($($a),*),
            _ => $f::<FixedStringKey<100>>($($a),*),
        }
    };
}

const OPS: [Operator; 6] = [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Lt, Operator::Ge, Operator::Le];
fn holds<R: PartialOrd>(op: Operator, a: &R, q: &R) -> bool {
    match op {
        Operator::Eq => a == q,
        Operator::Ne => a != q,
        Operator::Gt => a > q,
        Operator::Lt => a < q,
        Operator::Ge => a >= q,
        Operator::Le => a <= q,
    }
}
/// feature offsets as a file has them: distinct, ascending, not multiples of anything
fn off(i: usize) -> u64 {
    (i as u64) * 37 + if i > 0 { 5 } else { 0 }
}
/// n symbolic entries; sorted 1: in nondecreasing order, 2: strictly increasing (smaller search spaces)
fn symbolic<K: KG>(n: usize, sorted: u64) -> (Vec<Entry<K>>, Vec<K::R>) {
    let mut es = Vec::with_capacity(n);
    let mut rs: Vec<K::R> = Vec::with_capacity(n);
    for i in 0..n {
        let (key, r) = K::sym();
        if sorted == 1 && i > 0 {
            sym::assume(rs[i - 1] <= r);
        }
        if sorted == 2 && i > 0 {
            sym::assume(rs[i - 1] < r);
        }
        es.push(Entry { key, offset: off(i) });
        rs.push(r);
    }
    (es, rs)
}
/// sorted 3: strictly increasing, any number of entries up to n
fn shape(n: usize, sorted: u64) -> (usize, u64) {
    if sorted == 3 { (1 + sym::choose(n as u64), 2) } else { (n, sorted) }
}
/// every entry is in the result exactly as often as `want` says
fn verify(got: &[u64], want: &[bool], what: &str) {
    let mut total = 0u64;
    for (i, w) in want.iter().enumerate() {
        let mut c = 0u64;
        for g in got {
            c += (*g == off(i)) as u64;
        }
        sym::check(c == *w as u64, what);
        total += c;
    }
    sym::check(total == got.len() as u64, what);
    sym::observe(got.len() as u64);
}

/// Recorded finding: a range lookup leaves out the entries of its upper bound `u` when that is the
/// first key of a leaf block other than the first.  Is `u` such a key?
fn block_start<R: PartialOrd>(rs: &[R], u: &R, b: u16) -> bool {
    let (mut below, mut present) = (0u64, false);
    for i in 0..rs.len() {
        let mut first = true;
        for j in 0..i {
            first &= rs[j] != rs[i];
        }
        below += (first & (rs[i] < *u)) as u64;
        present |= rs[i] == *u;
    }
    let mut at = false;
    let mut m = b as u64 - 1;
    while m < rs.len() as u64 {
        at |= below == m;
        m += b as u64 - 1;
    }
    at & present
}
const KNOWN_UPPER: &str = "a range lookup leaves out the entries of its upper bound, the first key of a leaf block";
/// like verify; `u` is the upper bound of the lookup behind the answer
fn verify_range<R: PartialOrd>(got: &[u64], want: &[bool], rs: &[R], u: &Option<R>, b: u16, sorted: u64, what: &str) {
    let count: Vec<u64> = (0..rs.len()).map(|i| got.iter().map(|g| (*g == off(i)) as u64).sum()).collect();
    sym::check(count.iter().sum::<u64>() == got.len() as u64, "a lookup returns only offsets of entries");
    for (i, w) in want.iter().enumerate() {
        if count[i] > 0 {
            sym::check(count[i] == 1 && *w, what);
            continue;
        }
        let excused = match u {
            None => false,
            Some(u) if sorted == 2 => i > 0 && i % (b as usize - 1) == 0 && rs[i] == *u,
            Some(u) => {
                // all entries of the bound are left out, or none
                let mut all = rs[i] == *u;
                for j in 0..rs.len() {
                    all &= (count[j] == 0) | (rs[j] != *u);
                }
                all & block_start(rs, u, b)
            }
        };
        sym::check(!*w | excused, what);
    }
    for (i, w) in want.iter().enumerate() {
        if count[i] == 0 {
            sym::check(!*w, KNOWN_UPPER);
        }
    }
    sym::observe(got.len() as u64);
}

/// the same index behind the three ways to ask it
enum Back<K: KG> {
    Mem(MemoryIndex<K>),
    Reader(Cursor<Vec<u8>>, StreamIndex<K>, u64),
    Http(http_range_client::AsyncBufferedHttpRangeClient<net::Mem>, HttpIndex<K>, usize),
}
const BEFORE: usize = 7;
fn back<K: KG>(which: u64, es: &[Entry<K>], b: u16) -> Back<K> {
    let idx = MemoryIndex::<K>::build(es, b).expect("build");
    if which == 0 {
        return Back::Mem(idx);
    }
    let mut file = vec![0xEEu8; BEFORE];
    let written = idx.serialize(&mut file).expect("serialize");
    sym::check(written == file.len() - BEFORE, "serialize reports the bytes it wrote");
    let (n, len) = (idx.num_items(), file.len() - BEFORE);
    let feature_begin = file.len();
    for _ in 0..64 {
        file.push(0xEE);
    }
    if which == 1 {
        let mut c = Cursor::new(file);
        c.seek(SeekFrom::Start(BEFORE as u64)).unwrap();
        return Back::Reader(c, StreamIndex::new(n, b, 0, len as u64), len as u64);
    }
    Back::Http(net::client(file), HttpIndex::new(n, b, BEFORE, feature_begin, 256 * 1024), feature_begin)
}
fn exact<K: KG>(x: &mut Back<K>, k: K) -> Vec<u64> {
    match x {
        Back::Mem(i) => i.find_exact(k).expect("find_exact"),
        Back::Reader(c, i, _) => {
            c.seek(SeekFrom::Start(BEFORE as u64)).unwrap();
            i.find_exact_with_reader(c, k).expect("find_exact")
        }
        Back::Http(c, i, fb) => net::now(i.find_exact(c, k)).expect("find_exact").iter().map(|r| (r.range.start() - *fb) as u64).collect(),
    }
}
fn range<K: KG>(x: &mut Back<K>, lo: Option<K>, hi: Option<K>) -> Vec<u64> {
    match x {
        Back::Mem(i) => i.find_range(lo, hi).expect("find_range"),
        Back::Reader(c, i, _) => {
            c.seek(SeekFrom::Start(BEFORE as u64)).unwrap();
            i.find_range_with_reader(c, lo, hi).expect("find_range")
        }
        Back::Http(c, i, fb) => net::now(i.find_range(c, lo, hi)).expect("find_range").iter().map(|r| (r.range.start() - *fb) as u64).collect(),
    }
}

/// params: n, branching factor, key type, sorted, backend
fn do_exact<K: KG>(n: usize, b: u16, sorted: u64, which: u64) {
    let (n, sorted) = shape(n, sorted);
    let (es, rs) = symbolic::<K>(n, sorted);
    let mut x = back(which, &es, b);
    let (k, q) = K::sym();
    let got = exact(&mut x, k);
    let want: Vec<bool> = rs.iter().map(|r| *r == q).collect();
    verify(&got, &want, "an exact lookup returns every entry with the key, once each, and nothing else");
    if got.is_empty() { sym::reach(1) } else { sym::reach(2) }
}
/// mode 0: both bounds, 1: lower only, 2: upper only
fn do_range<K: KG>(n: usize, b: u16, sorted: u64, which: u64, mode: u64) {
    let (n, sorted) = shape(n, sorted);
    let (es, rs) = symbolic::<K>(n, sorted);
    let mut x = back(which, &es, b);
    let (lo, l) = K::sym();
    let (hi, h) = K::sym();
    let got = range(&mut x, (mode != 2).then_some(lo), (mode != 1).then_some(hi));
    let want: Vec<bool> = rs.iter().map(|r| (mode == 2 || *r >= l) & (mode == 1 || *r <= h)).collect();
    let u = if mode == 1 { K::top() } else { Some(h) };
    verify_range(&got, &want, &rs, &u, b, sorted, "a range lookup returns every entry within the bounds, once each, and nothing else");
    if got.is_empty() { sym::reach(1) } else { sym::reach(2) }
}
/// the same offsets, in any order (none is repeated, see `verify`)
fn same(a: &[u64], b: &[u64]) -> bool {
    a.len() == b.len() && a.iter().all(|x| b.contains(x))
}
fn ask(which: u64, parts: &[(&'static str, Vec<u8>, usize)], mem: MemoryMultiIndex, add: &dyn Fn(&mut StreamMultiIndex, &mut HttpMultiIndex<net::Mem>, &[(usize, usize)], usize), cs: &[QueryCondition]) -> Vec<u64> {
    match which {
        0 => mem.query(cs).expect("query"),
        _ => {
            let mut file = vec![0xEEu8; BEFORE];
            let mut at = vec![];
            for (_, bytes, n) in parts {
                at.push((file.len(), *n));
                file.extend_from_slice(bytes);
            }
            let fb = file.len();
            for _ in 0..64 {
                file.push(0xEE);
            }
            let mut sm = StreamMultiIndex::new();
            let mut hm = HttpMultiIndex::new();
            add(&mut sm, &mut hm, &at, fb);
            if which == 1 {
                let mut c = Cursor::new(file);
                c.seek(SeekFrom::Start(BEFORE as u64)).unwrap();
                let first = sm.query(&mut c, cs).expect("query");
                let again = sm.query(&mut c, cs).expect("query");
                sym::check(same(&first, &again), "asking again gives the same answer");
                first
            } else {
                let mut c = net::client(file);
                let mut one = || net::now(hm.query(&mut c, cs)).expect("query").iter().map(|r| (r.range.start() - fb) as u64).collect::<Vec<_>>();
                let (first, again) = (one(), one());
                sym::check(same(&first, &again), "asking again gives the same answer");
                first
            }
        }
    }
}
fn add_stream<K: KG>(sm: &mut StreamMultiIndex, f: &str, n: usize, b: u16, len: usize)
where
    StreamIndex<K>: TypedStreamSearchIndex,
{
    K::stream(sm, f, StreamIndex::<K>::new(n, b, 0, len as u64), len as u64);
}
/// one condition with a symbolic operator and operand through the typed (multi) index
fn do_op<K: KG>(n: usize, b: u16, sorted: u64, which: u64, op: u64)
where
    MemoryIndex<K>: TypedSearchIndex,
    StreamIndex<K>: TypedStreamSearchIndex,
    HttpIndex<K>: TypedHttpSearchIndex<net::Mem>,
{
    let (n, sorted) = shape(n, sorted);
    let (es, rs) = symbolic::<K>(n, sorted);
    let idx = MemoryIndex::<K>::build(&es, b).expect("build");
    let mut bytes = vec![];
    if which > 0 {
        idx.serialize(&mut bytes).expect("serialize");
    }
    let (items, len) = (idx.num_items(), bytes.len());
    let mut mem = MemoryMultiIndex::new();
    mem.add_index("a".to_string(), idx);
    let op = OPS[if op < 6 { op as usize } else { sym::choose(6) }];
    let (k, q) = K::sym();
    let cs = [QueryCondition { field: "a".to_string(), operator: op, key: k.kt() }];
    let got = ask(which, &[("a", bytes, items)], mem, &|sm, hm, at, fb| {
        add_stream::<K>(sm, "a", items, b, len);
        hm.add_index("a".to_string(), HttpIndex::<K>::new(items, b, at[0].0, fb, 256 * 1024));
    }, &cs);
    let want: Vec<bool> = rs.iter().map(|r| holds(op, r, &q)).collect();
    let u = match op {
        Operator::Eq | Operator::Lt => None,
        Operator::Le => Some(q),
        _ => K::top(),
    };
    verify_range(&got, &want, &rs, &u, b, sorted, "a condition selects every entry whose value satisfies it, once each, and nothing else");
    if got.is_empty() { sym::reach(1) } else { sym::reach(2) }
}
/// what an index says about itself, and that reading it back gives the same answers
fn do_serial<K: KG>(n: usize, b: u16, sorted: u64, _: u64) {
    let (n, sorted) = shape(n, sorted);
    let (es, rs) = symbolic::<K>(n, sorted);
    let idx = MemoryIndex::<K>::build(&es, b).expect("build");
    let mut bytes = vec![];
    let w = idx.serialize(&mut bytes).expect("serialize");
    sym::check(w == bytes.len(), "serialize reports the bytes it wrote");
    let mut distinct = if sorted == 2 { n as u64 } else { 0 };
    for i in 0..if sorted == 2 { 0 } else { n } {
        let mut first = true;
        for j in 0..i {
            first &= rs[j] != rs[i];
        }
        distinct += first as u64;
    }
    sym::check(idx.num_items() as u64 == distinct, "num_items is the number of distinct keys");
    sym::check(
        bytes.len() == Stree::<K>::index_size(idx.num_items(), b, idx.payload_size()),
        "the size computed from the number of items is the size written",
    );
    let copy = MemoryIndex::<K>::from_buf(&bytes[..], idx.num_items(), b).expect("from_buf");
    sym::check(copy.num_items() == idx.num_items(), "an index read back has the same number of items");
    let mut again = vec![];
    copy.serialize(&mut again).expect("serialize");
    let mut same = again.len() == bytes.len();
    if same {
        for i in 0..bytes.len() {
            same &= again[i] == bytes[i];
        }
    }
    sym::check(same, "an index read back serializes to the same bytes");
    let (k, q) = K::sym();
    let got = copy.find_exact(k).expect("find_exact");
    let want: Vec<bool> = rs.iter().map(|r| *r == q).collect();
    verify(&got, &want, "an index read back finds every entry with the key, once each, and nothing else");
    sym::observe(bytes.len() as u64);
    sym::reach(1);
}
fn do_keys<K: KG>() {
    let (a, ra) = K::sym();
    let (b, rb) = K::sym();
    sym::check((a < b) == (ra < rb) && (a == b) == (ra == rb) && (a > b) == (ra > rb), "keys are ordered as their values");
    sym::check(a <= K::max_value() && a >= K::min_value(), "every value lies between the least and the greatest key");
    let mut buf = vec![];
    let n = a.write_to(&mut buf).expect("write_to");
    sym::check(n == K::SERIALIZED_SIZE && buf.len() == K::SERIALIZED_SIZE, "a key takes the bytes its type declares");
    let c = K::read_from(&mut &buf[..]).expect("read_from");
    let d = K::from_bytes(&buf).expect("from_bytes");
    sym::check(c == a && d == a, "a key read back is the key written");
    let e = Entry { key: a.clone(), offset: sym::u64() };
    let mut eb = vec![];
    let n = e.write_to(&mut eb).expect("write_to");
    sym::check(n == Entry::<K>::SERIALIZED_SIZE && eb.len() == n, "an entry takes the bytes its type declares");
    let f = Entry::<K>::from_reader(&mut &eb[..]).expect("from_reader");
    let g = Entry::<K>::from_bytes(&eb).expect("from_bytes");
    sym::check(f.key == a && f.offset == e.offset && g.key == a && g.offset == e.offset, "an entry read back is the entry written");
    for b in buf { sym::observe(b as u64); }
    sym::reach(1);
}

entries! {
fn exact_any() {
    let (n, b, k) = (sym::param(0, 4) as usize, sym::param(1, 4) as u16, sym::param(2, 0));
    with_kind!(k, do_exact, n, b, sym::param(3, 0), sym::param(4, 0))
}
fn range_any() {
    let (n, b, k) = (sym::param(0, 4) as usize, sym::param(1, 4) as u16, sym::param(2, 0));
    with_kind!(k, do_range, n, b, sym::param(3, 0), sym::param(4, 0), sym::param(5, 0))
}
fn op_any() {
    let (n, b, k) = (sym::param(0, 4) as usize, sym::param(1, 4) as u16, sym::param(2, 0));
    with_kind!(k, do_op, n, b, sym::param(3, 0), sym::param(4, 0), sym::param(5, 6))
}
fn serial() {
    let (n, b, k) = (sym::param(0, 4) as usize, sym::param(1, 4) as u16, sym::param(2, 0));
    with_kind!(k, do_serial, n, b, sym::param(3, 0), 0)
}
fn keys() {
    with_kind!(sym::param(0, 0), do_keys)
}
/// more duplicates than are fetched ahead: the entries around the end of what is fetched.  params: b, backend, mode (0 exact, 1 range)
fn many() {
    let (b, which, mode) = (sym::param(0, 4) as u16, sym::param(1, 2), sym::param(2, 0));
    // a list of n offsets takes 4 + 8 n bytes, 16384 are fetched ahead
    let first = [2047usize, 2046, 2045, 2044, 2043][sym::choose(5)];
    let counts = [first, 2, 1, 3, 2];
    let mut es = vec![];
    for (k, c) in counts.iter().enumerate() {
        for _ in 0..*c {
            es.push(Entry { key: 10 * k as i32, offset: off(es.len()) });
        }
    }
    let mut x = back(which, &es, b);
    let (l, h) = (sym::u8() as i32, sym::u8() as i32);
    let (got, h) = if mode == 0 { (exact(&mut x, l), l) } else { (range(&mut x, Some(l), Some(h)), h) };
    let (mut at, mut total) = (0, 0u64);
    let mut seen = vec![0u8; es.len()];
    for g in &got {
        let i = *g as usize / 37;
        sym::check(i < es.len() && off(i) == *g && seen[i] == 0, "a lookup returns only offsets of entries, once each");
        seen[i] = 1;
    }
    let mut hit = false;
    for (k, c) in counts.iter().enumerate() {
        let w = (10 * k as i32 >= l) & (10 * k as i32 <= h);
        let all = seen[at..at + c].iter().map(|x| *x as u64).sum::<u64>();
        // recorded finding K01: a range leaves out its upper bound when that starts a leaf block
        let excused = mode == 1 && k > 0 && k % (b as usize - 1) == 0 && all == 0 && 10 * k as i32 == h && l < h;
        sym::check(all == w as u64 * *c as u64 || excused, "a lookup returns every entry within the bounds");
        at += c;
        total += all;
        hit |= w;
    }
    sym::observe(total);
    if hit { sym::reach(2) } else { sym::reach(1) }
}
/// several fields, a condition on each: AND.  params: n, b, backend, conditions (2 or 3), operators of all but the first condition
fn multi() {
    let (n, b, which, k) = (sym::param(0, 3) as usize, sym::param(1, 4) as u16, sym::param(2, 0), sym::param(3, 2) as usize);
    let (ea, ra) = symbolic::<i32>(n, 1);
    let (eb, rb) = symbolic::<u8>(n, 0);
    let (ec, rc) = symbolic::<u16>(n, 0);
    let (ia, ib, ic) = (MemoryIndex::build(&ea, b).unwrap(), MemoryIndex::build(&eb, b).unwrap(), MemoryIndex::build(&ec, b).unwrap());
    let (mut ba, mut bb, mut bc) = (vec![], vec![], vec![]);
    if which > 0 {
        ia.serialize(&mut ba).unwrap();
        ib.serialize(&mut bb).unwrap();
        ic.serialize(&mut bc).unwrap();
    }
    let (na, nb, nc, la, lb, lc) = (ia.num_items(), ib.num_items(), ic.num_items(), ba.len(), bb.len(), bc.len());
    let mut mem = MemoryMultiIndex::new();
    mem.add_index("a".to_string(), ia);
    mem.add_index("b".to_string(), ib);
    mem.add_index("c".to_string(), ic);
    let few = sym::param(4, 6);
    let (oa, ob, oc) = (OPS[sym::choose(6)], OPS[sym::choose(few)], if k > 2 { OPS[sym::choose(few)] } else { OPS[0] });
    let (qa, qb, qc) = (sym::i32(), sym::u8(), if k > 2 { sym::u16() } else { 0 });
    let mut cs = vec![
        QueryCondition { field: "a".to_string(), operator: oa, key: KeyType::Int32(qa) },
        QueryCondition { field: "b".to_string(), operator: ob, key: KeyType::UInt8(qb) },
        QueryCondition { field: "c".to_string(), operator: oc, key: KeyType::UInt16(qc) },
    ];
    cs.truncate(k);
    cs.rotate_left(sym::choose(k as u64));
    let got = ask(which, &[("a", ba, na), ("b", bb, nb), ("c", bc, nc)], mem, &|sm, hm, at, fb| {
        add_stream::<i32>(sm, "a", na, b, la);
        add_stream::<u8>(sm, "b", nb, b, lb);
        add_stream::<u16>(sm, "c", nc, b, lc);
        hm.add_index("a".to_string(), HttpIndex::<i32>::new(na, b, at[0].0, fb, 256 * 1024));
        hm.add_index("b".to_string(), HttpIndex::<u8>::new(nb, b, at[1].0, fb, 256 * 1024));
        hm.add_index("c".to_string(), HttpIndex::<u16>::new(nc, b, at[2].0, fb, 256 * 1024));
    }, &cs);
    let want: Vec<bool> = (0..n).map(|i| holds(oa, &ra[i], &qa) & holds(ob, &rb[i], &qb) & (k < 3 || holds(oc, &rc[i], &qc))).collect();
    verify(&got, &want, "conditions on several fields select exactly the entries that satisfy all of them");
    if got.is_empty() { sym::reach(1) } else { sym::reach(2) }
}
/// two objects of one feature: both entries carry the feature's offset.  params: b, backend
fn shared() {
    let (b, which) = (sym::param(0, 4) as u16, sym::param(1, 0));
    let (x, y, z) = (sym::i32(), sym::i32(), sym::i32());
    let es = vec![Entry { key: x, offset: off(0) }, Entry { key: y, offset: off(0) }, Entry { key: z, offset: off(1) }];
    let idx = MemoryIndex::<i32>::build(&es, b).expect("build");
    let mut bytes = vec![];
    if which > 0 {
        idx.serialize(&mut bytes).expect("serialize");
    }
    let (items, len) = (idx.num_items(), bytes.len());
    let mut mem = MemoryMultiIndex::new();
    mem.add_index("a".to_string(), idx);
    let op = OPS[sym::choose(6)];
    let q = sym::i32();
    let cs = [QueryCondition { field: "a".to_string(), operator: op, key: KeyType::Int32(q) }];
    let got = ask(which, &[("a", bytes, items)], mem, &|sm, hm, at, fb| {
        add_stream::<i32>(sm, "a", items, b, len);
        hm.add_index("a".to_string(), HttpIndex::<i32>::new(items, b, at[0].0, fb, 256 * 1024));
    }, &cs);
    let f0 = holds(op, &x, &q) | holds(op, &y, &q);
    let f1 = holds(op, &z, &q);
    let (mut c0, mut c1) = (0u64, 0u64);
    for g in &got {
        c0 += (*g == off(0)) as u64;
        c1 += (*g == off(1)) as u64;
    }
    sym::observe(got.len() as u64);
    sym::check((c0 > 0) == f0 && (c1 > 0) == f1 && c0 + c1 == got.len() as u64, "a feature is selected exactly when one of its objects satisfies the condition");
    if got.is_empty() { sym::reach(1) } else { sym::reach(2) }
}
/// the offsets themselves: any 63 bit value survives, alone and among duplicates
fn offsets() {
    let n = sym::param(0, 3) as usize;
    let b = sym::param(1, 4) as u16;
    let mut es = vec![];
    let key = sym::u8();
    let mut os = vec![];
    for _ in 0..n {
        let o = sym::u64();
        sym::assume(o < 1 << 63);
        os.push(o);
        es.push(Entry { key, offset: o });
    }
    let other = sym::u64();
    sym::assume(other < 1 << 63);
    let k2 = sym::u8();
    sym::assume(k2 != key);
    es.push(Entry { key: k2, offset: other });
    let which = sym::param(2, 0);
    let mut x = back(which, &es, b);
    if which == 2 {
        for o in &os { sym::assume(*o < 1 << 40) }
        sym::assume(other < 1 << 40);
    }
    let got = exact(&mut x, key);
    sym::check(got.len() == n, "as many offsets as entries");
    for (a, b) in got.iter().zip(&os) {
        sym::check(*a == *b, "the offsets of a key come back unchanged, in the order they were given");
    }
    let one = exact(&mut x, k2);
    sym::check(one.len() == 1 && one[0] == other, "the offset of a single entry comes back unchanged");
    sym::reach(1);
}
}

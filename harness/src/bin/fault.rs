// Damaged files and failing sources: an error, never a silently wrong or shorter answer.
use bytes::Bytes;
use cjseq::{CityJSON, CityJSONFeature, CityObject, Geometry, GeometryType, NestedArray, Transform};
use fcb_core::attribute::AttributeSchema;
use fcb_core::fb::{size_prefixed_root_as_city_feature, size_prefixed_root_as_header, ColumnType};
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::static_btree::{KeyType, Operator};
use fcb_core::{AttrQuery, FcbReader, FcbWriter, HttpFcbReader, SpatialQuery};
use harness::eq::*;
use harness::{entries, net, sym};
use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError};
use serde_json::{Map, Number, Value};
use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

fn ok<T, E>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => sym::fail(what),
    }
}

fn feature(k: usize) -> CityJSONFeature {
    let mut f = CityJSONFeature::new();
    f.id = format!("{k}{}", "i".repeat(k));
    f.vertices = vec![vec![10 * k as i64, k as i64, 3]];
    let g = Geometry {
        thetype: GeometryType::MultiPoint,
        lod: None,
        boundaries: NestedArray::Indices(vec![0]),
        semantics: None,
        material: None,
        texture: None,
        template: None,
        transformation_matrix: None,
    };
    let mut m = Map::new();
    m.insert("k".to_string(), Value::Number(Number::from(k as u64 % 2)));
    let co = CityObject::new("Building".to_string(), None, Some(Value::Object(m)), Some(vec![g]), None, None, None, None);
    f.city_objects = HashMap::from([("o".to_string(), co)]);
    f
}

/// How much of a file: 0 features only, 1 with a spatial index, 2 with both indices
fn writer(n: usize, how: u64) -> FcbWriter<'static> {
    let mut cj = CityJSON::new();
    cj.metadata = None;
    cj.transform = Transform { scale: vec![1.0; 3], translate: vec![0.0; 3] };
    let indices = if how == 2 { Some(vec![("k".to_string(), Some(16))]) } else { None };
    let opt = HeaderWriterOptions { write_index: how > 0, feature_count: n as u64, index_node_size: 16, attribute_indices: indices, geographical_extent: None };
    let schema = AttributeSchema::from([("k".to_string(), (0, ColumnType::ULong))]);
    let mut w = ok(FcbWriter::new(cj, Some(opt), Some(schema), None), "a writer cannot be made");
    for k in 0..n {
        ok(w.add_feature(Box::leak(Box::new(feature(k)))), "adding a feature fails");
    }
    w
}
fn file(n: usize, how: u64) -> Vec<u8> {
    let mut out = Vec::new();
    ok(writer(n, how).write(&mut out), "writing a file fails");
    out
}

/// What can go wrong with a source, at most one thing.
#[derive(Clone, Copy)]
enum Fault {
    None,
    /// the bytes from there on are missing
    Cut(u64),
    /// this call returns so many bytes, whatever is asked for
    Short(usize, usize),
    /// this call is interrupted
    Interrupted(usize),
    /// this call fails
    Fail(usize),
}
struct Source {
    data: Bytes,
    pos: u64,
    calls: usize,
    fault: Fault,
}
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if self.pos >= self.data.len() as u64 || buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len().min(self.data.len() - self.pos as usize);
        match self.fault {
            Fault::Cut(len) => {
                if self.pos + n as u64 > len {
                    if len <= self.pos {
                        return Ok(0);
                    }
                    n = sym::concretize(len - self.pos) as usize;
                }
            }
            Fault::Short(k, m) if k == c => n = n.min(m),
            Fault::Interrupted(k) if k == c => return Err(io::Error::from(io::ErrorKind::Interrupted)),
            Fault::Fail(k) if k == c => return Err(io::Error::from(io::ErrorKind::PermissionDenied)),
            _ => {}
        }
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Source {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let c = self.calls;
        self.calls += 1;
        if matches!(self.fault, Fault::Fail(k) if k == c) {
            return Err(io::Error::from(io::ErrorKind::PermissionDenied));
        }
        self.pos = match to {
            SeekFrom::Start(p) => p,
            SeekFrom::Current(d) => self.pos.checked_add_signed(d).ok_or(io::Error::from(io::ErrorKind::InvalidInput))?,
            SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d).ok_or(io::Error::from(io::ErrorKind::InvalidInput))?,
        };
        Ok(self.pos)
    }
}
struct Server {
    data: Bytes,
    calls: AtomicUsize,
    fault: Fault,
}
#[async_trait::async_trait]
impl AsyncHttpRangeClient for Server {
    async fn get_range(&self, _url: &str, range: &str) -> http_range_client::Result<Bytes> {
        let c = self.calls.fetch_add(1, Ordering::Relaxed);
        let r = range.strip_prefix("bytes=").expect("range header");
        let (a, b) = r.split_once('-').expect("range header");
        let (a, b): (usize, usize) = (a.parse().expect("start"), b.parse().expect("end"));
        if a > b {
            // of a damaged index
            return Err(HttpError::HttpStatus(416));
        }
        let len = match self.fault {
            Fault::Cut(len) => len as usize,
            Fault::Fail(k) if k == c => return Err(HttpError::HttpStatus(503)),
            _ => self.data.len(),
        };
        if a >= len {
            return Err(HttpError::HttpStatus(416));
        }
        Ok(self.data.slice(a..(b + 1).min(len)))
    }
    async fn head_response_header(&self, _url: &str, _header: &str) -> http_range_client::Result<Option<String>> {
        Ok(None)
    }
}

/// What is read: the features before the first error, and whether there was one.
struct Answer {
    got: Vec<CityJSONFeature>,
    failed: bool,
}
/// `sel`: 0 everything, 1 a box, 2 an attribute
fn read(data: Bytes, fault: Fault, mode: u64, sel: u64) -> Answer {
    let space = SpatialQuery::BBox(5.0, 0.0, 100.0, 100.0);
    let attr: AttrQuery = vec![("k".to_string(), Operator::Eq, KeyType::UInt64(0))];
    let mut got = vec![];
    if mode == 2 {
        let c = AsyncBufferedHttpRangeClient::with(Server { data, calls: AtomicUsize::new(0), fault }, "mem");
        let failed = net::now(async {
            let Ok(r) = HttpFcbReader::new(c).await else { return true };
            let it = match sel {
                0 => r.select_all().await,
                1 => r.select_query(space).await,
                _ => r.select_attr_query(&attr).await,
            };
            let Ok(mut it) = it else { return true };
            loop {
                match it.next().await {
                    Err(_) => return true,
                    Ok(None) => return false,
                    Ok(Some(b)) => match b.cj_feature() {
                        Ok(f) => got.push(f),
                        Err(_) => return true,
                    },
                }
                sym::check(got.len() <= 16, "a selection does not end");
            }
        });
        return Answer { got, failed };
    }
    let failed = (|| {
        let Ok(r) = FcbReader::open(Source { data, pos: 0, calls: 0, fault }) else { return true };
        macro_rules! drain {
            ($it:expr) => {{
                let Ok(mut it) = $it else { return true };
                loop {
                    match it.next() {
                        Err(_) => return true,
                        Ok(None) => return false,
                        Ok(Some(_)) => {}
                    }
                    match it.cur_cj_feature() {
                        Ok(f) => got.push(f),
                        Err(_) => return true,
                    }
                    sym::check(got.len() <= 16, "a selection does not end");
                }
            }};
        }
        match (mode, sel) {
            (0, 0) => drain!(r.select_all()),
            (0, 1) => drain!(r.select_query(space)),
            (0, _) => drain!(r.select_attr_query(attr)),
            (_, 0) => drain!(r.select_all_seq()),
            (_, 1) => drain!(r.select_query_seq(space)),
            (_, _) => drain!(r.select_attr_query_seq(attr)),
        }
    })();
    Answer { got, failed }
}
fn same_feature(f: &CityJSONFeature, g: &CityJSONFeature) -> bool {
    f.id == g.id && f.vertices == g.vertices && g.city_objects.get("o").is_some_and(|o| o.attributes == f.city_objects["o"].attributes)
}
/// All of the features or, if there was an error, the first ones
fn check(a: &Answer, full: &Answer) {
    sym::check(a.got.len() <= full.got.len(), "a failing source adds features");
    for (f, g) in full.got.iter().zip(&a.got) {
        sym::check(same_feature(f, g), "a feature of a failing source is not the one written");
    }
    if !a.failed {
        sym::check(a.got.len() == full.got.len(), "features are missing and there is no error");
    }
}

struct Sink {
    out: Vec<u8>,
    calls: usize,
    fault: Fault,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        let mut n = buf.len();
        match self.fault {
            Fault::Cut(len) => {
                let at = self.out.len() as u64;
                if at + n as u64 > len {
                    if len <= at {
                        return Ok(0);
                    }
                    n = sym::concretize(len - at) as usize;
                }
            }
            Fault::Short(k, m) if k == c => n = n.min(m),
            Fault::Interrupted(k) if k == c => return Err(io::Error::from(io::ErrorKind::Interrupted)),
            Fault::Fail(k) if k == c => return Err(io::Error::from(io::ErrorKind::PermissionDenied)),
            _ => {}
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

entries! {
    /// a file that ends early, anywhere: mode, selection, how
    fn cut() {
        let (mode, sel, how) = (sym::param(0, 0), sym::param(1, 0), sym::param(2, 2));
        let data = Bytes::from(file(3, how));
        let full = read(data.clone(), Fault::None, mode, sel);
        sym::check(!full.failed, "a file written cannot be read");
        let mut len = sym::u64();
        sym::assume(len < data.len() as u64);
        if mode == 2 {
            len = sym::choose(data.len() as u64) as u64;
        }
        let a = read(data, Fault::Cut(len), mode, sel);
        check(&a, &full);
        if sel == 0 {
            sym::check(a.failed, "features are missing and there is no error");
        }
        sym::reach(if a.got.is_empty() { 1 } else { 2 });
    }

    /// a source that fails once: mode, selection, how
    fn failing() {
        let (mode, sel, how) = (sym::param(0, 0), sym::param(1, 0), sym::param(2, 2));
        let data = Bytes::from(file(3, how));
        let full = read(data.clone(), Fault::None, mode, sel);
        sym::check(!full.failed, "a file written cannot be read");
        let k = sym::choose(sym::param(3, 60));
        let a = read(data, Fault::Fail(k), mode, sel);
        check(&a, &full);
        sym::reach(if a.failed { 1 } else { 2 });
    }

    /// a source that gives fewer bytes than asked for, or is interrupted: mode, selection, how
    fn short() {
        let (mode, sel, how) = (sym::param(0, 0), sym::param(1, 0), sym::param(2, 2));
        let data = Bytes::from(file(3, how));
        let full = read(data.clone(), Fault::None, mode, sel);
        sym::check(!full.failed, "a file written cannot be read");
        let k = sym::choose(sym::param(3, 60));
        let m = sym::choose(9);
        let a = read(data, if m == 0 { Fault::Interrupted(k) } else { Fault::Short(k, m) }, mode, sel);
        check(&a, &full);
        sym::check(!a.failed, "a short or interrupted read is an error");
        sym::reach(1);
    }

    /// a destination that fails, is full, takes fewer bytes or is interrupted: how
    fn sink() {
        let how = sym::param(0, 2);
        let good = file(2, how);
        let w = writer(2, how);
        let k = sym::choose(10);
        let kind = sym::choose(4);
        let fault = match kind {
            0 => Fault::Fail(k),
            1 => Fault::Short(k, sym::choose(9) + 1),
            2 => Fault::Interrupted(k),
            _ => {
                let n = sym::u64();
                sym::assume((k == 0) & (n < good.len() as u64));
                Fault::Cut(n)
            }
        };
        let mut s = Sink { out: vec![], calls: 0, fault };
        let r = w.write(&mut s);
        let hit = k < s.calls;
        match kind {
            0 => sym::check(r.is_err() == hit, "a failing destination is no error"),
            3 => sym::check(r.is_err(), "a full destination is no error"),
            _ => sym::check(r.is_ok(), "a short or interrupted write is an error"),
        }
        if r.is_ok() {
            sym::check(s.out == good, "a file written in pieces is another file");
            sym::reach(2);
        } else {
            sym::check(good.starts_with(&s.out), "a file written in part is another file");
            sym::reach(1);
        }
    }

    /// the first bytes of a file: mode
    fn magic() {
        let mode = sym::param(0, 0);
        let mut data = file(1, 0);
        let good = [data[0], data[1], data[2], data[3], data[4], data[5], data[6]];
        for b in &mut data[..8] {
            *b = sym::u8();
        }
        let b: Vec<u8> = data[..8].to_vec();
        let is = (b[0] == good[0]) & (b[1] == good[1]) & (b[2] == good[2]) & (b[3] <= good[3]) & (b[4] == good[4]) & (b[5] == good[5]) & (b[6] == good[6]);
        let a = read(Bytes::from(data), Fault::None, mode, 0);
        sym::check(a.failed == !is, "a file is one if it starts like one");
        sym::reach(if is { 1 } else { 2 });
    }

    /// a header's size outside what is allowed: mode
    fn size() {
        let mode = sym::param(0, 0);
        let mut data = file(1, 0);
        let n = sym::u32();
        sym::assume((n < 8) | (n > 512 * 1024 * 1024));
        data[8..12].copy_from_slice(&n.to_le_bytes());
        let a = read(Bytes::from(data), Fault::None, mode, 0);
        sym::check(a.failed, "a header of an impossible size is read");
        sym::reach(1);
    }

    /// one byte of a file is another one: mode, selection, how, part (0 header, 1 indices, 2 features), from, positions
    fn flip() {
        let (mode, sel, how) = (sym::param(0, 0), sym::param(1, 0), sym::param(2, 2));
        let mut data = file(2, how);
        let full = read(Bytes::from(data.clone()), Fault::None, mode, sel);
        let order = read(Bytes::from(data.clone()), Fault::None, 0, 0);
        sym::check(!full.failed & !order.failed, "a file written cannot be read");
        let size = |at: usize| 4 + u32::from_le_bytes([data[at], data[at + 1], data[at + 2], data[at + 3]]) as usize;
        let h = 8 + size(8);
        let f = {
            let r = ok(FcbReader::open(&data[..]), "a file written does not open");
            let at: u64 = r.header().attribute_index().map(|a| a.iter().map(|x| x.length() as u64).sum()).unwrap_or(0);
            h + at as usize + if how > 0 { fcb_core::packed_rtree::PackedRTree::index_size(2, 16) } else { 0 }
        };
        let second = f + size(f);
        let (lo, hi) = match sym::param(3, 0) {
            0 => (12, h),
            1 => (h, f),
            _ => (f, data.len()),
        };
        let from = sym::param(4, 0) as usize;
        let to = hi.min(lo + from + sym::param(5, 1 << 20) as usize);
        sym::check(lo + from < to, "positions outside the part");
        let p = lo + from + sym::choose((to - lo - from) as u64);
        let v = sym::u8();
        sym::assume(v != data[p]);
        data[p] = v;
        // what the verifier of the format does not accept is not to be handed out
        let k = if p < second { 0 } else { 1 };
        let feature = if k == 0 { f..second } else { second..data.len() };
        let (in_header, in_feature) = (p < h, p >= feature.start + 4);
        let refused = if in_header {
            size_prefixed_root_as_header(&data[8..h]).is_err()
        } else {
            in_feature && size_prefixed_root_as_city_feature(&data[feature]).is_err()
        };
        if (mode == 2) & (in_header & !refused | (p >= h) & (p < f)) {
            // requests are text made of numbers of the header and the indices
            data[p] = sym::concretize(v as u64) as u8;
        }
        sym::may_panic(!refused);
        let a = read(Bytes::from(data), Fault::None, mode, sel);
        sym::may_panic(false);
        // where the damaged feature is in the answer
        let at = full.got.iter().position(|x| x.id == order.got[k].id);
        if refused & in_header {
            sym::check(a.failed & a.got.is_empty(), "what is damaged is read");
            sym::reach(1);
        } else if refused & at.is_some() {
            sym::check(a.failed & (a.got.len() == at.unwrap()), "what is damaged is read");
            sym::reach(1);
        } else {
            sym::reach(2);
        }
        if in_feature {
            sym::check(a.got.len() <= full.got.len(), "damage adds features");
            for (i, (x, y)) in full.got.iter().zip(&a.got).enumerate() {
                sym::check(at == Some(i) || same_feature(x, y), "damage of a feature changes another");
            }
            sym::check(a.failed | (a.got.len() == full.got.len()), "features are missing and there is no error");
            sym::check(!a.failed | at.is_some(), "damage of a feature that is not asked for is an error");
        }
    }
}

// Whole files: several features written, then read by every access path, with and without indices.
use chrono::{DateTime, Utc};
use cjseq::{CityJSON, CityJSONFeature, CityObject, Geometry, GeometryType, NestedArray, Transform};
use fcb_core::attribute::AttributeSchema;
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::static_btree::{FixedStringKey, Float, KeyType, Operator};
use fcb_core::fb::ColumnType;
use fcb_core::{AttrQuery, FcbReader, FcbWriter, HttpFcbReader, SpatialQuery};
use harness::eq::*;
use harness::{entries, net, sym};
use serde_json::{Map, Number, Value};
use std::collections::HashMap;
use std::io::Cursor;

fn ok<T, E>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => sym::fail(what),
    }
}

/// A feature with one object; `vertices` are also its geometry.
fn feature(id: String, vertices: Vec<Vec<i64>>, attributes: Option<Value>) -> CityJSONFeature {
    let mut f = CityJSONFeature::new();
    f.id = id;
    let g = Geometry {
        thetype: GeometryType::MultiPoint,
        lod: None,
        boundaries: NestedArray::Indices((0..vertices.len() as u32).collect()),
        semantics: None,
        material: None,
        texture: None,
        template: None,
        transformation_matrix: None,
    };
    f.vertices = vertices;
    let co = CityObject::new("Building".to_string(), None, attributes, Some(vec![g]), None, None, None, None);
    f.city_objects = HashMap::from([("o".to_string(), co)]);
    f
}

struct Options {
    spatial: bool,
    indices: Option<Vec<(String, Option<u16>)>>,
    schema: AttributeSchema,
    count: Option<u64>,
}

fn file(fs: &[CityJSONFeature], o: &Options) -> Vec<u8> {
    let mut cj = CityJSON::new();
    cj.metadata = None;
    cj.transform = Transform { scale: vec![0.5, 2.0, 1.0], translate: vec![8.0, -16.0, 0.0] };
    let opt = HeaderWriterOptions { write_index: o.spatial, feature_count: o.count.unwrap_or(fs.len() as u64), index_node_size: 16, attribute_indices: o.indices.clone(), geographical_extent: None };
    let mut w = ok(FcbWriter::new(cj, Some(opt), Some(o.schema.clone()), None), "a writer cannot be made");
    for f in fs {
        ok(w.add_feature(f), "adding a feature fails");
    }
    let mut out = Vec::new();
    ok(w.write(&mut out), "writing a file fails");
    out
}

enum Sel {
    All,
    Space(SpatialQuery),
    Attr(AttrQuery),
}

/// The features a selection gives. `mode`: 0 with seeking, 1 sequentially, 2 over range requests.
/// None if the selection is refused.
fn read(file: &[u8], sel: Sel, mode: u64) -> Option<Vec<CityJSONFeature>> {
    let mut out = vec![];
    if mode == 2 {
        return net::now(async {
            let r = ok(HttpFcbReader::new(net::client(file.to_vec())).await, "a file written does not open");
            let it = match sel {
                Sel::All => r.select_all().await,
                Sel::Space(q) => r.select_query(q).await,
                Sel::Attr(q) => r.select_attr_query(&q).await,
            };
            let Ok(mut it) = it else { return None };
            let n = it.features_count();
            loop {
                match ok(it.next().await, "a feature written cannot be read") {
                    None => break,
                    Some(b) => {
                        let f = ok(b.cj_feature(), "a feature written cannot be read");
                        let g = ok(it.cur_cj_feature(), "a feature written cannot be read");
                        sym::check(f.id.len() == g.id.len(), "the current feature is the one just read");
                        out.push(f);
                        sym::check(out.len() <= 16, "a selection does not end");
                    }
                }
            }
            sym::check(ok(it.next().await, "asking again at the end fails").is_none(), "a selection stays at its end");
            sym::check(n.unwrap_or(0) == out.len(), "a selection has as many features as it says");
            Some(out)
        });
    }
    let r = ok(FcbReader::open(Cursor::new(file)), "a file written does not open");
    macro_rules! drain {
        ($it:expr) => {{
            let Ok(mut it) = $it else { return None };
            let n = it.features_count();
            while ok(it.next(), "a feature written cannot be read").is_some() {
                out.push(ok(it.cur_cj_feature(), "a feature written cannot be read"));
                sym::check(out.len() <= 16, "a selection does not end");
            }
            sym::check(ok(it.next(), "asking again at the end fails").is_none(), "a selection stays at its end");
            sym::check(n == Some(out.len()), "a selection has as many features as it says");
        }};
    }
    if mode == 0 {
        match sel {
            Sel::All => drain!(r.select_all()),
            Sel::Space(q) => drain!(r.select_query(q)),
            Sel::Attr(q) => drain!(r.select_attr_query(q)),
        }
    } else {
        match sel {
            Sel::All => drain!(r.select_all_seq()),
            Sel::Space(q) => drain!(r.select_query_seq(q)),
            Sel::Attr(q) => drain!(r.select_attr_query_seq(q)),
        }
    }
    Some(out)
}

/// `got` are those features of `fs` that `want` marks, each once and as it was written.
/// The first character of an id is the feature's number.
fn expect(fs: &[CityJSONFeature], want: &[bool], got: &[CityJSONFeature], what: &str) {
    let mut seen = vec![false; fs.len()];
    for g in got {
        sym::check(!g.id.is_empty(), "a feature keeps its id");
        let k = (g.id.as_bytes()[0] - b'0') as usize;
        sym::check(k < fs.len(), "a feature keeps its id");
        let f = &fs[k];
        sym::check(!seen[k], "no feature is returned twice");
        seen[k] = true;
        same_str(&f.id, &g.id, "a feature keeps its id");
        sym::check(f.vertices.len() == g.vertices.len(), "a feature keeps its vertices");
        for (x, y) in f.vertices.iter().zip(&g.vertices) {
            sym::check((x[0] == y[0]) & (x[1] == y[1]) & (x[2] == y[2]), "a feature keeps its vertices");
        }
        let Some(o) = g.city_objects.get("o") else { sym::fail("an object is lost") };
        sym::check(g.city_objects.len() == 1, "a feature keeps its objects");
        same_opt(&f.city_objects["o"].attributes, &o.attributes, "an object keeps its attributes", &|a, b| same_value(a, b));
    }
    for k in 0..fs.len() {
        sym::check(seen[k] == want[k], what);
    }
}
fn same_value(a: &Value, b: &Value) {
    let w = "an object keeps its attributes";
    match (a, b) {
        (Value::Null, Value::Null) => {}
        (Value::Bool(x), Value::Bool(y)) => sym::check(x == y, w),
        (Value::Number(x), Value::Number(y)) => {
            if x.is_f64() {
                sym::check(y.is_f64(), w);
                sym::check(x.as_f64().unwrap().to_bits() == y.as_f64().unwrap().to_bits(), w);
            } else if x.is_u64() {
                sym::check(y.is_u64(), w);
                sym::check(x.as_u64() == y.as_u64(), w);
            } else {
                sym::check(y.is_i64(), w);
                sym::check(x.as_i64() == y.as_i64(), w);
            }
        }
        (Value::String(x), Value::String(y)) => same_str(x, y, w),
        (Value::Object(x), Value::Object(y)) => {
            let n = x.values().filter(|v| !v.is_null()).count();
            sym::check(n == y.len(), w);
            for (k, v) in x {
                if v.is_null() {
                    continue;
                }
                match y.get(k) {
                    Some(z) => same_value(v, z),
                    None => sym::fail(w),
                }
            }
        }
        _ => sym::fail(w),
    }
}

/// positions of features, in no particular order
const PLACES: [(i64, i64); 6] = [(0, 0), (7, 1), (2, 6), (-5, 3), (7, 1), (40, -9)];

/// n features with ids of any length up to 2, one vertex or two
fn features(n: usize, places: u64) -> Vec<CityJSONFeature> {
    (0..n)
        .map(|k| {
            let mut id = k.to_string();
            id.push_str(&if places > 1 { sym::ascii(sym::choose(2)) } else { "x".repeat(k) });
            let (x, y) = PLACES[sym::choose(places)];
            let z = sym::i16() as i64;
            let mut v = vec![vec![x, y, z]];
            if k == 1 {
                v.push(vec![x + 3, y - 2, 0]);
            }
            feature(id, v, None)
        })
        .collect()
}
fn indexed(k: u64) -> Option<Vec<(String, Option<u16>)>> {
    if k == 0 {
        None
    } else {
        Some(vec![("k".to_string(), Some(16))])
    }
}

entries! {
    /// every feature, once: how many, mode, spatial index, attribute index, places
    fn all() {
        let n = sym::choose(sym::param(0, 3) + 1);
        let mode = sym::param(1, 0);
        let spatial = sym::param(2, 1) == 1;
        let mut fs = features(n, sym::param(4, 3));
        let mut schema = AttributeSchema::new();
        if sym::param(3, 0) > 0 {
            schema.insert("k".to_string(), (0, ColumnType::ULong));
            for f in &mut fs {
                f.city_objects.get_mut("o").unwrap().attributes = maybe(|| {
                    let mut m = Map::new();
                    m.insert("k".to_string(), Value::Number(Number::from(sym::u64())));
                    Value::Object(m)
                });
            }
        }
        let o = Options { spatial, indices: indexed(sym::param(3, 0)), schema, count: if sym::param(5, 0) == 1 { Some(0) } else { None } };
        let bytes = file(&fs, &o);
        let Some(got) = read(&bytes, Sel::All, mode) else { sym::fail("a file written cannot be read") };
        expect(&fs, &vec![true; n], &got, "every feature is read");
        if !spatial {
            for (k, g) in got.iter().enumerate() {
                sym::check((g.id.as_bytes()[0] - b'0') as usize == k, "without a spatial index the features keep their order");
            }
        }
        sym::reach(1);
    }

    /// box and point queries: how many, mode, kind (0 box, 1 point), attribute index, places
    fn space() {
        let n = sym::param(0, 3) as usize;
        let mode = sym::param(1, 0);
        let mut fs = features(n, sym::param(4, 3));
        let mut schema = AttributeSchema::new();
        if sym::param(3, 0) > 0 {
            schema.insert("k".to_string(), (0, ColumnType::ULong));
            for f in &mut fs {
                let mut m = Map::new();
                m.insert("k".to_string(), Value::Number(Number::from(sym::u64())));
                f.city_objects.get_mut("o").unwrap().attributes = Some(Value::Object(m));
            }
        }
        let o = Options { spatial: true, indices: indexed(sym::param(3, 0)), schema, count: None };
        let bytes = file(&fs, &o);
        let (x0, y0) = (sym::f64(), sym::f64());
        let (q, x1, y1) = if sym::param(2, 0) == 1 {
            (SpatialQuery::PointIntersects(x0, y0), x0, y0)
        } else {
            let (x1, y1) = (sym::f64(), sym::f64());
            (SpatialQuery::BBox(x0, y0, x1, y1), x1, y1)
        };
        let Some(got) = read(&bytes, Sel::Space(q), mode) else { sym::fail("a file with a spatial index refuses a query") };
        let want: Vec<bool> = fs
            .iter()
            .map(|f| {
                let c = |k: usize, s: f64, t: f64| -> (f64, f64) {
                    let v: Vec<f64> = f.vertices.iter().map(|p| p[k] as f64 * s + t).collect();
                    (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
                };
                let (a0, a1) = c(0, 0.5, 8.0);
                let (b0, b1) = c(1, 2.0, -16.0);
                (a1 >= x0) & (b1 >= y0) & (a0 <= x1) & (b0 <= y1)
            })
            .collect();
        expect(&fs, &want, &got, "a query returns exactly the features whose box it meets");
        sym::reach(if got.is_empty() { 2 } else { 1 });
    }

    /// the nearest feature (by the centres of the boxes): how many, mode, attribute index, places
    fn near() {
        let n = sym::param(0, 3) as usize;
        let fs = features(n, sym::param(3, 3));
        let o = Options { spatial: true, indices: None, schema: AttributeSchema::new(), count: None };
        let bytes = file(&fs, &o);
        let (x, y) = (sym::i8() >> 3, sym::i8() >> 3);
        let (px, py) = (sym::concretize(x as u64) as i64 as f64, sym::concretize(y as u64) as i64 as f64);
        let Some(got) = read(&bytes, Sel::Space(SpatialQuery::PointNearest(px, py)), sym::param(1, 0)) else { sym::fail("a file with a spatial index refuses a query") };
        sym::check(got.len() == 1, "one feature is the nearest");
        let d = |f: &CityJSONFeature| {
            let r = |k: usize, s: f64, t: f64, p: f64| {
                let v: Vec<f64> = f.vertices.iter().map(|q| q[k] as f64 * s + t).collect();
                let (a, b) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
                p - (a + b) / 2.0
            };
            let (a, b) = (r(0, 0.5, 8.0, px), r(1, 2.0, -16.0, py));
            a * a + b * b
        };
        let k = (got[0].id.as_bytes()[0] - b'0') as usize;
        let best = fs.iter().map(|f| d(f)).fold(f64::INFINITY, f64::min);
        sym::check(d(&fs[k]) == best, "no feature is nearer than the nearest");
        let mut want = vec![false; n];
        want[k] = true;
        expect(&fs, &want, &got, "one feature is the nearest");
        sym::reach(1);
    }

    /// features far apart in the file (the one between them is long): bytes between, mode
    fn far() {
        let gap = sym::param(0, 300000) as usize;
        let mut fs = vec![];
        for k in 0..4 {
            let mut id = k.to_string();
            if k == 1 || k == 2 {
                id.push_str(&"-".repeat(gap));
            }
            let mut m = Map::new();
            m.insert("k".to_string(), Value::Number((k as u64 % 3).into()));
            // the last one lies around all others, so that a box has it and the first, which are far apart
            let v = if k == 3 { vec![vec![-30, 0, 0], vec![90, 0, 0]] } else { vec![vec![k * 10, 0, 0]] };
            fs.push(feature(id, v, Some(Value::Object(m))));
        }
        let schema = AttributeSchema::from([("k".to_string(), (0, ColumnType::ULong))]);
        let o = Options { spatial: true, indices: indexed(1), schema, count: None };
        let bytes = file(&fs, &o);
        let mode = sym::param(1, 2);
        let (sel, want) = match sym::choose(3) {
            0 => (Sel::All, vec![true; 4]),
            1 => {
                let mut lo = [0.0; 2];
                lo[0] = sym::f64();
                lo[1] = sym::f64();
                let want = (0..4)
                    .map(|k| {
                        let (a, b) = if k == 3 { (-7.0, 53.0) } else { (k as f64 * 5.0 + 8.0, k as f64 * 5.0 + 8.0) };
                        (b >= lo[0]) & (a <= lo[1])
                    })
                    .collect();
                (Sel::Space(SpatialQuery::BBox(lo[0], -100.0, lo[1], 100.0)), want)
            }
            _ => {
                let v = sym::u64();
                let want = fs.iter().map(|f| f.city_objects["o"].attributes.as_ref().unwrap()["k"].as_u64().unwrap() == v).collect();
                (Sel::Attr(vec![("k".to_string(), Operator::Eq, KeyType::UInt64(v))]), want)
            }
        };
        let Some(got) = read(&bytes, sel, mode) else { sym::fail("a query on an index is refused") };
        let want: Vec<bool> = want;
        expect(&fs, &want, &got, "a selection has exactly the features asked for");
        sym::reach(1);
    }

    /// what a file has no index for is refused, not answered: mode
    fn refused() {
        let mode = sym::param(0, 0);
        let mut fs = features(2, 1);
        for f in &mut fs {
            let mut m = Map::new();
            m.insert("k".to_string(), Value::Number(sym::u64().into()));
            m.insert("l".to_string(), Value::Number(sym::u64().into()));
            f.city_objects.get_mut("o").unwrap().attributes = Some(Value::Object(m));
        }
        let schema = AttributeSchema::from([("k".to_string(), (0, ColumnType::ULong)), ("l".to_string(), (1, ColumnType::ULong))]);
        let which = sym::choose(5);
        let o = Options { spatial: which != 0, indices: if which == 1 { None } else { indexed(1) }, schema, count: None };
        let bytes = file(&fs, &o);
        let v = sym::u64();
        let eq = |n: &str| (n.to_string(), Operator::Eq, KeyType::UInt64(v));
        let sel = match which {
            0 => Sel::Space(SpatialQuery::BBox(sym::f64(), sym::f64(), sym::f64(), sym::f64())),
            1 => Sel::Attr(vec![eq("k")]),
            2 => Sel::Attr(vec![eq("l")]),
            3 => Sel::Attr(vec![eq("k"), eq("l")]),
            _ => Sel::Attr(vec![eq("nothing")]),
        };
        if let Some(got) = read(&bytes, sel, mode) {
            // nothing has the first value, so the answer is known without the second
            sym::check(which == 3, "a query without an index is refused");
            sym::check(got.is_empty(), "a query without an index is refused");
            for f in &fs {
                sym::check(f.city_objects["o"].attributes.as_ref().unwrap()["k"].as_u64().unwrap() != v, "a query without an index is refused");
            }
        }
        sym::reach(1);
    }

    /// attribute queries: how many, mode, type of the attribute, other indices (0 none, 1 before and
    /// after it), spatial index, conditions, places
    fn attributes() {
        let n = sym::param(0, 2) as usize;
        let mode = sym::param(1, 0);
        let t = sym::param(2, 0) as usize;
        let others = sym::param(3, 0) == 1;
        let mut fs = features(n, sym::param(6, 1));
        let mut schema = AttributeSchema::new();
        let mut indices = vec![];
        // the order of the columns is not the order of the names, nor the one the indices are asked for
        let mut col = 0;
        if others {
            schema.insert("z".to_string(), (0, ColumnType::Bool));
            schema.insert("a".to_string(), (2, ColumnType::String));
            indices.push(("a".to_string(), None));
            col = 1;
        }
        schema.insert("k".to_string(), (col, TYPES[t].clone()));
        indices.push(("k".to_string(), Some(16)));
        if others {
            indices.push(("z".to_string(), Some(16)));
        }
        let mut keys = vec![];
        let mut names = vec![];
        for f in &mut fs {
            let mut m = Map::new();
            if others {
                m.insert("z".to_string(), Value::Bool(true));
                let s = sym::choose(2);
                m.insert("a".to_string(), Value::String(["x", "yy"][s].to_string()));
                names.push(s);
            } else {
                names.push(0);
            }
            // the attribute, null or nothing
            keys.push(match sym::choose(3) {
                0 => None,
                1 => {
                    m.insert("k".to_string(), Value::Null);
                    None
                }
                _ => {
                    let (v, k) = value(t);
                    m.insert("k".to_string(), v.clone());
                    Some((v, k))
                }
            });
            f.city_objects.get_mut("o").unwrap().attributes = Some(Value::Object(m));
        }
        sym::assume(keys.iter().any(|k| k.is_some()));
        let o = Options { spatial: sym::param(4, 1) == 1, indices: Some(indices), schema, count: None };
        let bytes = file(&fs, &o);
        let op = OPS[sym::choose(6)];
        let key = value(t);
        let mut q: AttrQuery = vec![("k".to_string(), op, key.1.clone())];
        let mut second = None;
        if sym::param(5, 1) == 2 {
            let s = sym::choose(2);
            q.push(("a".to_string(), Operator::Eq, KeyType::StringKey50(FixedStringKey::from_str(["x", "yy"][s]))));
            second = Some(s);
        }
        let Some(got) = read(&bytes, Sel::Attr(q), mode) else { sym::fail("a query on an indexed attribute is refused") };
        let want: Vec<bool> = (0..n)
            .map(|i| match &keys[i] {
                None => false,
                Some(k) => holds(op, k, &key) && second.is_none_or(|s| names[i] == s),
            })
            .collect();
        expect(&fs, &want, &got, "a query returns exactly the features that satisfy it");
        sym::reach(if got.is_empty() { 2 } else { 1 });
    }
}
const OPS: [Operator; 6] = [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Ge, Operator::Lt, Operator::Le];
const TYPES: [ColumnType; 9] = [
    ColumnType::ULong,
    ColumnType::Long,
    ColumnType::Double,
    ColumnType::Bool,
    ColumnType::String,
    ColumnType::DateTime,
    ColumnType::Int,
    ColumnType::UInt,
    ColumnType::Float,
];
const DATES: [&str; 4] = ["1969-12-31T23:59:59.5Z", "2020-02-29T12:00:00+01:00", "2020-02-29T11:00:00.000000001Z", "2262-04-12T00:00:00Z"];
/// any value of a type, in JSON and as a key
fn value(t: usize) -> (Value, KeyType) {
    match t {
        0 => {
            let v = sym::u64();
            (Value::Number(v.into()), KeyType::UInt64(v))
        }
        1 => {
            let v = sym::i64();
            (Value::Number(v.into()), KeyType::Int64(v))
        }
        2 => {
            let v = sym::finite();
            (Value::Number(Number::from_f64(v).unwrap()), KeyType::Float64(Float(v)))
        }
        3 => {
            let v = sym::bool();
            (Value::Bool(v), KeyType::Bool(v))
        }
        4 => {
            let v = sym::ascii(sym::choose(2));
            let k = KeyType::StringKey50(FixedStringKey::from_str(&v));
            (Value::String(v), k)
        }
        5 => {
            let v = DATES[sym::choose(4)];
            (Value::String(v.to_string()), KeyType::DateTime(DateTime::parse_from_rfc3339(v).unwrap().with_timezone(&Utc)))
        }
        6 => {
            let v = sym::i32();
            (Value::Number(v.into()), KeyType::Int32(v))
        }
        7 => {
            let v = sym::u32();
            (Value::Number(v.into()), KeyType::UInt32(v))
        }
        _ => {
            let v = sym::i8() as f32;
            (Value::Number(Number::from_f64(v as f64).unwrap()), KeyType::Float32(Float(v)))
        }
    }
}
fn holds(op: Operator, a: &(Value, KeyType), b: &(Value, KeyType)) -> bool {
    macro_rules! c {
        ($x:expr, $y:expr) => {
            match op {
                Operator::Eq => $x == $y,
                Operator::Ne => $x != $y,
                Operator::Gt => $x > $y,
                Operator::Ge => $x >= $y,
                Operator::Lt => $x < $y,
                Operator::Le => $x <= $y,
            }
        };
    }
    match (&a.1, &b.1) {
        (KeyType::UInt64(x), KeyType::UInt64(y)) => c!(x, y),
        (KeyType::Int64(x), KeyType::Int64(y)) => c!(x, y),
        (KeyType::Float64(x), KeyType::Float64(y)) => c!(x.0, y.0),
        (KeyType::Bool(x), KeyType::Bool(y)) => c!(x, y),
        (KeyType::StringKey50(_), KeyType::StringKey50(_)) => c!(a.0.as_str().unwrap(), b.0.as_str().unwrap()),
        (KeyType::DateTime(x), KeyType::DateTime(y)) => c!(x, y),
        (KeyType::Int32(x), KeyType::Int32(y)) => c!(x, y),
        (KeyType::UInt32(x), KeyType::UInt32(y)) => c!(x, y),
        (KeyType::Float32(x), KeyType::Float32(y)) => c!(x.0, y.0),
        _ => false,
    }
}

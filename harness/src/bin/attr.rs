// Attributes of city objects and of semantic surfaces, written and read back.
use cjseq::{CityJSON, CityJSONFeature, CityObject, Geometry, GeometryType, NestedArray, Semantics, SemanticsSurface};
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::fb::ColumnType;
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::{FcbReader, FcbWriter, HttpFcbReader};
use harness::eq::*;
use harness::{entries, net, sym};
use serde_json::{Map, Number, Value};
use std::collections::HashMap;
use std::io::Cursor;

fn ok<T, E>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => sym::fail(what),
    }
}

/// The feature after a file: `via` 0 read with seeking, 1 sequentially, 2 over range requests.
fn through(f: &CityJSONFeature, schema: AttributeSchema, semantic: Option<AttributeSchema>, via: u64) -> CityJSONFeature {
    let mut cj = CityJSON::new();
    cj.metadata = None;
    let opt = HeaderWriterOptions { write_index: true, feature_count: 1, index_node_size: 16, attribute_indices: None, geographical_extent: None };
    let mut w = ok(FcbWriter::new(cj, Some(opt), Some(schema), semantic), "a writer cannot be made");
    ok(w.add_feature(f), "adding a feature fails");
    let mut file = Vec::new();
    ok(w.write(&mut file), "writing a file fails");
    const R: &str = "a feature written cannot be read";
    match via {
        0 => {
            let mut it = ok(ok(FcbReader::open(Cursor::new(&file)), R).select_all(), R);
            sym::check(ok(it.next(), R).is_some(), R);
            ok(it.cur_cj_feature(), R)
        }
        1 => {
            let mut it = ok(ok(FcbReader::open(Cursor::new(&file)), R).select_all_seq(), R);
            sym::check(ok(it.next(), R).is_some(), R);
            ok(it.cur_cj_feature(), R)
        }
        _ => net::now(async {
            let mut it = ok(ok(HttpFcbReader::new(net::client(file)).await, R).select_all().await, R);
            match ok(it.next().await, R) {
                Some(b) => ok(b.cj_feature(), R),
                None => sym::fail(R),
            }
        }),
    }
}

fn object(attributes: Option<Value>) -> CityObject {
    CityObject::new("Building".to_string(), None, attributes, None, None, None, None, None)
}

const W: &str = "an object keeps its attributes";
/// the same JSON value; integers may come back as the double of the same value, null members not at all
fn same_value(a: &Value, b: &Value, top: bool) {
    match (a, b) {
        (Value::Null, Value::Null) => {}
        (Value::Bool(x), Value::Bool(y)) => sym::check(x == y, W),
        (Value::Number(x), Value::Number(y)) => {
            if x.is_f64() {
                sym::check(y.is_f64(), W);
                sym::check(x.as_f64().unwrap().to_bits() == y.as_f64().unwrap().to_bits(), W);
            } else if y.is_f64() {
                let (i, d) = (x.as_i64(), y.as_f64().unwrap());
                sym::check(i.is_some(), W);
                let i = i.unwrap();
                sym::check((i <= 1 << 53) & (i >= -(1 << 53)), W);
                sym::check(d == i as f64, W);
            } else if x.is_u64() {
                sym::check(y.is_u64(), W);
                sym::check(x.as_u64() == y.as_u64(), W);
            } else {
                sym::check(x.as_i64() == y.as_i64(), W);
            }
        }
        (Value::String(x), Value::String(y)) => same_str(x, y, W),
        (Value::Array(x), Value::Array(y)) => {
            sym::check(x.len() == y.len(), W);
            for (p, q) in x.iter().zip(y) {
                same_value(p, q, false);
            }
        }
        (Value::Object(x), Value::Object(y)) => {
            let n = x.values().filter(|v| !top || !v.is_null()).count();
            sym::check(n == y.len(), W);
            for (k, v) in x {
                if top && v.is_null() {
                    continue;
                }
                match y.get(k) {
                    Some(z) => same_value(v, z, false),
                    None => sym::fail(W),
                }
            }
        }
        _ => sym::fail(W),
    }
}

/// any value without parts; strings are up to 2 characters of ASCII, dates, or something longer
fn scalar() -> Value {
    scalar_of(sym::choose(6))
}
fn scalar_of(k: usize) -> Value {
    match k {
        0 => Value::Null,
        1 => Value::Bool(sym::bool()),
        2 => Value::Number(sym::u64().into()),
        3 => Value::Number(sym::i64().into()),
        4 => Value::Number(Number::from_f64(sym::finite()).unwrap()),
        _ => string(),
    }
}
fn string() -> Value {
    Value::String(match sym::choose(4) {
        0 => sym::ascii(sym::choose(3)),
        1 => "2020-02-29T12:00:00.5+01:00".to_string(),
        2 => "naïve \"Straße\" \u{1F3E0}\n\u{0}".to_string(),
        _ => "2020-02-30T12:00:00Z".to_string(),
    })
}
/// a value with parts
fn nested(depth: u64) -> Value {
    match if depth == 0 { 0 } else { sym::choose(3) } {
        0 => match sym::choose(6) {
            0 => Value::Null,
            1 => Value::Bool(sym::bool()),
            2 => Value::Number((sym::u8() as u64).into()),
            3 => Value::Number([Number::from(u64::MAX), Number::from(i64::MIN), Number::from_f64(-0.1).unwrap(), Number::from_f64(1e300).unwrap()][sym::choose(4)].clone()),
            4 => Value::String(sym::ascii(1)),
            _ => Value::String("ö\"\\\n".to_string()),
        },
        1 => Value::Array((0..sym::choose(3)).map(|_| nested(depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for k in 0..sym::choose(3) {
                m.insert(["", "b c"][k].to_string(), nested(depth - 1));
            }
            Value::Object(m)
        }
    }
}
/// any value without parts, or one with parts
fn any(few: bool, big: bool) -> Value {
    match sym::choose(8) {
        // numbers which are written as text in a column of mixed types: few of them
        2 if few && !big => Value::Number((sym::u8() as u64).into()),
        3 if few && !big => Value::Number([-1, -(1i64 << 53)][sym::choose(2)].into()),
        2 if few => Value::Number(if sym::bool() { (sym::u8() as u64).into() } else { [(1u64 << 53) + 1, 1 << 63, u64::MAX][sym::choose(3)].into() }),
        3 if few => Value::Number([-1, i64::MIN, -(1i64 << 53) - 1, 7][sym::choose(4)].into()),
        4 if few => Value::Number(Number::from_f64([-0.0, 0.1, 1e300][sym::choose(3)]).unwrap()),
        6 => Value::Array(vec![Value::Number((sym::u8() as u64).into()), Value::Null]),
        7 => one("", Value::String("\"ö".to_string())),
        k => scalar_of(k),
    }
}
fn infer(all: &[&Value]) -> AttributeSchema {
    let mut s = AttributeSchema::new();
    for v in all {
        s.add_attributes(v);
    }
    s
}
/// Writes objects with these attributes and checks that they come back. `schema` as inferred from the
/// first `known` of them.
fn objects(all: Vec<Option<Value>>, schema: AttributeSchema, via: u64) {
    let mut f = CityJSONFeature::new();
    f.id = "f".to_string();
    f.vertices = vec![vec![1, 2, 3]];
    for (k, a) in all.iter().enumerate() {
        f.city_objects.insert(["o", "p", "q"][k].to_string(), object(a.clone()));
    }
    let r = through(&f, schema, None, via);
    sym::check(r.city_objects.len() == all.len(), "the feature keeps its objects");
    for (k, a) in all.iter().enumerate() {
        let Some(o) = r.city_objects.get(["o", "p", "q"][k]) else { sym::fail("an object is lost") };
        same_opt(a, &o.attributes, W, &|x, y| same_value(x, y, true));
    }
}
fn one(k: &str, v: Value) -> Value {
    Value::Object(Map::from_iter([(k.to_string(), v)]))
}

entries! {
    /// one object with up to three attributes: how many, via
    fn values() {
        let n = sym::param(0, 1);
        let a = maybe(|| {
            let mut m = Map::new();
            for k in 0..n as usize {
                // the order of columns is the order in which the schema meets them
                if sym::choose(4) != 0 {
                    m.insert(["m", "b", "a rather longer name"][k].to_string(), scalar());
                }
            }
            Value::Object(m)
        });
        let schema = infer(&a.iter().collect::<Vec<_>>());
        objects(vec![a], schema, sym::param(1, 0));
        sym::reach(1);
    }

    /// an attribute with parts: depth, via
    fn parts() {
        let v = if sym::choose(2) == 0 { Value::Array(vec![nested(sym::param(0, 1))]) } else { one("x", nested(sym::param(0, 1))) };
        let a = one("k", v);
        let schema = infer(&[&a]);
        objects(vec![Some(a)], schema, sym::param(1, 0));
        sym::reach(1);
    }

    /// the same attribute in two or three objects, of any types: objects, objects the schema is made from, via
    fn mixed() {
        let n = sym::param(0, 2);
        let few = sym::param(1, 1) > 1;
        let all: Vec<Value> = (0..n)
            .map(|k| {
                let mut m = Map::new();
                m.insert("k".to_string(), any(few, true));
                if k == 1 {
                    // only the second has this one
                    m.insert("j".to_string(), Value::Bool(sym::bool()));
                }
                Value::Object(m)
            })
            .collect();
        let schema = infer(&all[..sym::param(1, 1) as usize].iter().collect::<Vec<_>>());
        objects(all.into_iter().map(Some).collect(), schema, sym::param(2, 0));
        sym::reach(1);
    }

    /// columns of a given type: via
    fn typed() {
        let (t, v): (ColumnType, Value) = match sym::choose(13) {
            0 => (ColumnType::Byte, sym::i8().into()),
            1 => (ColumnType::UByte, sym::u8().into()),
            2 => (ColumnType::Bool, sym::bool().into()),
            3 => (ColumnType::Short, sym::i16().into()),
            4 => (ColumnType::UShort, sym::u16().into()),
            5 => (ColumnType::Int, sym::i32().into()),
            6 => (ColumnType::UInt, sym::u32().into()),
            7 => (ColumnType::Long, sym::i64().into()),
            8 => (ColumnType::ULong, sym::u64().into()),
            9 => (ColumnType::Float, Value::Number(Number::from_f64(sym::i8() as f64).unwrap())),
            10 => (ColumnType::Double, Value::Number(Number::from_f64(sym::finite()).unwrap())),
            11 => (ColumnType::String, string()),
            _ => (ColumnType::Json, nested(1)),
        };
        // between two others, the columns numbered in another order than the names
        let schema = AttributeSchema::from([("a".to_string(), (2, ColumnType::String)), ("k".to_string(), (1, t)), ("z".to_string(), (0, ColumnType::Bool))]);
        let mut m = Map::new();
        m.insert("z".to_string(), sym::bool().into());
        m.insert("k".to_string(), v);
        m.insert("a".to_string(), Value::String(sym::ascii(1)));
        objects(vec![Some(Value::Object(m)), None], schema, sym::param(0, 0));
        sym::reach(1);
    }

    /// attributes of semantic surfaces: surfaces, via. There is one set of columns for all of them, so
    /// that integers beyond 2^53 do not mix with doubles and negative ones not with those beyond 2^63.
    fn semantic() {
        let n = sym::param(0, 2) as usize;
        let all: Vec<Option<Value>> = (0..n)
            .map(|k| {
                maybe(|| {
                    let mut m = Map::new();
                    m.insert("k".to_string(), any(n > 1, false));
                    if k == 1 {
                        m.insert("j".to_string(), Value::Bool(sym::bool()));
                    }
                    Value::Object(m)
                })
            })
            .collect();
        let schema = infer(&all.iter().flatten().collect::<Vec<_>>());
        let surfaces = all
            .iter()
            .map(|a| SemanticsSurface { thetype: "RoofSurface".to_string(), parent: None, children: None, other: a.clone() })
            .collect();
        let l = |k: u32| NestedArray::Nested(vec![NestedArray::Indices(vec![k])]);
        let g = Geometry {
            thetype: GeometryType::MultiSurface,
            lod: None,
            boundaries: NestedArray::Nested((0..n as u32).map(l).collect()),
            semantics: Some(Semantics { values: NestedArray::Indices((0..n as u32).map(Some).collect()), surfaces }),
            material: None,
            texture: None,
            template: None,
            transformation_matrix: None,
        };
        let mut f = CityJSONFeature::new();
        f.id = "f".to_string();
        f.vertices = vec![vec![1, 2, 3]];
        f.city_objects = HashMap::from([("o".to_string(), CityObject::new("Building".to_string(), None, None, Some(vec![g]), None, None, None, None))]);
        let r = through(&f, AttributeSchema::new(), if schema.is_empty() { None } else { Some(schema) }, sym::param(1, 0));
        let s = r.city_objects.get("o").and_then(|o| o.geometry.as_ref()).and_then(|g| g[0].semantics.as_ref());
        let Some(s) = s else { sym::fail("a geometry keeps its semantic surfaces") };
        sym::check(s.surfaces.len() == n, "a geometry keeps its semantic surfaces");
        for (a, b) in all.iter().zip(&s.surfaces) {
            let empty = Value::Object(Map::new());
            // no attributes and an empty list of them are the same
            same_value(a.as_ref().unwrap_or(&empty), b.other.as_ref().unwrap_or(&empty), true);
        }
        sym::reach(1);
    }
}

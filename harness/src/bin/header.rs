// The header of a file: metadata, reference system, transform, templates, appearance, extensions and
// columns, written and read back.
use cjseq::{Address, Appearance, CityJSON, CityJSONFeature, CityObject, ExtensionFile, Geometry, GeometryTemplates, GeometryType, MaterialReference, Metadata, NestedArray, PointOfContact, ReferenceSystem, Semantics, SemanticsSurface, TextureReference, Transform};
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::deserializer::to_cj_metadata;
use fcb_core::fb::{size_prefixed_root_as_header, ColumnType, Header, HeaderArgs};
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::serializer::to_extension;
use fcb_core::{FcbReader, FcbWriter, HttpFcbReader};
use harness::eq::*;
use harness::looks::*;
use harness::{entries, net, sym};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Cursor;

fn ok<T, E>(r: Result<T, E>, what: &str) -> T {
    match r {
        Ok(x) => x,
        Err(_) => sym::fail(what),
    }
}
const R: &str = "the header of a file written cannot be read";

struct Given {
    cj: CityJSON,
    extent: Option<[f64; 6]>,
    schema: Option<AttributeSchema>,
    semantic: Option<AttributeSchema>,
    indices: Option<Vec<(String, Option<u16>)>>,
    features: Vec<CityJSONFeature>,
}
fn given(cj: CityJSON) -> Given {
    Given { cj, extent: None, schema: None, semantic: None, indices: None, features: vec![feature("f", None)] }
}
fn feature(id: &str, attributes: Option<Value>) -> CityJSONFeature {
    let mut f = CityJSONFeature::new();
    f.id = id.to_string();
    f.vertices = vec![vec![1, 2, 3]];
    f.city_objects = HashMap::from([("o".to_string(), CityObject::new("Building".to_string(), None, attributes, None, None, None, None, None))]);
    f
}
fn file(g: Given) -> Vec<u8> {
    let opt = HeaderWriterOptions { write_index: true, feature_count: g.features.len() as u64, index_node_size: 16, attribute_indices: g.indices, geographical_extent: g.extent };
    let mut w = ok(FcbWriter::new(g.cj, Some(opt), g.schema, g.semantic), "a writer cannot be made");
    for f in &g.features {
        ok(w.add_feature(f), "adding a feature fails");
    }
    let mut out = Vec::new();
    ok(w.write(&mut out), "writing a file fails");
    out
}
/// What the header says: `via` 0 from the reader, 1 from the features being read, 2 over range requests.
fn header(bytes: &[u8], via: u64) -> CityJSON {
    match via {
        0 => ok(to_cj_metadata(&ok(FcbReader::open(Cursor::new(bytes)), R).header()), R),
        1 => {
            let it = ok(ok(FcbReader::open(Cursor::new(bytes)), R).select_all_seq(), R);
            let h = it.header();
            ok(to_cj_metadata(&h), R)
        }
        _ => net::now(async { ok(to_cj_metadata(&ok(HttpFcbReader::new(net::client(bytes.to_vec())).await, R).header()), R) }),
    }
}
fn read_back(g: Given, via: u64) -> CityJSON {
    header(&file(g), via)
}
fn plain() -> CityJSON {
    let mut cj = CityJSON::new();
    cj.metadata = None;
    cj
}
fn none() -> Metadata {
    Metadata { geographical_extent: None, identifier: None, point_of_contact: None, reference_date: None, reference_system: None, title: None }
}
fn same_text(a: &Option<String>, b: &Option<String>, what: &str) {
    same_opt(a, b, what, &|x, y| same_str(x, y, what));
}
/// no metadata and metadata without any field are the same
fn same_metadata(a: &Option<Metadata>, b: &Option<Metadata>) {
    let (a, b) = (a.clone().unwrap_or_else(none), b.clone().unwrap_or_else(none));
    const E: &str = "a file keeps its geographical extent";
    same_opt(&a.geographical_extent, &b.geographical_extent, E, &|x, y| same_f64s(x, y, E));
    same_text(&a.identifier, &b.identifier, "a file keeps its identifier");
    same_text(&a.reference_date, &b.reference_date, "a file keeps its reference date");
    same_text(&a.title, &b.title, "a file keeps its title");
    const S: &str = "a file keeps its reference system";
    same_opt(&a.reference_system, &b.reference_system, S, &|x, y| {
        same_str(&x.authority, &y.authority, S);
        same_str(&x.code, &y.code, S);
        same_str(&x.base_url, &y.base_url, S);
        same_str(&x.version, &y.version, if x.version == "1.3" { "a reference system keeps a version that is not a whole number" } else { S });
    });
    const C: &str = "a file keeps its point of contact";
    same_opt(&a.point_of_contact, &b.point_of_contact, C, &|x, y| {
        same_str(&x.contact_name, &y.contact_name, "a contact keeps its name");
        same_str(&x.email_address, &y.email_address, "a contact keeps its email address");
        same_text(&x.contact_type, &y.contact_type, "a contact keeps its type");
        same_text(&x.role, &y.role, "a contact keeps its role");
        same_text(&x.phone, &y.phone, "a contact keeps its phone number");
        same_text(&x.website, &y.website, "a contact keeps its website");
        const A: &str = "a contact keeps its address";
        same_opt(&x.address, &y.address, A, &|p, q| {
            sym::check(p.thoroughfare_number == q.thoroughfare_number, A);
            same_str(&p.thoroughfare_name, &q.thoroughfare_name, A);
            same_str(&p.locality, &q.locality, A);
            same_str(&p.postal_code, &q.postal_code, A);
            same_str(&p.country, &q.country, A);
        });
    });
}
fn same_rest(a: &CityJSON, b: &CityJSON) {
    sym::check(b.thetype == "CityJSON", "a header is that of a CityJSON file");
    same_str(&a.version, &b.version, "a file keeps its version");
    same_f64s(&a.transform.scale, &b.transform.scale, "a file keeps its transform");
    same_f64s(&a.transform.translate, &b.transform.translate, "a file keeps its transform");
    sym::check(b.city_objects.is_empty() & b.vertices.is_empty(), "a header has no objects");
    same_opt(&a.appearance, &b.appearance, "a file keeps its appearance", &|x, y| same_appearance(x, y));
    const T: &str = "a file keeps its templates";
    same_opt(&a.geometry_templates, &b.geometry_templates, T, &|x, y| {
        sym::check(x.vertices_templates.len() == y.vertices_templates.len(), T);
        for (p, q) in x.vertices_templates.iter().zip(&y.vertices_templates) {
            same_f64s(p, q, T);
        }
        sym::check(x.templates.len() == y.templates.len(), T);
        for (p, q) in x.templates.iter().zip(&y.templates) {
            same_geometry(p, q);
        }
    });
    sym::check(b.extensions.is_none(), "extensions appear");
}
fn same_geometry(p: &Geometry, q: &Geometry) {
    sym::check(p.thetype == q.thetype, "a template keeps its type");
    same_text(&p.lod, &q.lod, "a template keeps its level of detail");
    same(&p.boundaries, &q.boundaries, "a template keeps its boundaries", &|a, b| a == b);
    const S: &str = "a template keeps its semantics";
    same_opt(&p.semantics, &q.semantics, S, &|a, b| {
        same(&a.values, &b.values, S, &|x, y| x == y);
        sym::check(a.surfaces.len() == b.surfaces.len(), S);
        for (x, y) in a.surfaces.iter().zip(&b.surfaces) {
            sym::check((x.thetype == y.thetype) & (x.parent == y.parent) & (x.children == y.children), S);
            let empty = json!({});
            sym::check(x.other.as_ref().unwrap_or(&empty) == y.other.as_ref().unwrap_or(&empty), "a template keeps the attributes of its surfaces");
        }
    });
    const M: &str = "a template keeps its materials";
    same_opt(&p.material, &q.material, M, &|a, b| {
        sym::check((a.len() == 1) & (b.len() == 1), M);
        let (x, Some(y)) = (&a["m"], b.get("m")) else { sym::fail(M) };
        sym::check(x.value == y.value, M);
        same_opt(&x.values, &y.values, M, &|s, t| same(s, t, M, &|u, v| u == v));
    });
    const X: &str = "a template keeps its textures";
    same_opt(&p.texture, &q.texture, X, &|a, b| {
        sym::check((a.len() == 1) & (b.len() == 1), X);
        let (x, Some(y)) = (&a["t"], b.get("t")) else { sym::fail(X) };
        same(&x.values, &y.values, X, &|u, v| u == v);
    });
    sym::check((p.template == q.template) & q.transformation_matrix.is_none(), "a template is no instance");
}
/// a template: points, or a solid with everything
fn template() -> (Geometry, bool) {
    let mut g = Geometry { thetype: GeometryType::MultiPoint, lod: maybe(|| text(3)), boundaries: NestedArray::Indices(vec![]), semantics: None, material: None, texture: None, template: None, transformation_matrix: None };
    if sym::choose(2) == 0 {
        g.boundaries = NestedArray::Indices((0..1 + sym::choose(2)).map(|_| sym::u32()).collect());
        return (g, false);
    }
    g.thetype = GeometryType::Solid;
    let n = 1 + sym::choose(2);
    let ring = || NestedArray::Indices((0..3).map(|_| sym::u32()).collect());
    g.boundaries = NestedArray::Nested(vec![NestedArray::Nested((0..n).map(|_| NestedArray::Nested(vec![ring()])).collect())]);
    let attributed = sym::choose(2) == 1;
    g.semantics = Some(Semantics {
        values: NestedArray::Nested(vec![NestedArray::Indices((0..n).map(|k| if k == 0 { Some(0) } else { None }).collect())]),
        surfaces: vec![SemanticsSurface { thetype: "RoofSurface".to_string(), parent: None, children: None, other: if attributed { Some(json!({"slope": 0.5})) } else { None } }],
    });
    let index = || {
        let k = sym::u32();
        sym::assume(k != u32::MAX);
        k
    };
    g.material = maybe(|| HashMap::from([("m".to_string(), MaterialReference { value: None, values: Some(NestedArray::Nested(vec![NestedArray::Indices((0..n).map(|_| Some(index() as usize)).collect())])) })]));
    let around = |_| NestedArray::Nested(vec![NestedArray::Indices((0..4).map(|_| Some(index() as usize)).collect())]);
    g.texture = maybe(|| HashMap::from([("t".to_string(), TextureReference { values: NestedArray::Nested(vec![NestedArray::Nested((0..n).map(around).collect())]) })]));
    (g, attributed)
}
fn extent() -> [f64; 6] {
    [sym::f64(), sym::f64(), sym::f64(), sym::f64(), sym::f64(), sym::f64()]
}

entries! {
    /// version, transform and the plain fields of the metadata, an extent in it or in the options: via
    fn metadata() {
        let mut cj = plain();
        cj.version = text(2);
        cj.transform = Transform { scale: vec![sym::f64(), sym::f64(), sym::f64()], translate: vec![sym::f64(), sym::f64(), sym::f64()] };
        cj.metadata = maybe(|| Metadata {
            geographical_extent: maybe(extent),
            identifier: maybe(|| text(1)),
            point_of_contact: None,
            reference_date: maybe(|| text(1)),
            reference_system: None,
            title: maybe(|| text(1)),
        });
        let mut g = given(cj.clone());
        g.extent = maybe(extent);
        if let Some(e) = g.extent {
            // an extent in the options comes first
            cj.metadata = Some(Metadata { geographical_extent: Some(e), ..cj.metadata.unwrap_or_else(none) });
        }
        let r = read_back(g, sym::param(0, 0));
        same_rest(&cj, &r);
        same_metadata(&cj.metadata, &r.metadata);
        sym::reach(1);
    }

    /// the point of contact: via
    fn contact() {
        let mut cj = plain();
        cj.metadata = Some(Metadata {
            point_of_contact: Some(PointOfContact {
                contact_name: text(2),
                contact_type: maybe(|| text(1)),
                role: maybe(|| text(1)),
                phone: maybe(|| text(1)),
                email_address: text(2),
                website: maybe(|| text(1)),
                address: maybe(|| Address {
                    thoroughfare_number: match sym::choose(3) {
                        0 => sym::u8() as i64,
                        1 => -1,
                        _ => i64::MIN,
                    },
                    thoroughfare_name: text(1),
                    locality: text(1),
                    postal_code: text(1),
                    country: text(1),
                }),
            }),
            ..none()
        });
        let r = read_back(given(cj.clone()), sym::param(0, 0));
        same_rest(&cj, &r);
        same_metadata(&cj.metadata, &r.metadata);
        sym::reach(1);
    }

    /// the reference system: via
    fn system() {
        let mut cj = plain();
        let version = ["0", "2", "2147483647", "1.3"][sym::choose(4)];
        let code = match sym::choose(6) {
            0 => "7415".to_string(),
            1 => "0".to_string(),
            2 => "CRS84".to_string(),
            3 => "0042".to_string(),
            4 => "99999999999".to_string(),
            _ => (sym::u8() as u32).to_string(),
        };
        cj.metadata = Some(Metadata { reference_system: Some(ReferenceSystem::new(None, text(2), version.to_string(), code)), ..none() });
        let r = read_back(given(cj.clone()), sym::param(0, 0));
        same_rest(&cj, &r);
        same_metadata(&cj.metadata, &r.metadata);
        sym::reach(1);
    }

    /// geometry templates: how many, with metadata or not, via
    fn templates() {
        let mut cj = plain();
        let n = sym::choose(sym::param(0, 1) + 1);
        let mut attributed = false;
        let templates = (0..n).map(|_| {
            let (g, a) = template();
            attributed |= a;
            g
        }).collect();
        cj.geometry_templates = Some(GeometryTemplates { templates, vertices_templates: (0..sym::choose(3)).map(|_| [sym::f64(), sym::f64(), sym::f64()]).collect() });
        if sym::param(1, 0) == 1 {
            cj.metadata = Some(none());
        }
        let mut g = given(cj.clone());
        if attributed {
            let mut s = AttributeSchema::new();
            s.add_attributes(&json!({"slope": 0.5}));
            g.semantic = Some(s);
        }
        let r = read_back(g, sym::param(2, 0));
        same_rest(&cj, &r);
        same_metadata(&cj.metadata, &r.metadata);
        sym::reach(1);
    }

    /// the appearance of a file: with metadata or not, via
    fn appearance() {
        let mut cj = plain();
        let part = sym::choose(3);
        let mut a = Appearance { materials: None, textures: None, vertices_texture: None, default_theme_texture: None, default_theme_material: None };
        match part {
            0 => a.materials = Some(vec![material()]),
            1 => a.textures = Some(vec![texture()]),
            _ => {
                a.vertices_texture = maybe(|| (0..sym::choose(3)).map(|_| [sym::f64(), sym::f64()]).collect());
                a.default_theme_texture = maybe(|| text(2));
                a.default_theme_material = maybe(|| text(2));
            }
        }
        cj.appearance = Some(a);
        if sym::param(0, 0) == 1 {
            cj.metadata = Some(none());
        }
        let r = read_back(given(cj.clone()), sym::param(1, 0));
        same_rest(&cj, &r);
        same_metadata(&cj.metadata, &r.metadata);
        sym::reach(1);
    }

    /// extensions (as they are once fetched, which needs a network)
    fn extensions() {
        let n = sym::choose(3);
        let all: Vec<ExtensionFile> = (0..n)
            .map(|k| {
                let mut e = ExtensionFile::new(["Noise", "Energy"][k].to_string(), text(2), text(2));
                e.description = text(1);
                e.version_city_json = text(1);
                e.extra_attributes = json!({"Building": {"+q": {"type": "number"}}});
                e
            })
            .collect();
        let mut b = flatbuffers::FlatBufferBuilder::new();
        let list: Vec<_> = all.iter().map(|e| ok(to_extension(&mut b, e), "an extension cannot be written")).collect();
        let list = b.create_vector(&list);
        let version = b.create_string("2.0");
        let h = Header::create(&mut b, &HeaderArgs { version: Some(version), extensions: Some(list), ..Default::default() });
        b.finish_size_prefixed(h, None);
        let h = ok(size_prefixed_root_as_header(b.finished_data()), R);
        const X: &str = "a file keeps its extensions";
        for (k, e) in all.iter().enumerate() {
            let f = h.extensions().unwrap().get(k);
            same_str(&e.name, f.name().unwrap_or_default(), X);
            same_str(&e.description, f.description().unwrap_or_default(), X);
            same_str(&e.url, f.url().unwrap_or_default(), X);
            same_str(&e.version, f.version().unwrap_or_default(), X);
            same_str(&e.version_city_json, f.version_cityjson().unwrap_or_default(), X);
            sym::check(f.extra_attributes() == Some("{\"Building\":{\"+q\":{\"type\":\"number\"}}}"), X);
            sym::check(f.extra_city_objects() == Some("{}"), X);
            sym::check(f.extra_root_properties() == Some("{}"), X);
            sym::check(f.extra_semantic_surfaces() == Some("{}"), X);
        }
        let r = ok(to_cj_metadata(&h), R).extensions;
        sym::check(r.as_ref().map_or(0, |m| m.len()) == n, X);
        for e in &all {
            let Some(x) = r.as_ref().and_then(|m| m.get(&e.name)) else { sym::fail(X) };
            same_str(&x.url, &e.url, X);
            same_str(&x.version, &e.version, X);
        }
        sym::reach(1);
    }

    /// what is said about the columns
    fn columns() {
        const TYPES: [ColumnType; 15] = [ColumnType::Byte, ColumnType::UByte, ColumnType::Bool, ColumnType::Short, ColumnType::UShort, ColumnType::Int, ColumnType::UInt, ColumnType::Long, ColumnType::ULong, ColumnType::Float, ColumnType::Double, ColumnType::String, ColumnType::Json, ColumnType::DateTime, ColumnType::Binary];
        let n = 1 + sym::choose(3);
        let mut schema = AttributeSchema::new();
        let names = ["b", "a", "c"];
        let mut types = vec![];
        for k in 0..n {
            let t = if k == 1 { TYPES[sym::choose(15)] } else { ColumnType::ULong };
            types.push(t);
            schema.insert(names[k].to_string(), (k as u16, t));
        }
        // which columns have an index (the second has none)
        let indexed: Vec<bool> = (0..3).map(|k| k < n && k != 1 && sym::bool()).collect();
        let count = 1 + sym::choose(2);
        let mut g = given(plain());
        g.schema = Some(schema);
        let list: Vec<_> = (0..n).rev().filter(|&k| indexed[k]).map(|k| (names[k].to_string(), Some(4))).collect();
        if !list.is_empty() {
            g.indices = Some(list);
        }
        g.features = (0..count).map(|k| feature(["x", "y"][k], Some(json!({"b": k, "c": k})))).collect();
        let bytes = file(g);
        let m = net::now(async {
            let mut it = ok(ok(HttpFcbReader::new(net::client(bytes)).await, R).select_all().await, R);
            match ok(it.next().await, R) {
                Some(b) => ok(b.meta(), R),
                None => sym::fail("a feature is lost"),
            }
        });
        const M: &str = "the columns of a file are described as they are";
        sym::check(m.feature_count == count as u64, "the description has the number of features");
        sym::check(m.columns.len() == n, M);
        for (k, c) in m.columns.iter().enumerate() {
            sym::check(c.index as usize == k, M);
            sym::check(c.name == names[k], M);
            sym::check(format!("{:?}", c._type) == format!("{:?}", types[k]), M);
            sym::check(c.attr_index == Some(indexed[k]), "the description says which columns have an index");
        }
        sym::reach(1);
    }
}

// A feature written and read back: geometry, semantics, appearance, city objects.
use cjseq::{Appearance, MaterialReference, Semantics, SemanticsSurface, TextureReference, Boundaries, CityJSON, CityJSONFeature, CityObject, Geometry, GeometryType, NestedArray};
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::deserializer::to_cj_feature;
use fcb_core::feature_writer::FeatureWriter;
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::{size_prefixed_root_as_city_feature, FcbReader, FcbWriter};
use harness::eq::*;
use harness::looks::*;
use harness::{entries, sym};
use std::collections::HashMap;
use std::io::Cursor;

/// The feature as it comes back. `via`: 0 the feature's own bytes, 1 a whole file read with seeking,
/// 2 a whole file read sequentially; 4 more: a file without a spatial index.
fn through(f: &CityJSONFeature, schema: &AttributeSchema, sem: Option<&AttributeSchema>, via: u64) -> CityJSONFeature {
    if via == 0 {
        let mut w = FeatureWriter::new(f, schema.clone(), sem.cloned(), None);
        let bytes = w.finish_to_feature();
        let len = u32::from_le_bytes(bytes[..4].try_into().unwrap()) as usize;
        sym::check(bytes.len() == len + 4, "the size of a feature is in front of it");
        let cf = match size_prefixed_root_as_city_feature(&bytes) {
            Ok(x) => x,
            Err(_) => sym::fail("a feature written does not verify"),
        };
        return match to_cj_feature(cf, None, None) {
            Ok(x) => x,
            Err(_) => sym::fail("a feature written cannot be read"),
        };
    }
    let mut cj = CityJSON::new();
    cj.metadata = None;
    let opt = HeaderWriterOptions { write_index: via & 4 == 0, feature_count: 1, index_node_size: 16, attribute_indices: None, geographical_extent: None };
    let mut w = match FcbWriter::new(cj, Some(opt), Some(schema.clone()), sem.cloned()) {
        Ok(w) => w,
        Err(_) => sym::fail("a writer cannot be made"),
    };
    sym::check(w.add_feature(f).is_ok(), "adding a feature fails");
    let mut file = Vec::new();
    sym::check(w.write(&mut file).is_ok(), "writing a file fails");
    let r = match FcbReader::open(Cursor::new(&file)) {
        Ok(r) => r,
        Err(_) => sym::fail("a file written does not open"),
    };
    let next = |x: Result<bool>| match x {
        Ok(v) => v,
        Err(_) => sym::fail("a feature written cannot be read"),
    };
    type Result<T> = std::result::Result<T, fcb_core::error::Error>;
    if via & 1 == 1 {
        let mut it = match r.select_all() {
            Ok(x) => x,
            Err(_) => sym::fail("a file written cannot be read"),
        };
        sym::check(next(it.next().map(|x| x.is_some())), "the feature is there");
        let out = match it.cur_cj_feature() {
            Ok(x) => x,
            Err(_) => sym::fail("a feature written cannot be read"),
        };
        sym::check(!next(it.next().map(|x| x.is_some())), "there is one feature");
        out
    } else {
        let mut it = match r.select_all_seq() {
            Ok(x) => x,
            Err(_) => sym::fail("a file written cannot be read"),
        };
        sym::check(next(it.next().map(|x| x.is_some())), "the feature is there");
        let out = match it.cur_cj_feature() {
            Ok(x) => x,
            Err(_) => sym::fail("a feature written cannot be read"),
        };
        sym::check(!next(it.next().map(|x| x.is_some())), "there is one feature");
        out
    }
}

/// the only geometry of the only object
fn geometry_through(g: Geometry, via: u64) -> Geometry {
    let mut f = CityJSONFeature::new();
    f.id = "f".to_string();
    let co = CityObject::new("Building".to_string(), None, None, Some(vec![g]), None, None, None, None);
    f.city_objects = HashMap::from([("o".to_string(), co)]);
    f.vertices = vec![vec![1, 2, 3]];
    let mut r = through(&f, &AttributeSchema::new(), None, via);
    sym::check(r.city_objects.len() == 1, "the feature keeps its objects");
    let Some(o) = r.city_objects.remove("o") else { sym::fail("an object is lost") };
    let mut gs = match o.geometry {
        Some(g) => g,
        None => sym::fail("a geometry is lost"),
    };
    sym::check(gs.len() == 1, "an object keeps its geometries");
    gs.pop().unwrap()
}

const TYPES: [GeometryType; 7] = [
    GeometryType::MultiPoint,
    GeometryType::MultiLineString,
    GeometryType::MultiSurface,
    GeometryType::CompositeSurface,
    GeometryType::Solid,
    GeometryType::MultiSolid,
    GeometryType::CompositeSolid,
];
fn depth(t: usize) -> usize {
    [1, 2, 3, 3, 4, 5, 5][t]
}
fn geometry(t: usize, b: Boundaries) -> Geometry {
    Geometry {
        thetype: TYPES[t].clone(),
        lod: None,
        boundaries: b,
        semantics: None,
        material: None,
        texture: None,
        template: None,
        transformation_matrix: None,
    }
}
/// any nesting of the given depth with 1 to max[level] parts at each place (outermost first)
fn nested<T>(d: usize, max: &[u64], leaf: &mut dyn FnMut() -> T) -> NestedArray<T> {
    let k = sym::choose(max[0]) + 1;
    if d == 1 {
        NestedArray::Indices((0..k).map(|_| leaf()).collect())
    } else {
        NestedArray::Nested((0..k).map(|_| nested(d - 1, &max[1..], leaf)).collect())
    }
}
/// the most parts at each level, from a parameter with one decimal digit per level
fn maxes(p: u32, d: usize) -> Vec<u64> {
    let mut v = sym::param(p, 22222);
    let mut out = vec![];
    for _ in 0..d {
        out.push(v % 10);
        v /= 10;
    }
    out.reverse();
    out
}
/// an optional index; any u32 but the one the format keeps for null
fn index() -> Option<u32> {
    let v = sym::u32();
    sym::assume(v != u32::MAX);
    if sym::bool() {
        Some(v)
    } else {
        None
    }
}

entries! {
    /// type, the most parts per level (digits), via
    fn boundaries() {
        let t = sym::param(0, 2) as usize;
        let b = nested(depth(t), &maxes(1, depth(t)), &mut || sym::u32());
        let mut g = geometry(t, b.clone());
        if sym::param(3, 0) == 1 {
            g.lod = maybe(|| text(3));
        }
        let lod = g.lod.clone();
        let r = geometry_through(g, sym::param(2, 0));
        sym::check(r.thetype == TYPES[t], "a geometry keeps its type");
        same(&b, &r.boundaries, "a geometry keeps its boundaries", &|x, y| x == y);
        same_opt(&lod, &r.lod, "a geometry keeps its level of detail", &|x, y| same_str(x, y, "a geometry keeps its level of detail"));
        sym::check(r.semantics.is_none() & r.material.is_none() & r.texture.is_none() & r.template.is_none(), "nothing is added to a geometry");
        sym::reach(1);
    }

    /// type, parts per level (digits; the innermost level is the surfaces), via, number of themes
    fn materials() {
        let t = sym::param(0, 2) as usize;
        let d = depth(t);
        let m = maxes(1, d - 2);
        // one material per surface: the boundaries' nesting without rings and vertices
        let mut themes = vec![];
        for k in 0..sym::param(3, 1) {
            let whole = sym::choose(2) == 1;
            let r = if whole {
                MaterialReference { value: Some(sym::u32() as usize), values: None }
            } else {
                let v = nested(d - 2, &m, &mut || index().map(|x| x as usize));
                MaterialReference { value: None, values: Some(v) }
            };
            themes.push((["a", "b", "c"][k as usize].to_string(), r));
        }
        let b = nested(d, &vec![1; d], &mut || 0);
        let mut g = geometry(t, b);
        g.material = Some(themes.iter().cloned().collect());
        let r = geometry_through(g, sym::param(2, 0));
        let Some(got) = r.material else { sym::fail("the materials of a geometry are lost") };
        sym::check(got.len() == themes.len(), "a geometry keeps its material themes");
        for (k, want) in &themes {
            let Some(x) = got.get(k) else { sym::fail("a material theme is lost") };
            match (&want.value, &x.value) {
                (None, None) => {}
                (Some(p), Some(q)) => sym::check(p == q, "a geometry keeps its material"),
                _ => sym::fail("a geometry keeps its material"),
            }
            same_opt(&want.values, &x.values, "surfaces keep their materials", &|p, q| same(p, q, "surfaces keep their materials", &|x, y| same_index(x, y)));
        }
        sym::reach(1);
    }

    /// type, parts per level (digits), via, number of themes
    fn textures() {
        let t = sym::param(0, 2) as usize;
        let d = depth(t);
        let m = maxes(1, d);
        let mut themes = vec![];
        for k in 0..sym::param(3, 1) {
            let values = nested(d, &m, &mut || index().map(|x| x as usize));
            themes.push((["a", "b", "c"][k as usize].to_string(), TextureReference { values }));
        }
        let b = nested(d, &vec![1; d], &mut || 0);
        let mut g = geometry(t, b);
        g.texture = Some(themes.iter().cloned().collect());
        let r = geometry_through(g, sym::param(2, 0));
        let Some(got) = r.texture else { sym::fail("the textures of a geometry are lost") };
        sym::check(got.len() == themes.len(), "a geometry keeps its texture themes");
        for (k, want) in &themes {
            let Some(x) = got.get(k) else { sym::fail("a texture theme is lost") };
            same(&want.values, &x.values, "rings keep their textures", &|x, y| same_index(x, y));
        }
        sym::reach(1);
    }

    /// type, parts per level (digits; the innermost level is the surfaces), via
    fn semantics() {
        let t = sym::param(0, 2) as usize;
        let d = depth(t);
        // points and lines have one value each
        let ds = if d <= 2 { 1 } else { d - 2 };
        let mut b = None;
        let values = {
            // the shape of the values follows the shape of the boundaries
            let b0 = nested(ds, &maxes(1, ds), &mut || 0u32);
            let v = map(&b0, &mut |_| index());
            b = Some(match d {
                1 => b0,
                2 => rings(&b0, 0),
                _ => rings(&b0, 1),
            });
            v
        };
        let ns = sym::choose(2) + 1;
        let mut surfaces = vec![];
        for _ in 0..ns {
            let thetype = if sym::param(3, 0) == 1 { SEMANTIC[sym::choose(SEMANTIC.len() as u64)].to_string() } else { "WallSurface".to_string() };
            let (parent, children) = if sym::param(3, 0) == 0 {
                (maybe(|| sym::u32()), maybe(|| (0..sym::choose(2) + 1).map(|_| sym::u32()).collect()))
            } else {
                (None, None)
            };
            surfaces.push(SemanticsSurface { thetype, parent, children, other: None });
        }
        let mut g = geometry(t, b.unwrap());
        let want = Semantics { values, surfaces };
        g.semantics = Some(want.clone());
        let r = geometry_through(g, sym::param(2, 0));
        let Some(got) = r.semantics else { sym::fail("the semantics of a geometry are lost") };
        same(&want.values, &got.values, "surfaces keep their semantics", &|x, y| same_index32(x, y));
        sym::check(want.surfaces.len() == got.surfaces.len(), "a geometry keeps its semantic surfaces");
        for (x, y) in want.surfaces.iter().zip(&got.surfaces) {
            same_str(&x.thetype, &y.thetype, "a semantic surface keeps its type");
            same_opt(&x.parent, &y.parent, "a semantic surface keeps its parent", &|p, q| sym::check(p == q, "a semantic surface keeps its parent"));
            same_opt(&x.children, &y.children, "a semantic surface keeps its children", &|p, q| {
                sym::check(p.len() == q.len(), "a semantic surface keeps its children");
                for (m, n) in p.iter().zip(q) {
                    sym::check(m == n, "a semantic surface keeps its children");
                }
            });
        }
        sym::reach(1);
    }

    /// city objects. mode (0 type, 1 extent, 2 relations, 3 ids and vertices, 4 unknown attributes of an object), via
    fn object() {
        let mode = sym::param(0, 0);
        let via = sym::param(1, 1);
        let mut f = CityJSONFeature::new();
        f.id = if mode == 3 { text(3) } else { "f".to_string() };
        f.vertices = if mode == 3 {
            let n = sym::choose(sym::param(2, 3) + 1);
            (0..n).map(|_| vec![sym::i32() as i64, sym::i32() as i64, sym::i32() as i64]).collect()
        } else {
            vec![vec![1, 2, 3]]
        };
        let thetype = if mode == 0 { OBJECTS[sym::choose(OBJECTS.len() as u64)] } else { "Road" }.to_string();
        let extent = if mode == 1 { maybe(|| [sym::f64(), sym::f64(), sym::f64(), sym::f64(), sym::f64(), sym::f64()]) } else { None };
        let mut list = || if mode == 2 { maybe(|| (0..sym::choose(3)).map(|_| sym::ascii(sym::choose(3))).collect::<Vec<_>>()) } else { None };
        let (parents, children, roles) = (list(), list(), list());
        let co = CityObject::new(thetype.clone(), extent, None, None, children.clone(), roles.clone(), parents.clone(), None);
        let id = if mode == 3 { ["o", "", "ø", "a longer identifier {8d1e}"][sym::choose(4)] } else { "o" }.to_string();
        f.city_objects = HashMap::from([(id.clone(), co)]);
        let r = through(&f, &AttributeSchema::new(), None, via);
        same_str(&f.id, &r.id, "a feature keeps its id");
        sym::check(r.vertices.len() == f.vertices.len(), "a feature keeps its vertices");
        for (x, y) in f.vertices.iter().zip(&r.vertices) {
            sym::check(y.len() == 3, "a feature keeps its vertices");
            for k in 0..3 {
                sym::check(x[k] == y[k], "a feature keeps its vertices");
            }
        }
        sym::check(r.appearance.is_none(), "nothing is added to a feature");
        sym::check(r.city_objects.len() == 1, "the feature keeps its objects");
        let (rid, o) = r.city_objects.iter().next().unwrap();
        same_str(&id, rid, "an object keeps its id");
        same_str(&thetype, &o.thetype, "an object keeps its type");
        same_opt(&extent, &o.geographical_extent, "an object keeps its extent", &|p, q| same_f64s(p, q, "an object keeps its extent"));
        same_opt(&children, &o.children, "an object keeps its children", &|p, q| same_strs(p, q, "an object keeps its children"));
        same_opt(&roles, &o.children_roles, "an object keeps its children's roles", &|p, q| same_strs(p, q, "an object keeps its children's roles"));
        same_opt(&parents, &o.parents, "an object keeps its parents", &|p, q| same_strs(p, q, "an object keeps its parents"));
        sym::check(o.geometry.is_none() & o.attributes.is_none(), "nothing is added to an object");
        sym::reach(1);
    }

    /// several geometries: how many, via. Each is a set of points, a surface or an instance of a
    /// template, in one of two objects; standard geometries come before instances.
    fn several() {
        let n = sym::param(0, 2);
        let mut objects: [Vec<Geometry>; 2] = [vec![], vec![]];
        for _ in 0..n {
            let o = sym::choose(2);
            let g = match sym::choose(3) {
                0 => {
                    let mut g = geometry(0, NestedArray::Indices(vec![sym::u32()]));
                    g.lod = maybe(|| sym::ascii(1));
                    g
                }
                1 => geometry(2, NestedArray::Nested(vec![NestedArray::Nested(vec![NestedArray::Indices(vec![sym::u32(), sym::u32()])])])),
                _ => instance(),
            };
            objects[o].push(g);
        }
        let mut f = CityJSONFeature::new();
        f.id = "f".to_string();
        for (k, gs) in objects.iter().enumerate() {
            let co = CityObject::new("Road".to_string(), None, None, Some(gs.clone()), None, None, None, None);
            f.city_objects.insert(["o", "p"][k].to_string(), co);
        }
        f.vertices = vec![vec![1, 2, 3]];
        let r = through(&f, &AttributeSchema::new(), None, sym::param(1, 1));
        sym::check(r.city_objects.len() == 2, "the feature keeps its objects");
        for (k, gs) in objects.iter().enumerate() {
            let Some(o) = r.city_objects.get(["o", "p"][k]) else { sym::fail("an object is lost") };
            let none = vec![];
            let got = o.geometry.as_ref().unwrap_or(&none);
            sym::check(got.len() == gs.len(), "an object keeps its geometries");
            let want = gs.iter().filter(|g| g.template.is_none()).chain(gs.iter().filter(|g| g.template.is_some()));
            for (x, y) in want.zip(got) {
                sym::check(x.thetype == y.thetype, "a geometry keeps its type");
                same(&x.boundaries, &y.boundaries, "a geometry keeps its boundaries", &|p, q| p == q);
                same_opt(&x.lod, &y.lod, "a geometry keeps its level of detail", &|p, q| same_str(p, q, "a geometry keeps its level of detail"));
                same_opt(&x.template, &y.template, "an instance keeps its template", &|p, q| sym::check(p == q, "an instance keeps its template"));
                same_opt(&x.transformation_matrix, &y.transformation_matrix, "an instance keeps its transformation", &|p, q| same_f64s(p, q, "an instance keeps its transformation"));
            }
        }
        sym::reach(1);
    }

    /// the appearance of a feature. part (0 materials, 1 textures, 2 the rest), via
    fn appearance() {
        let part = sym::param(0, 0);
        let mut a = Appearance { materials: None, textures: None, vertices_texture: None, default_theme_texture: None, default_theme_material: None };
        let n = sym::param(2, 1);
        if part == 0 {
            a.materials = Some((0..sym::choose(n) + 1).map(|_| material()).collect());
        } else if part == 1 {
            a.textures = Some((0..sym::choose(n) + 1).map(|_| texture()).collect());
        } else {
            a.materials = maybe(Vec::new);
            a.textures = maybe(Vec::new);
            a.vertices_texture = maybe(|| (0..sym::choose(3)).map(|_| [sym::f64(), sym::f64()]).collect());
            a.default_theme_texture = maybe(|| text(2));
            a.default_theme_material = maybe(|| text(2));
        }
        let mut f = CityJSONFeature::new();
        f.id = "f".to_string();
        f.vertices = vec![vec![1, 2, 3]];
        f.appearance = Some(a);
        let r = through(&f, &AttributeSchema::new(), None, sym::param(1, 1));
        let Some(got) = &r.appearance else { sym::fail("the appearance of a feature is lost") };
        same_appearance(f.appearance.as_ref().unwrap(), got);
        sym::reach(1);
    }
}
fn instance() -> Geometry {
    let mut g = geometry(0, NestedArray::Indices(vec![sym::u32()]));
    g.thetype = GeometryType::GeometryInstance;
    g.template = Some(sym::u32() as usize);
    let mut m = [0.0; 16];
    for x in &mut m {
        *x = sym::f64();
    }
    g.transformation_matrix = Some(m);
    g
}
const OBJECTS: [&str; 34] = [
    "Bridge", "BridgePart", "BridgeInstallation", "BridgeConstructiveElement", "BridgeRoom", "BridgeFurniture", "Building", "BuildingPart",
    "BuildingInstallation", "BuildingConstructiveElement", "BuildingFurniture", "BuildingStorey", "BuildingRoom", "BuildingUnit",
    "CityFurniture", "CityObjectGroup", "GenericCityObject", "LandUse", "OtherConstruction", "PlantCover", "SolitaryVegetationObject",
    "TINRelief", "Road", "Railway", "Waterway", "TransportSquare", "Tunnel", "TunnelPart", "TunnelInstallation",
    "TunnelConstructiveElement", "TunnelHollowSpace", "TunnelFurniture", "WaterBody", "+Noise",
];
const SEMANTIC: [&str; 19] = [
    "RoofSurface", "GroundSurface", "WallSurface", "ClosureSurface", "OuterCeilingSurface", "OuterFloorSurface", "Window", "Door",
    "InteriorWallSurface", "CeilingSurface", "FloorSurface", "WaterSurface", "WaterGroundSurface", "WaterClosureSurface",
    "TrafficArea", "AuxiliaryTrafficArea", "TransportationMarking", "TransportationHole", "+Thermal",
];
fn same_index(a: &Option<usize>, b: &Option<usize>) -> bool {
    (a.is_some() == b.is_some()) & (a.unwrap_or(0) == b.unwrap_or(0))
}
fn same_index32(a: &Option<u32>, b: &Option<u32>) -> bool {
    (a.is_some() == b.is_some()) & (a.unwrap_or(0) == b.unwrap_or(0))
}
fn map<A, B>(a: &NestedArray<A>, f: &mut dyn FnMut(&A) -> B) -> NestedArray<B> {
    match a {
        NestedArray::Indices(x) => NestedArray::Indices(x.iter().map(|v| f(v)).collect()),
        NestedArray::Nested(x) => NestedArray::Nested(x.iter().map(|v| map(v, f)).collect()),
    }
}
/// every element becomes a line (extra 0) or a surface with one ring (extra 1)
fn rings(a: &NestedArray<u32>, extra: usize) -> NestedArray<u32> {
    match a {
        NestedArray::Indices(x) => NestedArray::Nested(
            x.iter()
                .map(|_| {
                    let l = NestedArray::Indices(vec![0, 0, 0]);
                    if extra == 0 {
                        l
                    } else {
                        NestedArray::Nested(vec![l])
                    }
                })
                .collect(),
        ),
        NestedArray::Nested(x) => NestedArray::Nested(x.iter().map(|v| rings(v, extra)).collect()),
    }
}

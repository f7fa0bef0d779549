// The command line program, run by its own main function on files.
use fcb_core::FcbReader;
use harness::{entries, sym};
use serde_json::Value;
use std::process::{ExitCode, Termination};
#[allow(dead_code, unused)]
#[path = "../cli/main.rs"]
mod cli;

/// whether the program ends with success, and what it prints
fn run(args: &[&str]) -> (bool, Vec<u8>) {
    let mut a = vec!["fcb"];
    a.extend_from_slice(args);
    clap::set_args(&a);
    sym::stdout(|| cli::run_main().report() == ExitCode::SUCCESS)
}
/// as `run`, with the standard output left alone
fn plain(args: &[&str]) -> bool {
    let mut a = vec!["fcb"];
    a.extend_from_slice(args);
    clap::set_args(&a);
    cli::run_main().report() == ExitCode::SUCCESS
}
/// one path for each number from a to below b
fn between(a: u64, b: u64) -> usize {
    let k = sym::u64();
    sym::assume((k >= a) & (k < b));
    sym::concretize(k) as usize
}
/// n digits, not all zero before the last, as text and as number
fn digits(t: &mut String, n: usize) -> i64 {
    let mut v = 0;
    for i in 0..n {
        let d = sym::u8();
        sym::assume((d >= b'0' + (i == 0 && n > 1) as u8) & (d <= b'9'));
        unsafe { t.as_mut_vec().push(d) };
        v = v * 10 + (d - b'0') as i64;
    }
    v
}
struct Feature {
    id: &'static str,
    vertices: Vec<[i64; 3]>,
    text: String,
}
const IDS: [&str; 4] = ["a", "b", "c", "d"];
/// the i-th feature: what it has is the program's choice up to `rich`
fn feature(i: usize, vertices: usize, rich: u64, n: usize) -> Feature {
    let id = IDS[i];
    let mut v = vec![];
    let mut vt = String::new();
    for k in 0..vertices {
        vt.push_str(if k > 0 { ",[" } else { "[" });
        let x = digits(&mut vt, n);
        vt.push(',');
        let y = digits(&mut vt, n);
        vt.push_str(",-");
        let z = -digits(&mut vt, 1);
        sym::assume(z < 0);
        vt.push(']');
        v.push([x, y, z]);
    }
    let mut co = String::new();
    if rich > 0 {
        co.push_str(r#","attributes":{"n":"#);
        digits(&mut co, 2);
        co.push_str(r#","s":""#);
        let c = sym::u8();
        sym::assume((c >= b'a') & (c <= b'z'));
        unsafe { co.as_mut_vec().push(c) };
        co.push_str(r#""}"#);
    }
    let mut second = String::new();
    if rich > 1 {
        co.push_str(r#","geometry":[{"type":"MultiSurface","lod":"2","boundaries":[[[0,0,0]],[[0,0,0,0]]],"semantics":{"surfaces":[{"type":"WallSurface","area":"#);
        digits(&mut co, 2);
        co.push_str(r#"}],"values":[0,null]}}],"children":["p"]"#);
        second.push_str(&format!(r#","p":{{"type":"BuildingPart","parents":["{id}"]}}"#));
    }
    Feature { id, vertices: v, text: format!(r#"{{"type":"CityJSONFeature","id":"{id}","CityObjects":{{"{id}":{{"type":"Building"{co}}}{second}}},"vertices":[{vt}]}}"#) }
}
const SCALE: [f64; 3] = [0.5, 0.25, 2.0];
const MOVE: [f64; 3] = [1.0, -1.0, 1000.0];
fn meta(extent: bool) -> String {
    let e = if extent { r#","geographicalExtent":[1.5,2.5,3.5,4.5,5.5,6.5]"# } else { "" };
    format!(r#"{{"type":"CityJSON","version":"2.0","transform":{{"scale":[0.5,0.25,2.0],"translate":[1.0,-1.0,1000.0]}},"metadata":{{"title":"t"{e}}},"CityObjects":{{}},"vertices":[]}}"#)
}
fn put(t: String) {
    std::fs::write("in", t).unwrap()
}
fn real(v: &[i64; 3]) -> [f64; 3] {
    [0, 1, 2].map(|k| v[k] as f64 * SCALE[k] + MOVE[k])
}
fn same(a: &Value, b: &Value, what: &str) {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            sym::check(x.len() == y.len(), what);
            for (k, v) in x {
                match y.get(k) {
                    Some(w) => same(v, w, what),
                    None => sym::fail(what),
                }
            }
        }
        (Value::Array(x), Value::Array(y)) => {
            sym::check(x.len() == y.len(), what);
            for (v, w) in x.iter().zip(y) {
                same(v, w, what);
            }
        }
        (Value::Number(x), Value::Number(y)) => sym::check(x.as_f64() == y.as_f64(), what),
        (Value::String(x), Value::String(y)) => harness::eq::same_str(x, y, what),
        (Value::Bool(x), Value::Bool(y)) => sym::check(x == y, what),
        (Value::Null, Value::Null) => {}
        _ => sym::fail(what),
    }
}
/// what a line of the output says, with the members that stand for nothing left out
fn line(t: &str) -> Value {
    serde_json::from_str(t).unwrap_or_else(|_| sym::fail("what deser writes is JSON"))
}
fn lines(t: &[u8]) -> Vec<Value> {
    let t = std::str::from_utf8(t).unwrap_or_else(|_| sym::fail("what deser writes is text"));
    sym::check(t.ends_with('\n'), "each line ends with a line feed");
    t.lines().map(line).collect()
}
/// the file `out` has the features kept, and the lines of `back` say so
fn check(back: &[u8], meta: &str, kept: &[&Feature]) {
    let what = "ser and deser give the features back";
    let got = lines(back);
    let want = line(meta);
    sym::check(got.len() == kept.len() + 1, "deser writes the metadata and one line per feature");
    same(&got[0], &want, "ser and deser give the metadata back");
    for f in kept {
        let n = got[1..].iter().filter(|g| g["id"].as_str() == Some(f.id)).count();
        sym::check(n == 1, "ser and deser give each feature once");
        let g = got[1..].iter().find(|g| g["id"].as_str() == Some(f.id)).unwrap();
        same(g, &line(&f.text), what);
    }
}
/// an extent of no vertices at all may be anything
fn extent(h: &fcb_core::fb::Header, want: Option<[f64; 6]>, exact: bool) {
    let what = "the extent is that of the vertices, or the one given";
    match (h.geographical_extent(), want) {
        (Some(g), Some(w)) => {
            let g = [g.min().x(), g.min().y(), g.min().z(), g.max().x(), g.max().y(), g.max().z()];
            for k in 0..6 {
                sym::check(g[k] == w[k], what);
            }
        }
        (g, w) => sym::check(g.is_none() == w.is_none() || (!exact && w.is_none()), what),
    }
}
fn union(fs: &[&Feature]) -> Option<[f64; 6]> {
    let mut e: Option<[f64; 6]> = None;
    for v in fs.iter().flat_map(|f| &f.vertices) {
        let p = real(v);
        let o = e.get_or_insert([p[0], p[1], p[2], p[0], p[1], p[2]]);
        for k in 0..3 {
            o[k] = if p[k] < o[k] { p[k] } else { o[k] };
            o[k + 3] = if p[k] > o[k + 3] { p[k] } else { o[k + 3] };
        }
    }
    e
}

entries! {
    /// there and back; options that choose the indices
    fn turn() {
        sym::scratch();
        let (n, nv, rich) = (sym::param(0, 1) as usize, sym::param(1, 1) as usize, sym::param(2, 0));
        let fs: Vec<Feature> = (0..n).map(|i| feature(i, nv, if i == 0 { rich } else { rich.min(1) }, sym::param(3, 2) as usize)).collect();
        let own = sym::choose(2) == 1;
        let m = meta(own);
        put(fs.iter().fold(m.clone(), |t, f| t + "\n" + &f.text) + "\n");
        let mut args = vec!["ser", "-i", "in", "-o", "out"];
        let spatial = if sym::param(4, 0) > 0 { 2 } else { sym::choose(3) };
        args.extend([&[][..], &["-s", "true"], &["-s", "false"]][spatial]);
        let (attr, columns): (&[&str], &[&str]) = match if rich > 0 { sym::choose(4) } else { 0 } {
            0 => (&[], &[]),
            1 => (&["-a", "n"], &["n"]),
            2 => (&["--attr-index", "s, n"], &["n", "s"]),
            _ => (&["-A", "true"], &["n", "s"]),
        };
        args.extend(attr);
        let ge = sym::choose(3);
        args.extend([&[][..], &["-g", "true"], &["-g", "false"]][ge]);
        let (ok, _) = run(&args);
        sym::check(ok, "ser succeeds");
        let all: Vec<&Feature> = fs.iter().collect();
        if ge == 2 {
            // the digits of an extent of the solver's choice are out of reach
            let (ok, _) = run(&["deser", "-i", "out", "-o", "back"]);
            sym::check(ok, "deser succeeds");
            check(&std::fs::read("back").unwrap(), &m, &all);
        }
        let data = std::fs::read("out").unwrap();
        let r = FcbReader::open(std::io::Cursor::new(data)).unwrap_or_else(|_| sym::fail("the file can be opened"));
        let h = r.header();
        sym::check(h.features_count() == n as u64, "the header counts the features");
        extent(&h, if ge < 2 { union(&all) } else if own { Some([1.5, 2.5, 3.5, 4.5, 5.5, 6.5]) } else { None }, ge == 2);
        sym::check((h.index_node_size() > 0) == (spatial < 2), "the spatial index is there unless turned off");
        let mut names: Vec<String> = vec![];
        for a in h.attribute_index().iter().flatten() {
            let c = h.columns().iter().flatten().find(|c| c.index() == a.index()).map(|c| c.name().to_string());
            names.push(c.unwrap_or_else(|| sym::fail("an index belongs to a column")));
        }
        names.sort();
        sym::check(names == columns, "the attributes named have an index, and no others");
        sym::reach(1);
    }
    /// only features with a vertex in the box are kept
    fn bbox() {
        sym::scratch();
        let (n, nv) = (sym::param(0, 1) as usize, sym::param(1, 1) as usize);
        let fs: Vec<Feature> = (0..n).map(|i| feature(i, nv, 0, sym::param(4, 2) as usize)).collect();
        let m = meta(false);
        put(fs.iter().fold(m.clone(), |t, f| t + "\n" + &f.text));
        let mut b = String::new();
        let mut q = [0.0f64; 4];
        for k in 0..4 {
            b.push_str(["", ",", ", ", ","][k]);
            let neg = k == 1 && sym::choose(2) == 1;
            b.push_str(if neg { "-" } else { "" });
            q[k] = digits(&mut b, sym::param(3, 2) as usize) as f64;
            if k < sym::param(2, 0) as usize {
                b.push_str(".5");
                q[k] += 0.5;
            }
            q[k] = if neg { -q[k] } else { q[k] };
        }
        let ge = sym::param(5, 0) == 1;
        let args = ["ser", "-i", "in", "-o", "out", "-b", &b, "-s", "false", "-g", "false"];
        let (ok, _) = run(&args[..if ge { 9 } else { 11 }]);
        if q[0] > q[2] || q[1] > q[3] {
            sym::check(!ok, "a box whose least values are above its greatest is refused");
            sym::reach(2);
            return;
        }
        sym::check(ok, "ser succeeds");
        let kept: Vec<&Feature> = fs
            .iter()
            .filter(|f| f.vertices.iter().map(real).any(|p| (q[0] <= p[0]) & (p[0] <= q[2]) & (q[1] <= p[1]) & (p[1] <= q[3])))
            .collect();
        if ge {
            let r = FcbReader::open(std::io::Cursor::new(std::fs::read("out").unwrap())).unwrap_or_else(|_| sym::fail("the file can be opened"));
            sym::check(r.header().features_count() == kept.len() as u64, "the header counts the features kept");
            extent(&r.header(), union(&kept), false);
            sym::reach(if kept.is_empty() { 3 } else { 1 });
            return;
        }
        let (ok, _) = run(&["deser", "-i", "out", "-o", "back"]);
        sym::check(ok, "deser succeeds");
        if kept.is_empty() {
            sym::check(lines(&std::fs::read("back").unwrap()).len() == 1, "no feature outside the box is kept");
            sym::reach(3);
            return;
        }
        check(&std::fs::read("back").unwrap(), &m, &kept);
        sym::reach(1);
    }
    /// "-" stands for the standard input and output, and nothing else is written there
    fn pipe() {
        sym::scratch();
        let f = feature(0, sym::param(0, 0) as usize, sym::param(1, 0), 1);
        let m = meta(false);
        put(m.clone() + "\n" + &f.text);
        let from = sym::choose(2) == 1;
        if from {
            sym::stdin();
        }
        let (ok, got) = run(&["ser", "-i", if from { "-" } else { "in" }, "-o", "-", "-g", "false"]);
        sym::check(ok, "ser succeeds");
        std::fs::write("in", got).unwrap();
        let (ok, _) = run(&["deser", "-i", "in", "-o", "back"]);
        sym::check(ok, "deser reads what ser wrote to the standard output");
        check(&std::fs::read("back").unwrap(), &m, &[&f]);
        let again = !from && sym::choose(2) == 1;
        if again {
            sym::stdin();
        }
        let (ok, got) = run(&["deser", "-i", if again { "-" } else { "in" }, "-o", "-"]);
        sym::check(ok, "deser succeeds");
        check(&got, &m, &[&f]);
        sym::reach(1);
    }
    /// a file that ends early is an error
    fn cut() {
        sym::scratch();
        let n = sym::param(0, 1) as usize;
        let fs: Vec<Feature> = (0..n).map(|i| feature(i, 1, sym::param(1, 0), 1)).collect();
        put(fs.iter().fold(meta(false), |t, f| t + "\n" + &f.text));
        let (ok, _) = run(&["ser", "-i", "in", "-o", "out", "-g", "false", "-s", "false", "-a", "n"]);
        sym::check(ok, "ser succeeds");
        let data = std::fs::read("out").unwrap();
        let k = between(sym::param(2, 0), sym::param(3, 1 << 30).min(data.len() as u64));
        std::fs::write("out", &data[..k]).unwrap();
        let (ok, _) = run(&["deser", "-i", "out", "-o", "back"]);
        sym::check(!ok, "deser fails for a file that ends early");
        sym::reach(1);
    }
    /// text that ends early is an error, unless it ends with a line
    fn torn() {
        sym::scratch();
        let f = feature(0, 1, sym::param(0, 0), 1);
        let m = meta(false);
        let t = format!("{m}\n{}", f.text);
        let k = between(sym::param(1, 0), sym::param(2, 1 << 30).min(t.len() as u64));
        put(t[..k].to_string());
        let (ok, _) = run(&["ser", "-i", "in", "-o", "out", "-g", "false", "-s", "false"]);
        let whole = k == m.len() || k == m.len() + 1;
        sym::check(ok == whole, "ser fails for text that ends early");
        sym::reach(1);
    }
    /// a disk that becomes full is an error
    fn full() {
        sym::scratch();
        let f = feature(0, 1, sym::param(0, 0), 1);
        put(meta(false) + "\n" + &f.text);
        let args = ["ser", "-i", "in", "-o", "out", "-g", "false", "-s", "false"];
        let (ok, _) = run(&args);
        sym::check(ok, "ser succeeds");
        let (ok, _) = run(&["deser", "-i", "out", "-o", "back"]);
        sym::check(ok, "deser succeeds");
        let (a, b) = (std::fs::read("out").unwrap().len(), std::fs::read("back").unwrap().len());
        if sym::param(1, 0) == 0 {
            let k = between(sym::param(2, 0), sym::param(3, 1 << 30).min(a as u64));
            sym::limit(k as u64);
            let ok = plain(&args);
            sym::limit(u64::MAX);
            sym::check(!ok, "ser fails when its output cannot be written");
        } else {
            let k = between(sym::param(2, 0), sym::param(3, 1 << 30).min(b as u64));
            sym::limit(k as u64);
            let ok = plain(&["deser", "-i", "out", "-o", "back"]);
            sym::limit(u64::MAX);
            sym::check(!ok, "deser fails when its output cannot be written");
        }
        sym::reach(1);
    }
    /// what info says
    fn info() {
        sym::scratch();
        let n = sym::param(0, 1) as usize;
        let fs: Vec<Feature> = (0..n).map(|i| feature(i, 0, 1, 1)).collect();
        put(fs.iter().fold(meta(true), |t, f| t + "\n" + &f.text));
        let a = ["n", "s", "n,s"][sym::choose(3)];
        let (ok, _) = run(&["ser", "-i", "in", "-o", "out", "-g", "false", "-s", "false", "-a", a]);
        sym::check(ok, "ser succeeds");
        let (ok, out) = run(&["info", "-i", "out"]);
        sym::check(ok, "info succeeds");
        let t = String::from_utf8(out).unwrap_or_else(|_| sym::fail("info prints text"));
        let says = |w: &str| t.split(|c: char| !c.is_ascii_alphanumeric() && c != '.').any(|x| x == w);
        sym::check(says(&n.to_string()), "info tells the number of features");
        sym::check((says("n") || n == 0) == (a != "s" || n == 0), "info names the attributes with an index");
        sym::check((says("s") || n == 0) == (a != "n" || n == 0), "info names the attributes with an index");
        sym::check(says("t"), "info tells the title");
        sym::check(["1.5", "2.5", "3.5", "4.5", "5.5", "6.5"].iter().all(|w| says(w)), "info tells the extent");
        sym::reach(1);
    }
    /// many features, of which the last has what no other has
    fn many() {
        sym::scratch();
        let n = sym::param(0, 1001) as usize;
        let m = meta(false);
        let mut t = m.clone();
        for i in 0..n - 1 {
            t.push_str(&format!("\n{{\"type\":\"CityJSONFeature\",\"id\":\"f{i}\",\"CityObjects\":{{\"f{i}\":{{\"type\":\"Road\",\"attributes\":{{\"k\":true}}}}}},\"vertices\":[]}}"));
        }
        let f = feature(0, 1, 1, 1);
        put(t + "\n" + &f.text);
        let (ok, _) = run(&["ser", "-i", "in", "-o", "out", "-g", "false", "-s", "false"]);
        sym::check(ok, "ser succeeds");
        let (ok, _) = run(&["deser", "-i", "out", "-o", "back"]);
        sym::check(ok, "deser succeeds");
        let b = std::fs::read("back").unwrap();
        let b = std::str::from_utf8(&b).unwrap();
        sym::check(b.lines().count() == n + 1, "deser writes one line per feature");
        same(&line(b.lines().last().unwrap()), &line(&f.text), "the last of many features comes back");
        sym::reach(1);
    }
}

mod env;
mod exec;
mod expr;
mod ll;
mod sat;
mod solver;

use std::fmt::Write;

fn esc(s: &str) -> String {
    let mut r = String::new();
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r
}
fn nums(v: &[u128]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))
}

fn real() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut cfg = exec::Cfg {
        max_steps: 200_000_000,
        max_time: 600.0,
        max_paths: u64::MAX,
        max_heap: 1 << 28,
        params: vec![],
        samples: 8,
        verbose: 0,
        hash_seed: 1,
        max_findings: 3,
        merge: false,
    };
    let mut file = String::new();
    let mut entry = String::new();
    let mut out = None;
    let mut z3 = "/usr/lib/x86_64-linux-gnu/libz3.so".to_string();
    let mut qt = 60_000u32;
    let mut i = 0;
    while i < a.len() {
        let cur = a[i].clone();
        let mut val = || {
            i += 1;
            a.get(i).cloned().unwrap_or_default()
        };
        match cur.as_str() {
            "--entry" => entry = val(),
            "--out" => out = Some(val()),
            "--param" => cfg.params = val().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--time" => cfg.max_time = val().parse().unwrap(),
            "--steps" => cfg.max_steps = val().parse().unwrap(),
            "--paths" => cfg.max_paths = val().parse().unwrap(),
            "--heap" => cfg.max_heap = val().parse().unwrap(),
            "--samples" => cfg.samples = val().parse().unwrap(),
            "--seed" => cfg.hash_seed = val().parse().unwrap(),
            "--findings" => cfg.max_findings = val().parse().unwrap(),
            "--merge" => cfg.merge = true,
            "--z3" => z3 = val(),
            "--query-ms" => qt = val().parse().unwrap(),
            "-v" => cfg.verbose += 1,
            f => file = f.to_string(),
        }
        i += 1;
    }
    let src = std::fs::read_to_string(&file).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        std::process::exit(3)
    });
    let t0 = std::time::Instant::now();
    let m = ll::parse(&src);
    drop(src);
    let verbose = cfg.verbose;
    if verbose > 0 {
        eprintln!("parsed {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64());
    }
    let s = solver::Solver::new(&z3, qt);
    let mut en = exec::Engine::new(m, s, cfg);
    en.run(&entry);
    let wall = t0.elapsed().as_secs_f64();
    let st = &en.stats;
    // functions of the code under test that were executed (including inlined ones, from debug locations)
    let mut fns = std::collections::BTreeSet::new();
    let mut lines: std::collections::BTreeMap<String, std::collections::BTreeSet<u32>> = Default::default();
    for d in en.exec_dbg.iter() {
        let mut d = *d;
        let mut k = 0;
        while d != 0 && k < 64 {
            if let Some((l, sc)) = en.m.locs.get(&d) {
                let (n, f) = en.scope_name(*sc);
                if f.contains("fcb_core") || f.contains("/src/rust/") || f.contains("cli/") {
                    fns.insert(format!("{}::{}", f.rsplit("src/").next().unwrap_or(&f), n));
                    lines.entry(f).or_default().insert(*l);
                }
            }
            d = en.m.inl.get(&d).copied().unwrap_or(0);
            k += 1;
        }
    }
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\"entry\":\"{}\",\"params\":{:?},\"wall_s\":{:.3},\"paths\":{},\"completed\":{},\"infeasible\":{},\"limit\":{},\"resource_cut\":{},\"solver_unknown\":{},\"instructions\":{},\"forks\":{},\"symbolic_branches\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"fp_queries\":{},\"solver_s\":{:.3},\"order_queries\":{},\"core_queries\":{},\"core_conflicts\":{},\"core_fallback\":{},\"cache_hits\":{},\"unsat_crosschecked\":{},\"solver\":\"{}\",\"expressions\":{},",
        esc(&entry), en.cfg.params, wall, st.paths, st.done, st.infeasible, st.limit, st.resource, st.unknown, st.insts, st.forks,
        st.sym_branches, en.s.queries, en.s.sat, en.s.unsat, en.s.fpq, en.s.time, en.s.order_queries, en.s.core_queries, en.s.sat_core.conflicts, en.s.core_fallback, en.s.cache_hits, en.s.xchecked, esc(&en.s.version), en.x.nodes.len()
    );
    let _ = write!(j, "\"incomplete\":{},", match &en.incomplete { Some(s) => format!("\"{}\"", esc(s)), None => "null".into() });
    let _ = write!(j, "\"limits\":{{{}}},", en.limits.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(j, "\"reach\":{{{}}},", en.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, nums(v))).collect::<Vec<_>>().join(","));
    let _ = write!(
        j,
        "\"samples\":[{}],",
        en.sample_paths.iter().map(|(a, b)| format!("{{\"vals\":{},\"obs\":{}}}", nums(a), nums(b))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"findings\":[{}],",
        en.findings
            .iter()
            .map(|f| format!(
                "{{\"kind\":\"{}\",\"msg\":\"{}\",\"vals\":{},\"trace\":[{}]}}",
                f.kind,
                esc(&f.msg),
                nums(&f.vals),
                f.trace.iter().map(|t| format!("\"{}\"", esc(t))).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(j, "\"functions\":[{}],", fns.iter().map(|f| format!("\"{}\"", esc(f))).collect::<Vec<_>>().join(","));
    let _ = write!(
        j,
        "\"lines\":{{{}}}}}",
        lines
            .iter()
            .map(|(f, l)| format!("\"{}\":[{}]", esc(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    match out {
        Some(o) => std::fs::write(o, &j).unwrap(),
        None => println!("{j}"),
    }
    if verbose > 0 {
        eprintln!(
            "{entry}: paths {} done {} findings {} limit {} insts {} queries {} (sat {} unsat {}) solver {:.1}s wall {:.1}s incomplete {:?} limits {:?} reach {:?}",
            st.paths, st.done, en.findings.len(), st.limit, st.insts, en.s.queries, en.s.sat, en.s.unsat, en.s.time, wall, en.incomplete, en.limits,
            en.reach.keys().collect::<Vec<_>>()
        );
        let mut p: Vec<_> = en.prof.iter().collect();
        p.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in p.into_iter().take(if verbose > 1 { 25 } else { 8 }) {
            let fun = &en.m.funcs[*f as usize];
            let blk = &fun.blocks[*b as usize];
            let d = blk.dbg.iter().rev().find(|d| **d != 0).copied().unwrap_or(0);
            let mut w = String::new();
            let mut d = d;
            let mut k = 0;
            while d != 0 && k < 4 {
                if let Some((l, sc)) = en.m.locs.get(&d) {
                    let (n, f) = en.scope_name(*sc);
                    w.push_str(&format!(" {n}@{}:{l}", f.rsplit('/').next().unwrap_or("")));
                }
                d = en.m.inl.get(&d).copied().unwrap_or(0);
                k += 1;
            }
            eprintln!("  forks {n:7} {} blk{b} {w}", exec::demangle(&fun.name));
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real).unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}

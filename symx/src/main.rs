mod exec;
mod expr;
mod ir;
mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let threads: usize = get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
    let secs: f64 = get("--time").map(|s| s.parse().unwrap()).unwrap_or(600.0);
    let steps: u64 = get("--steps").map(|s| s.parse().unwrap()).unwrap_or(20_000_000);
    let paths: u64 = get("--paths").map(|s| s.parse().unwrap()).unwrap_or(50_000_000);
    let maxv: usize = get("--max-viol").map(|s| s.parse().unwrap()).unwrap_or(5);
    let qms: u32 = get("--query-ms").map(|s| s.parse().unwrap()).unwrap_or(60_000);
    let out = get("--out");
    let rec = get("--records");
    let src = get("--src").unwrap_or("/repo/src".into());
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR parse error: {e}");
            std::process::exit(3);
        }
    };
    let parse_s = t0.elapsed().as_secs_f64();
    let Some(&fid) = m.fidx.get(m.aliases.get(&entry).unwrap_or(&entry)) else {
        eprintln!("no entry {entry}");
        std::process::exit(3);
    };
    let sh = Arc::new(Shared::new(m, threads, Instant::now() + Duration::from_secs_f64(secs), paths, steps, maxv, qms, rec.is_some()));
    let el = explore(sh.clone(), fid);
    let st = sh.stats.lock().unwrap().clone();
    // executed source lines of the repository
    let mut files: BTreeMap<String, std::collections::BTreeSet<u32>> = BTreeMap::new();
    let mut funcs = std::collections::BTreeSet::new();
    for (f, b) in sh.blocks.lock().unwrap().iter() {
        if let Ok(fu) = sh.m.func(*f) {
            for d in &fu.blocks[*b as usize].dbg {
                if let Some((file, line, name)) = sh.m.dbg_loc(*d) {
                    if file.starts_with(&src) {
                        files.entry(file[src.len()..].trim_start_matches('/').to_string()).or_default().insert(line);
                        funcs.insert(name);
                    }
                }
            }
        }
    }
    let errors = sh.errors.lock().unwrap().clone();
    let viol = sh.violations.lock().unwrap().clone();
    let timeout = sh.timeout.load(Ordering::Relaxed);
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"entry\":{},\"wall_s\":{:.3},\"parse_s\":{:.3},\"paths\":{},\"expected_panics\":{},\"pruned\":{},\"forks\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"steps\":{},\"checks_const\":{},\"checks_solver\":{},\"branches_sym\":{},\"concretizations\":{},\"folded\":{},\"max_expr\":{},\"max_pc\":{},\"timeout\":{},",
        js(&entry), el.as_secs_f64(), parse_s, st.paths, st.expected_panics, st.pruned, st.forks, st.queries, st.sat, st.unsat, st.unknown, st.cache_hits,
        st.solver_ns as f64 / 1e9, st.steps, st.checks_const, st.checks_solver, st.branches_sym, st.concretizations, st.folded, st.max_expr, st.max_pc, timeout
    ));
    o.push_str(&format!("\"errors\":[{}],", errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(
        "\"violations\":[{}],",
        viol.iter()
            .map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":[{}]}}", js(v.outcome), v.id, js(&v.msg), v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    ));
    let cov = sh.covers.lock().unwrap();
    o.push_str(&format!("\"covers\":{{{}}},", cov.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")));
    let cov = sh.notes.lock().unwrap();
    o.push_str(&format!("\"notes\":{{{}}},", cov.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"lines\":{{{}}},", files.iter().map(|(k, v)| format!("{}:{}", js(k), v.len())).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"functions\":[{}]}}", funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(",")));
    match out {
        Some(p) => std::fs::write(p, &o).unwrap(),
        None => println!("{o}"),
    }
    if let Some(p) = rec {
        let mut f = std::io::BufWriter::new(std::fs::File::create(p).unwrap());
        for r in sh.records.lock().unwrap().iter() {
            writeln!(f, "{} {:x} {}", r.outcome, r.obs_hash, r.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
        }
    }
    // skip destructors of big maps
    std::io::stdout().flush().unwrap();
    std::process::exit(if !errors.is_empty() || timeout { 3 } else if !viol.is_empty() { 1 } else { 0 });
}

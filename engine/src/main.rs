#![allow(dead_code)]
mod exec;
mod expr;
mod ir;
mod mem;
mod merge;
mod par;
mod parse;
mod solver;

use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u8, u64)]) -> String {
    let p: Vec<String> = v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect();
    format!("[{}]", p.join(","))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut out = String::new();
    let mut entries: Vec<String> = vec![];
    let mut tier = 0u32;
    let mut seed = 1u64;
    let mut secs = 120u64;
    let mut threads = 8usize;
    let mut samples = 24usize;
    let mut timeout = 20_000u32;
    let mut trace = false;
    let mut max_steps = 60_000_000u64;
    let mut rss = 20u64 << 30;
    let mut after = 20u64;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("option value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--out" => out = v(),
            "--tier" => tier = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--time" => secs = v().parse().unwrap(),
            "--threads" => threads = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--rss" => rss = v().parse::<u64>().unwrap() << 30,
            "--after" => after = v().parse().unwrap(),
            "--trace" => trace = true,
            _ => entries.push(a),
        }
    }
    let t0 = Instant::now();
    let text = match std::fs::read_to_string(&ll) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("symex: {}: {}", ll, e);
            std::process::exit(3);
        }
    };
    let m = match parse::parse_module(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symex: parse: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    let prep = exec::Prep::new(m);
    let opts = exec::Opts {
        tier,
        seed,
        threads,
        max_steps,
        samples,
        max_cands: 12,
        after_candidate: Duration::from_secs(after),
        deadline: t0 + Duration::from_secs(secs),
        max_rss: rss,
        trace,
    };
    let mut recs = vec![];
    let mut skip = false;
    for (at, e) in entries.iter().enumerate() {
        if skip {
            recs.push(format!("{{\"entry\":{},\"skipped\":true}}", js(e)));
            continue;
        }
        let f = match prep.by_name.get(e) {
            Some(f) => *f,
            None => {
                eprintln!("symex: no entry {}", e);
                std::process::exit(3);
            }
        };
        let t1 = Instant::now();
        let sh = Arc::new(solver::Shared::new(timeout));
        sh.watch();
        // one slow entry must not take the time of all the others
        let left = opts.deadline.saturating_duration_since(t1);
        let until = t1 + if at + 1 < entries.len() { left / 2 } else { left };
        let run = exec::Run::new(&prep, &opts, sh.clone(), f, until);
        run.go();
        let st = &sh.stats;
        let mut s = String::new();
        s.push_str(&format!("{{\"entry\":{},", js(e)));
        let g = |n: &str, v: u64| format!("\"{}\":{},", n, v);
        s.push_str(&g("paths", run.paths.load(Relaxed)));
        s.push_str(&g("cut", run.cut.load(Relaxed)));
        s.push_str(&g("panicked", run.panicked.load(Relaxed)));
        s.push_str(&g("forks", run.forks.load(Relaxed)));
        s.push_str(&g("merges", run.merges.load(Relaxed)));
        s.push_str(&g("steps", run.steps.load(Relaxed)));
        s.push_str(&g("max_path_steps", run.max_path_steps.load(Relaxed)));
        s.push_str(&g("asserts", run.asserts.load(Relaxed)));
        s.push_str(&g("asserts_folded", run.asserts_folded.load(Relaxed)));
        s.push_str(&g("asserts_solver", run.asserts_solver.load(Relaxed)));
        s.push_str(&g("queries", st.queries.load(Relaxed)));
        s.push_str(&g("sat", st.sat.load(Relaxed)));
        s.push_str(&g("unsat", st.unsat.load(Relaxed)));
        s.push_str(&g("unknown", st.unknown.load(Relaxed)));
        s.push_str(&g("cache_hits", st.cache_hits.load(Relaxed)));
        s.push_str(&g("solver_us", st.micros.load(Relaxed)));
        s.push_str(&g("max_query_us", st.max_micros.load(Relaxed)));
        s.push_str(&g("tables", st.tables.load(Relaxed)));
        s.push_str(&g("tables_unverified", st.tables_unverified.load(Relaxed)));
        s.push_str(&g("table_decisions", st.table_decisions.load(Relaxed)));
        s.push_str(&format!("\"wall_s\":{:.3},", t1.elapsed().as_secs_f64()));
        let mut cov: Vec<u64> = run.covers.lock().unwrap().iter().copied().collect();
        cov.sort();
        s.push_str(&format!("\"covers\":{:?},", cov));
        let inc: Vec<String> = run.incomplete.lock().unwrap().iter().map(|x| js(x)).collect();
        s.push_str(&format!("\"incomplete\":[{}],", inc.join(",")));
        let cands: Vec<String> = run
            .cands
            .lock()
            .unwrap()
            .iter()
            .map(|c| {
                let t: Vec<String> = c.trace.iter().map(|x| js(x)).collect();
                format!(
                    "{{\"kind\":{},\"detail\":{},\"inputs\":{},\"trace\":[{}]}}",
                    js(c.kind),
                    js(&c.detail),
                    inputs(&c.inputs),
                    t.join(",")
                )
            })
            .collect();
        s.push_str(&format!("\"candidates\":[{}],", cands.join(",")));
        let sm: Vec<String> = run
            .samples
            .lock()
            .unwrap()
            .values()
            .map(|p| {
                format!(
                    "{{\"outcome\":\"{}\",\"inputs\":{},\"obs\":{:?}}}",
                    p.outcome,
                    inputs(&p.inputs),
                    p.obs
                )
            })
            .collect();
        s.push_str(&format!("\"samples\":[{}],", sm.join(",")));
        // functions of the code under test that were executed, with block coverage
        let bl = run.blocks.lock().unwrap();
        let mut fs = vec![];
        for (i, f) in prep.m.funcs.iter().enumerate() {
            let s0 = prep.bstart[i] as usize;
            let n = f.blocks.len();
            let k = bl[s0..s0 + n].iter().filter(|x| **x == 1).count();
            if k > 0 || f.name.contains("cubing") {
                let missing: Vec<String> = if f.name.contains("cubing") && k > 0 {
                    (0..n)
                        .filter(|b| bl[s0 + b] == 0)
                        .map(|b| js(&f.blocks[b].name))
                        .collect()
                } else {
                    vec![]
                };
                fs.push(format!(
                    "[{},{},{},{},[{}]]",
                    js(&f.name),
                    k,
                    n,
                    f.ninsts,
                    missing.join(",")
                ));
            }
        }
        s.push_str(&format!("\"functions\":[{}]}}", fs.join(",")));
        recs.push(s);
        // one entry that fails is enough
        skip = !run.cands.lock().unwrap().is_empty();
    }
    let all = format!(
        "{{\"z3\":{},\"parse_s\":{:.3},\"threads\":{},\"entries\":[{}]}}\n",
        js(&solver::z3_version()),
        parse_s,
        threads,
        recs.join(",\n")
    );
    if out.is_empty() {
        std::io::stdout().write_all(all.as_bytes()).unwrap();
    } else {
        std::fs::write(&out, all).unwrap();
    }
    // do not spend time on destructors
    unsafe { _exit(0) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}

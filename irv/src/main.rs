//! irv: a contract verifier for LLVM IR. See /verif/DESIGN.md.
#![allow(dead_code)]
mod aig;
mod anf;
mod decide;
mod exec;
mod expr;
mod ir;
mod lia;
mod simd;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut deep = false;
    let mut entries: Vec<String> = vec![];
    let mut o = exec::Opts::default();
    o.max_steps = 400_000_000;
    let mut cfg = decide::Cfg {
        sat_time: 60.0,
        run_time: 300.0,
        deadline: Instant::now() + Duration::from_secs(800),
        tmp: "/tmp".into(),
        max_nodes: 20_000_000,
        aig_limit: 12_000_000,
        exh_cost: 6_000_000_000,
        solver: "kissat".into(),
        verbose: false,
        anf: true,
        feas_time: 2.0,
        dump: false,
        max_fail: 4,
    };
    let mut jobs = 8usize;
    let mut max_runs = 100000u64;
    let mut out = String::new();
    let mut i = 1;
    let next = |i: &mut usize| -> String {
        *i += 1;
        a.get(*i).cloned().unwrap_or_default()
    };
    while i < a.len() {
        match a[i].as_str() {
            "--entry" => entries.push(next(&mut i)),
            "--replace" => {
                let s = next(&mut i);
                if let Some((p, q)) = s.split_once('=') {
                    o.replace.insert(p.into(), q.into());
                }
            }
            "--fork" => o.fork.push(next(&mut i)),
            "--nosafety" => o.nosafety.push(next(&mut i)),
            "--ub" => o.ub = true,
            "--no-anf" => cfg.anf = false,
            "--steps" => o.max_steps = next(&mut i).parse().unwrap(),
            "--demangle" => {
                let s = std::fs::read_to_string(next(&mut i)).unwrap();
                for l in s.lines() {
                    if let Some((p, q)) = l.split_once('\t') {
                        o.demangled.insert(p.into(), q.into());
                    }
                }
            }
            "--sat-time" => cfg.sat_time = next(&mut i).parse().unwrap(),
            "--feas-time" => cfg.feas_time = next(&mut i).parse().unwrap(),
            "--run-time" => cfg.run_time = next(&mut i).parse().unwrap(),
            "--timeout" => cfg.deadline = Instant::now() + Duration::from_secs_f64(next(&mut i).parse().unwrap()),
            "--tmp" => cfg.tmp = next(&mut i),
            "--nodes" => cfg.max_nodes = next(&mut i).parse().unwrap(),
            "--aig" => cfg.aig_limit = next(&mut i).parse().unwrap(),
            "--solver" => cfg.solver = next(&mut i),
            "--max-runs" => max_runs = next(&mut i).parse().unwrap(),
            "--max-fail" => cfg.max_fail = next(&mut i).parse().unwrap(),
            "-j" => jobs = next(&mut i).parse().unwrap(),
            "-o" => out = next(&mut i),
            "-v" => cfg.verbose = true,
            "--deep" => deep = true,
            "--dump" => cfg.dump = true,
            s => file = s.into(),
        }
        i += 1;
    }
    std::panic::set_hook(Box::new(|p| {
        let l = p.payload();
        if l.is::<exec::Stop>() || l.is::<aig::Over>() {
            return;
        }
        eprintln!("irv: {}", p);
    }));
    let src = std::fs::read_to_string(&file).expect("cannot read the IR file");
    let m = match ir::parse(&src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("irv: cannot parse {}: {}", file, e);
            std::process::exit(3);
        }
    };
    let m = Arc::new(m);
    if entries.is_empty() {
        for f in &m.funcs {
            if f.is_def && (f.name.starts_with("h_") || (deep && f.name.starts_with("t_"))) {
                entries.push(f.name.clone());
            }
        }
    }
    let mut es = vec![];
    for e in &entries {
        let fi = m.gix.get(e).and_then(|g| m.globals[*g].func);
        match fi {
            Some(fi) => es.push((e.clone(), fi)),
            None => {
                eprintln!("irv: no function {}", e);
                std::process::exit(3);
            }
        }
    }
    let _: HashMap<String, String> = HashMap::new();
    let rs = decide::all(m, Arc::new(o), &es, &cfg, jobs, max_runs);
    let js: Vec<String> = es.iter().zip(rs.iter()).map(|(e, r)| decide::json(&e.0, r)).collect();
    let s = format!("[{}]\n", js.join(",\n"));
    if out.is_empty() {
        print!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
}

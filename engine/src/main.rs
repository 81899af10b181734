mod bv;
mod exec;
mod int;
mod mem;
mod solver;
mod term;
mod wasm;
use std::rc::Rc;

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            let b = std::fs::read(&args[2]).expect("wasm");
            let m = wasm::parse(&b);
            for e in &m.exports {
                if e.1 == 0 {
                    println!("{}", e.0);
                }
            }
            0
        }
        Some("funcs") => {
            let b = std::fs::read(&args[2]).expect("wasm");
            let m = wasm::parse(&b);
            for (i, f) in m.funcs.iter().enumerate() {
                println!("{} {} size={} locals={}", i, f.name, f.size, f.nlocals);
            }
            0
        }
        Some("dump") => {
            let b = std::fs::read(&args[2]).expect("wasm");
            let m = wasm::parse(&b);
            for (i, f) in m.funcs.iter().enumerate() {
                if f.name.contains(&args[3]) {
                    println!("== {} {}", i, f.name);
                    for (pc, x) in f.code.iter().enumerate() {
                        let extra = match x {
                            wasm::I::Call(g) => m.funcs[*g as usize].name.clone(),
                            _ => String::new(),
                        };
                        println!("{:5} {:?} {}", pc, x, extra);
                    }
                }
            }
            0
        }
        Some("run") => {
            let b = std::fs::read(&args[2]).expect("wasm");
            let m = Rc::new(wasm::parse(&b));
            let h = args[3].clone();
            let mut ex = exec::Exec::new(m.clone());
            if args.iter().any(|a| a == "-v") {
                ex.verbose = true;
            }
            if args.iter().any(|a| a == "--no-merge") {
                ex.merge_on = false;
            }
            if args.iter().any(|a| a == "--raw-ruint") {
                ex.raw_ruint = true;
            }
            if args.iter().any(|a| a == "--thorough") {
                ex.thorough = true;
            }
            if let Some(t) = get("--time") {
                ex.max_time = t.parse().unwrap();
            }
            if let Some(t) = get("--slow-ms") {
                ex.sol.slow_ms = t.parse().unwrap();
            }
            if let Some(t) = get("--fast-ms") {
                ex.sol.fast_ms = t.parse().unwrap();
            }
            ex.sol.deadline = Some(
                std::time::Instant::now() + std::time::Duration::from_secs_f64(ex.max_time + 60.0),
            );
            let st = std::time::Instant::now();
            ex.run_harness(&h);
            let el = st.elapsed().as_secs_f64();
            let status = if !ex.violations.is_empty() {
                "violated"
            } else if !ex.inconclusive.is_empty() {
                "inconclusive"
            } else {
                "proved"
            };
            let s = &ex.sol.stats;
            let mut fs: Vec<String> = vec![];
            for (i, n) in ex.funcs_seen.iter().enumerate() {
                if *n > 0 {
                    fs.push(m.funcs[i].name.clone());
                }
            }
            let j = format!(
                "{{\"harness\":\"{}\",\"status\":\"{}\",\"paths\":{},\"traps\":{},\"forks\":{},\"merges\":{},\"instructions\":{},\"obligations\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"model_hits\":{},\"portfolio\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"terms\":{},\"wall\":{:.3},\"bounds\":{{{}}},\"covers\":{{{}}},\"checks\":{{{}}},\"inconclusive\":[{}],\"functions\":[{}],\"violations\":[{}],\"witnesses\":[{}]}}",
                h, status, ex.paths, ex.traps, ex.forks, ex.merges, ex.steps, ex.obligations,
                s.queries, s.sat, s.unsat, s.unknown, s.model_hits, s.fallback, s.solver_time,
                s.max_query, term::nterms(), el,
                ex.bounds.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","),
                ex.covers.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","),
                ex.checks.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(","),
                ex.inconclusive.iter().take(10).map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(","),
                fs.iter().map(|k| format!("\"{}\"", esc(k))).collect::<Vec<_>>().join(","),
                ex.violations.iter().map(|v| v.json.clone()).collect::<Vec<_>>().join(","),
                ex.witnesses.join(","),
            );
            if let Some(o) = get("--out") {
                std::fs::write(o, &j).unwrap();
            }
            if args.iter().any(|a| a == "-p") {
                let mut v: Vec<_> = ex.fork_sites.iter().collect();
                v.sort_by_key(|x| std::cmp::Reverse(*x.1));
                for ((f, pc), n) in v.iter().take(20) {
                    eprintln!("  forks {:6} at {} pc {}", n, m.funcs[*f as usize].name, pc);
                }
            }
            println!(
                "{} {} paths={} traps={} forks={} merges={} instr={} obl={} q={} (sat {} unsat {} unk {}) hits={} fb={} solver={:.2}s wall={:.2}s covers={:?}",
                h, status, ex.paths, ex.traps, ex.forks, ex.merges, ex.steps, ex.obligations,
                s.queries, s.sat, s.unsat, s.unknown, s.model_hits, s.fallback, s.solver_time, el,
                ex.covers
            );
            for v in &ex.violations {
                println!("  VIOL {} {}", v.kind, v.msg);
            }
            for v in ex.inconclusive.iter().take(5) {
                println!("  INCONCLUSIVE {}", v);
            }
            match status {
                "proved" => 0,
                "violated" => 1,
                _ => 2,
            }
        }
        _ => {
            eprintln!("usage: wsym run|list|funcs|dump ...");
            3
        }
    }
}

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(real_main)
        .unwrap();
    let r = h.join().unwrap_or(4);
    std::process::exit(r);
}

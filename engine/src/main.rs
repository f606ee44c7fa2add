mod exec;
mod expr;
mod ir;
mod z3;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut bc = String::new();
    let mut llvm = String::new();
    let mut harness: Vec<String> = vec![];
    let mut out = String::new();
    let mut o = exec::Opts {
        jobs: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        timeout: 600.0,
        step_limit: 20_000_000,
        max_paths: u64::MAX,
        max_violations: 8,
        sample_every: 1000,
        max_samples: 200,
        seed: 1,
        query_ms: 60_000,
        max_depth: 8000,
        verbose: false,
    };
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let v = args.get(i + 1).cloned().unwrap_or_default();
        i += 2;
        match a {
            "--bc" => bc = v,
            "--llvm" => llvm = v,
            "--harness" => harness = v.split(',').map(|s| s.to_string()).collect(),
            "--out" => out = v,
            "--jobs" => o.jobs = v.parse().unwrap(),
            "--timeout" => o.timeout = v.parse().unwrap(),
            "--steps" => o.step_limit = v.parse().unwrap(),
            "--max-paths" => o.max_paths = v.parse().unwrap(),
            "--max-violations" => o.max_violations = v.parse().unwrap(),
            "--sample-every" => o.sample_every = v.parse().unwrap(),
            "--max-samples" => o.max_samples = v.parse().unwrap(),
            "--seed" => o.seed = v.parse().unwrap(),
            "--query-ms" => o.query_ms = v.parse().unwrap(),
            "--max-depth" => o.max_depth = v.parse().unwrap(),
            "-v" => {
                o.verbose = true;
                i -= 1;
            }
            _ => panic!("unknown argument {}", a),
        }
    }
    let t0 = std::time::Instant::now();
    let m = ir::load(&llvm, &bc);
    let intr: Vec<exec::Intr> = m.ext.iter().map(|n| exec::classify(n)).collect();
    let load = t0.elapsed().as_secs_f64();
    if harness.is_empty() || harness[0] == "all" {
        harness = m.funcs.iter().filter(|f| f.name.starts_with("h_") && !f.decl).map(|f| f.name.clone()).collect();
        harness.sort();
    }
    let mut js = String::new();
    let _ = write!(js, "{{\"z3\":{},\"load_s\":{:.3},\"module_functions\":{},\"module_instructions\":{},\"ptr_width\":{},\"harnesses\":[", esc(&z3::version()), load, m.funcs.iter().filter(|f| !f.decl).count(), m.insts, m.ptr_w);
    let tstart = std::time::Instant::now();
    let total = o.timeout;
    let mut cut: Option<std::time::Instant> = None;
    for (k, h) in harness.iter().enumerate() {
        let Some(&e) = m.fn_by_name.get(h) else {
            eprintln!("no harness {}", h);
            std::process::exit(3);
        };
        let mut oo = o.clone();
        oo.timeout = (total - tstart.elapsed().as_secs_f64()).max(1.0);
        // a harness before this one has failed already: look at the rest only briefly
        if let Some(t) = cut {
            oo.timeout = oo.timeout.min((20.0 - t.elapsed().as_secs_f64()).max(0.5));
        }
        let r = exec::run(&m, &intr, e, oo);
        if !r.violations.is_empty() && cut.is_none() {
            cut = Some(std::time::Instant::now());
        }
        if k > 0 {
            js.push(',');
        }
        let _ = write!(js, "\n{{\"name\":{},\"paths\":{},\"assumed_away\":{},\"branches\":{},\"forks\":{},\"insts\":{},\"max_path_insts\":{},\"asserts\":{},\"assert_queries\":{},\"assert_trivial\":{},\"domain_queries\":{},\"cache_hits\":{},\"guessed\":{},\"z3_queries\":{},\"z3_time\":{:.3},\"z3_max\":{:.3},\"unknown\":{},\"timeout\":{},\"stopped\":{},\"wall\":{:.3},\"input_bytes\":{}",
            esc(h), r.paths, r.assumed_away, r.branches, r.forks, r.insts, r.max_path_insts, r.asserts, r.assert_queries, r.assert_trivial, r.dom_queries, r.cache_hits, r.guessed, r.z3_queries, r.z3_time, r.z3_max, r.unknown, r.timeout, r.stopped, r.wall, r.max_inputs);
        let _ = write!(js, ",\"covers\":[{}]", r.covers.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
        let _ = write!(js, ",\"errors\":{{{}}}", r.errors.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
        let _ = write!(js, ",\"violations\":[{}]", r.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"site\":{},\"input\":\"{}\",\"stack\":[{}]}}", esc(&v.kind), esc(&v.msg), esc(&v.site), hex(&v.input), v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let _ = write!(js, ",\"samples\":[{}]", r.samples.iter().map(|s| format!("{{\"input\":\"{}\",\"emits\":[{}]}}", hex(&s.input), s.emits.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let mut fi: Vec<_> = r.fn_insts.iter().collect();
        fi.sort_by(|a, b| b.1.cmp(a.1));
        let _ = write!(js, ",\"functions\":{{{}}}", fi.iter().map(|(f, n)| format!("{}:[{},{}]", esc(&m.funcs[**f as usize].name), n, r.fn_forks.get(f).unwrap_or(&0))).collect::<Vec<_>>().join(","));
        js.push('}');
        if o.verbose {
            eprintln!("{}: paths={} assumed={} branches={} insts={} asserts={} z3={} ({:.2}s max {:.2}) dom={} cache={} covers={:?} viol={} err={:?} timeout={} wall={:.2}s", h, r.paths, r.assumed_away, r.branches, r.insts, r.asserts, r.z3_queries, r.z3_time, r.z3_max, r.dom_queries, r.cache_hits, r.covers, r.violations.len(), r.errors, r.timeout, r.wall);
            let mut ff: Vec<_> = r.fn_forks.iter().collect();
            ff.sort_by(|a, b| b.1.cmp(a.1));
            for (f, n) in ff.iter().take(6) {
                eprintln!("    forks {:8} {}", n, exec::demangle(&m.funcs[**f as usize].name));
            }
            for v in &r.violations {
                eprintln!("  VIOLATION {} {} [{}] input={} stack={:?}", v.kind, v.msg, v.site, hex(&v.input), v.stack);
            }
        }
    }
    js.push_str("\n]}\n");
    if out.is_empty() {
        println!("{}", js);
    } else {
        std::fs::write(&out, js).unwrap();
    }
}

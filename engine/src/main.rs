mod exec;
mod expr;
mod ir;
mod mem;
mod parse;
mod solver;

use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut cfg = exec::Config {
        max_insts: 60_000_000,
        max_depth: 4000,
        threads: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16),
        timeout: Duration::from_secs(600),
        concrete: None,
        max_viol: 2,
        profile: false,
        dump: None,
        mem_limit_mb: 24_000,
    };
    let mut file = None;
    let mut entry = "h_main".to_string();
    let mut out = None;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--entry" => entry = v,
            "--out" => out = Some(v),
            "--threads" => cfg.threads = v.parse().unwrap(),
            "--timeout" => cfg.timeout = Duration::from_secs(v.parse().unwrap()),
            "--max-insts" => cfg.max_insts = v.parse().unwrap(),
            "--max-depth" => cfg.max_depth = v.parse().unwrap(),
            "--max-viol" => cfg.max_viol = v.parse().unwrap(),
            "--concrete" => cfg.concrete = Some(std::fs::read(v).unwrap()),
            "--profile" => {
                cfg.profile = true;
                i += 1;
                continue;
            }
            "--dump" => {
                std::fs::create_dir_all(&v).unwrap();
                cfg.dump = Some((v.into(), 1));
            }
            "--dump-every" => {
                let n = v.parse().unwrap();
                if let Some(d) = &mut cfg.dump {
                    d.1 = n;
                }
            }
            _ => {
                file = Some(a[i].clone());
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(file.expect("file")).unwrap();
    let m = match parse::parse_module(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("lsym: parse error: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    let tp = t0.elapsed();
    let profile = cfg.profile;
    let t1 = Instant::now();
    let (r, sh) = match exec::run(m, &entry, cfg) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("lsym: {}", e);
            std::process::exit(3);
        }
    };
    let te = t1.elapsed();
    let mut o = String::from("{\n");
    o.push_str(&format!("\"entry\":{},\n", js(&entry)));
    o.push_str(&format!("\"parse_s\":{:.2},\"explore_s\":{:.2},\n", tp.as_secs_f64(), te.as_secs_f64()));
    o.push_str(&format!(
        "\"paths\":{},\"rejected\":{},\"forks\":{},\"insts\":{},\"max_path_insts\":{},\"nodes\":{},\"symbolic_bytes\":{},\"replays\":{},\n",
        r.paths, r.rejected, r.forks, r.insts, r.max_path_insts, r.nodes, r.max_vars, r.replays
    ));
    let s = &r.stats;
    o.push_str(&format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"assert_queries\":{},\"rewrite_validation_queries\":{},\"validated_rewrites\":{},\"solver_s\":{:.3},\"max_query_s\":{:.4},\n",
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.assert_queries, s.validations, s.validated_rewrites, s.time_us as f64 / 1e6, s.max_us as f64 / 1e6
    ));
    let mp = |m: &std::collections::BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    };
    o.push_str(&format!("\"covers\":{{{}}},\n", mp(&r.covers)));
    o.push_str(&format!("\"allowed_panics\":{{{}}},\n", mp(&r.allowed_panics)));
    o.push_str(&format!("\"unresolved\":{{{}}},\n", mp(&r.unresolved)));
    o.push_str(&format!("\"violation_counts\":{{{}}},\n", mp(&r.viol_counts)));
    o.push_str(&format!(
        "\"checks\":{{{}}},\n",
        r.checks.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(",")
    ));
    o.push_str("\"violations\":[");
    o.push_str(
        &r.violations
            .iter()
            .map(|v| {
                format!(
                    "{{\"kind\":{},\"label\":{},\"site\":{},\"bytes\":{:?},\"stack\":[{}]}}",
                    js(&v.kind),
                    js(&v.label),
                    js(&v.site),
                    v.bytes,
                    v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(",\n"),
    );
    o.push_str("],\n");
    o.push_str(&format!(
        "\"samples\":[{}],\n",
        r.samples
            .iter()
            .map(|x| {
                let l = |v: &Vec<String>| v.iter().map(|y| js(y)).collect::<Vec<_>>().join(",");
                format!("{{\"bytes\":{:?},\"observed\":[{}],\"covers\":[{}]}}", x.bytes, l(&x.observed), l(&x.covers))
            })
            .collect::<Vec<_>>()
            .join(",\n")
    ));
    o.push_str(&format!("\"observed\":[{}],\n", r.observed.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!(
        "\"functions\":[{}]\n}}\n",
        r.funcs.iter().map(|f| js(&sh.names[*f as usize])).collect::<Vec<_>>().join(",")
    ));
    if profile {
        let mut v: Vec<_> = r.prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, c) in v.iter().take(25) {
            eprintln!("call {:>10} {}", c, k);
        }
        let mut v: Vec<_> = r.fork_prof.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, c) in v.iter().take(40) {
            eprintln!("fork {:>10} {}", c, k);
        }
    }
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{}", o),
    }
    // skip destructors
    std::process::exit(0);
}

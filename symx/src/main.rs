mod exec; mod expr; mod ext; mod ir; mod mem; mod team; mod z3;
use exec::*;
use std::fmt::Write as _;


fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }
fn jin(v: &[(u16, u128)]) -> String { format!("[{}]", v.iter().map(|(w, x)| format!("[{},\"{}\"]", w, x)).collect::<Vec<_>>().join(",")) }

// flat line protocol between workers and the parent
pub fn ser(e: &Engine) -> String {
    let mut o = String::new();
    let s = &e.st;
    let _ = writeln!(o, "S {} {} {} {} {} {} {} {} {} {}", s.paths, s.killed, s.steps, s.forks, s.panics_ok, s.cache, s.max_depth, s.asserts, s.assert_queries, s.interval);
    let z = &e.z.st;
    let _ = writeln!(o, "Z {} {} {} {} {} {}", z.queries, z.sat, z.unsat, z.unknown, z.secs, z.max_secs);
    for (k, v) in &e.reach { let _ = writeln!(o, "R {} {}", k, v); }
    for (k, v) in &e.used { let _ = writeln!(o, "U {} {}", k, v); }
    for (k, v) in &e.exts { let _ = writeln!(o, "X {} {}", v, k); }
    for m in &e.errors { let _ = writeln!(o, "E {}", m.replace('\n', " ")); }
    let inp = |v: &[(u16, u128)]| v.iter().map(|(w, x)| format!("{}:{}", w, x)).collect::<Vec<_>>().join(",");
    for v in &e.viols { let _ = writeln!(o, "V {}\t{}\t{}\t{}", v.kind, v.msg.replace(['\n', '\t'], " "), inp(&v.inputs), v.stack.join(" < ")); }
    for v in &e.samples { let _ = writeln!(o, "P {}\t{}", inp(&v.inputs), v.obs.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>().join(",")); }
    o
}
pub fn de(e: &mut Engine, t: &str) -> bool {
    let mut done = false;
    let inp = |s: &str| -> Vec<(u16, u128)> { s.split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect() };
    for l in t.lines() {
        let (k, r) = l.split_at(2.min(l.len()));
        match k {
            "S " => { let n: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect(); let s = &mut e.st; s.paths += n[0]; s.killed += n[1]; s.steps += n[2]; s.forks += n[3]; s.panics_ok += n[4]; s.cache += n[5]; s.max_depth = s.max_depth.max(n[6]); s.asserts += n[7]; s.assert_queries += n[8]; s.interval += n[9]; }
            "Z " => { let p: Vec<&str> = r.split(' ').collect(); let z = &mut e.z.st; z.queries += p[0].parse::<u64>().unwrap(); z.sat += p[1].parse::<u64>().unwrap(); z.unsat += p[2].parse::<u64>().unwrap(); z.unknown += p[3].parse::<u64>().unwrap(); z.secs += p[4].parse::<f64>().unwrap(); z.max_secs = z.max_secs.max(p[5].parse().unwrap()); }
            "R " => { let (a, b) = r.split_once(' ').unwrap(); *e.reach.entry(a.parse().unwrap()).or_insert(0) += b.parse::<u64>().unwrap(); }
            "U " => { let (a, b) = r.split_once(' ').unwrap(); *e.used.entry(a.parse().unwrap()).or_insert(0) += b.parse::<u64>().unwrap(); }
            "X " => { let (a, b) = r.split_once(' ').unwrap(); *e.exts.entry(b.to_string()).or_insert(0) += a.parse::<u64>().unwrap(); }
            "E " => e.errors.push(r.to_string()),
            "V " => { let p: Vec<&str> = r.split('\t').collect(); e.viols.push(Violation { kind: p[0].into(), msg: p[1].into(), inputs: inp(p[2]), stack: p[3].split(" < ").map(|x| x.to_string()).collect() }); }
            "P " => { let (a, b) = r.split_once('\t').unwrap(); if e.samples.len() < e.cfg.samples * 4 { let obs = inp2(b); e.samples.push(Sample { inputs: inp(a), obs }); } }
            "D" | "D " => done = true,
            _ => {}
        }
    }
    done
}
fn inp2(s: &str) -> Vec<(u64, u128)> { s.split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once(':').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect() }

pub fn explore(e: &mut Engine) {
    while let Some(s) = e.pending.pop() {
        e.run_one(s);
        if e.st.paths + e.st.killed > e.cfg.max_paths { e.errors.push("path limit".into()); e.pending.clear(); }
        if e.cfg.stop_first && !e.viols.is_empty() { e.pending.clear(); if let Some(t) = &e.team { t.stop(); } }
        if e.team.as_ref().is_some_and(|t| t.stopped()) { e.pending.clear(); }
        if e.errors.len() > 10 { e.pending.clear(); }
        if e.team.is_some() && e.pending.len() > 1 { team::share(e); }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let child = std::thread::Builder::new().stack_size(4 << 30).spawn(move || real_main(args)).unwrap();
    let code = child.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main(args: Vec<String>) -> i32 {
    let mut entry = String::new(); let mut files = vec![]; let mut out = String::new();
    let mut eargs: Vec<u64> = vec![];
    let mut tmo = 60_000u32;
    let mut cfg = Cfg { max_steps: 200_000_000, max_paths: 10_000_000, max_secs: 600.0, jobs: 8, samples: 8, max_conc: 4096, stop_first: false, verbose: false, leak: false, max_viol: 12, nofork: false };
    let mut i = 0;
    let mut split = 64usize;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "run" => {}
            "--entry" => { entry = nx(); i += 1; }
            "--arg" => { eargs.push(nx().parse().unwrap()); i += 1; }
            "--jobs" => { cfg.jobs = nx().parse().unwrap(); i += 1; }
            "--split" => { split = nx().parse().unwrap(); i += 1; }
            "--max-steps" => { cfg.max_steps = nx().parse().unwrap(); i += 1; }
            "--max-paths" => { cfg.max_paths = nx().parse().unwrap(); i += 1; }
            "--max-secs" => { cfg.max_secs = nx().parse().unwrap(); i += 1; }
            "--timeout-ms" => { tmo = nx().parse().unwrap(); i += 1; }
            "--samples" => { cfg.samples = nx().parse().unwrap(); i += 1; }
            "--out" => { out = nx(); i += 1; }
            "--stop-first" => cfg.stop_first = true,
            "-v" => cfg.verbose = true,
            f => files.push(f.to_string()),
        }
        i += 1;
    }
    // programs in llrl: the compiler decides what lives on the stack
    ir::LIFETIMES.store(entry == "llrl_main", std::sync::atomic::Ordering::Relaxed);
    let mut m = ir::Module::new();
    for f in &files {
        let t = match std::fs::read(f) { Ok(t) => String::from_utf8(t).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned()), Err(e) => { eprintln!("{}: {}", f, e); return 2; } };
        if let Err(e) = m.load(t) { eprintln!("{}: {}", f, e); return 2; }
    }
    let jobs = cfg.jobs;
    let mut e = Engine::new(m, cfg, tmo);
    let st = match e.initial(&entry, &eargs) { Ok(s) => s, Err(x) => { eprintln!("{}", x); return 2; } };
    e.pending.push(st);
    let _ = split;
    if jobs <= 1 { explore(&mut e); } else { team::run(&mut e, jobs); }
    // report
    let mut o = String::new();
    let s = &e.st; let z = &e.z.st;
    let _ = write!(o, "{{\"entry\":{},\"paths\":{},\"killed\":{},\"steps\":{},\"forks\":{},\"expected_panics\":{},\"cache_hits\":{},\"interval_decided\":{},\"max_depth\":{},\"asserts\":{},\"assert_queries\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_secs\":{:.3},\"max_query_secs\":{:.3},\"secs\":{:.3}",
        js(&entry), s.paths, s.killed, s.steps, s.forks, s.panics_ok, s.cache, s.interval, s.max_depth, s.asserts, s.assert_queries, z.queries, z.sat, z.unsat, z.unknown, z.secs, z.max_secs, e.t0.elapsed().as_secs_f64());
    let _ = write!(o, ",\"reach\":{{{}}}", e.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"errors\":[{}]", e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"violations\":[{}]", e.viols.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":[{}]}}", js(&v.kind), js(&v.msg), jin(&v.inputs), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"samples\":[{}]", e.samples.iter().map(|v| format!("{{\"inputs\":{},\"obs\":[{}]}}", jin(&v.inputs), v.obs.iter().map(|(a, b)| format!("[{},\"{}\"]", a, b)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let mut fns: Vec<(String, u64, usize)> = e.used.iter().map(|(k, v)| { let n = demangle(&e.m.globals[*k as usize - 1].name); (n, *v, e.m.funcs[*k as usize - 1].as_ref().map(|f| f.ninsn).unwrap_or(0)) }).collect();
    fns.sort();
    let _ = write!(o, ",\"functions\":[{}]", fns.iter().map(|(n, c, k)| format!("[{},{},{}]", js(n), c, k)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"externals\":{{{}}}}}", e.exts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    if out.is_empty() { println!("{}", o); } else { std::fs::write(&out, o).unwrap(); }
    0
}

mod exec; mod fp; mod fx; mod expr; mod ext; mod ir; mod sep; mod smt; mod step;
use std::io::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn arr(v: &[String]) -> String { format!("[{}]", v.join(",")) }
fn viol(v: &exec::Violation) -> String {
    let tape: Vec<String> = v.tape.iter().map(|(w, x)| format!("[{},\"{}\"]", w, x)).collect();
    let tr: Vec<String> = v.trace.iter().map(|t| js(t)).collect();
    let cpu: Vec<String> = v.cpu.iter().map(|(a, b, r)| format!("[{},{},{}]", a, b, arr(&r.iter().map(|x| x.to_string()).collect::<Vec<_>>()))).collect();
    format!("{{\"msg\":{},\"trace\":{},\"tape\":{},\"cpu\":{}}}", js(&v.msg), arr(&tr), arr(&tape), arr(&cpu))
}

/// lysym IR JOBS OUT [key=value...]; a job line: `entry param param ... [key=value ...]`
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("usage: lysym IR JOBS OUT [solver=CMD] [time=S] [merge=0|1] [insts=N] [timeout=MS]"); std::process::exit(2); }
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(a)).unwrap();
    if child.join().is_err() { std::process::exit(3); }
}
fn real(a: Vec<String>) {
    let src = std::fs::read_to_string(&a[1]).expect("IR");
    // "-": jobs arrive on the standard input, results leave on the standard output, one by one
    let jobs: Box<dyn Iterator<Item = String>> = if a[2] == "-" { Box::new(std::io::stdin().lines().map_while(|l| l.ok())) } else { Box::new(std::fs::read_to_string(&a[2]).expect("jobs").lines().map(|l| l.to_string()).collect::<Vec<_>>().into_iter()) };
    let opts = |l: &[String], k: &str| l.iter().rev().find_map(|x| x.strip_prefix(&format!("{}=", k)).map(|s| s.to_string()));
    let mut ar = expr::Arena::new();
    let t0 = Instant::now();
    let m = ir::parse(&src, &mut ar);
    eprintln!("parsed {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64());
    let solver = opts(&a, "solver").unwrap_or("z3-new -in".into());
    let cmd: Vec<String> = solver.split(' ').map(|s| s.to_string()).collect();
    let mut sol = smt::Solver::new(&cmd);
    if let Some(l) = opts(&a, "smtlog") { sol.log = Some(std::fs::File::create(l).unwrap()); }
    let mut out: Box<dyn Write> = if a[3] == "-" { Box::new(std::io::stdout()) } else { Box::new(std::fs::File::create(&a[3]).expect("out")) };
    for line in jobs {
        let line = line.as_str();
        let w: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
        if w.is_empty() || w[0].starts_with('#') { continue; }
        let mut all: Vec<String> = a[4..].to_vec();
        all.extend(w[1..].iter().cloned());
        let params: Vec<i64> = w[1..].iter().filter(|x| !x.contains('=')).map(|x| x.parse().unwrap()).collect();
        let (q0, s0, u0, k0, tm0) = (sol.queries, sol.sat, sol.unsat, sol.unknown, sol.time);
        let t0 = Instant::now();
        ar.sep_on = opts(&all, "sep").map_or(false, |s| s != "0");
        let mut ex = exec::Exec::new(&m, &mut ar, &mut sol);
        ex.merge = opts(&all, "merge").map_or(true, |s| s != "0");
        ex.soft = opts(&all, "soft").map_or(false, |s| s != "0");
        ex.trace = opts(&all, "trace").is_some();
        ex.deadline = Instant::now() + Duration::from_secs_f64(opts(&all, "time").map_or(3600.0, |s| s.parse().unwrap()));
        if let Some(s) = opts(&all, "insts") { ex.max_insts = s.parse().unwrap(); }
        if let Some(s) = opts(&all, "timeout") { ex.qtimeout = s.parse().unwrap(); }
        if let Some(s) = opts(&all, "samples") { ex.max_samples = s.parse().unwrap(); }
        if let Some(s) = opts(&all, "violations") { ex.max_violations = s.parse().unwrap(); }
        // a concrete run: values of the inputs, and of the CPU, are given
        if let Some(t) = opts(&all, "tape") { ex.tape = Some(t.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()); }
        if let Some(t) = opts(&all, "cpuid") { for l in t.split(';').filter(|x| !x.is_empty()) { let v: Vec<u64> = l.split(',').map(|x| x.parse().unwrap()).collect(); let mut r = [0u32; 4]; for i in 0..4 { r[i] = v.get(2 + i).copied().unwrap_or(0) as u32; } ex.fixed_cpu.insert((v[0], v[1]), r); } }
        ex.run(&w[0], &params);
        for (k, v) in &ex.dbgm { eprintln!("Q {} {} {}", v.0, k, v.1); }
        let dt = t0.elapsed().as_secs_f64();
        let s = &ex.st;
        let vs: Vec<String> = ex.violations.iter().map(viol).collect();
        let sm: Vec<String> = ex.samples.iter().map(viol).collect();
        let un: Vec<String> = s.unsupported.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
        let fns: Vec<String> = ex.funcs.iter().map(|f| js(&m.funcs[*f as usize].name)).collect();
        let ps: Vec<String> = params.iter().map(|p| p.to_string()).collect();
        let r = format!("{{\"entry\":{},\"params\":{},\"line\":{},\"paths\":{},\"killed\":{},\"merged\":{},\"states\":{},\"forks\":{},\"insts\":{},\"asserts\":{},\"memchecks\":{},\"panics\":{},\"feasible\":{},\"refuted\":{},\"undecided\":{},\"unknown\":{},\"budget\":{},\"outside\":{},\"marks\":{},\"domdec\":{},\"multidec\":{},\"wall\":{:.3},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"unsupported\":{{{}}},\"violations\":{},\"samples\":{},\"functions\":{}}}",
            js(&w[0]), arr(&ps), js(line), s.paths, s.killed, s.merged, s.states, s.forks, s.insts, s.asserts, s.memchecks, s.panics, s.feas, s.refuted, s.undecided, s.unknown, s.budget, s.outside, ex.marks, s.domdec, s.multidec, dt, ex.sol.queries - q0, ex.sol.sat - s0, ex.sol.unsat - u0, ex.sol.unknown - k0, ex.sol.time - tm0, ex.sol.max_time, un.join(","), arr(&vs), arr(&sm), arr(&fns));
        eprintln!("{}: {} paths, {} merged, {} states, {} forks, {} insts, {} queries, {:.2}s solver, {:.2}s{}{}{}", line, s.paths, s.merged, s.states, s.forks, s.insts, ex.sol.queries - q0, ex.sol.time - tm0, dt, if s.budget { " BUDGET" } else { "" }, if un.is_empty() { String::new() } else { format!(" unsupported {}", un.join(",")) }, if vs.is_empty() { String::new() } else { format!(" VIOLATION {}", ex.violations[0].msg) });
        writeln!(out, "{}", r).unwrap(); out.flush().unwrap();
    }
}

mod exec;
mod explore;
mod expr;
mod hash;
mod ir;
mod z3;
use std::time::Duration;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("usage: symx FILE.ll HARNESS [--time S] [--threads N] [--seed N] [--out F] [--stop N] [--ignore L] [--steps N] [--frames N] [--progress] [--list]"); std::process::exit(2); }
    let mut cfg = explore::Cfg { time: Duration::from_secs(60), threads: 8, seed: 1, step_limit: 250_000_000, max_frames: 12_000, samples: 400, stop_labels: 4, progress: false, ignore: vec![] };
    let mut out = None;
    let mut i = 3;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--time" => cfg.time = Duration::from_secs_f64(v.parse().unwrap()),
            "--threads" => cfg.threads = v.parse().unwrap(),
            "--seed" => cfg.seed = v.parse().unwrap(),
            "--steps" => cfg.step_limit = v.parse().unwrap(),
            "--frames" => cfg.max_frames = v.parse().unwrap(),
            "--stop" => cfg.stop_labels = v.parse().unwrap(),
            "--samples" => cfg.samples = v.parse().unwrap(),
            "--ignore" => cfg.ignore.push(v),
            "--out" => out = Some(v),
            "--progress" => { cfg.progress = true; i += 1; continue; }
            x => { eprintln!("bad option {x}"); std::process::exit(2); }
        }
        i += 2;
    }
    let text = std::fs::read_to_string(&a[1]).expect("read ll");
    let prog = ir::Program::load(text);
    let Some(&entry) = prog.fn_ids.get(&a[2]) else { eprintln!("no such harness {}", a[2]); std::process::exit(2) };
    let r = explore::explore(&prog, entry, &cfg);
    if cfg.progress {
        let mut v: Vec<_> = r.sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1[0] + x.1[1]));
        for (s, n) in v.iter().take(25) { eprintln!("sat {:8} unsat {:8}  {} @{}", n[0], n[1], exec::demangle(&prog.fns[(*s >> 32) as usize].name), **s as u32); }
        for e in &r.errors { eprintln!("ERROR {e}"); }
        for v in &r.viols { eprintln!("VIOL {} {} {}", v.kind, v.label, hex(&v.inputs)); }
    }
    let mut o = String::from("{\n");
    o.push_str(&format!("\"harness\":{},\"solver\":{},\n", js(&a[2]), js(&format!("z3 {}", z3::version()))));
    o.push_str(&format!("\"paths\":{},\"completed\":{},\"assume_false\":{},\"hash_cycle_infeasible\":{},\"queries\":{},\"queries_cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"instructions\":{},\"decisions\":{},\"max_symbolic_bytes\":{},\"max_path_decisions\":{},\"max_hashes\":{},\"violations_seen\":{},\"exhaustive\":{},\"pending\":{},\"wall_s\":{:.3},\n",
        r.paths, r.done, r.assume_false, r.cyclic, r.queries, r.cached, r.sat, r.unsat, r.unknown, r.solver_us as f64 / 1e6, r.steps, r.decisions, r.max_vars, r.max_path, r.max_hashes, r.viol_count, r.exhaustive, r.pending, r.wall));
    o.push_str("\"reach\":{");
    o.push_str(&r.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    o.push_str("},\n\"covered\":[");
    let mut names: Vec<String> = r.covered.iter().map(|f| exec::demangle(&prog.fns[*f as usize].name)).collect();
    names.sort();
    names.dedup();
    o.push_str(&names.iter().map(|n| js(n)).collect::<Vec<_>>().join(","));
    o.push_str("],\n\"errors\":[");
    o.push_str(&r.errors.iter().take(10).map(|n| js(n)).collect::<Vec<_>>().join(","));
    o.push_str(&format!("],\n\"error_paths\":{},\"error_inputs\":[", r.err_paths));
    o.push_str(&r.err_inputs.iter().map(|v| format!("\"{}\"", hex(v))).collect::<Vec<_>>().join(","));
    o.push_str("],\n\"violations\":[");
    o.push_str(&r.viols.iter().map(|v| format!("{{\"kind\":{},\"label\":{},\"raw\":\"{}\",\"inputs\":\"{}\"}}", js(&v.kind), js(&v.label), hex(&v.raw), hex(&v.inputs))).collect::<Vec<_>>().join(",\n"));
    o.push_str("],\n\"samples\":[");
    o.push_str(&r.samples.iter().map(|v| format!("{{\"end\":{},\"inputs\":\"{}\",\"obs\":[{}]}}", js(&v.end), hex(&v.inputs), v.obs.iter().map(|x| format!("\"{x:x}\"")).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n"));
    o.push_str("]}\n");
    match out { Some(f) => std::fs::write(f, o).unwrap(), None => print!("{o}") }
    std::process::exit(if r.errors.is_empty() { 0 } else { 3 });
}

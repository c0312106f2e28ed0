//! Path exploration: flips every recorded decision with the solver until no unexplored
//! feasible decision remains (or the time budget is used up).
use crate::exec::*;
use crate::expr::*;
use crate::ir::Program;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Item { pub model: Vec<u8>, pub bound: usize, pub excl: Arc<HashMap<u32, u64>>, pub expect: u64, /* the concretisation at `bound` has its other values queued already */ pub skip: bool }

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub label: String, pub raw: Vec<u8>, pub inputs: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<u8>, pub end: String, pub obs: Vec<u64> }

#[derive(Default)]
pub struct Report {
    pub paths: u64, pub done: u64, pub assume_false: u64, pub cyclic: u64, pub queries: u64, pub cached: u64, pub sat: u64, pub unsat: u64, pub unknown: u64,
    pub solver_us: u64, pub steps: u64, pub decisions: u64, pub max_vars: u32, pub max_path: usize, pub max_hashes: usize,
    pub viols: Vec<Viol>, pub viol_count: u64, pub samples: Vec<Sample>, pub reach: BTreeMap<String, u64>, pub covered: BTreeSet<u32>, pub errors: Vec<String>, pub err_inputs: Vec<Vec<u8>>, pub err_paths: u64,
    pub sites: BTreeMap<u64, [u64; 2]>, pub exhaustive: bool, pub wall: f64, pub pending: usize,
}

pub struct Cfg { pub time: Duration, pub threads: usize, pub seed: u64, pub step_limit: u64, pub max_frames: usize, pub samples: usize, pub stop_labels: usize, pub progress: bool, pub ignore: Vec<String> }

struct Shared { q: Mutex<(Vec<Item>, usize)>, cv: Condvar, stop: AtomicBool, timed: AtomicBool, paths: AtomicU64 }

fn mix(h: u64, site: u64, conc: bool) -> u64 { (h ^ site).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17) ^ conc as u64 }

pub fn explore(prog: &Program, entry: u32, cfg: &Cfg) -> Report {
    let start = Instant::now();
    let sh = Shared { q: Mutex::new((vec![Item { model: vec![], bound: 0, excl: Arc::new(HashMap::new()), expect: 0, skip: false }], 0)), cv: Condvar::new(), stop: AtomicBool::new(false), timed: AtomicBool::new(false), paths: AtomicU64::new(0) };
    let rep = Mutex::new(Report::default());
    std::thread::scope(|s| {
        for t in 0..cfg.threads {
            let (sh, rep) = (&sh, &rep);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || worker(prog, entry, cfg, sh, rep, t as u64, start)).unwrap();
        }
        if cfg.progress {
            let sh = &sh;
            let rep = &rep;
            s.spawn(move || loop {
                std::thread::sleep(Duration::from_secs(5));
                let (n, a) = { let q = sh.q.lock().unwrap(); (q.0.len(), q.1) };
                if (n == 0 && a == 0) || sh.timed.load(Ordering::Relaxed) || sh.stop.load(Ordering::Relaxed) { break; }
                let r = rep.lock().unwrap();
                eprintln!("[{:5.0}s] paths {} pending {} queries {} cached {} solver {:.0}s viol {}", start.elapsed().as_secs_f64(), sh.paths.load(Ordering::Relaxed), n, r.queries, r.cached, r.solver_us as f64 / 1e6, r.viol_count);
            });
        }
    });
    let mut r = rep.into_inner().unwrap();
    let q = sh.q.into_inner().unwrap();
    r.pending = q.0.len();
    r.exhaustive = q.0.is_empty() && !sh.stop.load(Ordering::Relaxed) && !sh.timed.load(Ordering::Relaxed) && r.unknown == 0 && r.errors.is_empty();
    r.wall = start.elapsed().as_secs_f64();
    r
}

fn rnd(r: &mut u64) -> u64 { *r ^= *r << 13; *r ^= *r >> 7; *r ^= *r << 17; *r >> 11 }

/// a model of the path condition before decision `i` and the negation of `goal`
#[allow(clippy::too_many_arguments)]
fn solve(m: &mut Machine, z: &mut Z3, cache: &mut HashMap<Box<[E]>, Option<Vec<(u32, u8)>>>, l: &mut Report, path: &[Decision], asserted: &mut usize, i: usize, goal: E, vars: &[u32], gs: &[u32], groups: &[Vec<E>], members: &[Vec<u32>]) -> Option<Vec<u8>> {
    let mut cs: Vec<E> = vec![m.ex.not(goal)];
    for g in gs { cs.extend_from_slice(&groups[*g as usize]); }
    cs.sort();
    cs.dedup();
    let key = cs.into_boxed_slice();
    let d = &path[i];
    let res = match cache.get(&key) {
        Some(r) => { l.cached += 1; r.clone() }
        None => {
            l.queries += 1;
            let t0 = Instant::now();
            if *asserted == usize::MAX { z.reset(); *asserted = 0; }
            while *asserted < i { z.assert(&m.ex, path[*asserted].e); *asserted += 1; }
            let mut want: Vec<u32> = vars.to_vec();
            for g in gs { want.extend_from_slice(&members[*g as usize]); }
            want.sort();
            want.dedup();
            let want: Vec<(u32, E)> = want.iter().map(|v| (*v, m.ex.var(*v))).collect();
            let mut out = vec![];
            let r = z.check_neg(&m.ex, goal, &want, &mut out);
            l.solver_us += t0.elapsed().as_micros() as u64;
            let r = match r {
                Res::Sat => {
                    l.sat += 1;
                    l.sites.entry(d.site).or_default()[0] += 1;
                    // validate the model against our own evaluator
                    let mut mm = m.model.clone();
                    for (v, b) in &out { mm[*v as usize] = *b; }
                    let mut memo = HashMap::new();
                    if !key.iter().all(|e| m.ex.eval(*e, &mm, &mut memo) == 1) { l.errors.push("solver model does not satisfy the query".into()); None } else { Some(out) }
                }
                Res::Unsat => { l.unsat += 1; l.sites.entry(d.site).or_default()[1] += 1; None }
                Res::Unknown => { l.unknown += 1; None }
            };
            cache.insert(key, r.clone());
            r
        }
    };
    let mut mm = m.model.clone();
    for (v, b) in res? { mm[v as usize] = b; }
    Some(mm)
}

fn worker(prog: &Program, entry: u32, cfg: &Cfg, sh: &Shared, rep: &Mutex<Report>, tid: u64, start: Instant) {
    let mut m = Machine::new(prog);
    m.step_limit = cfg.step_limit;
    m.max_frames = cfg.max_frames;
    let mut z = Z3::new(20_000);
    let mut cache: HashMap<Box<[E]>, Option<Vec<(u32, u8)>>> = HashMap::new();
    let mut rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (tid + 1).wrapping_mul(0xD1342543DE82EF95);
    let mut npath = 0u64;
    // share of children with random free inputs; share of depth-first pops; shallowest of how many otherwise
    let knob = (75, 50, 4);
    loop {
        let item = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) || sh.timed.load(Ordering::Relaxed) { sh.cv.notify_all(); return; }
                if let Some(it) = {
                    let n = g.0.len() as u64;
                    if n == 0 { None } else if rnd(&mut rng) % 100 >= knob.1 {
                        let k = (0..knob.2).map(|_| (rnd(&mut rng) % n) as usize).min_by_key(|k| g.0[*k].bound).unwrap();
                        Some(g.0.swap_remove(k))
                    } else { g.0.pop() }
                } { g.1 += 1; break it; }
                if g.1 == 0 { sh.cv.notify_all(); return; }
                g = sh.cv.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            }
        };
        if start.elapsed() > cfg.time { sh.timed.store(true, Ordering::Relaxed); let mut g = sh.q.lock().unwrap(); g.1 -= 1; g.0.push(item); sh.cv.notify_all(); return; }
        if m.ex.nodes.len() > 6_000_000 || cache.len() > 2_000_000 {
            m.reset_exprs();
            z = Z3::new(20_000);
            cache.clear();
        }
        let mut l = Report::default();
        m.reset(item.model.clone(), item.bound, (*item.excl).clone());
        let mut end = m.run(entry);
        npath += 1;
        sh.paths.fetch_add(1, Ordering::Relaxed);
        l.paths = 1;
        l.steps = m.steps;
        l.decisions = m.path.len() as u64;
        if item.bound > 0 && m.phash_at_bound != item.expect && !matches!(end, End::Engine(_)) {
            end = End::Engine(format!("replay diverged before decision {} (path {})", item.bound, m.path.len()));
        }
        let raw: Vec<u8> = m.model[..m.nvars as usize].to_vec();
        let mut expand = true;
        match &end {
            End::Engine(e) => { l.errors.push(e.clone()); l.err_paths = 1; if let Some(i) = m.translate(&raw) { l.err_inputs.push(i); } expand = false; }
            End::AssumeFalse => l.assume_false = 1,
            e => match m.translate(&raw) {
                None => l.cyclic = 1,
                Some(inputs) => {
                    let (kind, label) = match e {
                        End::Done => ("done", String::new()),
                        End::CheckFail(s) => ("check", s.clone()),
                        End::Panic(s) => ("panic", s.clone()),
                        End::Abort(s) => ("abort", s.clone()),
                        End::StackOverflow(s) => ("overflow", s.clone()),
                        End::StepLimit(s) => ("steps", s.clone()),
                        _ => unreachable!(),
                    };
                    if *e == End::Done {
                        l.done = 1;
                        if npath < 12 || npath % 97 == 0 { l.samples.push(Sample { inputs, end: "done".into(), obs: m.obs.clone() }); }
                        for r in &m.reach { l.reach.insert(r.clone(), 1); }
                    } else {
                        for r in &m.reach { l.reach.insert(r.clone(), 1); }
                        l.viol_count = 1;
                        l.viols.push(Viol { kind: kind.into(), label, raw: raw.clone(), inputs });
                    }
                }
            },
        }
        // ---- flip decisions
        let mut children: Vec<Item> = vec![];
        if expand {
            let nv = m.nvars as usize;
            let mut group: Vec<u32> = vec![u32::MAX; nv];
            let mut groups: Vec<Vec<E>> = vec![];
            let mut members: Vec<Vec<u32>> = vec![];
            let mut h = 0u64;
            let mut asserted = usize::MAX;
            let path = std::mem::take(&mut m.path);
            m.facts_off();
            for (i, d) in path.iter().enumerate() {
                h = mix(h, d.site, d.conc.is_some());
                let vars = m.ex.vars(d.e).to_vec();
                if d.flip && i >= item.bound && !(item.skip && i == item.bound) {
                    if i & 15 == 0 && start.elapsed() > cfg.time { sh.timed.store(true, Ordering::Relaxed); break; }
                    let mut gs: Vec<u32> = vars.iter().map(|v| group[*v as usize]).filter(|g| *g != u32::MAX).collect();
                    gs.sort();
                    gs.dedup();
                    // the other outcome; for a concretisation, all other values (up to a limit per path)
                    let (mut goal, mut excl, mut bound, mut hh, mut last) = (d.e, item.excl.clone(), i, h, 0u64);
                    let mut next = solve(&mut m, &mut z, &mut cache, &mut l, &path, &mut asserted, i, goal, &vars, &gs, &groups, &members);
                    while let Some(mm) = next.take() {
                        let mut skip = false;
                        bound += 1;
                        if let Some(v) = d.conc {
                            let mut memo = HashMap::new();
                            let other = m.ex.eval(d.of, &mm, &mut memo) as u64;
                            let mut x = (*excl).clone();
                            x.insert(bound as u32 - 1, if bound == i + 1 { v } else { last });
                            excl = Arc::new(x);
                            last = other;
                            if bound - i < 40 {
                                let k = m.ex.c(other as u128, d.w);
                                let q = m.ex.eq(d.of, k);
                                goal = m.ex.or(goal, q);
                                next = solve(&mut m, &mut z, &mut cache, &mut l, &path, &mut asserted, i, goal, &vars, &gs, &groups, &members);
                                skip = next.is_some();
                            }
                        }
                        let mut mm = mm;
                        // half of the children continue with random values of what the prefix leaves (nearly) free:
                        // spreads a run that ends by its budget over the input space, and changes nothing else
                        if rnd(&mut rng) % 100 < knob.0 {
                            for v in 0..nv {
                                let g = group[v];
                                if gs.contains(&g) && g != u32::MAX || vars.contains(&(v as u32)) { continue; }
                                let old = mm[v];
                                mm[v] = m.lo[v] + (rnd(&mut rng) % (m.hi[v] as u64 - m.lo[v] as u64 + 1)) as u8;
                                if g != u32::MAX {
                                    let mut memo = HashMap::new();
                                    if members[g as usize].len() > 3 || !groups[g as usize].iter().all(|e| m.ex.eval(*e, &mm, &mut memo) == 1) { mm[v] = old; }
                                }
                            }
                        }
                        children.push(Item { model: mm, bound, excl: excl.clone(), expect: hh, skip });
                        hh = mix(hh, d.site, true);
                    }
                }
                // merge groups
                let mut target = u32::MAX;
                for v in &vars {
                    let g = group[*v as usize];
                    if g == u32::MAX || g == target { continue; }
                    if target == u32::MAX { target = g; continue; }
                    let (a, b) = if groups[target as usize].len() >= groups[g as usize].len() { (target, g) } else { (g, target) };
                    let c = std::mem::take(&mut groups[b as usize]);
                    groups[a as usize].extend(c);
                    let mv = std::mem::take(&mut members[b as usize]);
                    for v in &mv { group[*v as usize] = a; }
                    members[a as usize].extend(mv);
                    target = a;
                }
                if target == u32::MAX && !vars.is_empty() { target = groups.len() as u32; groups.push(vec![]); members.push(vec![]); }
                for v in &vars { if group[*v as usize] == u32::MAX { group[*v as usize] = target; members[target as usize].push(*v); } }
                if target != u32::MAX { groups[target as usize].push(d.e); }
            }
            l.max_path = path.len();
        }
        l.max_vars = m.nvars;
        l.max_hashes = m.hashes.len();
        {
            let mut g = sh.q.lock().unwrap();
            g.1 -= 1;
            g.0.extend(children);
            if g.0.len() > 1 || g.1 == 0 { sh.cv.notify_all(); } else { sh.cv.notify_one(); }
        }
        let mut r = rep.lock().unwrap();
        r.paths += l.paths; r.done += l.done; r.assume_false += l.assume_false; r.cyclic += l.cyclic; r.queries += l.queries; r.cached += l.cached; r.sat += l.sat; r.unsat += l.unsat; r.unknown += l.unknown;
        r.solver_us += l.solver_us; r.steps += l.steps; r.decisions += l.decisions; r.max_vars = r.max_vars.max(l.max_vars); r.max_path = r.max_path.max(l.max_path); r.max_hashes = r.max_hashes.max(l.max_hashes);
        r.viol_count += l.viol_count;
        for v in l.viols {
            let same = r.viols.iter().filter(|w| w.kind == v.kind && w.label == v.label).count();
            if same < 3 && r.viols.len() < 60 { r.viols.push(v); }
        }
        let lab: BTreeSet<&str> = r.viols.iter().filter(|v| !cfg.ignore.iter().any(|i| v.label.contains(i.as_str()))).map(|v| v.label.as_str()).collect();
        if lab.len() >= cfg.stop_labels { sh.stop.store(true, Ordering::Relaxed); }
        if r.samples.len() < cfg.samples { r.samples.extend(l.samples); }
        for (k, n) in l.sites { let e = r.sites.entry(k).or_default(); e[0] += n[0]; e[1] += n[1]; }
        for (k, n) in l.reach { *r.reach.entry(k).or_insert(0) += n; }
        if m.covered.len() > r.covered.len() || npath & 63 == 1 { r.covered.extend(m.covered.iter().copied()); }
        if !l.errors.is_empty() {
            r.err_paths += l.err_paths;
            if r.errors.len() < 20 { r.errors.extend(l.errors); }
            if r.err_inputs.len() < 400 { r.err_inputs.extend(l.err_inputs); }
        }
    }
}

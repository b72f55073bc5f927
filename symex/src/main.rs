mod env;
mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::VecDeque;
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

type Prefix = Vec<(bool, u128, u32)>;

struct Pool {
    q: VecDeque<Prefix>,
    idle: usize,
    done: bool,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}

fn prefix_of(st: &State) -> Prefix {
    let mut v = vec![];
    let mut d = st.dec.as_ref();
    while let Some(n) = d { v.push((n.bit, n.val, n.loc)); d = n.prev.as_ref(); }
    v.reverse();
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entry = None;
    let mut threads = 1usize;
    let mut timeout_ms = 20_000u32;
    let mut wall = 600.0f64;
    let mut grace = f64::MAX; // seconds to go on after the first finding
    let mut opts = Opts { max_steps: 2_000_000_000, max_paths: u64::MAX, max_findings: 3, max_samples: 8, verbose: false, concrete: None, params: vec![], preempt: 0, stub_format: false, trace: false };
    let mut i = 1;
    let mut repo_filter = String::new();
    while i < args.len() {
        match args[i].as_str() {
            "--entry" => { i += 1; entry = Some(args[i].clone()); }
            "--threads" => { i += 1; threads = args[i].parse().unwrap(); }
            "--timeout-ms" => { i += 1; timeout_ms = args[i].parse().unwrap(); }
            "--wall" => { i += 1; wall = args[i].parse().unwrap(); }
            "--grace" => { i += 1; grace = args[i].parse().unwrap(); }
            "--max-findings" => { i += 1; opts.max_findings = args[i].parse().unwrap(); }
            "--samples" => { i += 1; opts.max_samples = args[i].parse().unwrap(); }
            "--max-steps" => { i += 1; opts.max_steps = args[i].parse().unwrap(); }
            "--repo" => { i += 1; repo_filter = args[i].clone(); }
            "--concrete" => { i += 1; opts.concrete = Some(if args[i].is_empty() { vec![] } else { args[i].split(',').map(|x| x.parse().unwrap()).collect() }); }
            "--params" => { i += 1; opts.params = args[i].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(); }
            "--trace" => { opts.trace = true; }
            "--stub-format" => { opts.stub_format = true; }
            "-v" => opts.verbose = true,
            f => file = Some(f.to_string()),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let src = std::fs::read_to_string(file.expect("file")).expect("read");
    let m = match ir::parse_module(&src) { Ok(m) => m, Err(e) => { eprintln!("parse error: {e}"); std::process::exit(3); } };
    drop(src);
    let code = match load_code(m) { Ok(c) => Arc::new(c), Err(e) => { eprintln!("load error: {e}"); std::process::exit(3); } };
    let t_load = t0.elapsed().as_secs_f64();
    let entry = entry.expect("--entry");
    let pool = Arc::new((Mutex::new(Pool { q: VecDeque::from([vec![]]), idle: 0, done: false }), Condvar::new()));
    let t1 = std::time::Instant::now();
    let found = Arc::new(std::sync::atomic::AtomicU64::new(u64::MAX));
    let mut hs = vec![];
    for _ in 0..threads {
        let found = found.clone();
        let (code, pool, entry, opts, repo_filter) = (code.clone(), pool.clone(), entry.clone(), opts.clone(), repo_filter.clone());
        hs.push(std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
            let mut ex = Exec::new(&code, opts, timeout_ms);
            let mut init_err: Option<String> = None;
            'outer: loop {
                let prefix = {
                    let mut p = pool.0.lock().unwrap();
                    p.idle += 1;
                    loop {
                        if p.done { break 'outer; }
                        if let Some(x) = p.q.pop_front() { p.idle -= 1; break x; }
                        if p.idle == threads { p.done = true; pool.1.notify_all(); break 'outer; }
                        p = pool.1.wait(p).unwrap();
                    }
                };
                let mut st = match ex.init_state(&entry) { Ok(s) => s, Err(e) => { init_err = Some(e); pool.0.lock().unwrap().done = true; pool.1.notify_all(); break; } };
                if !prefix.is_empty() { st.replay = Some(Rc::new(prefix)); }
                ex.work.push(st);
                let mut tick = 0u32;
                while let Some(s) = ex.work.pop() {
                    ex.run(s);
                    tick += 1;
                    let now = t1.elapsed().as_secs_f64();
                    if !ex.rep.findings.is_empty() { found.fetch_min((now * 1000.0) as u64, std::sync::atomic::Ordering::Relaxed); }
                    if now > wall || now - found.load(std::sync::atomic::Ordering::Relaxed) as f64 / 1000.0 > grace { ex.rep.incomplete = true; ex.work.clear(); pool.0.lock().unwrap().done = true; pool.1.notify_all(); break 'outer; }
                    if threads > 1 && tick % 2 == 0 && ex.work.len() > 1 {
                        let mut p = pool.0.lock().unwrap();
                        if p.done { ex.rep.incomplete = true; break 'outer; }
                        let need = p.idle.saturating_sub(p.q.len());
                        for _ in 0..need {
                            if ex.work.len() <= 1 { break; }
                            let s = ex.work.remove(0);
                            // a state that is itself still replaying keeps its whole prefix
                            let mut pre = prefix_of(&s);
                            if let Some(r) = &s.replay { pre.extend_from_slice(&r[s.replay_pos..]); }
                            p.q.push_back(pre);
                        }
                        pool.1.notify_all();
                    }
                }
            }
            // which repository functions and lines ran
            let m = &code.m;
            let mut lines: Vec<(String, u32, String)> = vec![];
            for (d, c) in ex.cov.iter().enumerate() {
                if !*c || d == 0 { continue; }
                let mut d = d as u32;
                let mut g = 0;
                while d != 0 && g < 40 {
                    g += 1;
                    let Some((line, sc, ia)) = m.dilocs.get(&d) else { break };
                    let (mut s, mut file, mut name) = (*sc, 0, String::new());
                    for _ in 0..40 { if let Some((p, fl, n, sub)) = m.discopes.get(&s) { if file == 0 { file = *fl; } if *sub { name = n.clone(); break; } s = *p; } else { break; } }
                    let f = m.difiles.get(&file).cloned().unwrap_or_default();
                    if f.contains(&repo_filter) { lines.push((f, *line, name)); }
                    d = *ia;
                }
            }
            lines.sort();
            lines.dedup();
            let nf = ex.fcov.iter().filter(|x| **x).count();
            (ex.rep, ex.sol.stats, lines, init_err, ex.ar.nodes.len(), nf)
        }).unwrap());
    }
    let mut rep = Report::default();
    let mut stats = solver::Stats::default();
    let mut lines = vec![];
    let mut nodes = 0;
    let mut nfuncs = 0;
    for h in hs {
        match h.join() {
            Ok((r, s, l, e, n, nf)) => {
                if let Some(e) = e { *rep.errors.entry(e).or_insert(0) += 1; }
                rep.paths += r.paths; rep.assumed += r.assumed; rep.instrs += r.instrs; rep.forks += r.forks;
                rep.expected_panics += r.expected_panics; rep.max_cons = rep.max_cons.max(r.max_cons); rep.incomplete |= r.incomplete;
                rep.crash_points += r.crash_points; rep.sched_points += r.sched_points;
                for (k, v) in r.errors { *rep.errors.entry(k).or_insert(0) += v; }
                for (k, v) in r.finding_counts { *rep.finding_counts.entry(k).or_insert(0) += v; }
                for (k, v) in r.covers { *rep.covers.entry(k).or_insert(0) += v; }
                for (k, v) in r.asserts { let e = rep.asserts.entry(k).or_insert([0; 3]); for i in 0..3 { e[i] += v[i]; } }
                rep.findings.extend(r.findings);
                rep.samples.extend(r.samples);
                stats.queries += s.queries; stats.sat += s.sat; stats.unsat += s.unsat; stats.unknown += s.unknown; stats.cached += s.cached; stats.time += s.time; stats.int_solved += s.int_solved; stats.cut_solved += s.cut_solved;
                if s.max_time > stats.max_time { stats.max_time = s.max_time; }
                lines.extend(l);
                nodes += n;
                nfuncs = nfuncs.max(nf);
            }
            Err(_) => { *rep.errors.entry("engine thread panicked".into()).or_insert(0) += 1; }
        }
    }
    lines.sort();
    lines.dedup();
    let mut o = String::new();
    let _ = write!(o, "{{\n \"entry\": {}, \"paths\": {}, \"assumed_away\": {}, \"instructions\": {}, \"forks\": {}, \"expected_panics\": {}, \"incomplete\": {}, \"max_constraints\": {}, \"terms\": {}, \"ir_functions\": {}, \"crash_points\": {}, \"sched_points\": {},\n", esc(&entry), rep.paths, rep.assumed, rep.instrs, rep.forks, rep.expected_panics, rep.incomplete, rep.max_cons, nodes, nfuncs, rep.crash_points, rep.sched_points);
    let _ = write!(o, " \"load_s\": {:.3}, \"run_s\": {:.3},\n \"solver\": {{\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}, \"time_s\": {:.3}, \"max_s\": {:.3}, \"int\": {}, \"cut\": {}}},\n", t_load, t1.elapsed().as_secs_f64(), stats.queries, stats.sat, stats.unsat, stats.unknown, stats.cached, stats.time, stats.max_time, stats.int_solved, stats.cut_solved);
    let kv = |m: &std::collections::BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", ");
    let _ = write!(o, " \"errors\": {{{}}},\n \"covers\": {{{}}},\n \"finding_counts\": {{{}}},\n", kv(&rep.errors), kv(&rep.covers), kv(&rep.finding_counts));
    let _ = write!(o, " \"asserts\": {{{}}},\n", rep.asserts.iter().map(|(k, v)| format!("{}: [{}, {}, {}]", esc(k), v[0], v[1], v[2])).collect::<Vec<_>>().join(", "));
    let vals = |v: &Vec<(String, u128)>| v.iter().map(|(n, x)| format!("[{}, {}]", esc(n), x)).collect::<Vec<_>>().join(", ");
    let _ = write!(o, " \"findings\": [{}],\n", rep.findings.iter().map(|f| format!("\n  {{\"kind\": {}, \"msg\": {}, \"values\": [{}], \"stack\": [{}], \"events\": [{}]}}", esc(&f.kind), esc(&f.msg), vals(&f.values), f.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "), f.events.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(","));
    let _ = write!(o, " \"samples\": [{}],\n", rep.samples.iter().map(|(v, b)| format!("\n  {{\"values\": [{}], \"obs\": [{}]}}", vals(v), vals(b))).collect::<Vec<_>>().join(","));
    let _ = write!(o, " \"lines\": [{}]\n}}\n", lines.iter().map(|(f, l, n)| format!("[{}, {}, {}]", esc(f), l, esc(n))).collect::<Vec<_>>().join(", "));
    print!("{o}");
}

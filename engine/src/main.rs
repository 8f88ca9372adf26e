#![feature(rustc_private)]
#![allow(static_mut_refs)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

mod compile;
mod expr;
mod hooks;
mod interp;
mod join;
mod mdd;
mod mem;
mod re;
mod solver;

use compile::*;
use interp::*;
use rustc_public::mir::mono::Instance;
use rustc_public::CrateDef;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::ops::ControlFlow;
use std::time::{Duration, Instant};

unsafe extern "C" {
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

struct Opts { args: String, fns: Vec<String>, out: String, workers: usize, budget: Duration, job: Option<Vec<u32>>, trace: bool, max_steps: u64, samples: usize }

fn main() {
    let mut o = Opts { args: String::new(), fns: vec![], out: String::new(), workers: 8, budget: Duration::from_secs(600), job: None, trace: false, max_steps: 20_000_000, samples: 3 };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--args" => o.args = it.next().unwrap(),
            "--fn" => o.fns.push(it.next().unwrap()),
            "--out" => o.out = it.next().unwrap(),
            "--workers" => o.workers = it.next().unwrap().parse().unwrap(),
            "--budget" => o.budget = Duration::from_secs(it.next().unwrap().parse().unwrap()),
            "--job" => o.job = Some(it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            "--trace" => o.trace = true,
            "--max-steps" => o.max_steps = it.next().unwrap().parse().unwrap(),
            "--samples" => o.samples = it.next().unwrap().parse().unwrap(),
            _ => panic!("unknown option {a}"),
        }
    }
    let raw = std::fs::read(&o.args).expect("args file");
    let mut args: Vec<String> = raw.split(|&b| b == 0).filter(|s| !s.is_empty()).map(|s| String::from_utf8(s.to_vec()).unwrap()).collect();
    args.retain(|a| !a.starts_with("--error-format") && !a.starts_with("--json") && !a.starts_with("--diagnostic"));
    // deep interpreter recursion is avoided, but rustc's layout/instance queries like stack
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let r = run!(&args, || { drive(&o); ControlFlow::<(), ()>::Break(()) });
        match r { Err(rustc_public::CompilerError::Interrupted(())) => 0, Ok(()) => 0, Err(e) => { eprintln!("compiler: {e:?}"); 3 } }
    }).unwrap();
    let c = th.join().unwrap_or(4);
    std::process::exit(c);
}

fn find_fn(name: &str) -> Option<Instance> {
    for it in rustc_public::all_local_items() {
        let n = it.name();
        if n == name || n == format!("harness::{name}") || n.ends_with(&format!("::{name}")) {
            if let Ok(i) = Instance::try_from(it) { return Some(i); }
        }
    }
    None
}

fn start_state(it: &Interp, f: u32) -> R<State> {
    let mut st = State::new();
    it.push_frame(&mut st, f, &[], RDest::None, None)?;
    Ok(st)
}

#[derive(Default)]
struct Res {
    paths: u64, infeasible: u64, steps: u64,
    panics: Vec<Violation>, unsup: BTreeMap<String, (u64, Vec<u32>, Vec<String>)>,
    marks: BTreeMap<String, u64>, samples: Vec<(Vec<u32>, Vec<String>)>,
    jobs: u64, skipped: Vec<Vec<u32>>, times: Vec<(f64, Vec<u32>, u64)>,
}

fn run_job(it: &mut Interp, f: u32, prefix: &[u32], res: &mut Res, nsamples: usize) -> bool {
    it.fresh();
    it.job_prefix = prefix.to_vec();
    let st = match start_state(it, f) { Ok(s) => s, Err(t) => { res.unsup.entry(format!("{t:?}")).or_insert((0, vec![], vec![])).0 += 1; return true } };
    it.push(st);
    let mut sampled: HashMap<String, usize> = HashMap::new();
    it.ends.clear();
    let v0 = it.violations.len();
    let mut closing = true;
    while let Some((end, trap)) = it.next() {
        if it.late() { it.work.clear(); return false; }
        if !matches!(trap, Trap::Infeasible) || !end.doms.is_empty() { it.ends.push((end.log.clone(), end.mdd, end.exact)); }
        if end.picks.iter().skip(prefix.len()).any(|p| matches!(p, Pick::Choice(_))) { closing = false; }
        match trap {
            Trap::Done => {
                res.paths += 1;
                for m in &end.marks { *res.marks.entry(m.clone()).or_insert(0) += 1; }
                let k = end.marks.join(";");
                let c = sampled.entry(k).or_insert(0);
                if *c < nsamples && res.samples.len() < 4000 {
                    *c += 1;
                    if let Some(i) = it.witness(&end) { res.samples.push((i, end.marks.clone())); } else { res.unsup.entry("completed path without a model".into()).or_insert((0, vec![], vec![])).0 += 1; }
                }
            }
            Trap::Infeasible => res.infeasible += 1,
            Trap::Panic(m) => {
                if let Some(i) = it.inputs(&end, &[]) { it.found(Violation { msg: format!("panic: {m}"), inputs: i, stack: end.stack(), marks: end.marks.clone() }); }
                res.paths += 1;
            }
            t => {
                let m = match t { Trap::Unsup(m) => m, t => format!("{t:?}") };
                let i = it.inputs(&end, &[]).unwrap_or_default();
                let stack = end.stack();
                let key = format!("{m} @ {}", stack.first().cloned().unwrap_or_default());
                let e = res.unsup.entry(key).or_insert((0, i, stack));
                e.0 += 1;
                res.paths += 1;
            }
        }
    }
    res.jobs += 1;
    if closing && it.violations.len() == v0 { close(it); }
    true
}

/// Nothing got lost: the paths that ended cover every input of the case, by the diagrams and by z3.
fn close(it: &mut Interp) {
    let ends = std::mem::take(&mut it.ends);
    let md = mdd::md();
    let mut all = Some(mdd::F);
    for e in &ends { all = all.and_then(|a| if e.2 { md.apply(1, a, e.1) } else { None }); }
    match all { Some(mdd::T) => it.closed[0] += 1, Some(_) => { it.closed[3] += 1; eprintln!("the paths do not cover all inputs (diagrams)"); } None => it.closed[2] += 1 }
    let mut vars: Vec<u32> = vec![];
    for e in &ends { for (t, _) in &e.0 { vars.extend(expr::info(*t).vars.iter()); } }
    vars.sort(); vars.dedup();
    let doms: Vec<(u32, usize)> = vars.iter().map(|&v| (v, expr::ar().vars[v as usize].dom.len())).collect();
    let paths: Vec<Vec<expr::E>> = ends.iter().map(|e| e.0.iter().map(|x| x.0).collect()).collect();
    match it.solver.closed(&paths, &doms, 1000) { solver::Ans::Unsat => it.closed[1] += 1, solver::Ans::Sat(_) => { it.closed[3] += 1; eprintln!("the paths do not cover all inputs (z3)"); } _ => {} }
}

/// run the harness' `init` concretely and freeze the heap it leaves behind
fn init(it: &mut Interp) -> Result<(), String> {
    let Some(f) = find_fn("init") else { return Err("no init function".into()) };
    let id = fn_id(f);
    let st = start_state(it, id).map_err(|t| format!("{t:?}"))?;
    let ms = it.max_steps;
    it.max_steps = 10_000_000_000;
    it.push(st);
    let (end, t) = it.next().unwrap();
    it.max_steps = ms;
    match t { Trap::Done => {} t => return Err(format!("init: {t:?}\n  {}", end.stack().join("\n  "))) }
    if !it.work.is_empty() { return Err("init forked".into()); }
    for (k, a) in end.over.iter() { cp().mem[(*k - CONST_BASE) as usize] = a.clone(); }
    for a in end.heap.into_iter() { it.base.push(a.unwrap_or_default()); }
    Ok(())
}

fn jobs_of(it: &mut Interp, f: u32) -> Result<Vec<Vec<u32>>, String> {
    let mut out = vec![];
    let mut todo = vec![vec![]];
    it.init_mode = true;
    while let Some(p) = todo.pop() {
        it.job_prefix = p.clone();
        it.split_seen = None;
        let st = start_state(it, f).map_err(|t| format!("{t:?}"))?;
        it.push(st);
        let ms = it.max_steps;
        // only the prologue up to the next split is executed here
        it.max_steps = 300_000;
        while let Some(_) = it.next() {
            if it.split_seen.is_some() { break; }
            if it.split_limit { break; }
        }
        it.max_steps = ms;
        it.work.clear();
        it.violations.clear();
        match it.split_seen { Some(n) => for i in (0..n).rev() { let mut q = p.clone(); q.push(i); todo.push(q); }, None => out.push(p) }
    }
    it.init_mode = false;
    it.split_seen = None;
    Ok(out)
}

fn drive(o: &Opts) {
    let t0 = Instant::now();
    let mut it = Interp::new();
    it.max_steps = o.max_steps;
    it.trace = o.trace;
    if let Err(e) = init(&mut it) { eprintln!("ERROR {e}"); std::fs::write(&o.out, json!({"error": e}).to_string()).unwrap(); return; }
    let init_steps = it.total_steps;
    for id in 0..cp().fns.len() { *interp::cp_calls(id as u32) = 0; }
    eprintln!("init: {} steps, {} objects, {:.1}s, fns {}", init_steps, it.base.len(), t0.elapsed().as_secs_f64(), cp().fns.len());
    it.total_steps = 0;
    let mut jobs: Vec<(usize, Vec<u32>)> = vec![];
    let mut ids = vec![];
    for (k, n) in o.fns.iter().enumerate() {
        let Some(i) = find_fn(n) else { eprintln!("no harness {n}"); std::fs::write(&o.out, json!({"error": format!("no harness {n}")}).to_string()).unwrap(); return };
        let id = fn_id(i);
        ids.push(id);
        match &o.job {
            Some(j) => jobs.push((k, j.clone())),
            None => match jobs_of(&mut it, id) { Ok(js) => for j in js { jobs.push((k, j)); }, Err(e) => { std::fs::write(&o.out, json!({"error": e}).to_string()).unwrap(); return } },
        }
    }
    eprintln!("{} jobs, {:.1}s", jobs.len(), t0.elapsed().as_secs_f64());
    let deadline = t0 + o.budget;
    it.deadline = Some(deadline);
    let nw = o.workers.min(jobs.len()).max(1);
    let ctr = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize) };
    interp::FOUND.store(unsafe { (ctr as *const _ as *mut u8).add(64) } as *mut std::sync::atomic::AtomicU64, std::sync::atomic::Ordering::Relaxed);
    let mut pids = vec![];
    for w in 0..nw {
        let inproc = nw == 1;
        let pid = if inproc { 0 } else { unsafe { fork() } };
        if pid == 0 {
            if !inproc { unsafe { prctl(1, 9, 0, 0, 0); } }
            let mut per: Vec<Res> = o.fns.iter().map(|_| Res::default()).collect();
            let mut viol: Vec<Vec<Violation>> = vec![vec![]; o.fns.len()];
            loop {
                let j = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if j >= jobs.len() { break; }
                let (k, p) = &jobs[j];
                if it.late() { per[*k].skipped.push(p.clone()); continue; }
                let jt = Instant::now();
                let p0 = per[*k].paths;
                if !run_job(&mut it, ids[*k], p, &mut per[*k], o.samples) { per[*k].skipped.push(p.clone()); }
                let np = per[*k].paths - p0;
                per[*k].times.push((jt.elapsed().as_secs_f64(), p.clone(), np));
                viol[*k].append(&mut it.violations);
                per[*k].steps += std::mem::take(&mut it.total_steps);
                if std::env::var("MIRSYM_VERBOSE").is_ok() { eprintln!("job {} {:?}: {} paths {:.1}s", o.fns[*k], p, np, jt.elapsed().as_secs_f64()); }
            }
            if it.prof { for f in cp().fns.iter() { if f.calls > 0 && f.path.contains("phonenumber") { eprintln!("CALLS {:>8} {}", f.calls, f.name); } } let mut c: Vec<_> = it.forkprof.iter().map(|(k, v)| (*v, k)).collect(); c.sort(); for (v, k) in c.iter().rev().take(25) { eprintln!("FORK {v:>8} {k}"); } let mut c: Vec<_> = it.covered.iter().map(|(k, v)| (*v, *k)).collect(); c.sort(); for (v, k) in c.iter().rev().take(40) { eprintln!("{v:>12} {}", cp().fns[*k as usize].name); } }
            let v = report(o, &it, per, viol);
            std::fs::write(format!("{}.w{w}", o.out), v.to_string()).unwrap();
            if !inproc { unsafe { _exit(0) } }
        }
        pids.push(pid);
    }
    let mut crashed = 0;
    for p in &pids { if *p != 0 { let mut s = 0; unsafe { waitpid(*p, &mut s, 0) }; if s != 0 { crashed += 1; } } }
    let mut ws = vec![];
    for w in 0..nw { let p = format!("{}.w{w}", o.out); if let Ok(b) = std::fs::read(&p) { ws.push(serde_json::from_slice::<Value>(&b).unwrap()); let _ = std::fs::remove_file(&p); } }
    let out = json!({"workers": ws, "crashed": crashed, "jobs": jobs.len(), "init_steps": init_steps, "wall_s": t0.elapsed().as_secs_f64(), "solver": solver::version(), "fns": o.fns});
    std::fs::write(&o.out, out.to_string()).unwrap();
}

fn report(o: &Opts, it: &Interp, per: Vec<Res>, viol: Vec<Vec<Violation>>) -> Value {
    let mut hs = vec![];
    for (k, r) in per.into_iter().enumerate() {
        let mut v: Vec<Violation> = viol[k].clone();
        v.extend(r.panics);
        hs.push(json!({
            "fn": o.fns[k], "paths": r.paths, "infeasible": r.infeasible, "steps": r.steps, "jobs": r.jobs, "skipped": r.skipped,
            "marks": r.marks,
            "samples": r.samples.iter().map(|(i, m)| json!([i, m])).collect::<Vec<_>>(),
            "unsup": r.unsup.iter().map(|(m, (n, i, s))| json!({"msg": m, "n": n, "inputs": i, "stack": s})).collect::<Vec<_>>(),
            "violations": v.iter().map(|v| json!({"msg": v.msg, "inputs": v.inputs, "stack": v.stack, "marks": v.marks})).collect::<Vec<_>>(),
            "times": r.times.iter().map(|(t, p, n)| json!([t, p, n])).collect::<Vec<_>>(),
        }));
    }
    let fns: Vec<String> = cp().fns.iter().filter(|f| f.calls > 0 && f.path.contains("phonenumber")).map(|f| f.path.clone()).collect();
    let s = &it.solver;
    json!({"harness": hs, "functions": fns, "functions_total": cp().fns.iter().filter(|f| f.calls > 0).count(),
        "queries": s.queries, "sat": s.sat, "unsat": s.unsat, "unknown": s.unknown, "solver_s": s.time.as_secs_f64(),
        "forks": it.forks, "merges": it.merges, "diagram": it.diagram, "reduced": it.reduced, "undecided": it.undecided, "crosschecked": it.crosschecked, "closed": it.closed, "crossfail": it.crossfail, "mdd_nodes": it.peak.max(mdd::md().size()), "mdd_overflow": mdd::md().overflow, "folded_checks": it.folded_checks, "solver_checks": it.solver_checks, "regex_native": it.res.native, "regex_symbolic": it.res.symbolic})
}

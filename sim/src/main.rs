//! Deterministic simulation of ncas. See /verif/DESIGN.md.
#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod gen;
mod ops;
mod plan;
mod props;
mod rng;
mod rt;
mod run;
mod rx;

use plan::Plan;
use props::{Prop, PROPS};
use run::{Report, Violation};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

fn prop(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {}", id);
        std::process::exit(2)
    })
}
/// One integer decides run number `i` of a check.
fn plan_of(p: &Prop, seed: u64, i: u64) -> Plan {
    (p.gen)(rt::mix(rt::mix(seed, 0x5eed), i)).tamed()
}
fn guarded(p: &Prop, plan: &Plan) -> Result<Report, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(plan)))
        .or_else(|e| {
            if e.is::<rt::SimStalled>() {
                // the machine did not get on with it: the run says nothing
                rt::count(rt::cnt_idx("stalled_runs"), 1);
                return Ok(Report::default());
            }
            Err("the simulator itself failed".to_string())
        })
}
fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

// ------------------------------------------------------------------ worker
/// args: prop seed first stride count deadline_s out [log]
fn worker(a: &[String]) -> i32 {
    let p = prop(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (seed, first, stride, count, deadline) = (n(1), n(2), n(3), n(4), n(5));
    let t0 = Instant::now();
    let mut log = a.get(7).map(|f| std::io::BufWriter::new(std::fs::File::create(f).expect("log")));
    let (mut runs, mut nontrivial) = (0u64, 0u64);
    let mut sigs: Vec<u64> = vec![];
    let mut viol: Option<(u64, Violation)> = None;
    let mut i = first;
    let mut cut = false;
    // who finds something leaves the run's number here: later runs need not be done
    let found = Path::new(&a[6]).with_file_name("found");
    let mut looked = Instant::now();
    let mut until = count;
    while i < until {
        if looked.elapsed().as_millis() > 200 {
            looked = Instant::now();
            if let Some(k) = std::fs::read_dir(found.parent().unwrap()).ok().into_iter().flatten().flatten().filter_map(|e| e.file_name().to_str()?.strip_prefix("found")?.parse::<u64>().ok()).min() {
                until = until.min(k);
                continue;
            }
        }
        if t0.elapsed().as_secs() >= deadline {
            cut = true;
            break;
        }
        let plan = plan_of(p, seed, i);
        let t1 = Instant::now();
        let before = rt::shared().cnt[0].load(Relaxed);
        let r = match guarded(p, &plan) {
            Ok(r) => r,
            Err(m) => {
                eprintln!("run {}: {}\n{}", i, m, plan.text());
                return 3;
            }
        };
        runs += 1;
        if std::env::var_os("NCAS_SIM_SLOW").is_some() && t1.elapsed().as_millis() > 2000 {
            eprintln!("slow run {}: {:?}\n{}", i, t1.elapsed(), plan.text());
        }
        if let Some(l) = &mut log {
            let steps = rt::shared().cnt[0].load(Relaxed) - before;
            let v = r.viol.as_ref().map(|v| format!("{}: {}", v.class, v.msg)).unwrap_or_default();
            writeln!(l, "{} {:016x} {} {} {}", i, r.sig, r.nontrivial, steps, v).unwrap();
        }
        if r.nontrivial {
            nontrivial += 1;
            sigs.push(r.sig);
        }
        if let Some(v) = r.viol {
            viol = Some((i, v));
            if log.is_none() {
                let _ = std::fs::write(format!("{}{}", found.display(), i), "");
                break;
            }
        }
        i += stride;
    }
    sigs.sort();
    sigs.dedup();
    let s = rt::shared();
    let mut o = vec![];
    let mut put = |x: u64| o.extend_from_slice(&x.to_le_bytes());
    put(runs);
    put(nontrivial);
    put(cut as u64);
    put(viol.as_ref().map(|v| v.0).unwrap_or(u64::MAX));
    put(rt::n_guards());
    for c in s.cnt.iter() {
        put(c.load(Relaxed));
    }
    put(sigs.len() as u64);
    for x in &sigs {
        put(*x);
    }
    for c in s.cov.iter() {
        o.push(c.load(Relaxed));
    }
    std::fs::write(&a[6], o).expect("out");
    0
}

// ------------------------------------------------------------------ minimiser
fn minimise(p: &Prop, plan: Plan, v: Violation, secs: u64) -> (Plan, Violation, u64) {
    let t0 = Instant::now();
    let (mut best, mut bv) = (plan, v);
    let mut tries = 0;
    loop {
        let mut better = false;
        let mut at = 0;
        loop {
            let c = best.shrinks();
            if at >= c.len() {
                break;
            }
            tries += 1;
            if t0.elapsed().as_secs() > secs {
                return (best, bv, tries);
            }
            // candidates must also survive being written down
            let cand = match Plan::parse(&c[at].text()) {
                Ok(q) => q,
                Err(_) => {
                    at += 1;
                    continue;
                }
            };
            match guarded(p, &cand) {
                Ok(Report { viol: Some(w), .. }) if w.class == bv.class => {
                    best = cand;
                    bv = w;
                    better = true;
                }
                _ => at += 1,
            }
        }
        if !better {
            return (best, bv, tries);
        }
    }
}

// ------------------------------------------------------------------ check
struct Total {
    runs: u64,
    nontrivial: u64,
    cut: bool,
    viol: Option<u64>,
    guards: u64,
    cnt: Vec<u64>,
    sigs: Vec<u64>,
    cov: Vec<u8>,
}
fn launch(p: &Prop, seed: u64, runs: u64, workers: u64, deadline: u64, dir: &Path, logs: bool) -> Result<Total, String> {
    let me = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut kids = vec![];
    for w in 0..workers {
        let out = dir.join(format!("w{}", w));
        let mut c = Command::new(&me);
        c.arg("worker").arg(p.id);
        for x in [seed, w, workers, runs, deadline] {
            c.arg(x.to_string());
        }
        c.arg(&out);
        if logs {
            c.arg(dir.join(format!("log{}", w)));
        }
        kids.push((c.stdin(Stdio::null()).spawn().map_err(|e| e.to_string())?, out));
    }
    let mut t = Total { runs: 0, nontrivial: 0, cut: false, viol: None, guards: 0, cnt: vec![0; rt::NCNT], sigs: vec![], cov: vec![0; 1 << 16] };
    let mut failed = vec![];
    for (mut k, out) in kids {
        let st = k.wait().map_err(|e| e.to_string())?;
        if !st.success() {
            failed.push(format!("worker ended with {}", st));
            continue;
        }
        let b = std::fs::read(&out).map_err(|e| e.to_string())?;
        let mut at = 0;
        let mut get = || {
            let v = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
            at += 8;
            v
        };
        t.runs += get();
        t.nontrivial += get();
        t.cut |= get() != 0;
        let v = get();
        if v != u64::MAX {
            t.viol = Some(t.viol.map_or(v, |o| o.min(v)));
        }
        t.guards = get();
        for c in t.cnt.iter_mut() {
            *c += get();
        }
        let n = get();
        for _ in 0..n {
            let x = get();
            t.sigs.push(x);
        }
        for (i, c) in b[at..].iter().enumerate() {
            t.cov[i] |= c;
        }
    }
    if !failed.is_empty() {
        return Err(failed.join("; "));
    }
    t.sigs.sort();
    t.sigs.dedup();
    Ok(t)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Scratch {
    let d = std::env::temp_dir().join(format!("ncas-sim-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch directory");
    Scratch(d)
}

const FAULTS: &[&str] = &[
    "alloc_failures", "callback_panics", "sink_panics", "reentrant_sinks", "short_writes", "sink_interrupts", "sink_transient_errors",
    "sink_permanent_errors", "sink_disk_full", "zero_writes", "fmt_sink_errors", "thread_restarts", "process_restarts",
    "duplicate_deliveries", "reordered_deliveries", "lost_deliveries", "interrupted_then_retried",
    "preemptions_inside_calls", "context_switches", "fault_not_reached", "clock_jumps",
];

fn check(id: &str, tier: &str, seed: u64) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let runs = env_u64("NCAS_SIM_RUNS", p.runs[thorough as usize]);
    let workers = env_u64("NCAS_SIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16));
    let deadline = env_u64("NCAS_SIM_SECS", if thorough { 3 * 3600 } else { 420 });
    println!("property {} tier {} VERIF_SEED {} runs {} workers {}", id, tier, seed, runs, workers);
    let dir = scratch();
    let t = match launch(p, seed, runs, workers, deadline, &dir.0, false) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("check failed to run: {}", e);
            return 3;
        }
    };
    let explored = t0.elapsed().as_secs_f64();
    let mut found = None;
    if let Some(i) = t.viol {
        let plan = plan_of(p, seed, i);
        let v = match guarded(p, &plan) {
            Ok(Report { viol: Some(v), .. }) => v,
            _ => {
                eprintln!("run {} of seed {} violated in a worker but not here: the simulator is not deterministic", i, seed);
                return 3;
            }
        };
        println!("run {} (seed {}): {}: {}", i, plan.seed, v.class, v.msg);
        let (best, bv, tries) = minimise(p, plan, v, 60);
        let rd = root().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let f = rd.join(format!("{}-{}-{}.plan", id, seed, i));
        let body = format!(
            "# {}: {}\n# found by VERIF_SEED={} run {}; minimised in {} tries; replay with bin/replay {}\n{}",
            bv.class, bv.msg.replace('\n', "\\n"), seed, i, tries, f.display(), best.text()
        );
        std::fs::write(&f, body).expect("replay file");
        // a fresh process must see the very same thing
        let me = std::env::current_exe().unwrap();
        let out = Command::new(me).arg("replay").arg(&f).output().expect("replay");
        let text = String::from_utf8_lossy(&out.stdout);
        let want = format!("{}: {}", bv.class, bv.msg);
        if out.status.code() != Some(1) || !text.contains(&want) {
            eprintln!("the replay of {} does not reproduce: {}\n{}", f.display(), want, text);
            return 3;
        }
        println!("minimised: {}", want);
        println!("{}", best.text());
        found = Some(f);
    }
    // evidence
    let c = |n: &str| t.cnt[rt::cnt_idx(n)];
    let wall = t0.elapsed().as_secs_f64();
    let mut faults = String::new();
    for f in FAULTS {
        faults += &format!("{}{}: {}", if faults.is_empty() { "" } else { ", " }, js(f), c(f));
    }
    let mut other = String::new();
    for n in rt::CNT_NAMES {
        if !FAULTS.contains(n) && *n != "steps" && c(n) > 0 {
            other += &format!("{}{}: {}", if other.is_empty() { "" } else { ", " }, js(n), c(n));
        }
    }
    let samples: Vec<String> = [0, runs / 3, 2 * runs / 3].iter().map(|i| js(&plan_of(p, seed, *i).text())).collect();
    let edges = t.cov.iter().filter(|x| **x != 0).count();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {},\n  \"nontrivial_runs\": {}, \"runs_planned\": {}, \"stopped_by_time_limit\": {},\n  \"seeds_per_hour\": {}, \"simulated_steps\": {}, \"simulated_time_s\": {:.3},\n  \"faults_injected\": {{{}}},\n  \"counts\": {{{}}},\n  \"library_blocks_reached\": {}, \"library_blocks\": {},\n  \"distinct_measure\": \"hash of the plan, of the context switches (from, to, block) and of the path of library blocks executed\",\n  \"real\": \"all of ncas (the unmodified crate built from /repo), std collections, formatting, threads and unwinding, num\",\n  \"simulated\": \"scheduler, allocator (addresses, reuse, failures), RandomState keys, clock, blocking system calls, sinks, callbacks, process and thread restarts\",\n  \"samples\": [{}]\n }},\n \"assumptions\": [\"context switches happen at basic blocks of ncas, allocations and blocking calls; weak-memory effects are not modelled\", \"a clean batch is evidence, not proof\"],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        js(id), js(tier), seed, t.runs, t.sigs.len(), js(p.rule), t.nontrivial, runs, t.cut,
        (t.runs as f64 / explored.max(0.001) * 3600.0) as u64, c("steps"), c("steps") as f64 / 1e6,
        faults, other, edges, t.guards, samples.join(", "), wall, found.is_some() as u32
    );
    let ed = root().join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", id)), ev).expect("evidence");
    println!(
        "{} runs, {} distinct non-trivial, {} steps, {} of {} library blocks, {:.1} s",
        t.runs, t.sigs.len(), c("steps"), edges, t.guards, wall
    );
    match found {
        Some(f) => {
            println!("VIOLATION property={} replay={}", id, f.display());
            1
        }
        None => 0,
    }
}

fn replay(f: &str) -> i32 {
    let t = match std::fs::read_to_string(f) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let plan = match Plan::parse(&t) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}: {}", f, e);
            return 2;
        }
    };
    let p = prop(&plan.prop);
    match guarded(p, &plan) {
        Ok(Report { viol: Some(v), .. }) => {
            println!("{}: {}", v.class, v.msg);
            println!("VIOLATION property={} replay={}", p.id, f);
            1
        }
        Ok(_) => {
            println!("no violation");
            0
        }
        Err(e) => {
            eprintln!("{}", e);
            3
        }
    }
}

/// The same seeds with several worker counts, each in fresh processes: event digests must agree.
fn determinism(id: &str, runs: u64, seed: u64) -> i32 {
    let p = prop(id);
    let mut first: Option<Vec<String>> = None;
    for workers in [1, 3, 8, 13] {
        let dir = scratch();
        if let Err(e) = launch(p, seed, runs, workers, 100_000, &dir.0, true) {
            eprintln!("{}", e);
            return 3;
        }
        let mut lines = vec![];
        for w in 0..workers {
            let mut s = String::new();
            std::fs::File::open(dir.0.join(format!("log{}", w))).unwrap().read_to_string(&mut s).unwrap();
            lines.extend(s.lines().map(|l| l.to_string()));
        }
        lines.sort_by_key(|l| l.split(' ').next().unwrap().parse::<u64>().unwrap());
        match &first {
            None => first = Some(lines),
            Some(f) => {
                if let Some((a, b)) = f.iter().zip(&lines).find(|(a, b)| a != b) {
                    println!("{}: NOT deterministic with {} workers:\n {}\n {}", id, workers, a, b);
                    return 1;
                }
            }
        }
    }
    println!("{}: {} runs identical with 1, 3, 8 and 13 workers", id, runs);
    0
}

fn main() {
    rt::init();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match arg(0).as_str() {
        "check" => {
            let tier = if a.len() > 2 { arg(2) } else { std::env::var("VERIF_TIER").unwrap_or("quick".into()) };
            check(&arg(1), &tier, env_u64("VERIF_SEED", 1))
        }
        "worker" => worker(&a[1..]),
        "replay" => replay(&arg(1)),
        "show" => {
            print!("{}", plan_of(prop(&arg(1)), env_u64("VERIF_SEED", 1), arg(2).parse().unwrap_or(0)).text());
            0
        }
        "determinism" => determinism(&arg(1), arg(2).parse().unwrap_or(200), env_u64("VERIF_SEED", 1)),
        _ => {
            eprintln!("usage: ncas-sim check PROP [tier] | replay FILE | show PROP RUN | determinism PROP RUNS");
            2
        }
    };
    std::process::exit(code);
}

//! What every property's runs have in common.
use crate::cnt;
use crate::ops::{exec, write_out};
use crate::plan::{Plan, Step};
use crate::rt::{self, call, in_fork, mix, rt, CallPlan, Called, Exit, CALM};
use crate::rx::{build, dump, Rx};
use ncas::base::expression::Expression;
use std::collections::BTreeMap;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// stays the same while a failure is being minimised
    pub class: String,
    pub msg: String,
}
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub viol: Option<Violation>,
    /// identifies what the run went through
    pub sig: u64,
    pub nontrivial: bool,
}
impl Report {
    pub fn bad(class: &str, msg: String) -> Report {
        Report { viol: Some(Violation { class: class.into(), msg }), sig: 0, nontrivial: true }
    }
}

pub const SEP: char = '\u{1e}';
pub fn pack(v: Vec<String>) -> Vec<u8> {
    v.join(&SEP.to_string()).into_bytes()
}
pub fn unpack(b: &[u8]) -> Vec<String> {
    if b.is_empty() {
        return vec![];
    }
    String::from_utf8_lossy(b).split(SEP).map(|s| s.to_string()).collect()
}
pub fn text_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, s.len() as u64)
}
pub fn exit_name(e: &Exit) -> String {
    match e {
        Exit::Ok => "ok".into(),
        Exit::Budget | Exit::Alarm => "no progress".into(),
        Exit::Deadlock => "deadlock".into(),
        Exit::Signal(11) => "stack overflow or invalid memory access".into(),
        Exit::Signal(6) => "abort".into(),
        Exit::Signal(s) => format!("killed by signal {}", s),
        Exit::Harness => "harness error".into(),
        Exit::Stalled => "stalled".into(),
        Exit::Code(c) => format!("exit code {}", c),
    }
}
/// A failure of the simulator itself must never look like a result.
pub fn check_harness(e: &Exit, out: &[u8]) {
    if *e == Exit::Stalled {
        std::panic::panic_any(rt::SimStalled);
    }
    if *e == Exit::Harness {
        panic!("simulator failure inside a run: {}", String::from_utf8_lossy(out));
    }
}
/// How many calls about variables never seen before the heap is watched over.
const STRANGERS: usize = 1600;
/// Step budget for anything run on its own: far beyond what bounded inputs need.
pub const REF_BUDGET: u64 = 2_000_000_000;

pub fn flav(p: &Plan, i: usize) -> u64 {
    if p.flav == 0 { 0 } else { mix(p.flav, i as u64) }
}
/// Builds expression `i` of the plan inside the simulated machine.
pub fn built(p: &Plan, i: usize) -> Result<Expression, String> {
    let rx = &p.exprs[i];
    let mut f = flav(p, i);
    if i < 62 && p.p("raw") >> i & 1 == 1 {
        return match call(&CALM, || crate::rx::build_raw(rx)) {
            Called::Ret(e) => Ok(e),
            Called::Panic(m) => Err(m),
        };
    }
    match call(&CALM, || build(rx, &mut f)) {
        Called::Ret(e) => Ok(e),
        Called::Panic(m) => Err(m),
    }
}
pub fn said(c: Called<crate::ops::Out>) -> String {
    match c {
        Called::Ret(o) => format!("returned {}", write_out(&o)),
        Called::Panic(m) => format!("panicked: {}", m),
    }
}

// ------------------------------------------------------------------ references
#[derive(Clone, Debug)]
pub struct Ref {
    /// what the operation says when it runs alone in a fresh process; None if it dies there
    pub outcome: Option<String>,
    pub steps: u64,
    pub allocs: u64,
}
pub struct Refs {
    m: BTreeMap<(String, usize, usize, u64), Ref>,
}
impl Refs {
    pub fn new() -> Refs {
        Refs { m: BTreeMap::new() }
    }
    pub fn get(&mut self, p: &Plan, s: &Step) -> Ref {
        let two = crate::ops::OPS.iter().any(|o| o.0 == s.op && o.1 == crate::ops::Kind::Two);
        let b = if two { s.b } else { s.a };
        let k = (s.op.clone(), s.a, b, s.n);
        if let Some(r) = self.m.get(&k) {
            return r.clone();
        }
        let (ex, out) = in_fork(|| {
            rt::set_keys(0xfeed);
            rt::set_layout(0);
            rt().budget = REF_BUDGET;
            let a = match built(p, s.a) {
                Ok(a) => a,
                Err(m) => return pack(vec!["unbuildable".into(), m]),
            };
            let eb;
            let br = if b == s.a {
                &a
            } else {
                eb = match built(p, b) {
                    Ok(b) => b,
                    Err(m) => return pack(vec!["unbuildable".into(), m]),
                };
                &eb
            };
            let c = call(&CALM, || exec(&s.op, &a, br, s.n, None));
            let (st, al) = (rt::steps_of_call(), rt::allocs_of_call());
            let o = said(c);
            pack(vec![o, st.to_string(), al.to_string()])
        });
        check_harness(&ex, &out);
        let v = unpack(&out);
        let r = if ex != Exit::Ok || v.len() < 3 {
            Ref { outcome: None, steps: 0, allocs: 0 }
        } else {
            Ref {
                outcome: Some(v[0].clone()),
                steps: v[1].parse().unwrap(),
                allocs: v[2].parse().unwrap(),
            }
        };
        self.m.insert(k, r.clone());
        r
    }
}
pub fn at_permille(pm: u32, total: u64) -> u64 {
    (pm as u128 * total as u128 / 1000) as u64
}
/// The call plan a step has, given what it costs alone.
pub fn step_faults(s: &Step, r: &Ref) -> (Vec<(u64, u32)>, Option<u64>) {
    let mut pre: Vec<(u64, u32)> = s.pre.iter().map(|(pm, c)| (1 + at_permille(*pm, r.steps), *c)).collect();
    pre.sort();
    let fail = match s.alloc_fail {
        Some(pm) if r.allocs > 0 => Some(at_permille(pm.min(999), r.allocs)),
        _ => None,
    };
    (pre, fail)
}

// ------------------------------------------------------------------ shared-expression runs
/// Runs the plan's clients as threads over shared expressions (C04, C05).
/// Every completed call must say what it says alone; shared expressions must not change.
pub fn thread_run(p: &Plan) -> Report {
    let mut refs = Refs::new();
    // operations that die on their own are another property's business
    let mut progs: Vec<Vec<(Step, Ref)>> = vec![];
    let mut total = 0u64;
    for c in &p.clients {
        let mut v = vec![];
        for s in c {
            let r = refs.get(p, s);
            if r.outcome.is_some() {
                total += r.steps;
                v.push((s.clone(), r));
            }
        }
        progs.push(v);
    }
    let inside = rt::shared().cnt[rt::cnt_idx("preemptions_inside_calls")].load(std::sync::atomic::Ordering::Relaxed);
    let (ex, out) = in_fork(|| {
        rt::set_layout(p.addr);
        rt::set_clock(p.clock);
        rt::set_keys(mix(p.keys, 0));
        rt().budget = u64::MAX;
        let mut exprs: Vec<Option<Expression>> = vec![];
        for i in 0..p.exprs.len() {
            exprs.push(built(p, i).ok());
        }
        // looked at on a twin: the clients get expressions that nobody has looked into yet
        let before: Vec<Option<String>> = (0..p.exprs.len()).map(|i| built(p, i).ok().map(|e| dump(&e))).collect();
        let viol: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
        let stats = Mutex::new((0u64, 0u64)); // faults fired, calls completed
        rt().step = 0;
        rt().budget = 50 * total + 300_000_000;
        let lives: Vec<usize> =
            progs.iter().map(|c| 1 + c.iter().skip(1).filter(|(s, _)| s.restart != 0).count()).collect();
        {
            let exprs = &exprs;
            let viol = &viol;
            let stats = &stats;
            rt::run_clients(&lives, p.sched, p.keys, &|c, life| {
                // the life'th piece of the program between restarts
                let mut piece = 0;
                for (i, (s, r)) in progs[c].iter().enumerate() {
                    if i > 0 && s.restart != 0 {
                        piece += 1;
                    }
                    if piece != life {
                        continue;
                    }
                    rt::shared().at_client.store(c as u32, std::sync::atomic::Ordering::Relaxed);
                    rt::shared().at_step.store(i as u32, std::sync::atomic::Ordering::Relaxed);
                    let (a, b) = match (&exprs[s.a], &exprs[s.b.min(exprs.len() - 1)]) {
                        (Some(a), Some(b)) => (a, b),
                        (Some(a), None) => (a, a),
                        _ => continue,
                    };
                    let (pre, fail) = step_faults(s, r);
                    let res = call(&CallPlan { pre: &pre, fail_at: fail }, || exec(&s.op, a, b, s.n, s.cb_fail));
                    let fired = rt::alloc_fault_fired();
                    let interrupted = fired || s.cb_fail.is_some();
                    let got = match &res {
                        Called::Panic(m) => format!("panicked: {}", m),
                        Called::Ret(_) => String::new(),
                    };
                    let want = r.outcome.as_ref().unwrap();
                    let got = if got.is_empty() { said(res) } else { got };
                    let ok = got == *want || (interrupted && got.starts_with("panicked:"));
                    if s.alloc_fail.is_some() && !fired {
                        cnt!("fault_not_reached");
                    }
                    let mut st = stats.lock().unwrap();
                    if interrupted && got != *want {
                        st.0 += 1;
                    } else {
                        st.1 += 1;
                    }
                    if !ok {
                        let class = if interrupted {
                            "wrong result from an interrupted call"
                        } else if got.starts_with("panicked:") {
                            "call panicked"
                        } else {
                            "call returned something else"
                        };
                        viol.lock().unwrap().push((
                            class.into(),
                            format!(
                                "client {} step {} ({} of {} and {}): {}; alone in a fresh process it {}",
                                c, i, s.op, p.exprs[s.a], p.exprs[s.b.min(p.exprs.len() - 1)], got, want
                            ),
                        ));
                    }
                }
            });
        }
        let sig = rt().sig;
        let mut v = viol.into_inner().unwrap();
        for (i, e) in exprs.iter().enumerate() {
            let now = e.as_ref().map(dump);
            if now != before[i] {
                v.push((
                    "shared expression changed".into(),
                    format!("expression {} was {} and is {}", i, before[i].clone().unwrap_or_default(), now.unwrap_or_default()),
                ));
            }
        }
        // what is left behind: repeat one call, interrupted as planned, and watch the heap
        if v.is_empty() && p.p("probe") > 0 {
            let all: Vec<&(Step, Ref)> = progs.iter().flatten().collect();
            if !all.is_empty() {
                let (s, r) = all[(p.p("probe") as usize - 1) % all.len()];
                if let (Some(a), Some(b)) = (&exprs[s.a], &exprs[s.b.min(exprs.len() - 1)]) {
                    let (_, fail) = step_faults(s, r);
                    rt().budget = u64::MAX;
                    let mut lives = vec![];
                    for _ in 0..5 {
                        let res = call(&CallPlan { pre: &[], fail_at: fail }, || exec(&s.op, a, b, s.n, s.cb_fail));
                        drop(res);
                        lives.push((rt().live, rt().live_n));
                    }
                    let d: Vec<i64> = lives.windows(2).map(|w| w[1].0 - w[0].0).collect();
                    let dn: Vec<i64> = lives.windows(2).map(|w| w[1].1 - w[0].1).collect();
                    if d[1..].iter().all(|x| *x > 0) && dn[1..].iter().all(|x| *x > 0) {
                        v.push((
                            "call keeps memory".into(),
                            format!("every {}{} of {} keeps {} bytes in {} blocks", if fail.is_some() || s.cb_fail.is_some() { "interrupted " } else { "" }, s.op, p.exprs[s.a], d[3], dn[3]),
                        ));
                    }
                    // ... and the same about ever new variables, far beyond any reasonable cache
                    if v.is_empty() && p.p("probe") > 6 && r.steps < 60_000 {
                        let bi = s.b.min(exprs.len() - 1);
                        let mut lives = vec![];
                        for k in 0..STRANGERS {
                            let f = |n: &str| format!("{}_{}", n, k);
                            let (x, y) = (p.exprs[s.a].renamed(&f), p.exprs[bi].renamed(&f));
                            let (x, y) = (call(&CALM, || build(&x, &mut 0)), call(&CALM, || build(&y, &mut 0)));
                            if let (Called::Ret(x), Called::Ret(y)) = (x, y) {
                                let fail = if k % 2 == 0 { fail } else { None };
                                let cb = if k % 2 == 0 { s.cb_fail } else { None };
                                let res = call(&CallPlan { pre: &[], fail_at: fail }, || exec(&s.op, &x, &y, s.n, cb));
                                drop(res);
                                drop((x, y));
                            }
                            lives.push(rt().live_n);
                        }
                        let (half, end) = (lives[STRANGERS / 2], lives[STRANGERS - 1]);
                        let grew = lives[STRANGERS / 2..].windows(2).filter(|w| w[1] > w[0]).count();
                        cnt!("stranger_probes");
                        if end - half > STRANGERS as i64 / 8 && grew > STRANGERS / 8 {
                            v.push((
                                "call keeps memory".into(),
                                format!("{} of ever new expressions like {} keeps ever more memory: {} blocks more after {} further calls", s.op, p.exprs[s.a], end - half, STRANGERS / 2),
                            ));
                        }
                    }
                }
            }
        }
        let st = stats.into_inner().unwrap();
        let mut o = vec![sig.to_string(), st.0.to_string(), st.1.to_string()];
        if let Some((c, m)) = v.into_iter().next() {
            o.push(c);
            o.push(m);
        }
        pack(o)
    });
    check_harness(&ex, &out);
    if ex != Exit::Ok {
        let c = rt::shared().at_client.load(std::sync::atomic::Ordering::Relaxed) as usize;
        let i = rt::shared().at_step.load(std::sync::atomic::Ordering::Relaxed) as usize;
        let op = progs.get(c).and_then(|v| v.get(i)).map(|(s, _)| s.op.clone()).unwrap_or_default();
        return Report::bad(
            &exit_name(&ex),
            format!("the process ended with {} while client {} was in step {} ({}); every call ends on its own", exit_name(&ex), c, i, op),
        );
    }
    let v = unpack(&out);
    let sig = mix(v[0].parse().unwrap(), text_hash(&p.text()));
    if v.len() >= 5 {
        return Report::bad(&v[3], v[4].clone());
    }
    let inside = rt::shared().cnt[rt::cnt_idx("preemptions_inside_calls")].load(std::sync::atomic::Ordering::Relaxed) - inside;
    let nontrivial = v[2] != "0" && if p.prop == "C05" { v[1] != "0" } else { inside > 0 };
    Report { viol: None, sig, nontrivial }
}

/// An expression evaluable somewhere in the domain the properties speak about?
pub fn vars_of(xs: &[Rx]) -> Vec<String> {
    let mut v = vec![];
    for x in xs {
        for n in x.vars() {
            if !v.contains(&n) {
                v.push(n);
            }
        }
    }
    v.sort();
    v
}

// ------------------------------------------------------------------ histories
/// Programs for the threads of one process: the jobs `main` (simplify, unless `job` says
/// otherwise) among related work that may be interrupted or preempted. Fault positions
/// are absolute here: allocation index, step index.
pub fn history(r: &mut crate::rng::R, g: &mut crate::gen::G, p: &mut Plan, main: usize, poly: bool) {
    let long = r.pct(5);
    let extra = if long { 20 + r.below(100) } else { r.below(4) };
    for _ in 0..extra {
        let x = if long {
            match r.below(3) {
                0 => g.twist(&p.exprs[r.below(p.exprs.len())].clone()),
                1 => g.small_expr(poly),
                _ => {
                    let n = r.below(extra) as i64;
                    crate::rx::add(crate::rx::mul(crate::rx::int(n), g.var()), g.small_expr(poly))
                }
            }
        } else {
            g.twist(&p.exprs[r.below(main)].clone())
        };
        let ok = crate::rx::terms(&x) <= 60.0 && crate::gen::tame(&x) && (!poly || crate::rx::poly(&crate::rx::t_of_rx(&x)).is_some());
        p.exprs.push(if ok { x } else { g.var() });
    }
    let clients = if r.pct(60) { 1 } else { 2 + r.below(2) };
    let n = p.exprs.len();
    for c in 0..clients {
        let mut prog: Vec<Step> = vec![];
        let len = if long { n.min(150) } else { 1 + r.below(4) };
        for k in 0..len {
            let a = if long && c == 0 { n - 1 - k } else { r.below(n) };
            prog.push(Step { op: "simplify".into(), a, b: a, ..Default::default() });
        }
        for a in 0..main {
            if c == 0 || r.pct(50) {
                let at = if long { prog.len() } else { r.below(prog.len() + 1) };
                prog.insert(at, Step { op: "simplify".into(), a, b: a, ..Default::default() });
            }
        }
        if r.pct(60) {
            for _ in 0..1 + r.below(2) {
                let k = r.below(prog.len());
                let mut s = prog[k].clone();
                let scale = 1 << r.below(13);
                s.alloc_fail = Some(r.below(scale + 1) as u32);
                prog.insert(k, s);
            }
        }
        for (i, s) in prog.iter_mut().enumerate() {
            if i > 0 && !long && r.pct(8) {
                s.restart = 1;
            }
            if clients > 1 {
                for _ in 0..r.below(3) {
                    let scale = 1 << r.below(16);
                    s.pre.push((1 + r.below(scale) as u32, r.below(4) as u32));
                }
                s.pre.sort();
            }
        }
        p.clients.push(prog);
    }
}
/// Runs the plan's clients as threads of this process and hands over every call that was
/// not cut short. Without clients, each of the first `main` expressions is simplified once.
pub fn run_history(p: &Plan, main: usize, exprs: &[Option<Expression>], keys: u64, done: &(dyn Fn(&Step, Called<crate::ops::Out>) + Sync)) {
    let one = |s: &Step, pre: &[(u64, u32)], fail: Option<u64>| {
        let (a, b) = match (&exprs[s.a], &exprs[s.b]) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let res = call(&CallPlan { pre, fail_at: fail }, || exec(&s.op, a, b, s.n, None));
        if fail.is_some() && !rt::alloc_fault_fired() {
            cnt!("fault_not_reached");
        }
        if !rt::alloc_fault_fired() {
            done(s, res);
        }
    };
    if p.clients.is_empty() {
        for a in 0..main {
            one(&Step { op: "simplify".into(), a, b: a, ..Default::default() }, &[], None);
        }
        return;
    }
    let lives: Vec<usize> = p.clients.iter().map(|c| 1 + c.iter().skip(1).filter(|s| s.restart != 0).count()).collect();
    rt::run_clients(&lives, p.sched, keys, &|c, life| {
        let mut piece = 0;
        for (i, s) in p.clients[c].iter().enumerate() {
            if i > 0 && s.restart != 0 {
                piece += 1;
            }
            if piece == life {
                let pre: Vec<(u64, u32)> = s.pre.iter().map(|(a, b)| (*a as u64, *b)).collect();
                one(s, &pre, s.alloc_fail.map(|k| k as u64));
            }
        }
    });
}

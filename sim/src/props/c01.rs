//! C01: simplification is reproducible. Several nodes (processes with their own hash
//! seeds, memory layout and clock) are sent the same simplification jobs among unrelated
//! ones, with duplication, reordering, interruption and restarts; every answer must be
//! the same to the last bit.
use crate::cnt;
use crate::gen::G;
use crate::ops::exec;
use crate::plan::{pick_op, Plan, Step};
use crate::rng::R;
use crate::rt::{self, call, in_fork, mix, rt, CallPlan, Called, Exit};
use crate::run::*;
use crate::rx::{dump, Rx};
use std::sync::Mutex;

pub const RULE: &str = "one case = one seeded simulation: the same simplify jobs delivered to 2-4 simulated nodes that differ in hash seeds, memory layout, clock, job order, duplicates, unrelated jobs, interrupted jobs and restarts; non-trivial if at least two nodes answered a job whose expression is a sum or product, so that a hash map was built; distinct by plan and by the instrumented path taken";

pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC01));
    let mut p = Plan { prop: "C01".into(), seed, keys: r.u(), addr: r.u(), clock: r.u(), sched: r.u(), flav: r.u(), ..Default::default() };
    let wild = r.pct(60);
    let mut g = G::new(r.u(), wild);
    let n = 1 + r.below(3);
    for i in 0..n {
        let x = match r.below(10) {
            0..=3 => g.real_merge(),
            4 => {
                let (a, b) = (g.real_merge(), g.expr_cost(4.0));
                if r.pct(50) { crate::rx::add(a, b) } else { crate::rx::mul(a, b) }
            }
            5 => g.poly(32.0),
            _ => g.expr_cost(24.0),
        };
        if crate::gen::affordable(&x, 80.0) {
            p.exprs.push(x);
        } else {
            p.exprs.push(g.var());
        }
        if r.pct(6) {
            let v = p.p("raw") | 1 << i;
            p.set("raw", v);
        }
    }
    let nodes = 2 + r.below(3);
    let noisy = r.pct(50);
    let faulty = r.pct(45);
    for node in 0..nodes {
        let mut prog = vec![];
        for a in 0..n {
            prog.push(Step { op: "simplify".into(), a, b: a, ..Default::default() });
        }
        if node > 0 {
            for i in (1..prog.len()).rev() {
                let j = r.below(i + 1);
                if i != j {
                    cnt!("reordered_deliveries");
                }
                prog.swap(i, j);
            }
            if r.pct(30) {
                let k = r.below(prog.len());
                let s = prog[k].clone();
                cnt!("duplicate_deliveries");
                prog.insert(r.below(prog.len() + 1), s);
            }
            if prog.len() > 1 && r.pct(15) {
                cnt!("lost_deliveries");
                let k = r.below(prog.len());
                prog.remove(k);
            }
            if noisy {
                for _ in 0..r.below(5) {
                    let s = Step {
                        op: pick_op(&mut r, &|o| o != "debug"),
                        a: r.below(n),
                        b: r.below(n),
                        n: r.below(32) as u64,
                        ..Default::default()
                    };
                    prog.insert(r.below(prog.len() + 1), s);
                }
            }
            if faulty {
                for _ in 0..1 + r.below(2) {
                    let s = Step {
                        op: pick_op(&mut r, &|o| matches!(o, "simplify" | "expand" | "equal" | "rule_addend" | "rule_factor")),
                        a: r.below(n),
                        b: r.below(n),
                        n: r.below(32) as u64,
                        alloc_fail: Some(r.below(1000) as u32),
                        ..Default::default()
                    };
                    prog.insert(r.below(prog.len()), s);
                }
                for s in prog.iter_mut().skip(1) {
                    if r.pct(15) {
                        s.restart = 1 + r.below(2) as u8;
                    }
                }
            }
        }
        p.clients.push(prog);
    }
    // nearly the same expressions come first on some nodes, sometimes very many of them
    let extra = if r.pct(3) { 30 + r.below(100) } else if r.pct(25) { 1 + r.below(3) } else { 0 };
    for k in 0..extra {
        let x = g.twist(&p.exprs[r.below(p.exprs.len())].clone());
        p.exprs.push(if crate::gen::affordable(&x, 80.0) && crate::gen::tame(&x) { x } else { g.var() });
        for node in 1..nodes {
            if r.pct(80) {
                let s = Step { op: "simplify".into(), a: n + k, b: n + k, ..Default::default() };
                let most = if extra > 3 { 1 } else { p.clients[node].len() + 1 };
                p.clients[node].insert(r.below(most), s);
            }
        }
    }
    p
}

pub fn run(p: &Plan) -> Report {
    let mut refs = Refs::new();
    let mut first: Vec<Option<(String, String)>> = vec![None; p.exprs.len()];
    let mut sig = text_hash(&p.text());
    let mut answers = 0;
    for (node, prog) in p.clients.iter().enumerate() {
        // split into processes
        let mut procs: Vec<Vec<(usize, Step)>> = vec![vec![]];
        for (i, s) in prog.iter().enumerate() {
            if s.restart == 2 && i > 0 {
                procs.push(vec![]);
            }
            procs.last_mut().unwrap().push((i, s.clone()));
        }
        for (pi, steps) in procs.iter().enumerate() {
            if pi > 0 {
                cnt!("process_restarts");
            }
            let with_refs: Vec<(usize, Step, Ref)> =
                steps.iter().map(|(i, s)| (*i, s.clone(), refs.get(p, s))).filter(|(_, _, r)| r.outcome.is_some()).collect();
            let total: u64 = with_refs.iter().map(|x| x.2.steps).sum();
            let id = mix(node as u64, pi as u64);
            let (ex, out) = in_fork(|| {
                rt::set_layout(if node == 0 { 0 } else { mix(p.addr, id) });
                rt::set_clock(if p.clock == 0 { 0 } else { mix(p.clock, id) });
                rt::set_keys(mix(p.keys, id));
                let exprs: Vec<_> = (0..p.exprs.len()).map(|i| built(p, i).ok()).collect();
                rt().step = 0;
                rt().budget = 50 * total + 50_000_000;
                let lives = 1 + with_refs.iter().skip(1).filter(|(_, s, _)| s.restart == 1).count();
                let answers: Mutex<Vec<String>> = Mutex::new(vec![]);
                rt::run_clients(&[lives], p.sched, mix(p.keys, id), &|_, life| {
                    let mut piece = 0;
                    for (k, (i, s, r)) in with_refs.iter().enumerate() {
                        if k > 0 && s.restart == 1 {
                            piece += 1;
                        }
                        if piece != life {
                            continue;
                        }
                        let (a, b) = match (&exprs[s.a], &exprs[s.b]) {
                            (Some(a), Some(b)) => (a, b),
                            (Some(a), None) => (a, a),
                            _ => continue,
                        };
                        let (_, fail) = step_faults(s, r);
                        let res = call(&CallPlan { pre: &[], fail_at: fail }, || exec(&s.op, a, b, s.n, s.cb_fail));
                        if rt::alloc_fault_fired() {
                            continue;
                        }
                        if s.op != "simplify" || s.cb_fail.is_some() {
                            continue;
                        }
                        let (said, text) = match &res {
                            Called::Ret(crate::ops::Out::E(e)) => (dump(e), format!("{}", e)),
                            Called::Panic(m) => (format!("panicked: {}", m), String::new()),
                            _ => unreachable!(),
                        };
                        let mut v = answers.lock().unwrap();
                        v.push(i.to_string());
                        v.push(said);
                        v.push(text);
                    }
                });
                let mut v = answers.into_inner().unwrap();
                v.insert(0, rt().path.to_string());
                pack(v)
            });
            check_harness(&ex, &out);
            if ex != Exit::Ok {
                return Report::bad(
                    &exit_name(&ex),
                    format!("node {} ended with {} on jobs that succeed alone in a fresh process", node, exit_name(&ex)),
                );
            }
            let v = unpack(&out);
            sig = mix(sig, v[0].parse().unwrap_or(0));
            for c in v[1..].chunks(3) {
                let i: usize = c[0].parse().unwrap();
                let s = &prog[i];
                if let Some(r) = with_refs.iter().find(|x| x.0 == i).and_then(|x| x.2.outcome.clone()) {
                    let mine = if c[1].starts_with("panicked") { c[1].clone() } else { format!("returned {}", c[1]) };
                    if r != mine {
                        return differs(p, s, node, &r, &mine);
                    }
                }
                match &first[s.a] {
                    None => first[s.a] = Some((c[1].clone(), c[2].clone())),
                    Some((d, t)) => {
                        if *d != c[1] {
                            return differs(p, s, node, d, &c[1]);
                        }
                        if *t != c[2] {
                            return differs(p, s, node, t, &c[2]);
                        }
                    }
                }
                if node > 0 && !matches!(p.exprs[s.a], Rx::Int(_) | Rx::Var(_) | Rx::Real(_)) {
                    answers += 1;
                }
            }
        }
    }
    Report { viol: None, sig, nontrivial: answers > 0 }
}
fn differs(p: &Plan, s: &Step, node: usize, a: &str, b: &str) -> Report {
    Report::bad(
        "different result",
        format!("simplify of {} gives {} in one process and {} on node {}", p.exprs[s.a], a, b, node),
    )
}

//! C07: workers accumulate into shared sums and products. Reads and writes of the shared
//! accumulator are versioned; a worker that was overtaken or interrupted retries.
use crate::cnt;
use crate::gen::G;
use crate::plan::{Plan, Step};
use crate::rng::R;
use crate::rt::{self, call, in_fork, mix, rt, CallPlan, Called, Exit};
use crate::run::*;
use crate::rx::*;
use ncas::base::expression::Expression;
use std::sync::Mutex;

pub const RULE: &str = "one case = one seeded simulation: 1-4 worker threads contribute terms or factors to a shared accumulator, directly or through partial accumulators, under preemption inside the operators, with contributions overtaken, interrupted by failing allocations and retried, duplicated messages discarded by id, and workers restarted; the final accumulator is compared with the total of the contributions and, for exact contributions, with the accumulator of another arrival order; non-trivial if at least 2 contributions were made and the comparison was conclusive; distinct by plan and context switches";

pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC07));
    let mut p = Plan { prop: "C07".into(), seed, keys: r.u(), addr: r.u(), clock: r.u(), sched: r.u(), flav: r.u(), ..Default::default() };
    let mut g = G::new(r.u(), false);
    let product = r.pct(45);
    p.set("product", product as i64);
    p.set("assign", r.below(1 << 30) as i64);
    let inverse = r.pct(50); // also subtract / divide
    let many = r.pct(15);
    // hundreds of contributions, few of them different
    let long = r.pct(2);
    let n = if long { 40 + r.below(260) } else if many { 8 + r.below(28) } else { 2 + r.below(7) };
    let plain = r.pct(40);
    let few: Vec<Rx> = (0..1 + r.below(3)).map(|_| if r.pct(70) { g.var() } else { mul(g.var(), g.var()) }).collect();
    for _ in 0..n {
        if long {
            p.exprs.push(if r.pct(97) { few[r.below(few.len())].clone() } else { g.small() });
            continue;
        }
        if many && r.pct(85) {
            let v = Rx::Var(format!("v{}", r.below(n)));
            p.exprs.push(match r.below(6) {
                0 => mul(g.small(), v),
                1 => g.small(),
                2 => pow(v, int(r.range(2, 4))),
                _ => v,
            });
            continue;
        }
        if r.pct(3) {
            p.exprs.push(g.wide(true));
            continue;
        }
        let x = match r.below(10) {
            0 | 1 => g.small(),
            2 if !plain => g.real(),
            3 => Rx::Int(g.bigint()),
            4 => div(int(r.range(1, 9)), int(r.range(2, 9))),
            5 => g.var(),
            6 if !plain => mul(g.real(), g.var()),
            7 if plain => g.poly(6.0),
            _ => {
                let d = 1 + r.below(2);
                let x = if plain { g.poly_d(d) } else { g.general(d) };
                if x.size() <= 14 && crate::gen::tame(&x) { x } else { g.var() }
            }
        };
        p.exprs.push(x);
    }
    let workers = 1 + r.below(4);
    p.clients = vec![vec![]; workers];
    let partial = r.pct(40);
    let faulty = r.pct(50);
    for i in 0..n {
        let w = r.below(workers);
        let mut s = Step { op: "give".into(), a: i, b: i, n: r.below(4) as u64, ..Default::default() };
        if inverse && r.pct(45) {
            s.op = "take".into();
        }
        if partial && r.pct(60) {
            s.n |= 8; // into the worker's own partial accumulator
        }
        if faulty && r.pct(if long { 4 } else { 40 }) {
            s.alloc_fail = Some(r.below(1000) as u32);
        }
        let k = if long { r.pct(10) as usize } else { r.below(3) };
        s.pre = super::c04::preempts(&mut r, k);
        if r.pct(8) {
            s.restart = 1;
        }
        p.clients[w].push(s.clone());
        if r.pct(12) {
            // delivered twice
            let w = r.below(workers);
            s.n |= 16;
            p.clients[w].push(s);
        }
    }
    for c in p.clients.iter_mut() {
        for i in (1..c.len()).rev() {
            let j = r.below(i + 1);
            c.swap(i, j);
        }
        if partial {
            c.push(Step { op: "merge".into(), n: r.below(4) as u64, ..Default::default() });
        }
    }
    p
}

fn combine(product: bool, inv: bool, n: u64, acc: &Expression, x: &Expression) -> Expression {
    match (product, inv, n & 3) {
        (false, false, 0) => acc + x,
        (false, false, 1) => acc.clone() + x,
        (false, false, 2) => acc + x.clone(),
        (false, false, _) => acc.clone() + x.clone(),
        (false, true, 0) => acc - x,
        (false, true, 1) => acc.clone() - x,
        (false, true, 2) => acc - x.clone(),
        (false, true, _) => acc.clone() - x.clone(),
        (true, false, 0) => acc * x,
        (true, false, 1) => acc.clone() * x,
        (true, false, 2) => acc * x.clone(),
        (true, false, _) => acc.clone() * x.clone(),
        (true, true, 0) => acc / x,
        (true, true, 1) => acc.clone() / x,
        (true, true, 2) => acc / x.clone(),
        (true, true, _) => acc.clone() / x.clone(),
    }
}

pub fn run(p: &Plan) -> Report {
    let product = p.p("product") != 0;
    let start = int(product as i64);
    // the total, from the recipes alone; duplicated messages count once
    let mut done: Vec<usize> = vec![];
    let mut contributions: Vec<(usize, bool)> = vec![];
    for s in p.clients.iter().flatten() {
        if (s.op == "give" || s.op == "take") && !done.contains(&s.a) {
            done.push(s.a);
            contributions.push((s.a, s.op == "take"));
        }
    }
    // one contribution is either given or taken (a minimised plan may say both)
    let says = |s: &&Step| (s.op == "give" || s.op == "take") && contributions.contains(&(s.a, s.op != "take"));
    if p.clients.iter().flatten().any(|s| says(&s)) {
        return Report::default();
    }
    let mut parts = vec![start.clone()];
    for (i, inv) in &contributions {
        let x = p.exprs[*i].clone();
        parts.push(match (product, inv) {
            (_, false) => x,
            (false, true) => neg(x),
            (true, true) => pow(x, int(-1)),
        });
    }
    let total = if product { Rx::Prod(parts) } else { Rx::Sum(parts) };
    let t0 = t_of_rx(&total);
    let vars = total.vars();
    let envs: Vec<Assign> = (0..3).map(|i| assignment(&vars, mix(p.p("assign") as u64, i))).collect();
    let vals: Vec<_> = envs.iter().map(|e| eval(&t0, e, true)).collect();
    if !vals.iter().any(|v| v.is_ok()) {
        cnt!("inconclusive_evaluations");
        return Report::default();
    }
    let real = p.exprs.iter().any(|x| x.any(&|y| matches!(y, Rx::Real(_))));
    let identical = !real && !contributions.iter().any(|c| c.1);
    let go = |sched: u64, addr: u64, calm: bool| -> Result<Vec<String>, Report> {
        let (ex, out) = in_fork(|| {
            rt::set_layout(addr);
            rt::set_clock(p.clock);
            rt::set_keys(mix(p.keys, 0));
            let exprs: Vec<_> = (0..p.exprs.len()).map(|i| built(p, i).ok()).collect();
            if exprs.iter().any(|e| e.is_none()) {
                return pack(vec!["unbuildable".into()]);
            }
            let zero = match call(&rt::CALM, || build(&start, &mut 0)) {
                Called::Ret(e) => e,
                Called::Panic(m) => return pack(vec!["bad".into(), format!("panicked: {}", m)]),
            };
            rt().step = 0;
            rt().budget = 3_000_000_000;
            // (version, value), partials, contributions seen
            let shared: Mutex<(u64, Expression)> = Mutex::new((0, zero.clone()));
            let seen: Mutex<Vec<usize>> = Mutex::new(vec![]);
            let partials: Vec<Mutex<Option<Expression>>> = p.clients.iter().map(|_| Mutex::new(None)).collect();
            let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
            let lives: Vec<usize> =
                p.clients.iter().map(|c| 1 + if calm { 0 } else { c.iter().skip(1).filter(|s| s.restart != 0).count() }).collect();
            rt::run_clients(&lives, sched, p.keys, &|c, life| {
                let mut piece = 0;
                let prog: Vec<&Step> = if calm { p.clients[c].iter().rev().filter(|s| s.op != "merge").collect() } else { p.clients[c].iter().collect() };
                for (i, s) in prog.iter().enumerate() {
                    if i > 0 && s.restart != 0 && !calm {
                        piece += 1;
                    }
                    if piece != life {
                        continue;
                    }
                    let (x, inv) = match s.op.as_str() {
                        "give" | "take" => {
                            let mut v = seen.lock().unwrap();
                            if v.contains(&s.a) {
                                cnt!("duplicate_deliveries");
                                continue;
                            }
                            v.push(s.a);
                            (exprs[s.a].clone().unwrap(), s.op == "take")
                        }
                        "merge" => match partials[c].lock().unwrap().take() {
                            Some(x) => (x, false),
                            None => continue,
                        },
                        _ => continue,
                    };
                    if s.n & 8 != 0 && s.op != "merge" && !calm {
                        // the partial is the worker's own; only failures interfere
                        let cur = partials[c].lock().unwrap().clone().unwrap_or_else(|| zero.clone());
                        let mut fail = s.alloc_fail.map(|pm| pm as u64 % 97);
                        loop {
                            let pl = CallPlan { pre: &[], fail_at: fail };
                            match call(&pl, || combine(product, inv, s.n, &cur, &x)) {
                                Called::Ret(e) => {
                                    *partials[c].lock().unwrap() = Some(e);
                                    break;
                                }
                                Called::Panic(_) if rt::alloc_fault_fired() => {
                                    cnt!("interrupted_then_retried");
                                    fail = None;
                                }
                                Called::Panic(m) => {
                                    bad.lock().unwrap().push(format!("contribution {} panicked: {}", p.exprs[s.a], m));
                                    break;
                                }
                            }
                        }
                        continue;
                    }
                    let mut fail = if calm { None } else { s.alloc_fail.map(|pm| pm as u64 % 97) };
                    let mut pre: Vec<(u64, u32)> = if calm { vec![] } else { s.pre.iter().map(|(a, b)| (1 + *a as u64 * 2, *b)).collect() };
                    loop {
                        let (ver, cur) = {
                            let g = shared.lock().unwrap();
                            (g.0, g.1.clone())
                        };
                        let res = call(&CallPlan { pre: &pre, fail_at: fail }, || combine(product, inv, s.n, &cur, &x));
                        match res {
                            Called::Ret(e) => {
                                let mut g = shared.lock().unwrap();
                                if g.0 == ver {
                                    *g = (ver + 1, e);
                                    break;
                                }
                                // overtaken: again, without being preempted this time
                                drop(g);
                                drop(e);
                                cnt!("interrupted_then_retried");
                                pre.clear();
                            }
                            Called::Panic(_) if rt::alloc_fault_fired() => {
                                cnt!("interrupted_then_retried");
                                fail = None;
                            }
                            Called::Panic(m) => {
                                bad.lock().unwrap().push(format!("contribution {} panicked: {}", p.exprs[s.a], m));
                                break;
                            }
                        }
                    }
                }
            });
            // whatever is still in partial accumulators belongs to the total
            let mut acc = shared.into_inner().unwrap().1;
            for q in &partials {
                if let Some(x) = q.lock().unwrap().take() {
                    acc = match call(&rt::CALM, || combine(product, false, 0, &acc, &x)) {
                        Called::Ret(e) => e,
                        Called::Panic(m) => return pack(vec!["bad".into(), format!("merging panicked: {}", m)]),
                    };
                }
            }
            if let Some(m) = bad.into_inner().unwrap().into_iter().next() {
                return pack(vec!["bad".into(), m]);
            }
            let t = t_of(&acc);
            let mut wrong = String::new();
            let mut concl = 0;
            for (i, env) in envs.iter().enumerate() {
                let v0 = match &vals[i] {
                    Ok(v) => v,
                    Err(_) => continue,
                };
                if let (Some(a), Some(b)) = (exact(&t0, env), exact(&t, env)) {
                    cnt!("exact_checks");
                    concl += 1;
                    if a != b {
                        wrong = format!("the contributions total {} and the accumulator {} at {}", a, b, crate::props::c02::env_text(env));
                    }
                    continue;
                }
                match eval(&t, env, false) {
                    Ok(v1) => {
                        cnt!("conclusive_evaluations");
                        concl += 1;
                        if !agree(v0, &v1) {
                            wrong = format!("the contributions total {:?} and the accumulator {:?} at {}", v0.v, v1.v, crate::props::c02::env_text(env));
                        }
                    }
                    Err(No::Unsure) => cnt!("inconclusive_evaluations"),
                    Err(No::Domain) => wrong = format!("the accumulator is undefined at {}", crate::props::c02::env_text(env)),
                }
            }
            pack(vec!["ok".into(), t.to_string(), wrong, concl.to_string(), rt().sig.to_string()])
        });
        check_harness(&ex, &out);
        if ex != Exit::Ok {
            return Err(Report::bad(&exit_name(&ex), format!("accumulating ended with {}", exit_name(&ex))));
        }
        Ok(unpack(&out))
    };
    let v = match go(p.sched, p.addr, false) {
        Ok(v) => v,
        Err(r) => return r,
    };
    match v[0].as_str() {
        "unbuildable" => return Report::default(),
        "bad" => return Report::bad("panic", v[1].clone()),
        _ => {}
    }
    if !v[2].is_empty() {
        return Report::bad("wrong total", format!("{}; it is {}", v[2], v[1]));
    }
    if identical {
        cnt!("reordered_deliveries");
        match go(mix(p.sched, 1), 0, true) {
            Ok(w) if w[0] == "ok" => {
                if w[1] != v[1] {
                    return Report::bad("order shows", format!("one arrival order gives {}, another {}", v[1], w[1]));
                }
            }
            Ok(w) => return Report::bad("panic", w.get(1).cloned().unwrap_or_default()),
            Err(r) => return r,
        }
    }
    let sig = mix(v[4].parse().unwrap(), text_hash(&p.text()));
    Report { viol: None, sig, nontrivial: contributions.len() >= 2 && v[3] != "0" }
}

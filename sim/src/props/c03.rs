//! C03: the seven comparisons are asked of several nodes, threads and histories, each
//! call drawing its own hash seed; all answers must fit together and be true.
use crate::cnt;
use crate::gen::G;
use crate::ops::exec;
use crate::plan::{Plan, Step};
use crate::rng::R;
use crate::rt::{self, call, in_fork, mix, rt, CallPlan, Called, Exit};
use crate::run::*;
use crate::rx::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const RULE: &str = "one case = one seeded simulation: all seven comparisons of a pair, both ways round, asked of 1-3 simulated nodes in random order with repeats, questions about similar pairs, interrupted calls and restarts, every call with its own hash seed; verdicts are checked for coherence, against values at 4 positive assignments, for reflexivity, and for integer polynomials against a polynomial model; non-trivial if the pair was comparable or the polynomial model decided it; distinct by plan and by the instrumented path taken";
pub const VERDICTS: &[&str] = &["comparable", "equal", "not_equal", "greater", "lesser", "greater_equal", "lesser_equal"];

pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC03));
    let mut p = Plan { prop: "C03".into(), seed, keys: r.u(), addr: r.u(), clock: mix(seed, 0xc10c), sched: r.u(), flav: r.u(), ..Default::default() };
    let mut g = G::new(r.u(), false);
    let integer = r.pct(50);
    let a = if integer { g.poly(16.0) } else if r.pct(30) { g.real_merge() } else { g.expr_cost(12.0) };
    let b = match r.below(10) {
        0 | 1 => a.clone(),
        2 | 3 => g.rewrite(&a, 3),
        4 | 5 => {
            let k = match r.below(4) {
                0 if !integer => g.real(),
                1 => Rx::Int(g.bigint()),
                _ => int(r.range(-5, 5)),
            };
            let w = g.rewrite(&a, 2);
            add(w, k)
        }
        6 => if integer { g.poly(8.0) } else { g.expr_cost(6.0) },
        7 => neg(a.clone()),
        8 => if integer { int(r.range(-3, 3)) } else { g.real() },
        _ => g.rewrite(&a, 1),
    };
    let (a, b) = if r.pct(3) {
        // logarithms of integers next to a perfect power
        let base = r.range(2, 12);
        let k = 1 + r.below(60);
        let x = num::pow::pow(num::BigInt::from(base), k) + r.range(-1, 1);
        (Rx::Log(Rx::Int(x).into(), int(base).into()), int(k as i64))
    } else if r.pct(4) {
        // constants whose sum depends on the order of the additions, and a literal that may
        // or may not be that very double
        let n = 3 + r.below(3);
        let mut parts = vec![];
        for _ in 0..n {
            let (x, k) = (Rx::Real(*r.pick(crate::gen::REALS)), if r.pct(85) { 2 } else { r.range(3, 5) });
            parts.push(mul(int(k), x.clone()));
            parts.push(mul(int(1 - k), x));
        }
        let a = Rx::Sum(parts);
        let v = eval(&t_of_rx(&a), &Assign::new(), true).map(|v| v.v).unwrap_or(0.5);
        let ulps = r.range(-2, 2);
        let b = if v == 0.0 { 0.0 } else { f64::from_bits((v.to_bits() as i64 + ulps) as u64) };
        (a, Rx::Real(b))
    } else {
        (a, b)
    };
    let (a, b) = if !crate::gen::affordable(&add(a.clone(), b.clone()), 60.0) { (g.var(), g.var()) } else { (a, b) };
    p.exprs = vec![a, b];
    p.set("assign", r.below(1 << 30) as i64);
    let nodes = 1 + r.below(3);
    let faulty = r.pct(30);
    for node in 0..nodes {
        let mut prog = vec![];
        for v in VERDICTS {
            for (a, b) in [(0, 1), (1, 0)] {
                if node == 0 || r.pct(60) {
                    prog.push(Step { op: v.to_string(), a, b, ..Default::default() });
                }
            }
        }
        if r.pct(50) {
            let k = r.below(2);
            prog.push(Step { op: "equal".into(), a: k, b: k, ..Default::default() });
            prog.push(Step { op: "comparable".into(), a: k, b: k, ..Default::default() });
        }
        for i in (1..prog.len()).rev() {
            let j = r.below(i + 1);
            prog.swap(i, j);
        }
        if faulty && !prog.is_empty() {
            let k = r.below(prog.len());
            let mut s = prog[k].clone();
            s.alloc_fail = Some(r.below(1000) as u32);
            prog.insert(k, s);
            let k = r.below(prog.len());
            prog[k].restart = 1;
        }
        p.clients.push(prog);
    }
    // other questions in between, about pairs that are nearly the same
    if r.pct(30) {
        let extra = if r.pct(6) { 20 + r.below(60) } else { 1 + r.below(3) };
        for _ in 0..extra {
            let x = g.twist(&p.exprs[r.below(2)].clone());
            p.exprs.push(if terms(&x) <= 60.0 && crate::gen::tame(&x) { x } else { g.var() });
        }
        for c in 0..p.clients.len() {
            if c > 0 && r.pct(40) {
                continue;
            }
            for k in 0..extra {
                let mut s = Step { op: r.pick(VERDICTS).to_string(), a: 2 + k, b: r.below(2 + extra), ..Default::default() };
                if r.pct(20) {
                    s.op = "simplify".into();
                } else if r.pct(50) {
                    std::mem::swap(&mut s.a, &mut s.b);
                }
                let at = r.below(p.clients[c].len() + 1);
                p.clients[c].insert(at, s);
            }
        }
    }
    p
}

pub fn run(p: &Plan) -> Report {
    if p.exprs.len() < 2 {
        return Report::default();
    }
    let mut refs = Refs::new();
    let (ta, tb) = (t_of_rx(&p.exprs[0]), t_of_rx(&p.exprs[1]));
    // (first, second, verdict) -> answer
    let mut said: BTreeMap<(usize, usize, String), bool> = BTreeMap::new();
    let mut sig = text_hash(&p.text());
    let vars = vars_of(&p.exprs[..2]);
    let envs: Vec<Assign> = (0..4).map(|i| assignment(&vars, mix(p.p("assign") as u64, i))).collect();
    let va: Vec<_> = envs.iter().map(|e| eval(&ta, e, true)).collect();
    let vb: Vec<_> = envs.iter().map(|e| eval(&tb, e, true)).collect();
    let def = |k: usize| if k == 0 { va.iter().any(|v| v.is_ok()) } else { vb.iter().any(|v| v.is_ok()) };
    // what the other questions are about must be within the domain, too
    let safe: Vec<bool> = p
        .exprs
        .iter()
        .map(|x| {
            let (t, v) = (t_of_rx(x), x.vars());
            (0..4).any(|i| eval(&t, &assignment(&v, mix(p.p("assign") as u64, i)), true).is_ok())
        })
        .collect();
    for (node, prog) in p.clients.iter().enumerate() {
        let steps: Vec<(&Step, Option<Ref>)> =
            prog.iter().filter(|s| s.a < 2 && s.b < 2 || safe[s.a] && safe[s.b]).map(|s| (s, if s.alloc_fail.is_some() { Some(refs.get(p, s)) } else { None })).collect();
        let (ex, out) = in_fork(|| {
            rt::set_layout(if node == 0 { 0 } else { mix(p.addr, node as u64) });
            rt::set_clock(if p.clock == 0 { 0 } else { mix(p.clock, node as u64) });
            rt::set_keys(mix(p.keys, node as u64));
            rt().budget = REF_BUDGET;
            let exprs: Vec<_> = (0..p.exprs.len()).map(|i| built(p, i).ok()).collect();
            if exprs[0].is_none() || exprs[1].is_none() {
                return pack(vec!["0".into()]);
            }
            let ans: Mutex<Vec<String>> = Mutex::new(vec![]);
            let lives = 1 + steps.iter().skip(1).filter(|(s, _)| s.restart != 0).count();
            rt::run_clients(&[lives], p.sched, mix(p.keys, node as u64 + 77), &|_, life| {
                let mut piece = 0;
                for (i, (s, r)) in steps.iter().enumerate() {
                    if i > 0 && s.restart != 0 {
                        piece += 1;
                    }
                    if piece != life {
                        continue;
                    }
                    let fail = r.as_ref().and_then(|r| step_faults(s, r).1);
                    let (a, b) = match (&exprs[s.a], &exprs[s.b]) {
                        (Some(a), Some(b)) => (a, b),
                        _ => continue,
                    };
                    let res = call(&CallPlan { pre: &[], fail_at: fail }, || exec(&s.op, a, b, 0, None));
                    if rt::alloc_fault_fired() || s.a > 1 || s.b > 1 {
                        continue;
                    }
                    let mut v = ans.lock().unwrap();
                    v.push(i.to_string());
                    v.push(match res {
                        Called::Ret(crate::ops::Out::B(true)) => "yes".into(),
                        Called::Ret(_) => "no".into(),
                        Called::Panic(m) => format!("panicked: {}", m),
                    });
                }
            });
            let mut v = ans.into_inner().unwrap();
            v.insert(0, rt().path.to_string());
            pack(v)
        });
        check_harness(&ex, &out);
        if ex != Exit::Ok {
            if !def(0) || !def(1) {
                return Report::default();
            }
            return Report::bad(&exit_name(&ex), format!("comparing {} with {} ended with {}", p.exprs[0], p.exprs[1], exit_name(&ex)));
        }
        let v = unpack(&out);
        sig = mix(sig, v[0].parse().unwrap_or(0));
        for c in v[1..].chunks(2) {
            let s = steps[c[0].parse::<usize>().unwrap()].0;
            let yes = match c[1].as_str() {
                "yes" => true,
                "no" => false,
                m => {
                    if !def(0) || !def(1) {
                        return Report::default();
                    }
                    return Report::bad("panic", format!("{} of {} and {} {}", s.op, p.exprs[s.a], p.exprs[s.b], m));
                }
            };
            cnt!(if yes { "verdict_true" } else { "verdict_false" });
            if let Some(old) = said.insert((s.a, s.b, s.op.clone()), yes) {
                if old != yes {
                    return Report::bad(
                        "verdict changed",
                        format!("{} of {} and {}: {} first, {} on node {}", s.op, p.exprs[s.a], p.exprs[s.b], old, yes, node),
                    );
                }
            }
        }
    }
    // do the answers fit together?
    let get = |a: usize, b: usize, v: &str| said.get(&(a, b, v.to_string())).copied();
    let pair = |a: usize, b: usize| format!("{} and {}", p.exprs[a], p.exprs[b]);
    let bad = |c: &str, m: String| Report::bad(c, m);
    // differences that overflow the double range have no order
    let finite = (0..4).any(|i| matches!((&va[i], &vb[i]), (Ok(_), Ok(_)))) || poly(&ta).is_some() && poly(&tb).is_some();
    if !finite {
        return Report::default();
    }
    for (a, b) in [(0usize, 1usize), (1, 0), (0, 0), (1, 1)] {
        let imply = |x: Option<bool>, y: Option<bool>| x == Some(true) && y == Some(false);
        let comp = get(a, b, "comparable");
        let (eq, ne, gt, lt, ge, le) = (
            get(a, b, "equal"),
            get(a, b, "not_equal"),
            get(a, b, "greater"),
            get(a, b, "lesser"),
            get(a, b, "greater_equal"),
            get(a, b, "lesser_equal"),
        );
        for (n, v) in [("equal", eq), ("not_equal", ne), ("greater", gt), ("lesser", lt), ("greater_equal", ge), ("lesser_equal", le)] {
            if imply(v, comp) {
                return bad("incoherent verdicts", format!("{} but not comparable: {}", n, pair(a, b)));
            }
        }
        if let (Some(true), Some(e), Some(n)) = (comp, eq, ne) {
            if e == n {
                return bad("incoherent verdicts", format!("comparable, equal {}, not_equal {}: {}", e, n, pair(a, b)));
            }
        }
        if let (Some(true), Some(e), Some(g), Some(l)) = (comp, eq, gt, lt) {
            if e as u8 + g as u8 + l as u8 != 1 {
                return bad("incoherent verdicts", format!("equal {}, greater {}, lesser {}: {}", e, g, l, pair(a, b)));
            }
        }
        if let (Some(x), Some(e), Some(g)) = (ge, eq, gt) {
            if x != (e || g) {
                return bad("incoherent verdicts", format!("greater_equal {}, equal {}, greater {}: {}", x, e, g, pair(a, b)));
            }
        }
        if let (Some(x), Some(e), Some(l)) = (le, eq, lt) {
            if x != (e || l) {
                return bad("incoherent verdicts", format!("lesser_equal {}, equal {}, lesser {}: {}", x, e, l, pair(a, b)));
            }
        }
        for (x, y) in [("comparable", "comparable"), ("equal", "equal"), ("not_equal", "not_equal"), ("greater", "lesser"), ("lesser", "greater"), ("greater_equal", "lesser_equal"), ("lesser_equal", "greater_equal")] {
            if let (Some(u), Some(v)) = (get(a, b, x), get(b, a, y)) {
                if u != v {
                    return bad("incoherent verdicts", format!("{} {} but swapped {} {}: {}", x, u, y, v, pair(a, b)));
                }
            }
        }
        // is what they affirm true?
        for i in 0..4 {
            let val = |k: usize| if k == 0 { &va[i] } else { &vb[i] };
            if let (Ok(x), Ok(y)) = (val(a), val(b)) {
                let d = x.v - y.v;
                let tol = 8.0 * (x.e + y.e) + 1e-13 * (x.v.abs() + y.v.abs());
                let at = crate::props::c02::env_text(&envs[i]);
                let lie = |n: &str| bad("false verdict", format!("{} of {} but the values are {:?} and {:?} at {}", n, pair(a, b), x.v, y.v, at));
                if eq == Some(true) && d.abs() > tol {
                    return lie("equal");
                }
                if (gt == Some(true) || ge == Some(true)) && d < -tol {
                    return lie("greater");
                }
                if (lt == Some(true) || le == Some(true)) && d > tol {
                    return lie("lesser");
                }
                let rational = |k: usize| exact(if k == 0 { &ta } else { &tb }, &envs[i]);
                let order = match (rational(a), rational(b)) {
                    (Some(x), Some(y)) => Some(x.cmp(&y)),
                    _ => {
                        let (x, y) = if a == 0 { (&ta, &tb) } else { (&tb, &ta) };
                        if a == b { None } else { log_order(x, y).or_else(|| log_order(y, x).map(|o| o.reverse())) }
                    }
                };
                if let Some(o) = order {
                    use std::cmp::Ordering::*;
                    cnt!("exact_checks");
                    for (n, said, truth) in [
                        ("equal", eq, o == Equal),
                        ("not_equal", ne, o != Equal),
                        ("greater", gt, o == Greater),
                        ("lesser", lt, o == Less),
                        ("greater_equal", ge, o != Less),
                        ("lesser_equal", le, o != Greater),
                    ] {
                        if said == Some(true) && !truth {
                            return lie(n);
                        }
                    }
                }
            }
        }
        if a == b {
            let ok = if a == 0 { va.iter().any(|v| v.is_ok()) } else { vb.iter().any(|v| v.is_ok()) };
            if ok && (eq == Some(false) || comp == Some(false)) {
                return bad("not equal to itself", format!("{} is not equal to itself", p.exprs[a]));
            }
        }
    }
    // integer polynomials are decided completely
    let mut decided = false;
    if let (Some(pa), Some(pb)) = (poly(&ta), poly(&tb)) {
        decided = true;
        cnt!("exact_checks");
        for (a, b) in [(0usize, 1usize), (1, 0)] {
            if let Some(e) = get(a, b, "equal") {
                if e != (pa == pb) {
                    return bad(
                        "polynomial equality",
                        format!("equal says {} for {}, which denote {} and {}", e, pair(a, b), poly_text(&pa), poly_text(&pb)),
                    );
                }
            }
            let d = p_add(&pa, &pb, -1);
            let constant = d.keys().all(|m| m.is_empty());
            if let Some(c) = get(a, b, "comparable") {
                if c != constant {
                    return bad("polynomial comparability", format!("comparable says {} for {}, whose difference is {}", c, pair(a, b), poly_text(&d)));
                }
            }
        }
    }
    let comparable = get(0, 1, "comparable") == Some(true);
    Report { viol: None, sig, nontrivial: decided || comparable }
}

/// How the logarithm of an integer compares with an integer, exactly.
fn log_order(a: &T, b: &T) -> Option<std::cmp::Ordering> {
    if let (T::Log(x, y), T::I(k)) = (a, b) {
        if let (T::I(x), T::I(y)) = (&**x, &**y) {
            let k = num::ToPrimitive::to_usize(k).filter(|k| *k <= 4096)?;
            if *y >= num::BigInt::from(2) && *x >= num::BigInt::from(1) {
                return Some(x.cmp(&num::pow::pow(y.clone(), k)));
            }
        }
    }
    None
}

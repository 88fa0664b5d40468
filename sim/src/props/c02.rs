//! C02: simplification never changes the value. The expression is simplified on several
//! nodes with their own hash seeds; each answer is evaluated against what the user wrote.
use crate::cnt;
use crate::gen::{tame, G};
use crate::plan::{Plan, Step};
use crate::rng::R;
use crate::rt::{self, in_fork, mix, rt, Called, Exit};
use crate::run::*;
use crate::rx::*;
use num::{Signed, ToPrimitive};
use std::sync::Mutex;

pub const RULE: &str = "one case = one seeded simulation: one expression simplified by 1-3 simulated nodes with different hash seeds and memory layouts, in a fifth of the runs by several preempted, interrupted and restarted threads among related expressions; each answer evaluated (exactly over the rationals where possible, otherwise in doubles with error bounds) at 4 positive assignments against the recipe; non-trivial if the expression has at least 3 nodes and at least one assignment gave a conclusive comparison; distinct by plan and by the instrumented path taken";

pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC02));
    let mut p = Plan { prop: "C02".into(), seed, keys: r.u(), addr: r.u(), clock: mix(seed, 0xc10c), flav: r.u(), ..Default::default() };
    let mut g = G::new(r.u(), false);
    let x = match r.below(20) {
        0..=1 => g.real_merge(),
        2..=6 => g.poly(60.0),
        7..=9 => mixed(&mut g, &mut r),
        _ => g.expr(),
    };
    p.exprs.push(if crate::gen::affordable(&x, 600.0) && tame(&x) { x } else { g.var() });
    p.set("nodes", 1 + r.below(3) as i64);
    p.set("assign", r.below(1 << 30) as i64);
    p.sched = r.u();
    if r.pct(22) {
        history(&mut r, &mut g, &mut p, 1, false);
        p.set("nodes", 1 + r.below(2) as i64);
    }
    p
}
/// like terms and factors with awkward coefficients
fn mixed(g: &mut G, r: &mut R) -> Rx {
    let base = match r.below(4) {
        0 => g.var(),
        1 => mul(g.var(), g.var()),
        2 => pow(g.var(), int(r.range(-3, 4))),
        _ => g.positive(1),
    };
    let n = 2 + r.below(4);
    let mut v = vec![];
    for _ in 0..n {
        let c = match r.below(6) {
            0 => Rx::Int(g.bigint()),
            1 => int(r.range(-6, 6)),
            2 => div(int(r.range(1, 9)), int(r.range(2, 9))),
            3 => g.real(),
            4 => int(isize::MAX as i64 - r.range(0, 2)),
            _ => int(r.range(1, 6)),
        };
        v.push(match r.below(5) {
            0 => neg(mul(c, base.clone())),
            1 => div(base.clone(), c),
            2 => c,
            _ => mul(c, base.clone()),
        });
    }
    if r.pct(70) { Rx::Sum(v) } else { Rx::Prod(v) }
}

fn spell(x: &num::rational::BigRational) -> String {
    let s = x.to_string();
    if s.len() > 60 { format!("{}...({} digits)", &s[..50], s.len()) } else { s }
}

/// What the user wrote, and its value at the assignments.
struct Given {
    t: T,
    envs: Vec<Assign>,
    vals: Vec<Result<Num, No>>,
    defined: bool,
}
impl Given {
    fn new(rx: &Rx, seed: u64) -> Given {
        let t = t_of_rx(rx);
        let vars = rx.vars();
        let envs: Vec<Assign> = (0..4).map(|i| assignment(&vars, mix(seed, i))).collect();
        let vals: Vec<Result<Num, No>> = envs.iter().map(|e| eval(&t, e, true)).collect();
        let defined = vals.iter().any(|v| v.is_ok()) || {
            // values beyond double range: still defined if they can be computed exactly
            vals.iter().any(|v| matches!(v, Err(No::Unsure))) && envs.iter().any(|e| exact(&t, e).is_some())
        };
        Given { t, envs, vals, defined }
    }
    /// Number of conclusive comparisons, or what is wrong.
    fn compare(&self, t: &T) -> Result<u64, String> {
        let mut concl = 0;
        for (i, env) in self.envs.iter().enumerate() {
            let v0 = match &self.vals[i] {
                Ok(v) => Some(v),
                Err(No::Domain) => continue,
                Err(No::Unsure) => None,
            };
            if let (Some(a), Some(b)) = (exact(&self.t, env), exact(t, env)) {
                cnt!("exact_checks");
                concl += 1;
                if a != b {
                    return Err(format!("{} before and {} after at {}", spell(&a), spell(&b), env_text(env)));
                }
                continue;
            }
            let v0 = match v0 {
                Some(v) => v,
                None => continue,
            };
            match eval(t, env, false) {
                Ok(v1) => {
                    cnt!("conclusive_evaluations");
                    concl += 1;
                    if !agree(v0, &v1) {
                        return Err(format!("{:?} before and {:?} after at {}", v0.v, v1.v, env_text(env)));
                    }
                }
                Err(No::Unsure) => cnt!("inconclusive_evaluations"),
                // undefined, or just at the edge of being defined?
                Err(No::Domain) => return Err(format!("{:?} before and undefined after at {}", v0.v, env_text(env))),
            }
        }
        Ok(concl)
    }
}

pub fn run(p: &Plan) -> Report {
    let given: Vec<Given> = p.exprs.iter().map(|x| Given::new(x, p.p("assign") as u64)).collect();
    let rx = &p.exprs[0];
    if !given[0].defined {
        cnt!("inconclusive_evaluations");
        return Report { viol: None, sig: 0, nontrivial: false };
    }
    if rx.any(&|x| matches!(x, Rx::Int(n) if n.to_isize().is_none())) {
        cnt!("big_integers");
    }
    let mut sig = text_hash(&p.exprs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(";"));
    let mut concl = 0;
    // the companions may be undefined; they keep others company only where they are safe
    let p = &Plan {
        clients: p
            .clients
            .iter()
            .map(|c| c.iter().filter(|s| given[s.a].defined).cloned().collect::<Vec<Step>>())
            .filter(|c| !c.is_empty())
            .collect(),
        ..p.clone()
    };
    for node in 0..p.p("nodes").max(1) as u64 {
        let (ex, out) = in_fork(|| {
            rt::set_layout(if node == 0 { 0 } else { mix(p.addr, node) });
            rt::set_clock(if p.clock == 0 { 0 } else { mix(p.clock, node) });
            rt::set_keys(mix(p.keys, node));
            rt().budget = REF_BUDGET;
            let mut exprs = vec![];
            for (i, g) in given.iter().enumerate() {
                exprs.push(if !g.defined {
                    None
                } else {
                    match built(p, i) {
                        Ok(e) => Some(e),
                        Err(m) => return pack(vec!["panic".into(), format!("{}: building it panicked: {}", p.exprs[i], m)]),
                    }
                });
            }
            let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
            let concl = Mutex::new(0u64);
            run_history(p, 1, &exprs, mix(p.keys, node), &|s, res| {
                let x = &p.exprs[s.a];
                let why = match res {
                    Called::Ret(crate::ops::Out::E(e)) => {
                        let t = t_of(&e);
                        match given[s.a].compare(&t) {
                            Ok(n) => {
                                *concl.lock().unwrap() += n;
                                return;
                            }
                            Err(m) => vec!["value changed".into(), format!("{} simplifies to {}: {}", x, t, m)],
                        }
                    }
                    Called::Ret(_) => return,
                    Called::Panic(m) => vec!["panic".into(), format!("{}: simplifying it panicked: {}", x, m)],
                };
                bad.lock().unwrap().extend(why);
            });
            let bad = bad.into_inner().unwrap();
            if bad.len() >= 2 {
                return pack(bad[..2].to_vec());
            }
            let n = *concl.lock().unwrap();
            pack(vec!["ok".into(), n.to_string(), rt().path.to_string()])
        });
        check_harness(&ex, &out);
        if ex != Exit::Ok {
            return Report::bad(&exit_name(&ex), format!("simplifying {} ended with {}", rx, exit_name(&ex)));
        }
        let v = unpack(&out);
        if v[0] != "ok" {
            return Report::bad(&v[0], v[1].clone());
        }
        concl += v[1].parse::<u64>().unwrap();
        sig = mix(sig, v[2].parse().unwrap());
    }
    Report { viol: None, sig, nontrivial: concl > 0 && rx.size() >= 3 }
}
pub fn env_text(env: &Assign) -> String {
    if env.is_empty() {
        return "no variables".into();
    }
    env.iter().map(|(k, v)| format!("{}={}", k, if v.is_negative() { format!("({})", v) } else { v.to_string() })).collect::<Vec<_>>().join(" ")
}

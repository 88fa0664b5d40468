//! C09: integer polynomials reach their normal form. Two ways of writing one polynomial
//! are simplified on nodes that drew different hash seeds; the answers must be identical,
//! in normal form, and the polynomial that was written.
use crate::cnt;
use crate::gen::G;
use crate::plan::{Plan, Step};
use crate::rng::R;
use crate::rt::{self, call, in_fork, mix, rt, Called, Exit, CALM};
use crate::run::*;
use crate::rx::*;
use std::sync::Mutex;
use num::{One, ToPrimitive, Zero};

pub const RULE: &str = "one case = one seeded simulation: one integer polynomial written in 2 ways, each simplified on 1-3 simulated nodes with their own hash seeds and memory layout, in a fifth of the runs by several preempted, interrupted and restarted threads among related polynomials; the result simplified once more; every result is compared with a polynomial model and with all other results; non-trivial if the polynomial has at least 2 monomials or the recipe at least 6 nodes; distinct by plan and by the instrumented path taken";

pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC09));
    let mut p = Plan { prop: "C09".into(), seed, keys: r.u(), addr: r.u(), clock: mix(seed, 0xc10c), flav: r.u(), ..Default::default() };
    let wild = r.pct(20);
    let mut g = G::new(r.u(), wild);
    let cap = *r.pick(&[6.0, 16.0, 40.0]);
    let x = g.poly(cap);
    let d = 1 + r.below(4);
    let mut y = g.rewrite(&x, d);
    let most = (terms(&x) * 1.3).max(80.0);
    if terms(&y) > most || y.size() > 100 {
        y = g.rewrite(&x, 1);
    }
    if terms(&y) > most.max(100.0) {
        y = x.clone();
    }
    p.exprs = vec![x, y];
    p.set("nodes", 1 + r.below(3) as i64);
    p.sched = r.u();
    if r.pct(22) {
        history(&mut r, &mut g, &mut p, 2, true);
        p.set("nodes", 1 + r.below(2) as i64);
    }
    p
}

/// Why is this not the normal form of a polynomial?
pub fn not_normal(t: &T) -> Option<String> {
    fn factor(t: &T) -> Result<String, String> {
        match t {
            T::V(v) => Ok(v.clone()),
            T::Pow(b, e) => match (&**b, &**e) {
                (T::V(v), T::I(n)) if n.to_i64().map(|k| k >= 2).unwrap_or(true) => Ok(v.clone()),
                _ => Err(format!("{} is no power of a variable", t)),
            },
            _ => Err(format!("{} is neither a variable nor a power of one", t)),
        }
    }
    fn mono(t: &T) -> Result<(), String> {
        match t {
            T::I(n) => if n.is_zero() { Err("a zero addend".into()) } else { Ok(()) },
            T::Prod(v) => {
                if v.len() < 2 {
                    return Err(format!("{} has fewer than two factors", t));
                }
                let mut seen: Vec<String> = vec![];
                let mut coef = 0;
                for x in v {
                    if let T::I(n) = x {
                        coef += 1;
                        if n.is_zero() || n.is_one() {
                            return Err(format!("coefficient {} in {}", n, t));
                        }
                        continue;
                    }
                    let k = factor(x)?;
                    if seen.contains(&k) {
                        return Err(format!("{} occurs more than once in {}", k, t));
                    }
                    seen.push(k);
                }
                if coef > 1 {
                    return Err(format!("{} coefficients in {}", coef, t));
                }
                Ok(())
            }
            t => factor(t).map(|_| ()),
        }
    }
    match t {
        T::I(_) => None,
        T::Sum(v) => {
            if v.len() < 2 {
                return Some(format!("a sum of {} addends", v.len()));
            }
            for x in v {
                if let Err(m) = mono(x) {
                    return Some(m);
                }
            }
            let n = poly(t).map(|p| p.len()).unwrap_or(0);
            if n != v.len() {
                return Some(format!("{} addends for {} monomials", v.len(), n));
            }
            None
        }
        t => mono(t).err(),
    }
}

pub fn run(p: &Plan) -> Report {
    let models: Vec<Option<Poly>> = p.exprs.iter().map(|x| poly(&t_of_rx(x))).collect();
    let model = match models.first() {
        Some(Some(m)) => m.clone(),
        _ => {
            cnt!("inconclusive_evaluations");
            return Report::default();
        }
    };
    if model.values().any(|c| c.to_isize().is_none()) {
        cnt!("big_integers");
    }
    let p = &Plan {
        clients: p
            .clients
            .iter()
            .map(|c| c.iter().filter(|s| models[s.a].is_some()).cloned().collect::<Vec<Step>>())
            .filter(|c| !c.is_empty())
            .collect(),
        ..p.clone()
    };
    let mut sig = text_hash(&p.text());
    // what each polynomial became, whoever wrote it in whatever way and wherever it was simplified
    let mut became: Vec<(Poly, String, String)> = vec![];
    let groups: Vec<Vec<usize>> = if p.clients.is_empty() {
        (0..p.exprs.len().min(2)).map(|w| vec![w]).collect()
    } else {
        vec![(0..p.exprs.len()).collect()]
    };
    for (w, group) in groups.iter().enumerate() {
        for node in 0..p.p("nodes").max(1) as u64 {
            let (ex, out) = in_fork(|| {
                let id = node * 8 + w as u64;
                rt::set_layout(if id == 0 { 0 } else { mix(p.addr, id) });
                rt::set_clock(if p.clock == 0 { 0 } else { mix(p.clock, id) });
                rt::set_keys(mix(p.keys, id));
                rt().budget = REF_BUDGET;
                let mut exprs = vec![];
                for i in 0..p.exprs.len() {
                    exprs.push(if !group.contains(&i) || models[i].is_none() {
                        None
                    } else {
                        match built(p, i) {
                            Ok(e) => Some(e),
                            Err(m) => return pack(vec!["panic".into(), format!("{}: building it panicked: {}", p.exprs[i], m)]),
                        }
                    });
                }
                let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
                let said: Mutex<Vec<String>> = Mutex::new(vec![]);
                run_history(p, 2.min(exprs.len()), &exprs, mix(p.keys, id), &|s, res| {
                    let rx = &p.exprs[s.a];
                    let oops = |c: &str, m: String| bad.lock().unwrap().extend([c.to_string(), m]);
                    let e = match res {
                        Called::Ret(crate::ops::Out::E(e)) => e,
                        Called::Ret(_) => return,
                        Called::Panic(m) => return oops("panic", format!("{}: simplifying it panicked: {}", rx, m)),
                    };
                    let again = e.clone();
                    let e2 = match call(&CALM, || again.simplify()) {
                        Called::Ret(s) => s,
                        Called::Panic(m) => return oops("panic", format!("{}: simplifying the result panicked: {}", rx, m)),
                    };
                    let (t, d, d2) = (t_of(&e), dump(&e), dump(&e2));
                    let mine = models[s.a].as_ref().unwrap();
                    cnt!("exact_checks");
                    let is = poly(&t);
                    if is.as_ref() != Some(mine) {
                        let is = is.map(|q| poly_text(&q)).unwrap_or("no polynomial".into());
                        return oops("another polynomial", format!("{} simplifies to {}, which is {} and not {}", rx, d, is, poly_text(mine)));
                    }
                    if let Some(m) = not_normal(&t) {
                        return oops("not in normal form", format!("{} simplifies to {}: {}", rx, d, m));
                    }
                    if d != d2 {
                        return oops("not idempotent", format!("{} simplifies to {} and that to {}", rx, d, d2));
                    }
                    said.lock().unwrap().extend([s.a.to_string(), d]);
                });
                let bad = bad.into_inner().unwrap();
                if bad.len() >= 2 {
                    return pack(bad[..2].to_vec());
                }
                let mut o = vec!["ok".to_string(), rt().path.to_string()];
                o.extend(said.into_inner().unwrap());
                pack(o)
            });
            check_harness(&ex, &out);
            if ex != Exit::Ok {
                return Report::bad(&exit_name(&ex), format!("simplifying {} ended with {}", p.exprs[group[0]], exit_name(&ex)));
            }
            let v = unpack(&out);
            if v[0] != "ok" {
                return Report::bad(&v[0], v[1].clone());
            }
            sig = mix(sig, v[1].parse().unwrap());
            for c in v[2..].chunks(2) {
                let i: usize = c[0].parse().unwrap();
                let m = models[i].as_ref().unwrap();
                match became.iter().find(|b| b.0 == *m) {
                    Some(b) if b.1 != c[1] => {
                        return Report::bad("two results", format!("{} simplifies to {}, but {} gave {}", p.exprs[i], c[1], b.2, b.1));
                    }
                    Some(_) => {}
                    None => became.push((m.clone(), c[1].clone(), p.exprs[i].to_string())),
                }
            }
        }
    }
    Report { viol: None, sig, nontrivial: model.len() >= 2 || p.exprs[0].size() >= 6 }
}

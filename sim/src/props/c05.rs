//! C05: interrupted operations leave no trace.
use crate::gen::G;
use crate::ops::{Kind, OPS};
use crate::plan::Plan;
use crate::rng::R;
use crate::rt::mix;
use crate::run::*;

pub const RULE: &str = "one case = one seeded simulation: 1-3 client threads over shared expressions; calls are interrupted by a failing allocation, or by caller code (callback, hasher) that panics, at a chosen point, then retried and followed by other calls, which must say what they say alone in a fresh process; one interrupted call is repeated and the heap watched; non-trivial if at least one fault fired and at least one call completed after it; distinct by plan and by the context switches taken";

pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC05));
    let mut p = Plan { prop: "C05".into(), seed, keys: r.u(), addr: r.u(), clock: r.u(), sched: r.u(), flav: r.u(), ..Default::default() };
    let wild = r.pct(60);
    let mut g = G::new(r.u(), wild);
    let n = 1 + r.below(3);
    p.exprs = super::c04::exprs(&mut r, &mut g, n, 14.0);
    if r.pct(3) {
        // nobody can write this down expanded
        let k: num::BigInt = (num::BigInt::from(1) << 63) + r.below(1000) as i64;
        let k = if r.pct(30) { -k } else { k };
        p.exprs[0] = crate::rx::pow(crate::rx::add(g.var(), g.small()), crate::rx::Rx::Int(k));
    }
    let clients = 1 + r.below(3);
    let cbs = r.pct(50);
    for _ in 0..clients {
        let mut prog = vec![];
        for _ in 0..1 + r.below(3) {
            let cb = |o: &str| OPS.iter().any(|x| x.0 == o && x.1 == Kind::Cb);
            let mut s = if cbs && r.pct(50) {
                let mut s = super::c04::step(&mut r, &p, &cb);
                s.cb_fail = Some(r.below(6) as u32);
                s
            } else {
                let mut s = super::c04::step(&mut r, &p, &|_| true);
                s.alloc_fail = Some(match r.below(4) {
                    0 => r.below(40) as u32,
                    1 => 960 + r.below(40) as u32,
                    _ => r.below(1000) as u32,
                });
                s
            };
            if clients > 1 {
                let k = r.below(3);
                s.pre = super::c04::preempts(&mut r, k);
            }
            let mut again = s.clone();
            prog.push(s);
            again.alloc_fail = None;
            again.cb_fail = None;
            if r.pct(10) {
                again.restart = 1;
            }
            prog.push(again);
            if r.pct(60) {
                prog.push(super::c04::step(&mut r, &p, &|_| true));
            }
        }
        p.clients.push(prog);
    }
    if r.pct(3) {
        // one call that fails over and over again, before anything else is tried
        let cb = r.pct(60);
        let s = super::c04::step(&mut r, &p, &|o| !cb || OPS.iter().any(|x| x.0 == o && x.1 == Kind::Cb));
        let n = 20 + r.below(140);
        let mut storm = vec![];
        for _ in 0..n {
            let mut s = s.clone();
            if cb {
                s.cb_fail = Some(r.below(3) as u32);
            } else {
                s.alloc_fail = Some(r.below(1000) as u32);
            }
            storm.push(s);
        }
        storm.push(s);
        storm.append(&mut p.clients[0]);
        p.clients[0] = storm;
    }
    if r.pct(40) {
        p.set("probe", 1 + r.below(8) as i64);
    }
    p
}
pub fn run(p: &Plan) -> Report {
    thread_run(p)
}

//! C04: threads share expressions freely.
use crate::gen::G;
use crate::plan::{pick_op, Plan, Step};
use crate::rng::R;
use crate::rt::mix;
use crate::run::*;
use crate::rx::Rx;

pub const RULE: &str = "one case = one seeded simulation: 2-8 client threads run programs of library calls over 1-4 shared expressions under a schedule that preempts at chosen basic blocks inside the calls; non-trivial if every call completed and at least one context switch happened inside a call; distinct by plan and by the recorded sequence of (from, to, block) context switches";

pub fn exprs(r: &mut R, g: &mut G, n: usize, cap: f64) -> Vec<Rx> {
    (0..n)
        .map(|_| match r.below(10) {
            0 => g.real_merge(),
            1 | 2 => g.poly(cap),
            _ => g.expr_cost(cap),
        })
        .map(|x| if crate::rx::terms(&x) <= 2.0 * cap { x } else { crate::rx::var("a") })
        .collect()
}
/// bounded products of the operands of a two-operand step
fn affordable(p: &Plan, s: &Step) -> bool {
    let (a, b) = (crate::rx::terms(&p.exprs[s.a]), crate::rx::terms(&p.exprs[s.b]));
    match s.op.as_str() {
        "product" => a * a * b <= 400.0,
        "pow" | "mul" | "div" => a * b <= 200.0 && crate::gen::tame(&crate::rx::pow(p.exprs[s.a].clone(), p.exprs[s.b].clone())),
        "map" => a <= 12.0,
        _ => true,
    }
}
pub fn step(r: &mut R, p: &Plan, allow: &dyn Fn(&str) -> bool) -> Step {
    for _ in 0..20 {
        let s = Step {
            op: pick_op(r, allow),
            a: r.below(p.exprs.len()),
            b: r.below(p.exprs.len()),
            n: r.below(32) as u64,
            ..Default::default()
        };
        if affordable(p, &s) {
            return s;
        }
    }
    Step { op: "simplify".into(), ..Default::default() }
}
pub fn preempts(r: &mut R, k: usize) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = (0..k)
        .map(|_| {
            let at = match r.below(6) {
                0 => r.below(30),
                1 => 970 + r.below(30),
                _ => r.below(1000),
            };
            (at as u32, r.below(4) as u32)
        })
        .collect();
    v.sort();
    v
}

pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC04));
    let mut p = Plan { prop: "C04".into(), seed, keys: r.u(), addr: r.u(), clock: r.u(), sched: r.u(), flav: r.u(), ..Default::default() };
    let wild = r.pct(60);
    let mut g = G::new(r.u(), wild);
    let n = 1 + r.below(4);
    p.exprs = exprs(&mut r, &mut g, n, 16.0);
    let clients = if r.pct(20) { 5 + r.below(4) } else { 2 + r.below(3) };
    if r.pct(12) {
        // everybody is in the middle of the same thing
        p.exprs[0] = match r.below(3) {
            0 => g.deep(),
            1 => g.wide(false),
            _ => p.exprs[0].clone(),
        };
        if crate::rx::terms(&p.exprs[0]) > 60.0 {
            p.exprs[0] = g.var();
        }
        p = p.tamed();
        let s = if r.pct(60) { Step { op: "simplify".into(), ..Default::default() } } else { step(&mut r, &p, &|_| true) };
        let at = r.below(1000) as u32;
        for _ in 0..clients {
            let mut s = s.clone();
            let wobble = r.below(60) as u32;
            s.pre = vec![((at + wobble).min(999), r.below(4) as u32)];
            let mut prog = vec![s];
            if r.pct(40) {
                let mut s = step(&mut r, &p, &|_| true);
                s.pre = preempts(&mut r, 1);
                prog.push(s);
            }
            p.clients.push(prog);
        }
        return p;
    }
    // narrow mixes make the same call meet itself
    let focus = if r.pct(40) { Some(pick_op(&mut r, &|_| true)) } else { None };
    let dense = r.below(4);
    for _ in 0..clients {
        let len = 2 + r.below(5);
        let mut prog = vec![];
        for _ in 0..len {
            let mut s = match &focus {
                Some(f) if r.pct(60) => step(&mut r, &p, &|o| o == f),
                _ => step(&mut r, &p, &|_| true),
            };
            let k = [1, 1 + r.below(2), r.below(4), 2 + r.below(5)][dense];
            s.pre = preempts(&mut r, k);
            if r.pct(6) {
                s.restart = 1;
            }
            prog.push(s);
        }
        p.clients.push(prog);
    }
    p
}
pub fn run(p: &Plan) -> Report {
    thread_run(p)
}

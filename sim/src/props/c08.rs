//! C08: expressions as keys of std collections, against a plain list of pairs. Every
//! collection is rebuilt now and then as after a restart, with new hash keys and layout.
use crate::cnt;
use crate::gen::G;
use crate::ops::fnv;
use crate::plan::{Plan, Step};
use crate::rng::R;
use crate::rt::{self, call, in_fork, mix, rt, CallPlan, Called, Exit, CALM};
use crate::run::*;
use crate::rx::*;
use ncas::base::expression::Expression;
use std::cmp::Ordering;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::Mutex;

pub const RULE: &str = "one case = one seeded simulation: a history of inserts, overwrites, lookups, removals and rebuilds (thread and process restarts with new hash keys and memory layout), some interrupted by failing allocations, on HashMap, HashSet, BTreeMap and BTreeSet keyed by expressions with equal keys built in different ways, compared step by step with an association list; plus hash and order laws over all pairs and triples of the keys; non-trivial if some lookup hit through a differently built equal key or at least 3 distinct keys were stored; distinct by plan and by the instrumented path taken";

/// What makes two expressions the same key, said independently of the library.
pub fn canon(t: &T) -> String {
    let list = |v: &[T], n: &str| {
        let mut w: Vec<String> = v.iter().map(canon).collect();
        w.sort();
        format!("({} {})", n, w.join(" "))
    };
    match t {
        T::R(x) if *x == 0.0 => "r0.0".into(),
        T::Sum(v) => list(v, "sum"),
        T::Prod(v) => list(v, "prod"),
        T::Pow(a, b) => format!("(^ {} {})", canon(a), canon(b)),
        T::Log(a, b) => format!("(log {} {})", canon(a), canon(b)),
        T::Sin(a) => format!("(sin {})", canon(a)),
        T::Cos(a) => format!("(cos {})", canon(a)),
        t => t.to_string(),
    }
}
/// the same expression with its commutative operands in another order
fn shuffled(r: &mut R, x: &Rx) -> Rx {
    let mut y = x.clone();
    let kids: Vec<Rx> = x.kids().into_iter().cloned().collect();
    for (i, k) in kids.iter().enumerate() {
        y = y.with_kid(i, shuffled(r, k));
    }
    match y {
        Rx::Add(a, b) if r.pct(50) => Rx::Add(b, a),
        Rx::Mul(a, b) if r.pct(50) => Rx::Mul(b, a),
        Rx::Sum(mut v) => {
            for i in (1..v.len()).rev() {
                let j = r.below(i + 1);
                v.swap(i, j);
            }
            Rx::Sum(v)
        }
        Rx::Prod(mut v) => {
            for i in (1..v.len()).rev() {
                let j = r.below(i + 1);
                v.swap(i, j);
            }
            Rx::Prod(v)
        }
        Rx::Real(z) if z == 0.0 => Rx::Real(if r.pct(50) { 0.0 } else { -0.0 }),
        y => y,
    }
}
/// one small change: a near miss
fn tweaked(r: &mut R, x: &Rx) -> Rx {
    let kids = x.kids();
    if kids.is_empty() || r.pct(20) {
        return match x {
            Rx::Int(n) => {
                if r.pct(30) {
                    Rx::Real(num::ToPrimitive::to_f64(n).unwrap_or(1.0))
                } else {
                    Rx::Int(n + 1)
                }
            }
            Rx::Real(v) => {
                if v.fract() == 0.0 && v.abs() < 1e9 && r.pct(50) { int(*v as i64) } else { Rx::Real(f64::from_bits(v.to_bits() ^ 1)) }
            }
            Rx::Var(v) => Rx::Var(format!("{}b", v)),
            Rx::Add(a, b) => Rx::Mul(a.clone(), b.clone()),
            Rx::Mul(a, b) => Rx::Add(a.clone(), b.clone()),
            Rx::Pow(a, b) => {
                if r.pct(50) { Rx::Log(a.clone(), b.clone()) } else { Rx::Pow(b.clone(), a.clone()) }
            }
            Rx::Log(a, b) => Rx::Pow(a.clone(), b.clone()),
            Rx::Sin(a) => Rx::Cos(a.clone()),
            Rx::Sum(v) => Rx::Prod(v.clone()),
            Rx::Prod(v) => Rx::Sum(v.clone()),
            x => Rx::Neg(Box::new(x.clone())),
        };
    }
    let i = r.below(kids.len());
    let k = tweaked(r, kids[i]);
    x.with_kid(i, k)
}

pub const ACTS: &[(&str, usize)] = &[
    ("put", 40), ("get", 30), ("del", 12), ("entry", 10), ("rebuild", 6), ("grow", 3), ("scan", 3),
];
pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC08));
    let mut p = Plan { prop: "C08".into(), seed, keys: r.u(), addr: r.u(), clock: mix(seed, 0xc10c), sched: r.u(), flav: r.u(), ..Default::default() };
    let mut g = G::new(r.u(), true);
    let n = 2 + r.below(5);
    for _ in 0..n {
        let x = match r.below(8) {
            0 => g.real(),
            1 => Rx::Int(g.bigint()),
            2 => g.small(),
            3 => g.var(),
            4 if r.pct(30) => {
                let poly = r.pct(50);
                p.exprs.push(g.wide(poly));
                continue;
            }
            _ => {
                let d = 1 + r.below(3);
                g.general(d)
            }
        };
        p.exprs.push(if x.size() <= 24 && crate::gen::tame(&x) { x } else { g.var() });
    }
    if r.pct(4) {
        // many levels, the same but for what is at the bottom
        let seed = r.u();
        let depth = 4 + r.below(30);
        for _ in 0..2 {
            let mut s = R::new(seed);
            let kinds = 1 + s.below(63);
            let mut x = if r.pct(70) { g.var() } else { g.small() };
            for _ in 0..depth {
                let k = (0..).map(|_| s.below(6)).find(|k| kinds >> k & 1 == 1).unwrap_or(0);
                let u = Rx::Var(["u", "v", "w"][s.below(3)].into());
                x = match k {
                    0 => crate::rx::pow(x, u),
                    1 => crate::rx::pow(u, x),
                    2 => crate::rx::log(x, u),
                    3 => crate::rx::log(u, x),
                    4 => if s.pct(50) { Rx::Sin(Box::new(x)) } else { Rx::Cos(Box::new(x)) },
                    _ => if s.pct(50) { crate::rx::add(u, x) } else { crate::rx::mul(u, x) },
                };
            }
            p.exprs.push(x);
        }
    }
    for _ in 0..r.below(6) {
        let k = r.below(p.exprs.len());
        let x = p.exprs[k].clone();
        let y = if r.pct(60) { shuffled(&mut r, &x) } else { tweaked(&mut r, &x) };
        p.exprs.push(y);
    }
    let mut raw = 0i64;
    for i in 0..p.exprs.len() {
        if r.pct(35) {
            raw |= 1 << i;
        }
    }
    p.set("raw", raw);
    let faulty = r.pct(30);
    let tot: usize = ACTS.iter().map(|a| a.1).sum();
    let mut prog = vec![];
    for _ in 0..6 + r.below(30) {
        let mut k = r.below(tot);
        let op = ACTS.iter().find(|a| { if k < a.1 { true } else { k -= a.1; false } }).unwrap().0;
        let a = r.below(p.exprs.len());
        let mut s = Step { op: op.into(), a, b: a, n: r.below(64) as u64, ..Default::default() };
        if faulty && op == "put" && r.pct(15) {
            s.alloc_fail = Some(r.below(30) as u32);
        }
        if op == "rebuild" {
            s.restart = 1;
        }
        prog.push(s);
    }
    p.clients.push(prog);
    p
}

struct Cols {
    hm: HashMap<Expression, u64>,
    hs: HashSet<Expression>,
    bm: BTreeMap<Expression, u64>,
    bs: BTreeSet<Expression>,
}
impl Cols {
    fn new() -> Cols {
        Cols { hm: HashMap::new(), hs: HashSet::new(), bm: BTreeMap::new(), bs: BTreeSet::new() }
    }
}
fn sip(e: &Expression, st: &RandomState) -> (u64, u64) {
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    (h.finish(), st.hash_one(e))
}

pub fn run(p: &Plan) -> Report {
    let n = p.exprs.len();
    if n == 0 || p.clients.is_empty() {
        return Report::default();
    }
    let (ex, out) = in_fork(|| {
        rt::set_layout(p.addr);
        rt::set_clock(p.clock);
        rt::set_keys(mix(p.keys, 0));
        rt().budget = REF_BUDGET;
        let mut exprs: Vec<Option<Expression>> = (0..n).map(|i| built(p, i).ok()).collect();
        let has_nan = |t: &T| t.any(&|x| matches!(x, T::R(v) if v.is_nan()));
        for e in exprs.iter_mut() {
            if e.as_ref().map(|e| has_nan(&t_of(e))) == Some(true) {
                *e = None;
            }
        }
        let keys: Vec<String> = exprs.iter().map(|e| e.as_ref().map(|e| canon(&t_of(e))).unwrap_or_default()).collect();
        let live: Vec<usize> = (0..n).filter(|i| exprs[*i].is_some()).collect();
        let bad: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
        let report = |c: &str, m: String| bad.lock().unwrap().push((c.into(), m));
        let show = |i: usize| dump(exprs[i].as_ref().unwrap());
        let ask = |c: &str, f: &mut dyn FnMut() -> u64| -> Option<u64> {
            match call(&CALM, || f()) {
                Called::Ret(v) => Some(v),
                Called::Panic(m) => {
                    report("panic", format!("{} panicked: {}", c, m));
                    None
                }
            }
        };
        // laws over all pairs and triples
        let st = RandomState::new();
        let mut ord = vec![vec![Ordering::Equal; n]; n];
        for &i in &live {
            for &j in &live {
                let (a, b) = (exprs[i].as_ref().unwrap(), exprs[j].as_ref().unwrap());
                let same = keys[i] == keys[j];
                let eq = match ask("==", &mut || (a == b) as u64) {
                    Some(v) => v == 1,
                    None => continue,
                };
                if eq != same {
                    report("equality", format!("{} == {} says {}", show(i), show(j), eq));
                }
                if eq {
                    let mut h = [(0u64, (0u64, 0u64)); 2];
                    ask("hash", &mut || {
                        h = [(fnv(a), sip(a, &st)), (fnv(b), sip(b, &st))];
                        0
                    });
                    if h[0] != h[1] {
                        report("equal but hashed differently", format!("{} and {} are equal and hash differently", show(i), show(j)));
                    }
                }
                let mut o = (Ordering::Equal, None, [false; 4]);
                ask("cmp", &mut || {
                    o = (a.cmp(b), a.partial_cmp(b), [a < b, a <= b, a > b, a >= b]);
                    0
                });
                ord[i][j] = o.0;
                if (o.0 == Ordering::Equal) != eq {
                    report("order and equality disagree", format!("cmp of {} and {} is {:?} but == says {}", show(i), show(j), o.0, eq));
                }
                let want = [o.0 == Ordering::Less, o.0 != Ordering::Greater, o.0 == Ordering::Greater, o.0 != Ordering::Less];
                if o.1 != Some(o.0) || o.2 != want {
                    report("order disagrees with itself", format!("{} and {}: cmp {:?}, partial_cmp {:?}, < <= > >= {:?}", show(i), show(j), o.0, o.1, o.2));
                }
            }
        }
        for &i in &live {
            for &j in &live {
                if ord[i][j] != ord[j][i].reverse() {
                    report("order is not antisymmetric", format!("cmp of {} and {} is {:?}, swapped {:?}", show(i), show(j), ord[i][j], ord[j][i]));
                }
                for &k in &live {
                    if ord[i][j] != Ordering::Greater && ord[j][k] != Ordering::Greater && ord[i][k] == Ordering::Greater {
                        report("order is not transitive", format!("{} <= {} <= {} but not the first <= the last", show(i), show(j), show(k)));
                    }
                }
            }
        }
        // the history
        let cols = Mutex::new(Cols::new());
        let model: Mutex<BTreeMap<String, (u64, usize)>> = Mutex::new(BTreeMap::new());
        let stat = Mutex::new((0u64, 0usize)); // hits through another construction, most keys stored
        let prog = &p.clients[0];
        let lives = vec![1 + prog.iter().skip(1).filter(|s| s.restart != 0).count()];
        let path = Mutex::new(0u64);
        rt::run_clients(&lives, p.sched, p.keys, &|_, life| {
            let mut piece = 0;
            for (at, s) in prog.iter().enumerate() {
                if at > 0 && s.restart != 0 {
                    piece += 1;
                }
                if piece != life {
                    continue;
                }
                if !bad.lock().unwrap().is_empty() {
                    return;
                }
                let mut c = cols.lock().unwrap();
                let c = &mut *c;
                let mut m = model.lock().unwrap();
                let key = match &exprs[s.a] {
                    Some(k) => k,
                    None => continue,
                };
                let id = &keys[s.a];
                let stored = m.get(id).copied();
                if let Some((_, by)) = stored {
                    if matches!(s.op.as_str(), "get" | "del" | "entry") {
                        cnt!("lookups_hit");
                        if by != s.a {
                            stat.lock().unwrap().0 += 1;
                        }
                    }
                } else {
                    cnt!("lookups_miss");
                }
                let want = stored.map(|x| x.0);
                let val = at as u64 * 100 + s.a as u64;
                let check = |what: &str, got: Option<u64>, want: Option<u64>| {
                    if got != want {
                        report(what, format!("step {}: {} of {}: the collection says {:?}, the plain list {:?}", at, s.op, show(s.a), got, want));
                    }
                };
                match s.op.as_str() {
                    "put" | "entry" => {
                        // the hash collections may fail to grow; a retry must make good
                        let mut fail = s.alloc_fail.map(|k| k as u64);
                        loop {
                            let mut got = (None, false);
                            let how = s.op == "entry";
                            let r = call(&CallPlan { pre: &[], fail_at: fail }, || {
                                let k = key.clone();
                                if how {
                                    let old = c.hm.get(&k).copied();
                                    *c.hm.entry(k).or_insert(0) = val;
                                    got.0 = old;
                                } else {
                                    got.0 = c.hm.insert(k, val);
                                }
                            });
                            match r {
                                Called::Ret(()) => {
                                    check("hash map", got.0, want);
                                    break;
                                }
                                Called::Panic(_) if rt::alloc_fault_fired() => {
                                    cnt!("interrupted_then_retried");
                                    fail = None;
                                }
                                Called::Panic(e) => {
                                    report("panic", format!("inserting {} panicked: {}", show(s.a), e));
                                    break;
                                }
                            }
                        }
                        let mut got = (false, None, false);
                        ask("insert", &mut || {
                            got = (c.hs.insert(key.clone()), c.bm.insert(key.clone(), val), c.bs.insert(key.clone()));
                            0
                        });
                        check("hash set", Some(got.0 as u64), Some(want.is_none() as u64));
                        check("ordered map", got.1, want);
                        check("ordered set", Some(got.2 as u64), Some(want.is_none() as u64));
                        let by = stored.map(|x| x.1).unwrap_or(s.a);
                        m.insert(id.clone(), (val, by));
                    }
                    "get" => {
                        let mut got = (None, false, None, false);
                        ask("get", &mut || {
                            got = (c.hm.get(key).copied(), c.hs.contains(key), c.bm.get(key).copied(), c.bs.contains(key));
                            0
                        });
                        check("hash map", got.0, want);
                        check("hash set", Some(got.1 as u64), Some(want.is_some() as u64));
                        check("ordered map", got.2, want);
                        check("ordered set", Some(got.3 as u64), Some(want.is_some() as u64));
                    }
                    "del" => {
                        let mut got = (None, false, None, false);
                        ask("remove", &mut || {
                            got = (c.hm.remove(key), c.hs.remove(key), c.bm.remove(key), c.bs.remove(key));
                            0
                        });
                        check("hash map", got.0, want);
                        check("hash set", Some(got.1 as u64), Some(want.is_some() as u64));
                        check("ordered map", got.2, want);
                        check("ordered set", Some(got.3 as u64), Some(want.is_some() as u64));
                        m.remove(id);
                    }
                    "rebuild" => {
                        // only the pairs survive, in another order
                        cnt!("rebuilds");
                        let mut pairs: Vec<(Expression, u64)> = std::mem::take(&mut c.hm).into_iter().collect();
                        let by = mix(p.sched, s.n);
                        pairs.sort_by_key(|x| mix(by, x.1));
                        *c = Cols::new();
                        rt::set_keys(mix(p.keys, 1000 + at as u64));
                        ask("rebuild", &mut || {
                            for (k, v) in &pairs {
                                c.hm.insert(k.clone(), *v);
                                c.hs.insert(k.clone());
                                c.bm.insert(k.clone(), *v);
                                c.bs.insert(k.clone());
                            }
                            0
                        });
                    }
                    "grow" => {
                        ask("grow", &mut || {
                            c.hm.reserve(50 + s.n as usize);
                            c.hs.shrink_to_fit();
                            0
                        });
                    }
                    _ => {
                        // everything stored is seen exactly once, the ordered ones in order
                        let mut a: Vec<(String, u64)> = c.hm.iter().map(|(k, v)| (canon(&t_of(k)), *v)).collect();
                        let mut b: Vec<(String, u64)> = c.bm.iter().map(|(k, v)| (canon(&t_of(k)), *v)).collect();
                        a.sort();
                        b.sort();
                        let w: Vec<(String, u64)> = m.iter().map(|(k, v)| (k.clone(), v.0)).collect();
                        if a != w || b != w {
                            report("contents", format!("step {}: hashed map holds {:?}, ordered map {:?}, plain list {:?}", at, a, b, w));
                        }
                    }
                }
                for (what, len) in [("hash map", c.hm.len()), ("hash set", c.hs.len()), ("ordered map", c.bm.len()), ("ordered set", c.bs.len())] {
                    if len != m.len() {
                        report(what, format!("step {}: after {} of {} it holds {} entries, the plain list {}", at, s.op, show(s.a), len, m.len()));
                    }
                }
                let mut st = stat.lock().unwrap();
                st.1 = st.1.max(m.len());
                *path.lock().unwrap() = rt().path;
            }
        });
        let st = stat.into_inner().unwrap();
        drop(cols);
        let mut o = vec![path.into_inner().unwrap().to_string(), (st.0 > 0 || st.1 >= 3).to_string()];
        if let Some((c, m)) = bad.into_inner().unwrap().into_iter().next() {
            o.push(c);
            o.push(m);
        }
        pack(o)
    });
    check_harness(&ex, &out);
    if ex != Exit::Ok {
        return Report::bad(&exit_name(&ex), format!("using the keys ended with {}", exit_name(&ex)));
    }
    let v = unpack(&out);
    if v.len() >= 4 {
        return Report::bad(&v[2], v[3].clone());
    }
    Report { viol: None, sig: mix(v[0].parse().unwrap(), text_hash(&p.text())), nontrivial: v[1] == "true" }
}

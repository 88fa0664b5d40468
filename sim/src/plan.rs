//! A plan is one execution written out: nothing else decides what happens in a run.
//! Plans are what the generator makes, what the minimiser shrinks and what a replay
//! file holds.
use crate::ops::OPS;
use crate::rx::{parse, Rx};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Step {
    /// index into OPS, or a property-specific action
    pub op: String,
    pub a: usize,
    pub b: usize,
    pub n: u64,
    /// the allocation at this permille of the operation's allocations fails
    pub alloc_fail: Option<u32>,
    /// this invocation of the caller's code panics
    pub cb_fail: Option<u32>,
    /// (permille of the operation's steps, choice): another client runs here
    pub pre: Vec<(u32, u32)>,
    /// what the sink answers, write by write
    pub sink: Vec<(char, u64)>,
    /// 0 continue, 1 a new thread does this step, 2 a new process does
    pub restart: u8,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    /// what RandomState draws, where memory lies, what the clock says, who starts
    pub keys: u64,
    pub addr: u64,
    pub clock: u64,
    pub sched: u64,
    /// which flavour of the operators builds the expressions
    pub flav: u64,
    pub exprs: Vec<Rx>,
    pub clients: Vec<Vec<Step>>,
    pub par: BTreeMap<String, i64>,
}
impl Plan {
    pub fn p(&self, k: &str) -> i64 {
        *self.par.get(k).unwrap_or(&0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.par.insert(k.to_string(), v);
    }
    /// A power of astronomic size only measures big-number arithmetic.
    pub fn tamed(mut self) -> Plan {
        let n = self.exprs.len();
        for x in self.exprs.iter_mut() {
            if !crate::gen::tame(x) {
                *x = crate::rx::var("a");
            }
        }
        for s in self.clients.iter_mut().flatten() {
            if s.op == "pow" && s.a < n && s.b < n {
                let x = Rx::Pow(self.exprs[s.a].clone().into(), self.exprs[s.b].clone().into());
                if !crate::gen::tame(&x) {
                    s.op = "mul".into();
                }
            }
        }
        self
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        o += &format!("property {}\n", self.prop);
        o += &format!("seed {}\n", self.seed);
        o += &format!("keys {}\naddr {}\nclock {}\nsched {}\nflav {}\n", self.keys, self.addr, self.clock, self.sched, self.flav);
        for (k, v) in &self.par {
            o += &format!("par {} {}\n", k, v);
        }
        for e in &self.exprs {
            o += &format!("expr {}\n", e);
        }
        for c in &self.clients {
            o += "client\n";
            for s in c {
                o += &format!("  step {} a={} b={} n={}", s.op, s.a, s.b, s.n);
                if let Some(x) = s.alloc_fail {
                    o += &format!(" alloc_fail={}", x);
                }
                if let Some(x) = s.cb_fail {
                    o += &format!(" cb_fail={}", x);
                }
                if s.restart != 0 {
                    o += &format!(" restart={}", s.restart);
                }
                if !s.pre.is_empty() {
                    o += &format!(" pre={}", s.pre.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>().join(","));
                }
                if !s.sink.is_empty() {
                    o += &format!(" sink={}", s.sink.iter().map(|(a, b)| format!("{}{}", a, b)).collect::<Vec<_>>().join(","));
                }
                o += "\n";
            }
        }
        o
    }
    pub fn parse(t: &str) -> Result<Plan, String> {
        let mut p = Plan::default();
        for (ln, line) in t.lines().enumerate() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let (h, rest) = line.split_once(' ').unwrap_or((line, ""));
            let num = |s: &str| s.parse::<u64>().map_err(|e| format!("line {}: {}", ln + 1, e));
            match h {
                "property" => p.prop = rest.to_string(),
                "seed" => p.seed = num(rest)?,
                "keys" => p.keys = num(rest)?,
                "addr" => p.addr = num(rest)?,
                "clock" => p.clock = num(rest)?,
                "sched" => p.sched = num(rest)?,
                "flav" => p.flav = num(rest)?,
                "par" => {
                    let (k, v) = rest.split_once(' ').ok_or("par")?;
                    p.par.insert(k.into(), v.parse().map_err(|_| "par")?);
                }
                "expr" => p.exprs.push(parse(rest)?),
                "client" => p.clients.push(vec![]),
                "step" => {
                    let mut w = rest.split(' ');
                    let mut s = Step { op: w.next().unwrap_or("").to_string(), ..Default::default() };
                    for kv in w {
                        let (k, v) = kv.split_once('=').ok_or_else(|| format!("line {}", ln + 1))?;
                        match k {
                            "a" => s.a = num(v)? as usize,
                            "b" => s.b = num(v)? as usize,
                            "n" => s.n = num(v)?,
                            "alloc_fail" => s.alloc_fail = Some(num(v)? as u32),
                            "cb_fail" => s.cb_fail = Some(num(v)? as u32),
                            "restart" => s.restart = num(v)? as u8,
                            "pre" => {
                                for x in v.split(',') {
                                    let (a, b) = x.split_once(':').ok_or("pre")?;
                                    s.pre.push((num(a)? as u32, num(b)? as u32));
                                }
                            }
                            "sink" => {
                                for x in v.split(',') {
                                    let c = x.chars().next().ok_or("sink")?;
                                    s.sink.push((c, num(&x[c.len_utf8()..])?));
                                }
                            }
                            _ => return Err(format!("line {}: {}", ln + 1, k)),
                        }
                    }
                    p.clients.last_mut().ok_or("step before client")?.push(s);
                }
                _ => return Err(format!("line {}: {}", ln + 1, h)),
            }
        }
        for c in &p.clients {
            for s in c {
                if s.a >= p.exprs.len().max(1) || s.b >= p.exprs.len().max(1) {
                    return Err("operand out of range".into());
                }
            }
        }
        Ok(p)
    }
    /// Smaller plans to try, most aggressive first.
    pub fn shrinks(&self) -> Vec<Plan> {
        let mut o: Vec<Plan> = vec![];
        let mut push = |f: &dyn Fn(&mut Plan)| {
            let mut p = self.clone();
            f(&mut p);
            if p != *self {
                o.push(p);
            }
        };
        // whole clients, halves of programs, single steps
        for c in 0..self.clients.len() {
            push(&|p| {
                p.clients.remove(c);
            });
        }
        for c in 0..self.clients.len() {
            let n = self.clients[c].len();
            if n >= 4 {
                push(&|p| {
                    p.clients[c].truncate(n / 2);
                });
                push(&|p| {
                    p.clients[c].drain(0..n / 2);
                });
            }
            for s in 0..n {
                push(&|p| {
                    p.clients[c].remove(s);
                });
            }
        }
        // faults and preemptions
        push(&|p| {
            for s in p.clients.iter_mut().flatten() {
                s.pre.clear();
            }
        });
        push(&|p| {
            for s in p.clients.iter_mut().flatten() {
                s.alloc_fail = None;
                s.cb_fail = None;
                s.restart = 0;
            }
        });
        for c in 0..self.clients.len() {
            for i in 0..self.clients[c].len() {
                let s = &self.clients[c][i];
                for k in 0..s.pre.len() {
                    push(&|p| {
                        p.clients[c][i].pre.remove(k);
                    });
                }
                for k in 0..s.sink.len() {
                    push(&|p| {
                        p.clients[c][i].sink.remove(k);
                    });
                    if s.sink[k].1 > 1 {
                        push(&|p| p.clients[c][i].sink[k].1 = 1);
                    }
                }
                push(&|p| p.clients[c][i].alloc_fail = None);
                push(&|p| p.clients[c][i].cb_fail = None);
                push(&|p| p.clients[c][i].restart = 0);
                if s.n != 0 {
                    push(&|p| p.clients[c][i].n = 0);
                }
                if s.a != 0 {
                    push(&|p| p.clients[c][i].a = 0);
                }
                if s.b != 0 {
                    push(&|p| p.clients[c][i].b = 0);
                }
            }
        }
        push(&|p| p.addr = 0);
        push(&|p| p.clock = 0);
        push(&|p| p.sched = 0);
        push(&|p| p.flav = 0);
        push(&|p| p.keys = 0);
        for (k, v) in &self.par {
            if *v > 1 {
                push(&|p| p.set(k, v / 2));
                push(&|p| p.set(k, v - 1));
            }
            if *v != 0 {
                push(&|p| p.set(k, 0));
            }
        }
        // unused expressions
        for e in (0..self.exprs.len()).rev() {
            if self.exprs.len() > 1 && !self.clients.iter().flatten().any(|s| s.a == e || s.b == e) {
                push(&|p| {
                    p.exprs.remove(e);
                    for s in p.clients.iter_mut().flatten() {
                        if s.a > e {
                            s.a -= 1;
                        }
                        if s.b > e {
                            s.b -= 1;
                        }
                    }
                });
            }
        }
        // the expressions themselves
        for e in 0..self.exprs.len() {
            for x in self.exprs[e].shrinks() {
                push(&|p| p.exprs[e] = x.clone());
            }
        }
        o
    }
}
/// Picks an operation by weight.
pub fn pick_op(r: &mut crate::rng::R, allow: &dyn Fn(&str) -> bool) -> String {
    let tot: usize = OPS.iter().filter(|o| allow(o.0)).map(|o| o.2).sum();
    let mut k = r.below(tot);
    for o in OPS.iter().filter(|o| allow(o.0)) {
        if k < o.2 {
            return o.0.to_string();
        }
        k -= o.2;
    }
    unreachable!()
}

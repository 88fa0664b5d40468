//! C06: formatting survives faulty sinks.
use crate::cnt;
use crate::gen::G;
use crate::plan::{Plan, Step};
use crate::rng::R;
use crate::rt::{self, call, in_fork, mix, outside, rt, CallPlan, Called, Exit, CALM};
use crate::run::*;
use crate::rx::{log, pow, t_of, Rx, T};
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use std::io::{self, Write};
use std::sync::Mutex;

pub const RULE: &str = "one case = one seeded simulation: 1-3 client threads format shared expressions to simulated sinks (byte sinks, buffered byte sinks, text sinks) that shorten, interrupt, refuse or fail writes or panic at chosen writes, with allocation failures and preemptions; non-trivial if at least one fault fired and the text has at least 2 pieces; distinct by plan and by the fault that was met at which byte";

/// Full text of an expression, written independently of the library's formatter.
pub fn text(t: &T) -> String {
    let list = |v: &[T], sep: &str| -> String {
        if v.is_empty() {
            return String::new();
        }
        format!("({})", v.iter().map(text).collect::<Vec<_>>().join(sep))
    };
    match t {
        T::I(n) => n.to_string(),
        T::R(x) => format!("{}", x),
        T::V(v) => v.clone(),
        T::Sum(v) => list(v, " + "),
        T::Prod(v) => list(v, " * "),
        T::Pow(a, b) => format!("pow({}, {})", text(a), text(b)),
        T::Log(a, b) => format!("log({}, {})", text(a), text(b)),
        T::Sin(a) => format!("sin({})", text(a)),
        T::Cos(a) => format!("cos({})", text(a)),
    }
}

pub struct SimSinkPanic;

/// One simulated sink. Event by event: k accept at most n bytes; i interrupted;
/// w would-block error; e permanent error; d full after n more bytes; z accepts nothing;
/// p panics; r writes an expression of its own elsewhere before it accepts everything. After the last event the sink is healthy. A capital letter comes first and
/// happens at the write that passes that many thousandths of the text.
struct Sink<'a> {
    ev: &'a [(char, u64)],
    at: usize,
    /// byte and event
    placed: Option<(usize, char)>,
    got: Vec<u8>,
    /// first error reported, and how much was pushed at the sink after that
    failed: Option<&'static str>,
    after: u64,
    room: Option<u64>,
    dead: bool,
    fired: u64,
    /// what the sink got when it wrote an expression itself
    own: Option<String>,
}
impl<'a> Sink<'a> {
    fn new(ev: &'a [(char, u64)], len: usize) -> Sink<'a> {
        let placed = match ev.first() {
            Some((c, n)) if c.is_ascii_uppercase() => Some((*n as usize * len / 1000, c.to_ascii_lowercase())),
            _ => None,
        };
        Sink { ev, at: placed.is_some() as usize, placed, got: vec![], failed: None, after: 0, room: None, dead: false, fired: 0, own: None }
    }
    fn fail(&mut self, k: &'static str) {
        self.fired += 1;
        if self.failed.is_none() {
            self.failed = Some(k);
        }
    }
    fn put(&mut self, b: &[u8], text_sink: bool) -> Result<usize, io::Error> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed.is_some() {
            self.after += 1;
        }
        if self.dead {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "sink is gone"));
        }
        if let Some(room) = self.room {
            if room == 0 {
                self.fail("full");
                return Err(io::Error::from_raw_os_error(28));
            }
            let n = (room as usize).min(b.len());
            if text_sink && n < b.len() {
                self.fail("full");
                return Err(io::Error::from_raw_os_error(28));
            }
            self.got.extend_from_slice(&b[..n]);
            self.room = Some(room - n as u64);
            return Ok(n);
        }
        let event = match self.placed {
            Some((at, c)) if self.got.len() + b.len() > at => {
                self.placed = None;
                Some((c, at.saturating_sub(self.got.len()) as u64))
            }
            _ if self.at < self.ev.len() => {
                self.at += 1;
                Some(self.ev[self.at - 1])
            }
            _ => None,
        };
        if let Some((k, n)) = event {
            match k {
                'k' => {
                    let n = if text_sink { b.len() } else { (n.max(1) as usize).min(b.len()) };
                    if n < b.len() {
                        cnt!("short_writes");
                        self.fired += 1;
                    }
                    self.got.extend_from_slice(&b[..n]);
                    return Ok(n);
                }
                'i' if !text_sink => {
                    cnt!("sink_interrupts");
                    self.fired += 1;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "simulated EINTR"));
                }
                'w' => {
                    cnt!("sink_transient_errors");
                    self.fail("would block");
                    return Err(io::Error::new(io::ErrorKind::WouldBlock, "simulated"));
                }
                'e' => {
                    cnt!("sink_permanent_errors");
                    self.dead = true;
                    self.fail("gone");
                    return Err(io::Error::new(io::ErrorKind::BrokenPipe, "sink is gone"));
                }
                'd' => {
                    cnt!("sink_disk_full");
                    self.room = Some(n);
                    if n == 0 {
                        self.fail("full");
                        return Err(io::Error::from_raw_os_error(28));
                    }
                    self.fired += 1;
                    return self.put(b, text_sink);
                }
                'z' if !text_sink => {
                    cnt!("zero_writes");
                    self.fail("zero");
                    return Ok(0);
                }
                'r' => {
                    cnt!("reentrant_sinks");
                    self.fired += 1;
                    let e = Expression::power(
                        Expression::addition(vec![Symbol::variable("q").expr(), Symbol::integer(7).expr()]),
                        Symbol::integer(n as isize % 5).expr() * Symbol::variable("long name of an exponent").expr(),
                    );
                    let own = e.to_string();
                    if own != text(&t_of(&e)) {
                        self.own = Some(own);
                    }
                }
                'p' => {
                    cnt!("sink_panics");
                    self.fail("panic");
                    std::panic::panic_any(SimSinkPanic);
                }
                _ => {}
            }
        }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
}
impl Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        outside(|| self.put(b, false))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct TextSink<'a, 'b>(&'b mut Sink<'a>);
impl std::fmt::Write for TextSink<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        outside(|| match self.0.put(s.as_bytes(), true) {
            Ok(_) => Ok(()),
            Err(_) => {
                cnt!("fmt_sink_errors");
                Err(std::fmt::Error)
            }
        })
    }
}
const MODES: u64 = 6;
fn kind(e: &io::Error) -> &'static str {
    match e.kind() {
        io::ErrorKind::WouldBlock => "would block",
        io::ErrorKind::BrokenPipe => "gone",
        io::ErrorKind::WriteZero => "zero",
        _ if e.raw_os_error() == Some(28) => "full",
        _ => "formatter error",
    }
}
/// Formats; Ok or the kind of the error handed to the caller.
fn emit(mode: u64, cap: usize, a: &Expression, b: &Expression, sink: &mut Sink) -> Result<(), &'static str> {
    match mode {
        0 => write!(sink, "{}", a).map_err(|e| kind(&e)),
        1 => {
            // a buffered writer must not write again when dropped: the check is over by then
            let mut w = std::mem::ManuallyDrop::new(io::BufWriter::with_capacity(cap, sink));
            let r = write!(w, "{}", a).and_then(|_| w.flush()).map_err(|e| kind(&e));
            let (_, buf) = std::mem::ManuallyDrop::into_inner(w).into_parts();
            drop(buf);
            r
        }
        2 => {
            use std::fmt::Write as _;
            write!(TextSink(sink), "{}", a).map_err(|_| "formatter error")
        }
        3 => write!(sink, "[{}] = <{}>;", a, b).map_err(|e| kind(&e)),
        4 => {
            use std::fmt::Write as _;
            write!(TextSink(sink), "{}{}", a, b).map_err(|_| "formatter error")
        }
        _ => {
            struct Wrap<'x>(&'x Expression);
            impl std::fmt::Display for Wrap<'_> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "x := ")?;
                    self.0.fmt(f)
                }
            }
            write!(sink, "{}", Wrap(a)).map_err(|e| kind(&e))
        }
    }
}
fn full(mode: u64, a: &str, b: &str) -> String {
    match mode {
        3 => format!("[{}] = <{}>;", a, b),
        4 => format!("{}{}", a, b),
        5 => format!("x := {}", a),
        _ => a.to_string(),
    }
}

pub fn gen(seed: u64) -> Plan {
    let mut r = R::new(mix(seed, 0xC06));
    let mut p = Plan { prop: "C06".into(), seed, keys: r.u(), addr: r.u(), clock: r.u(), sched: r.u(), flav: r.u(), ..Default::default() };
    let mut g = G::new(r.u(), true);
    let n = 1 + r.below(2);
    for i in 0..n {
        let d = 1 + r.below(3);
        let x = match r.below(12) {
            0 => g.wide(false),
            1 => g.deep(),
            2 => {
                let n = g.bigint();
                Rx::Int(num::pow::pow(n, 1 + r.below(4)))
            }
            3 => Rx::Var("long variable name, höchst ungewöhnlich ".repeat(1 + r.below(4))),
            _ => g.general(d),
        };
        let x = match r.below(12) {
            0 => pow(x, Rx::Var("e".into())),
            1 => log(Rx::Var("e".into()), x),
            2 => Rx::Sin(Box::new(x)),
            _ => x,
        };
        // no operands at all: only the associations' own constructor makes that
        let empty = r.pct(2);
        let x = if empty {
            let e = if r.pct(50) { Rx::Sum(vec![]) } else { Rx::Prod(vec![]) };
            if r.pct(50) { e } else { pow(x, e) }
        } else {
            x
        };
        let most = if r.pct(15) { 700 } else { 90 };
        p.exprs.push(if x.size() <= most && crate::gen::tame(&x) { x } else { g.var() });
        if empty || r.pct(25) {
            let v = p.p("raw") | 1 << i;
            p.set("raw", v);
        }
    }
    let clients = if r.pct(60) { 1 } else { 2 + r.below(2) };
    for _ in 0..clients {
        let mut prog = vec![];
        for _ in 0..1 + r.below(3) {
            let mode = r.below(MODES as usize) as u64;
            let cap = *r.pick(&[1u64, 2, 3, 5, 8, 16, 64]);
            let mut s = Step { op: "fmt".into(), a: r.below(n), b: r.below(n), n: mode | cap << 4, ..Default::default() };
            let k = r.below(6);
            for _ in 0..k {
                s.sink.push(('k', *r.pick(&[1u64, 1, 2, 3, 7, 1000])));
            }
            for _ in 0..r.below(3) {
                let at = r.below(s.sink.len() + 1);
                s.sink.insert(at, ('i', 0));
            }
            if r.pct(75) {
                let far = r.pct(20);
                let at = r.below(if far { 100 } else { 12 });
                let c = *r.pick(&['w', 'e', 'd', 'd', 'z', 'p', 'e', 'w']);
                let arg = if c == 'd' { r.below(if far { 400 } else { 40 }) as u64 } else { 0 };
                while s.sink.len() < at {
                    s.sink.push(('k', 1000));
                }
                s.sink.insert(at.min(s.sink.len()), (c, arg));
            }
            if r.pct(30) {
                let c = *r.pick(&['K', 'I', 'W', 'E', 'D', 'Z', 'P', 'W', 'D', 'R']);
                let at = if r.pct(25) { 950 + r.below(50) } else { r.below(1000) };
                s.sink.insert(0, (c, at as u64));
            }
            if r.pct(12) {
                let at = r.below(s.sink.len() + 1);
                let after_placed = s.sink.first().map_or(false, |e| e.0.is_ascii_uppercase()) as usize;
                s.sink.insert(at.max(after_placed), ('r', r.below(5) as u64));
            }
            if r.pct(15) {
                s.alloc_fail = Some(r.below(1000) as u32);
            }
            if clients > 1 {
                let k = r.below(3);
                s.pre = super::c04::preempts(&mut r, k);
            }
            prog.push(s);
        }
        p.clients.push(prog);
    }
    // a thread that has seen very many sinks fail
    if r.pct(2) {
        let c = r.below(p.clients.len());
        let first = p.clients[c][0].clone();
        let same = r.pct(50);
        for _ in 0..40 + r.below(160) {
            let mut s = if same { first.clone() } else { Step { op: "fmt".into(), a: r.below(n), b: r.below(n), n: r.below(MODES as usize) as u64 | 8 << 4, ..Default::default() } };
            s.pre.clear();
            s.alloc_fail = if r.pct(10) { Some(r.below(1000) as u32) } else { None };
            let at = r.below(8);
            s.sink = vec![('k', 1000); at];
            s.sink.push((*r.pick(&['w', 'e', 'd', 'z', 'p', 'e', 'w']), r.below(30) as u64));
            p.clients[c].insert(0, s);
        }
    }
    p
}

pub fn run(p: &Plan) -> Report {
    // cost of formatting on a healthy sink, for placing faults
    let (ex, out) = in_fork(|| {
        rt::set_keys(0xfeed);
        rt::set_layout(0);
        rt().budget = REF_BUDGET;
        let exprs: Vec<_> = (0..p.exprs.len()).map(|i| built(p, i).ok()).collect();
        let mut o = vec![];
        for e in &exprs {
            match e {
                Some(e) => {
                    let mut s = Sink::new(&[], 0);
                    let r = call(&CALM, || emit(0, 1, e, e, &mut s));
                    let st = rt::steps_of_call();
                    let al = rt::allocs_of_call();
                    let want = text(&t_of(e));
                    o.push(st.to_string());
                    o.push(al.to_string());
                    o.push(want);
                    o.push(match r {
                        Called::Ret(Ok(())) => String::from_utf8_lossy(&s.got).to_string(),
                        Called::Ret(Err(k)) => format!("error {}", k),
                        Called::Panic(m) => format!("panic {}", m),
                    });
                }
                None => o.extend(["0", "0", "", ""].map(String::from)),
            }
        }
        pack(o)
    });
    check_harness(&ex, &out);
    if ex != Exit::Ok {
        return Report::bad(&exit_name(&ex), format!("formatting to a healthy sink ended with {}", exit_name(&ex)));
    }
    let base = unpack(&out);
    for (i, c) in base.chunks(4).enumerate() {
        if c[2] != c[3] {
            return Report::bad("wrong text", format!("{} written to a healthy sink gives {:?}, its text is {:?}", p.exprs[i], c[3], c[2]));
        }
    }
    let cost = |i: usize| -> (u64, u64) { (base[4 * i].parse().unwrap(), base[4 * i + 1].parse().unwrap()) };
    let total: u64 = p.clients.iter().flatten().map(|s| cost(s.a).0 + cost(s.b).0).sum();
    let (ex, out) = in_fork(|| {
        rt::set_layout(p.addr);
        rt::set_clock(p.clock);
        rt::set_keys(mix(p.keys, 0));
        let exprs: Vec<_> = (0..p.exprs.len()).map(|i| built(p, i).ok()).collect();
        let texts: Vec<String> = exprs.iter().map(|e| e.as_ref().map(|e| text(&t_of(e))).unwrap_or_default()).collect();
        rt().step = 0;
        rt().budget = 100 * total + 20_000_000;
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        let sig = Mutex::new((0u64, 0u64));
        let lives: Vec<usize> = vec![1; p.clients.len()];
        rt::run_clients(&lives, p.sched, p.keys, &|c, _| {
            for (i, s) in p.clients[c].iter().enumerate() {
                let (a, b) = match (&exprs[s.a], &exprs[s.b]) {
                    (Some(a), Some(b)) => (a, b),
                    _ => continue,
                };
                let (mode, cap) = (s.n & 15, ((s.n >> 4) as usize).max(1));
                let mode = mode % MODES;
                let want = full(mode, &texts[s.a], &texts[s.b]);
                let (st, al) = cost(s.a);
                let r = Ref { outcome: None, steps: st, allocs: al };
                let (pre, fail) = step_faults(s, &r);
                let mut sink = Sink::new(&s.sink, want.len());
                let res = call(&CallPlan { pre: &pre, fail_at: fail }, || emit(mode, cap, a, b, &mut sink));
                let fired = rt::alloc_fault_fired();
                let got = String::from_utf8_lossy(&sink.got).to_string();
                let mut problem = None;
                let text_sink = mode == 2 || mode == 4;
                match (&res, sink.failed) {
                    (Called::Panic(_), _) if fired => {}
                    (Called::Panic(_), Some("panic")) => {}
                    (Called::Panic(m), f) => problem = Some(("panic", format!("panicked ({}) although the sink {}", m, f.map(|k| format!("only reported an error ({})", k)).unwrap_or("was healthy".into())))),
                    (Called::Ret(Ok(())), Some(k)) => problem = Some(("claimed success", format!("claimed success although the sink failed ({})", k))),
                    (Called::Ret(Ok(())), None) => {
                        if got != want {
                            problem = Some(("wrong text", format!("delivered {:?} instead of {:?}", got, want)));
                        }
                    }
                    (Called::Ret(Err(k)), Some(f)) => {
                        if !text_sink && *k != f {
                            problem = Some(("wrong error", format!("reported '{}' when the sink failed with '{}'", k, f)));
                        }
                    }
                    (Called::Ret(Err(k)), None) => problem = Some(("false error", format!("reported '{}' although the sink was healthy", k))),
                }
                if problem.is_none() && sink.after > 0 {
                    problem = Some(("kept writing", format!("wrote to the sink {} more times after it had failed ({})", sink.after, sink.failed.unwrap_or(""))));
                }
                if problem.is_none() && !want.as_bytes().starts_with(&sink.got) {
                    problem = Some(("not a prefix", format!("the sink accepted {:?}, which is no prefix of {:?}", got, want)));
                }
                if let (None, Some(own)) = (&problem, &sink.own) {
                    problem = Some(("wrong text", format!("made the sink write {:?} for an expression of its own", own)));
                }
                // afterwards a healthy sink gets everything
                let mut healthy = Sink::new(&[], 0);
                let again = call(&CALM, || emit(mode, cap, a, b, &mut healthy));
                let got2 = String::from_utf8_lossy(&healthy.got).to_string();
                if problem.is_none() && (got2 != want || !matches!(again, Called::Ret(Ok(())))) {
                    problem = Some(("later attempt", format!("a later attempt on a healthy sink delivered {:?} instead of {:?}", got2, want)));
                }
                let mut sg = sig.lock().unwrap();
                sg.0 = mix(sg.0, text_hash(&format!("{} {:?} {} {}", mode, sink.failed, sink.got.len(), want.len())));
                if (sink.fired > 0 || fired) && want.len() > 3 {
                    sg.1 += 1;
                }
                if let Some((c2, m)) = problem {
                    let mut b = bad.lock().unwrap();
                    b.push(c2.to_string());
                    b.push(format!("client {} step {}: writing {} {}", c, i, p.exprs[s.a], m));
                }
            }
        });
        let (sg, nt) = sig.into_inner().unwrap();
        let mut o = vec![mix(sg, rt().sig).to_string(), nt.to_string()];
        o.extend(bad.into_inner().unwrap());
        pack(o)
    });
    check_harness(&ex, &out);
    if ex != Exit::Ok {
        return Report::bad(&exit_name(&ex), format!("formatting ended with {}", exit_name(&ex)));
    }
    let v = unpack(&out);
    if v.len() >= 4 {
        return Report::bad(&v[2], v[3].clone());
    }
    Report { viol: None, sig: mix(v[0].parse().unwrap(), text_hash(&p.text())), nontrivial: v[1] != "0" }
}

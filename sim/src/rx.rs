//! Recipes: what a user wrote. Everything the simulator knows about an expression
//! independently of the library is derived from here.
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use num::rational::BigRational;
use num::{One, Signed, ToPrimitive, Zero};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Rx {
    Int(BigInt),
    Real(f64),
    Var(String),
    Add(Box<Rx>, Box<Rx>),
    Sub(Box<Rx>, Box<Rx>),
    Mul(Box<Rx>, Box<Rx>),
    Div(Box<Rx>, Box<Rx>),
    Neg(Box<Rx>),
    Pow(Box<Rx>, Box<Rx>),
    Log(Box<Rx>, Box<Rx>),
    Sin(Box<Rx>),
    Cos(Box<Rx>),
    Sum(Vec<Rx>),
    Prod(Vec<Rx>),
}
use Rx::*;

pub fn int(n: i64) -> Rx {
    Int(BigInt::from(n))
}
pub fn var(s: &str) -> Rx {
    Var(s.to_string())
}
pub fn add(a: Rx, b: Rx) -> Rx {
    Add(Box::new(a), Box::new(b))
}
pub fn sub(a: Rx, b: Rx) -> Rx {
    Sub(Box::new(a), Box::new(b))
}
pub fn mul(a: Rx, b: Rx) -> Rx {
    Mul(Box::new(a), Box::new(b))
}
pub fn div(a: Rx, b: Rx) -> Rx {
    Div(Box::new(a), Box::new(b))
}
pub fn pow(a: Rx, b: Rx) -> Rx {
    Pow(Box::new(a), Box::new(b))
}
pub fn log(a: Rx, b: Rx) -> Rx {
    Log(Box::new(a), Box::new(b))
}
pub fn neg(a: Rx) -> Rx {
    Neg(Box::new(a))
}

impl Rx {
    pub fn kids(&self) -> Vec<&Rx> {
        match self {
            Int(_) | Real(_) | Var(_) => vec![],
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) | Pow(a, b) | Log(a, b) => vec![a, b],
            Neg(a) | Sin(a) | Cos(a) => vec![a],
            Sum(v) | Prod(v) => v.iter().collect(),
        }
    }
    pub fn with_kid(&self, i: usize, k: Rx) -> Rx {
        let mut r = self.clone();
        match &mut r {
            Add(a, b) | Sub(a, b) | Mul(a, b) | Div(a, b) | Pow(a, b) | Log(a, b) => {
                if i == 0 { **a = k } else { **b = k }
            }
            Neg(a) | Sin(a) | Cos(a) => **a = k,
            Sum(v) | Prod(v) => v[i] = k,
            _ => {}
        }
        r
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn any(&self, f: &dyn Fn(&Rx) -> bool) -> bool {
        f(self) || self.kids().iter().any(|k| k.any(f))
    }
    pub fn vars(&self) -> Vec<String> {
        fn go(r: &Rx, o: &mut Vec<String>) {
            if let Var(v) = r {
                if !o.contains(v) {
                    o.push(v.clone());
                }
            }
            for k in r.kids() {
                go(k, o);
            }
        }
        let mut o = vec![];
        go(self, &mut o);
        o
    }
    /// The same expression about other variables.
    pub fn renamed(&self, f: &dyn Fn(&str) -> String) -> Rx {
        if let Var(v) = self {
            return Var(f(v));
        }
        let mut x = self.clone();
        for (i, k) in self.kids().into_iter().enumerate() {
            x = x.with_kid(i, k.renamed(f));
        }
        x
    }
    /// Candidates for minimisation, most aggressive first.
    pub fn shrinks(&self) -> Vec<Rx> {
        let mut o: Vec<Rx> = vec![];
        match self {
            Int(n) => {
                let a = n.abs();
                for c in [BigInt::zero(), BigInt::one(), BigInt::from(2)] {
                    if c < a {
                        o.push(Int(if n.is_negative() { -c.clone() } else { c }));
                    }
                }
                if a > BigInt::from(4) {
                    o.push(Int(n / 2));
                    for k in [a.bits() * 3 / 4, a.bits() / 2, a.bits() / 4] {
                        o.push(Int((n >> k) << k));
                    }
                    if a < BigInt::from(1000) {
                        o.push(Int(n - n.signum()));
                    }
                }
                if n.is_negative() {
                    o.push(Int(-n));
                }
                return o;
            }
            Real(x) => {
                for c in [1.0, 2.0, 0.5, x.round(), (x * 10.0).round() / 10.0] {
                    if c != *x && c.to_string().len() < x.to_string().len() {
                        o.push(Real(c));
                    }
                }
                return o;
            }
            Var(v) => {
                if v != "a" {
                    o.push(var("a"));
                }
                return o;
            }
            _ => {}
        }
        for k in self.kids() {
            o.push(k.clone());
        }
        if let Sum(v) | Prod(v) = self {
            for i in 0..v.len() {
                let mut w = v.clone();
                w.remove(i);
                o.push(if let Sum(_) = self { Sum(w) } else { Prod(w) });
            }
        }
        let kids: Vec<Rx> = self.kids().into_iter().cloned().collect();
        for (i, k) in kids.iter().enumerate() {
            for s in k.shrinks() {
                o.push(self.with_kid(i, s));
            }
        }
        o
    }
}

// ------------------------------------------------------------------ text
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
impl std::fmt::Display for Rx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Int(n) => write!(f, "{}", n),
            Real(x) => write!(f, "r{:?}", x),
            Var(v) => write!(f, "{}", quote(v)),
            Add(a, b) => write!(f, "(+ {} {})", a, b),
            Sub(a, b) => write!(f, "(- {} {})", a, b),
            Mul(a, b) => write!(f, "(* {} {})", a, b),
            Div(a, b) => write!(f, "(/ {} {})", a, b),
            Pow(a, b) => write!(f, "(^ {} {})", a, b),
            Log(a, b) => write!(f, "(log {} {})", a, b),
            Neg(a) => write!(f, "(neg {})", a),
            Sin(a) => write!(f, "(sin {})", a),
            Cos(a) => write!(f, "(cos {})", a),
            Sum(v) | Prod(v) => {
                write!(f, "({}", if let Sum(_) = self { "sum" } else { "prod" })?;
                for x in v {
                    write!(f, " {}", x)?;
                }
                write!(f, ")")
            }
        }
    }
}
pub fn parse(s: &str) -> Result<Rx, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let r = parse_at(&c, &mut i)?;
    while i < c.len() && c[i].is_whitespace() {
        i += 1;
    }
    if i != c.len() {
        return Err(format!("trailing text in expression at {}", i));
    }
    Ok(r)
}
fn parse_at(c: &[char], i: &mut usize) -> Result<Rx, String> {
    while *i < c.len() && c[*i].is_whitespace() {
        *i += 1;
    }
    if *i >= c.len() {
        return Err("unexpected end of expression".into());
    }
    if c[*i] == '"' {
        let mut s = String::new();
        *i += 1;
        while *i < c.len() && c[*i] != '"' {
            if c[*i] == '\\' {
                *i += 1;
                s.push(if c[*i] == 'n' { '\n' } else { c[*i] });
            } else {
                s.push(c[*i]);
            }
            *i += 1;
        }
        *i += 1;
        return Ok(Var(s));
    }
    let word = |i: &mut usize| {
        let mut w = String::new();
        while *i < c.len() && !c[*i].is_whitespace() && c[*i] != '(' && c[*i] != ')' {
            w.push(c[*i]);
            *i += 1;
        }
        w
    };
    if c[*i] == '(' {
        *i += 1;
        let h = word(i);
        let mut v = vec![];
        loop {
            while *i < c.len() && c[*i].is_whitespace() {
                *i += 1;
            }
            if *i >= c.len() {
                return Err("missing )".into());
            }
            if c[*i] == ')' {
                *i += 1;
                break;
            }
            v.push(parse_at(c, i)?);
        }
        let two = |v: Vec<Rx>| -> Result<(Box<Rx>, Box<Rx>), String> {
            let mut it = v.into_iter();
            match (it.next(), it.next(), it.next()) {
                (Some(a), Some(b), None) => Ok((Box::new(a), Box::new(b))),
                _ => Err("two operands expected".into()),
            }
        };
        return Ok(match h.as_str() {
            "+" => { let (a, b) = two(v)?; Add(a, b) }
            "-" => { let (a, b) = two(v)?; Sub(a, b) }
            "*" => { let (a, b) = two(v)?; Mul(a, b) }
            "/" => { let (a, b) = two(v)?; Div(a, b) }
            "^" => { let (a, b) = two(v)?; Pow(a, b) }
            "log" => { let (a, b) = two(v)?; Log(a, b) }
            "neg" | "sin" | "cos" => {
                let a = Box::new(v.into_iter().next().ok_or("operand expected")?);
                match h.as_str() {
                    "neg" => Neg(a),
                    "sin" => Sin(a),
                    _ => Cos(a),
                }
            }
            "sum" => Sum(v),
            "prod" => Prod(v),
            _ => return Err(format!("unknown operator {}", h)),
        });
    }
    let w = word(i);
    if let Some(r) = w.strip_prefix('r') {
        return r.parse().map(Real).map_err(|e| format!("{}: {}", w, e));
    }
    w.parse().map(Int).map_err(|_| format!("bad number {}", w))
}

// ------------------------------------------------------------------ building with the library
pub fn big(n: &BigInt) -> Expression {
    match n.to_isize() {
        Some(i) => Symbol::integer(i).expr(),
        None => Expression::Integer(Symbol { data: n.clone() }),
    }
}
/// Builds through the public API; `fl` picks which of the equivalent operator
/// implementations (by value, by reference) is used.
pub fn build(r: &Rx, fl: &mut u64) -> Expression {
    let mut bits = || {
        *fl = fl.rotate_right(2);
        *fl & 3
    };
    match r {
        Int(n) => big(n),
        Real(x) => Symbol::real(*x).expr(),
        Var(v) => Symbol::variable(v).expr(),
        Add(a, b) => {
            let k = bits();
            let (a, b) = (build(a, fl), build(b, fl));
            match k { 0 => a + b, 1 => a + &b, 2 => &a + b, _ => &a + &b }
        }
        Sub(a, b) => {
            let k = bits();
            let (a, b) = (build(a, fl), build(b, fl));
            match k { 0 => a - b, 1 => a - &b, 2 => &a - b, _ => &a - &b }
        }
        Mul(a, b) => {
            let k = bits();
            let (a, b) = (build(a, fl), build(b, fl));
            match k { 0 => a * b, 1 => a * &b, 2 => &a * b, _ => &a * &b }
        }
        Div(a, b) => {
            let k = bits();
            let (a, b) = (build(a, fl), build(b, fl));
            match k { 0 => a / b, 1 => a / &b, 2 => &a / b, _ => &a / &b }
        }
        Neg(a) => {
            let k = bits();
            let a = build(a, fl);
            if k & 1 == 0 { -a } else { -&a }
        }
        Pow(a, b) => {
            let k = bits();
            let (a, b) = (build(a, fl), build(b, fl));
            if k & 1 == 0 { a.pow(b) } else { Expression::power(a, b) }
        }
        Log(a, b) => {
            let k = bits();
            let (a, b) = (build(a, fl), build(b, fl));
            if k & 1 == 0 { a.log(b) } else { Expression::logarithm(a, b) }
        }
        Sin(a) => Expression::Sine(Operation::new(build(a, fl))),
        Cos(a) => Expression::Cossine(Operation::new(build(a, fl))),
        Sum(v) => Expression::addition(v.iter().map(|x| build(x, fl)).collect()),
        Prod(v) => Expression::multiplication(v.iter().map(|x| build(x, fl)).collect()),
    }
}
/// Builds the tree literally, without the simplifying constructors.
pub fn build_raw(r: &Rx) -> Expression {
    let two = |a: &Rx, b: &Rx| vec![build_raw(a), build_raw(b)];
    match r {
        Int(n) => big(n),
        Real(x) => Symbol::real(*x).expr(),
        Var(v) => Symbol::variable(v).expr(),
        Add(a, b) => Expression::Addition(CommutativeAssociation::new(two(a, b))),
        Sub(a, b) => Expression::Addition(CommutativeAssociation::new(vec![build_raw(a), build_raw(&Neg(b.clone()))])),
        Mul(a, b) => Expression::Multiplication(CommutativeAssociation::new(two(a, b))),
        Div(a, b) => Expression::Multiplication(CommutativeAssociation::new(vec![
            build_raw(a),
            Expression::Power(AssociativeOperation::new(build_raw(b), Symbol::integer(-1).expr())),
        ])),
        Neg(a) => Expression::Multiplication(CommutativeAssociation::new(vec![Symbol::integer(-1).expr(), build_raw(a)])),
        Pow(a, b) => Expression::Power(AssociativeOperation::new(build_raw(a), build_raw(b))),
        Log(a, b) => Expression::Logarithm(AssociativeOperation::new(build_raw(a), build_raw(b))),
        Sin(a) => Expression::Sine(Operation::new(build_raw(a))),
        Cos(a) => Expression::Cossine(Operation::new(build_raw(a))),
        Sum(v) => Expression::Addition(CommutativeAssociation::new(v.iter().map(build_raw).collect())),
        Prod(v) => Expression::Multiplication(CommutativeAssociation::new(v.iter().map(build_raw).collect())),
    }
}

// ------------------------------------------------------------------ plain trees
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    I(BigInt),
    R(f64),
    V(String),
    Sum(Vec<T>),
    Prod(Vec<T>),
    Pow(Box<T>, Box<T>),
    Log(Box<T>, Box<T>),
    Sin(Box<T>),
    Cos(Box<T>),
}
pub fn t_of_rx(r: &Rx) -> T {
    let m1 = || T::I(BigInt::from(-1));
    let bx = |x: &Rx| Box::new(t_of_rx(x));
    match r {
        Int(n) => T::I(n.clone()),
        Real(x) => T::R(*x),
        Var(v) => T::V(v.clone()),
        Add(a, b) => T::Sum(vec![t_of_rx(a), t_of_rx(b)]),
        Sub(a, b) => T::Sum(vec![t_of_rx(a), T::Prod(vec![m1(), t_of_rx(b)])]),
        Mul(a, b) => T::Prod(vec![t_of_rx(a), t_of_rx(b)]),
        Div(a, b) => T::Prod(vec![t_of_rx(a), T::Pow(bx(b), Box::new(m1()))]),
        Neg(a) => T::Prod(vec![m1(), t_of_rx(a)]),
        Pow(a, b) => T::Pow(bx(a), bx(b)),
        Log(a, b) => T::Log(bx(a), bx(b)),
        Sin(a) => T::Sin(bx(a)),
        Cos(a) => T::Cos(bx(a)),
        Sum(v) => T::Sum(v.iter().map(t_of_rx).collect()),
        Prod(v) => T::Prod(v.iter().map(t_of_rx).collect()),
    }
}
pub fn t_of(e: &Expression) -> T {
    match e {
        Expression::Integer(n) => T::I(n.data.clone()),
        Expression::Real(x) => T::R(x.data),
        Expression::Variable(v) => T::V(v.data.clone()),
        Expression::Addition(c) => T::Sum(c.items().iter().map(t_of).collect()),
        Expression::Multiplication(c) => T::Prod(c.items().iter().map(t_of).collect()),
        Expression::Power(p) => T::Pow(Box::new(t_of(&p.argument())), Box::new(t_of(&p.modifier()))),
        Expression::Logarithm(p) => T::Log(Box::new(t_of(&p.argument())), Box::new(t_of(&p.modifier()))),
        Expression::Sine(p) => T::Sin(Box::new(t_of(&p.argument()))),
        Expression::Cossine(p) => T::Cos(Box::new(t_of(&p.argument()))),
    }
}
impl T {
    pub fn any(&self, f: &dyn Fn(&T) -> bool) -> bool {
        f(self)
            || match self {
                T::I(_) | T::R(_) | T::V(_) => false,
                T::Sum(v) | T::Prod(v) => v.iter().any(|x| x.any(f)),
                T::Pow(a, b) | T::Log(a, b) => a.any(f) || b.any(f),
                T::Sin(a) | T::Cos(a) => a.any(f),
            }
    }
}
/// Exact rendering: structure in presentation order, reals by their bits.
impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let list = |f: &mut std::fmt::Formatter<'_>, n: &str, v: &[&T]| {
            write!(f, "({}", n)?;
            for x in v {
                write!(f, " {}", x)?;
            }
            write!(f, ")")
        };
        match self {
            T::I(n) => write!(f, "{}", n),
            T::R(x) if x.is_nan() => write!(f, "rNaN"),
            T::R(x) => write!(f, "r{:?}", x),
            T::V(v) => write!(f, "{}", quote(v)),
            T::Sum(v) => list(f, "sum", &v.iter().collect::<Vec<_>>()),
            T::Prod(v) => list(f, "prod", &v.iter().collect::<Vec<_>>()),
            T::Pow(a, b) => list(f, "^", &[a, b]),
            T::Log(a, b) => list(f, "log", &[a, b]),
            T::Sin(a) => list(f, "sin", &[a]),
            T::Cos(a) => list(f, "cos", &[a]),
        }
    }
}
pub fn dump(e: &Expression) -> String {
    t_of(e).to_string()
}

// ------------------------------------------------------------------ evaluation
/// A value in double precision with a bound on what rounding may have done to it.
#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub v: f64,
    pub e: f64,
}
const EPS: f64 = 1e-13;
pub enum No {
    /// outside the domain the properties speak about
    Domain,
    /// inside, but too large, too small or too imprecise to judge
    Unsure,
}
pub type Assign = BTreeMap<String, BigRational>;

/// Value of an expression. `strict` restricts to the domain the properties speak about:
/// under a power whose exponent is not an integer constant, and under a logarithm, every
/// factor must be positive. Without it, only definedness is asked for.
pub fn eval(t: &T, env: &Assign, strict: bool) -> Result<Num, No> {
    ev(t, env, false, strict)
}
fn ev(t: &T, env: &Assign, pos: bool, strict: bool) -> Result<Num, No> {
    let chk = |n: Num| -> Result<Num, No> {
        if !n.v.is_finite() || !n.e.is_finite() || n.v.abs() > 1e250 {
            return Err(No::Unsure);
        }
        if n.v != 0.0 && n.v.abs() < 1e-250 {
            return Err(No::Unsure);
        }
        if n.e > 1e-4 * n.v.abs().max(1.0) {
            return Err(No::Unsure);
        }
        if pos {
            if n.v <= 0.0 {
                return Err(No::Domain);
            }
            if n.v <= 16.0 * n.e {
                return Err(No::Unsure);
            }
        }
        Ok(n)
    };
    match t {
        T::I(n) => {
            let v = n.to_f64().ok_or(No::Unsure)?;
            chk(Num { v, e: v.abs() * 2.3e-16 })
        }
        T::R(x) => chk(Num { v: *x, e: 0.0 }),
        T::V(s) => {
            let q = env.get(s).ok_or(No::Domain)?;
            let v = q.numer().to_f64().unwrap() / q.denom().to_f64().unwrap();
            chk(Num { v, e: v.abs() * 2.3e-16 })
        }
        T::Sum(xs) => {
            let (mut v, mut e, mut m) = (0.0, 0.0, 0.0f64);
            for x in xs {
                // under `pos`, a sum may subtract positive things
                let n = if pos && strict { eval_signed(x, env)? } else { ev(x, env, false, strict)? };
                v += n.v;
                e += n.e;
                m = m.max(v.abs()).max(n.v.abs());
                e += EPS * m;
            }
            chk(Num { v, e })
        }
        T::Prod(xs) => {
            let (mut v, mut e) = (1.0f64, 0.0f64);
            for x in xs {
                let n = ev(x, env, pos && strict, strict)?;
                e = v.abs() * n.e + n.v.abs() * e + e * n.e;
                let small = v != 0.0 && n.v != 0.0;
                v *= n.v;
                e += EPS * v.abs();
                if !v.is_finite() || small && v.abs() < 1e-280 {
                    return Err(No::Unsure);
                }
            }
            chk(Num { v, e })
        }
        T::Pow(b, x) => {
            if let T::I(k) = &**x {
                let b = ev(b, env, pos && strict, strict)?;
                if b.v == 0.0 && b.e == 0.0 {
                    if !k.is_positive() {
                        return Err(No::Domain);
                    }
                    return chk(Num { v: 0.0, e: 0.0 });
                }
                if k.is_negative() || k.is_zero() {
                    if b.v.abs() <= 16.0 * b.e {
                        return Err(No::Unsure);
                    }
                }
                let kf = k.to_f64().ok_or(No::Unsure)?;
                let v = match k.to_i32() {
                    Some(i) if i.unsigned_abs() < 4096 => b.v.powi(i),
                    _ if b.v > 0.0 => b.v.powf(kf),
                    _ => return Err(No::Unsure),
                };
                if v == 0.0 && b.v != 0.0 {
                    return Err(No::Unsure);
                }
                // |d(b^k)| <= |k| |b|^(k-1) e, with room for the growth of b
                let rel = b.e / b.v.abs().max(1e-300);
                if rel > 0.01 || kf.abs() * rel > 0.01 {
                    if kf > 0.0 {
                        let hi = (b.v.abs() + b.e).powf(kf);
                        return chk(Num { v, e: hi });
                    }
                    return Err(No::Unsure);
                }
                return chk(Num { v, e: v.abs() * (kf.abs() * 1.1 * rel + EPS * (1.0 + kf.abs() * 0.01)) });
            }
            let b = ev(b, env, true, strict)?;
            let x = ev(x, env, false, strict)?;
            let v = b.v.powf(x.v);
            if v == 0.0 {
                return Err(No::Unsure);
            }
            let rel = x.v.abs() * b.e / b.v * 1.1 + b.v.ln().abs() * x.e * 1.1
                + EPS * (1.0 + (x.v * b.v.ln()).abs());
            if rel > 1e-4 {
                return Err(No::Unsure);
            }
            chk(Num { v, e: v * rel })
        }
        T::Log(a, b) => {
            let a = ev(a, env, true, strict)?;
            let b = ev(b, env, true, strict)?;
            let (la, lb) = (a.v.ln(), b.v.ln());
            if b.v == 1.0 && b.e < 1e-12 {
                return Err(No::Domain);
            }
            let ea = a.e / a.v * 1.1 + EPS * (1.0 + la.abs());
            let eb = b.e / b.v * 1.1 + EPS * (1.0 + lb.abs());
            if lb.abs() <= 16.0 * eb {
                return Err(No::Unsure);
            }
            let v = la / lb;
            chk(Num { v, e: (ea + v.abs() * eb) / lb.abs() * 1.2 })
        }
        T::Sin(a) => {
            let a = ev(a, env, false, strict)?;
            chk(Num { v: a.v.sin(), e: a.e + EPS * (1.0 + a.v.abs()) })
        }
        T::Cos(a) => {
            let a = ev(a, env, false, strict)?;
            chk(Num { v: a.v.cos(), e: a.e + EPS * (1.0 + a.v.abs()) })
        }
    }
}
/// A positive thing, or a negative number times positive things.
fn eval_signed(t: &T, env: &Assign) -> Result<Num, No> {
    match t {
        T::I(n) if !n.is_positive() => ev(t, env, false, true),
        T::R(x) if *x <= 0.0 => ev(t, env, false, true),
        T::Prod(v) => {
            let mut val = Num { v: 1.0, e: 0.0 };
            for x in v {
                let n = eval_signed(x, env)?;
                val = Num {
                    v: val.v * n.v,
                    e: val.v.abs() * n.e + n.v.abs() * val.e + val.e * n.e + EPS * (val.v * n.v).abs(),
                };
            }
            if !val.v.is_finite() || val.v.abs() < 1e-250 {
                return Err(No::Unsure);
            }
            Ok(val)
        }
        _ => ev(t, env, true, true),
    }
}
/// Do two values agree up to rounding?
pub fn agree(a: &Num, b: &Num) -> bool {
    (a.v - b.v).abs() <= 8.0 * (a.e + b.e) + 1e-250
}

/// Exact value, where there is one. Only called on assignments where `eval` found the
/// expression to be in the domain.
pub fn exact(t: &T, env: &Assign) -> Option<BigRational> {
    let small = |q: BigRational| -> Option<BigRational> {
        if q.numer().bits() + q.denom().bits() > 20_000 { None } else { Some(q) }
    };
    match t {
        T::I(n) => Some(BigRational::from_integer(n.clone())),
        T::V(s) => env.get(s).cloned(),
        T::Sum(v) => {
            let mut q = BigRational::zero();
            for x in v {
                q = small(q + exact(x, env)?)?;
            }
            Some(q)
        }
        T::Prod(v) => {
            let mut q = BigRational::one();
            for x in v {
                q = small(q * exact(x, env)?)?;
            }
            Some(q)
        }
        T::Pow(b, x) => {
            if !matches!(**x, T::I(_)) && b.any(&|t| matches!(t, T::I(n) if !n.is_positive())) {
                return None;
            }
            let b = exact(b, env)?;
            let x = exact(x, env)?;
            if !x.is_integer() {
                return None;
            }
            let k = x.to_integer().to_i32()?;
            if k.unsigned_abs() > 400 || (b.is_zero() && k <= 0) {
                return None;
            }
            if (b.numer().bits() + b.denom().bits()) as i64 * k.abs() as i64 > 20_000 {
                return None;
            }
            let mut q = BigRational::one();
            for _ in 0..k.abs() {
                q = q * b.clone();
            }
            small(if k < 0 { q.recip() } else { q })
        }
        T::R(_) | T::Log(..) | T::Sin(_) | T::Cos(_) => None,
    }
}
/// Positive rational values for the variables, chosen by a seed.
pub fn assignment(vars: &[String], seed: u64) -> Assign {
    let mut r = crate::rng::R::new(seed ^ 0xA551);
    vars.iter()
        .map(|v| {
            let q = match r.below(4) {
                0 => BigRational::from_integer(BigInt::from(r.range(1, 9))),
                1 => BigRational::new(BigInt::from(r.range(1, 9)), BigInt::from(r.range(1, 9))),
                _ => BigRational::new(BigInt::from(r.range(40, 400)), BigInt::from(97)),
            };
            (v.clone(), q)
        })
        .collect()
}

// ------------------------------------------------------------------ integer polynomials
pub type Mono = BTreeMap<String, BigInt>;
pub type Poly = BTreeMap<Mono, BigInt>;
pub fn p_add(a: &Poly, b: &Poly, k: i32) -> Poly {
    let mut r = a.clone();
    for (m, c) in b {
        let e = r.entry(m.clone()).or_insert_with(BigInt::zero);
        *e += c * k;
        if e.is_zero() {
            r.remove(m);
        }
    }
    r
}
pub fn p_mul(a: &Poly, b: &Poly) -> Poly {
    let mut r = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            let mut k = m.clone();
            for (v, e) in n {
                *k.entry(v.clone()).or_insert_with(BigInt::zero) += e;
            }
            let e = r.entry(k).or_insert_with(BigInt::zero);
            *e += c * d;
        }
    }
    r.retain(|_, c| !c.is_zero());
    r
}
pub fn poly(t: &T) -> Option<Poly> {
    Some(match t {
        T::I(n) => {
            let mut p = Poly::new();
            if !n.is_zero() {
                p.insert(Mono::new(), n.clone());
            }
            p
        }
        T::V(v) => {
            let mut p = Poly::new();
            p.insert([(v.clone(), BigInt::one())].into_iter().collect(), BigInt::one());
            p
        }
        T::Sum(v) => {
            let mut p = Poly::new();
            for x in v {
                p = p_add(&p, &poly(x)?, 1);
            }
            p
        }
        T::Prod(v) => {
            let mut p = poly(&T::I(BigInt::one()))?;
            for x in v {
                p = p_mul(&p, &poly(x)?);
            }
            p
        }
        T::Pow(b, x) => match &**x {
            T::I(n) if n.is_positive() => {
                let b = poly(b)?;
                if b.len() <= 1 {
                    if let Some((m, c)) = b.iter().next() {
                        let c = if c.abs().is_one() {
                            if c.is_negative() && (n % 2u32).is_one() { -BigInt::one() } else { BigInt::one() }
                        } else {
                            let k = n.to_u32()?;
                            if k > 4096 || c.bits() as u64 * k as u64 > 100_000 {
                                return None;
                            }
                            num::pow::pow(c.clone(), k as usize)
                        };
                        let m2: Mono = m.iter().map(|(v, e)| (v.clone(), e * n)).collect();
                        return Some([(m2, c)].into_iter().collect());
                    }
                    return Some(Poly::new());
                }
                let k = n.to_u32()?;
                if k > 64 {
                    return None;
                }
                let mut p = poly(&T::I(BigInt::one()))?;
                for _ in 0..k {
                    p = p_mul(&p, &b);
                }
                p
            }
            _ => return None,
        },
        _ => return None,
    })
}
pub fn poly_text(p: &Poly) -> String {
    if p.is_empty() {
        return "0".into();
    }
    p.iter()
        .map(|(m, c)| {
            let v: Vec<String> = m.iter().map(|(v, e)| format!("{}^{}", v, e)).collect();
            format!("{}*{}", c, v.join("*"))
        })
        .collect::<Vec<_>>()
        .join(" + ")
}
/// Number of terms a full expansion would produce: the cost of simplifying.
pub fn terms(r: &Rx) -> f64 {
    match r {
        Int(_) | Real(_) | Var(_) => 1.0,
        Add(a, b) | Sub(a, b) => terms(a) + terms(b),
        Mul(a, b) => terms(a) * terms(b),
        Div(a, b) => terms(a) * terms(b).max(1.0),
        Neg(a) => terms(a),
        Pow(a, b) => {
            let t = terms(a);
            let tb = terms(b);
            let mut k = 1.0;
            int_factor(b, &mut k);
            if t > 1.0 { t.powf(k.abs().max(1.0)) + tb } else { 1.0 + tb }
        }
        Log(a, b) => terms(a) + terms(b),
        Sin(a) | Cos(a) => terms(a),
        Sum(v) => v.iter().map(terms).sum::<f64>().max(1.0),
        Prod(v) => v.iter().map(terms).product::<f64>(),
    }
}
fn int_factor(r: &Rx, k: &mut f64) {
    match r {
        Int(n) => *k *= n.to_f64().unwrap_or(1e300).abs().max(1.0),
        Mul(a, b) => {
            int_factor(a, k);
            int_factor(b, k);
        }
        Neg(a) => int_factor(a, k),
        Prod(v) => v.iter().for_each(|x| int_factor(x, k)),
        Sum(v) => {
            let mut s = 0.0;
            for x in v {
                let mut j = 1.0;
                int_factor(x, &mut j);
                s += j;
            }
            *k *= s.max(1.0);
        }
        Add(a, b) | Sub(a, b) => {
            let (mut x, mut y) = (1.0, 1.0);
            int_factor(a, &mut x);
            int_factor(b, &mut y);
            *k *= x + y;
        }
        _ => {}
    }
}

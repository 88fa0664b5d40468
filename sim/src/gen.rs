//! Workload generation. Every choice comes from the run's seed; sizes, mixes and
//! vocabularies vary from run to run.
use crate::rng::R;
use crate::rx::*;
use num::bigint::BigInt;

pub struct G {
    pub r: R,
    pub vars: Vec<String>,
    pool: Vec<Rx>,
    /// per-run mix, in percent
    reuse: usize,
    bigs: usize,
    reals: usize,
    nonint: usize,
    pub wild: bool,
    /// how large this run's real constants are
    pub scale: f64,
}
pub const REALS: &[f64] = &[0.1, 0.2, 0.3, 0.7, 1.5, 2.5, 0.25, 0.001, 3.3, 12.75, 0.6, 1.1, 99.9];

impl G {
    pub fn new(seed: u64, wild: bool) -> G {
        let mut r = R::new(seed);
        let names = ["a", "b", "c", "x", "y", "z"];
        let n = 1 + r.below(4);
        let off = r.below(3);
        let mut vars: Vec<String> = (0..n).map(|i| names[(i + off) % 6].to_string()).collect();
        if wild && r.pct(15) {
            let odd = ["α", "a1", "x y", "-1", "2", "", "aa", "A", "(a + b)"];
            let k = r.below(odd.len());
            vars.push(odd[k].to_string());
        }
        if r.pct(5) {
            // long names that differ at one end only
            let long: String = "temperature_of_the_inner_wall_of_the_second_combustion_chamber_".chars().cycle().take(6 + r.below(75)).collect();
            let front = r.pct(70);
            for v in vars.iter_mut() {
                *v = if front { format!("{}{}", long, v) } else { format!("{}{}", v, long) };
            }
        }
        let reuse = [20, 35, 50, 65][r.below(4)];
        let bigs = [0, 0, 5, 15, 40][r.below(5)];
        let reals = [0, 5, 10, 30][r.below(4)];
        let nonint = [0, 10, 20][r.below(3)];
        let scale = if r.pct(7) { *r.pick(&[1e-50, 1e-42, 1e-20, 1e-13, 1e-9, 1e-6, 1e6, 1e12, 1e20, 1e50]) } else { 1.0 };
        let reals = if scale != 1.0 { reals.max(20) } else { reals };
        G { r, vars, pool: vec![], reuse, bigs, reals, nonint, wild, scale }
    }
    pub fn var(&mut self) -> Rx {
        let i = self.r.below(self.vars.len());
        Rx::Var(self.vars[i].clone())
    }
    pub fn small(&mut self) -> Rx {
        match self.r.below(6) {
            0 => int(self.r.range(-12, -1)),
            1 => int(2),
            2 => int(1),
            _ => int(self.r.range(2, 12)),
        }
    }
    pub fn bigint(&mut self) -> BigInt {
        let b = |n: u32| num::pow::pow(BigInt::from(2), n as usize);
        let k = self.r.range(-2, 2);
        let n = match self.r.below(8) {
            0 => b(31) + k,
            1 => b(32) + k,
            2 => b(53) + k,
            3 => b(62) + k,
            4 => b(63) + k,
            5 => b(64) + k,
            6 => b(127) + k,
            _ => {
                let d = 1 + self.r.below(60);
                let mut n = BigInt::from(0);
                for _ in 0..d {
                    n = n * 10 + self.r.below(10) as i64;
                }
                n + 3
            }
        };
        if self.r.pct(40) { -n } else { n }
    }
    pub fn real(&mut self) -> Rx {
        let v = match self.r.below(12) {
            0 => self.r.range(1, 9999) as f64 / 100.0,
            1 => self.r.range(1, 40) as f64,
            2 if self.wild => *self.r.pick(&[1.0, 0.0, -0.0, 1e16, 1e-9]),
            2 => *self.r.pick(&[1.0, 0.5, 2.0]),
            _ => *self.r.pick(REALS),
        };
        let v = self.scaled(v);
        Rx::Real(if self.r.pct(20) { -v } else { v })
    }
    fn scaled(&mut self, v: f64) -> f64 {
        if self.scale != 1.0 && self.r.pct(80) { v * self.scale } else { v }
    }
    fn num(&mut self) -> Rx {
        let k = self.r.below(100);
        if k < self.bigs {
            Rx::Int(self.bigint())
        } else if k < self.bigs + self.reals {
            self.real()
        } else if k > 92 {
            let (a, b) = (self.r.range(1, 12), self.r.range(2, 12));
            div(int(a), int(b))
        } else {
            self.small()
        }
    }
    fn leaf(&mut self) -> Rx {
        if self.r.pct(58) { self.var() } else { self.num() }
    }
    fn remember(&mut self, x: Rx) -> Rx {
        if x.size() > 1 && self.pool.len() < 12 {
            self.pool.push(x.clone());
        }
        x
    }
    fn reused(&mut self) -> Option<Rx> {
        if self.pool.is_empty() || !self.r.pct(self.reuse) {
            return None;
        }
        let i = self.r.below(self.pool.len());
        Some(self.pool[i].clone())
    }
    /// something whose every factor is positive
    pub fn positive(&mut self, d: usize) -> Rx {
        if d == 0 || self.r.pct(45) {
            if self.bigs > 0 && self.r.pct(4) {
                let n = self.bigint();
                return Rx::Int(num::Signed::abs(&n) + 2);
            }
            return match self.r.below(5) {
                0 => int(self.r.range(2, 9)),
                1 if self.reals > 0 => {
                    let x = *self.r.pick(REALS);
                    Rx::Real(self.scaled(x))
                }
                _ => self.var(),
            };
        }
        match self.r.below(5) {
            0 => add(self.positive(d - 1), self.positive(d - 1)),
            1 => mul(self.positive(d - 1), self.positive(d - 1)),
            2 => div(self.positive(d - 1), self.positive(d - 1)),
            3 => pow(self.positive(d - 1), int(self.r.range(-2, 3))),
            _ => {
                let e = self.exponent(d - 1);
                pow(self.positive(d - 1), e)
            }
        }
    }
    /// an exponent that is not an integer constant
    fn exponent(&mut self, d: usize) -> Rx {
        match self.r.below(11) {
            9 => {
                // several factors, some of them numbers
                let mut v = vec![self.var()];
                for _ in 0..1 + self.r.below(3) {
                    v.push(match self.r.below(4) {
                        0 => int(self.r.range(-3, 3)),
                        1 if self.reals > 0 => Rx::Real(*self.r.pick(&[0.5, 1.5, -0.5, 2.0])),
                        2 => div(int(1), int(self.r.range(2, 4))),
                        _ => self.var(),
                    });
                }
                Rx::Prod(v)
            }
            0 | 1 => self.var(),
            2 => mul(int(self.r.range(-3, 4)), self.var()),
            3 if self.reals > 0 => {
                let x = *self.r.pick(&[0.5, 1.5, 2.0, 0.25, -0.5, -1.0, 3.0]);
                Rx::Real(x)
            }
            4 => div(int(self.r.range(1, 5)), int(self.r.range(2, 5))),
            5 => neg(self.var()),
            6 => add(self.var(), self.small_pos()),
            7 if d > 0 => {
                let b = self.positive(0);
                log(self.positive(d - 1), b)
            }
            8 if self.reals > 0 => mul(Rx::Real(0.5), self.var()),
            _ => sub(self.var(), self.var()),
        }
    }
    /// arguments and bases that have something to do with each other, or are not simple
    fn logarithm(&mut self, d: usize) -> Rx {
        let u = self.positive(0);
        match self.r.below(8) {
            0 | 1 => {
                let (m, k) = (self.r.range(-4, 6), self.r.range(2, 6));
                log(pow(u.clone(), int(m)), pow(u, int(k)))
            }
            2 => {
                let b = add(u.clone(), u);
                log(self.positive(d.min(2) - 1), b)
            }
            3 => {
                let (e, f) = (self.exponent(0), self.exponent(0));
                log(pow(u.clone(), e), pow(u, f))
            }
            4 => log(mul(u.clone(), self.positive(0)), u),
            5 => {
                let v = self.positive(0);
                log(v.clone(), mul(v, u))
            }
            _ => log(self.positive(d - 1), u),
        }
    }
    fn small_pos(&mut self) -> Rx {
        int(self.r.range(1, 5))
    }
    /// the whole language
    pub fn general(&mut self, d: usize) -> Rx {
        if d == 0 {
            return self.leaf();
        }
        if let Some(x) = self.reused() {
            return match self.r.below(6) {
                0 => neg(x),
                1 => {
                    let n = self.num();
                    mul(n, x)
                }
                2 => mul(x, self.leaf()),
                _ => x,
            };
        }
        let x = match self.r.below(100) {
            0..=9 => self.leaf(),
            10..=27 => add(self.general(d - 1), self.general(d - 1)),
            28..=41 => sub(self.general(d - 1), self.general(d - 1)),
            42..=60 => mul(self.general(d - 1), self.general(d - 1)),
            61..=68 => div(self.general(d - 1), self.denominator(d - 1)),
            69..=73 => neg(self.general(d - 1)),
            74..=82 => {
                let k = *self.r.pick(&[2, 2, 2, 3, 3, 4, 1, 0, -1, -1, -2, -3]);
                pow(self.general(d - 1), int(k))
            }
            83..=88 => {
                let n = 2 + self.r.below(4);
                let v = (0..n).map(|_| self.general(d - 1)).collect();
                Rx::Sum(v)
            }
            89..=92 => {
                let n = 2 + self.r.below(3);
                let v = (0..n).map(|_| self.general(d - 1)).collect();
                Rx::Prod(v)
            }
            k => {
                if self.nonint == 0 {
                    return self.general(d - 1);
                }
                match k {
                    93..=95 => {
                        let e = self.exponent(d - 1);
                        pow(self.positive(d - 1), e)
                    }
                    96 => {
                        let b = self.positive(d - 1);
                        let e = self.exponent(1);
                        mul(pow(b.clone(), e), if self.r.pct(50) { b } else { pow(b, self.exponent(0)) })
                    }
                    97 => self.logarithm(d),
                    98 => {
                        let b = self.positive(0);
                        let e = self.exponent(d - 1);
                        log(pow(b.clone(), e), b)
                    }
                    _ => {
                        if self.wild && self.r.pct(50) {
                            let a = Box::new(self.general(d - 1));
                            if self.r.pct(50) { Rx::Sin(a) } else { Rx::Cos(a) }
                        } else {
                            let b = self.positive(0);
                            pow(b.clone(), log(self.positive(d - 1), b))
                        }
                    }
                }
            }
        };
        self.remember(x)
    }
    fn denominator(&mut self, d: usize) -> Rx {
        match self.r.below(5) {
            0 => self.small(),
            1 => self.var(),
            2 => pow(self.var(), self.small_pos()),
            3 => mul(self.var(), self.leaf()),
            _ => self.general(d.min(1)),
        }
    }
    /// bounded-cost expression of the whole language
    pub fn expr(&mut self) -> Rx {
        self.expr_cost(if self.wild { 24.0 } else { 48.0 })
    }
    pub fn expr_cost(&mut self, cap: f64) -> Rx {
        if cap >= 12.0 && self.r.pct(7) {
            let x = self.wide(false);
            if affordable(&x, 60.0) && tame(&x) {
                return x;
            }
        }
        if cap >= 12.0 && self.nonint > 0 && self.r.pct(7) {
            let x = self.deep();
            if tame(&x) {
                return x;
            }
        }
        if cap >= 12.0 && self.r.pct(3) {
            let x = self.high_power();
            if affordable(&x, if self.r.pct(15) { 600.0 } else { 140.0 }) && tame(&x) {
                return x;
            }
        }
        for _ in 0..40 {
            self.pool.clear();
            let d = 1 + self.r.below(4);
            let x = self.general(d);
            if terms(&x) <= cap && x.size() <= 60 && tame(&x) {
                return x;
            }
        }
        self.var()
    }
    /// many operands at one level
    pub fn wide(&mut self, poly: bool) -> Rx {
        let most = if self.r.pct(8) { 140 } else if self.r.pct(25) { 36 } else { 14 };
        let n = 5 + self.r.below(most);
        let names = if n > 45 && self.r.pct(70) { n * 3 / 4 + self.r.below(n) } else { 1 + self.r.below(n) };
        let product = n < 45 && self.r.pct(30);
        let mut v = vec![];
        for _ in 0..n {
            let x = Rx::Var(format!("v{}", self.r.below(names)));
            let x = match self.r.below(8) {
                0 => mul(x, self.var()),
                1 => pow(x, int(self.r.range(2, 4))),
                2 if !poly => pow(x, int(-self.r.range(1, 3))),
                3 if !poly && self.nonint > 0 => {
                    let e = self.exponent(0);
                    pow(x, e)
                }
                _ => x,
            };
            v.push(match self.r.below(10) {
                0..=2 => mul(self.small(), x),
                3 => neg(x),
                4 if poly => Rx::Int(self.bigint()),
                4 => self.num(),
                5 if !poly => mul(self.num(), x),
                _ => x,
            });
        }
        let inner = match self.r.below(3) {
            0 => {
                let mut it = v.into_iter();
                let first = it.next().unwrap();
                it.fold(first, |a, b| if product { mul(a, b) } else { add(a, b) })
            }
            _ => if product { Rx::Prod(v) } else { Rx::Sum(v) },
        };
        match self.r.below(8) {
            0 => mul(self.var(), inner),
            1 => sub(self.var(), inner),
            2 => mul(self.small(), inner),
            _ => inner,
        }
    }
    /// a short sum, or a product with one, to a higher power than people write out
    fn high_power(&mut self) -> Rx {
        let (u, w) = (self.leaf(), self.leaf());
        let b = match self.r.below(8) {
            0 => sub(u, w),
            1 => add(mul(self.small(), u), w),
            2 => mul(u, add(w, self.leaf())),
            3 => div(add(u, w), self.var()),
            4 => mul(self.var(), self.var()),
            5 => self.var(),
            _ => add(u, w),
        };
        let k = if self.r.pct(25) { self.r.range(7, 9) } else { self.r.range(3, 6) };
        let k = if self.r.pct(15) { -k } else { k };
        let x = match self.r.below(8) {
            0 => {
                let (p, q) = (self.r.range(2, 3), self.r.range(2, 3));
                pow(pow(b, int(p)), int(if self.r.pct(20) { -q } else { q }))
            }
            1 => mul(pow(b.clone(), int(k)), pow(b, int(self.r.range(-3, 2)))),
            _ => pow(b, int(k)),
        };
        match self.r.below(5) {
            0 => mul(self.leaf(), x),
            1 => sub(self.leaf(), x),
            _ => x,
        }
    }
    /// many levels, each of them cheap to expand
    pub fn deep(&mut self) -> Rx {
        let mut x = self.var();
        let most = if self.r.pct(20) { 14 } else { 6 };
        let n = 3 + self.r.below(most);
        let kind = self.r.below(4);
        for _ in 0..n {
            let (u, w) = (self.var(), self.var());
            x = match if kind == 3 { self.r.below(3) } else { kind } {
                0 => {
                    let e = if self.r.pct(60) { mul(u.clone(), w.clone()) } else { self.exponent(0) };
                    let y = mul(pow(mul(x, mul(u.clone(), u)), e), w.clone());
                    if self.r.pct(50) { mul(y, w) } else { y }
                }
                1 => div(int(1), add(x, mul(self.small_pos(), u))),
                _ => log(add(x, mul(self.small_pos(), u)), int(self.r.range(2, 5))),
            };
        }
        x
    }
    pub fn small_expr(&mut self, poly: bool) -> Rx {
        self.pool.clear();
        if poly { self.poly_d(2) } else { self.general(2) }
    }
    /// nearly the same expression: one leaf differs, sometimes hardly
    pub fn twist(&mut self, x: &Rx) -> Rx {
        let kids = x.kids();
        if !kids.is_empty() && !self.r.pct(3) {
            let i = self.r.below(kids.len());
            let k = kids[i].clone();
            let k = self.twist(&k);
            return x.with_kid(i, k);
        }
        match x {
            // what prints alike
            Rx::Int(n) if self.r.pct(20) => Rx::Var(n.to_string()),
            Rx::Int(n) if self.r.pct(25) && n.bits() < 50 => Rx::Real(num::ToPrimitive::to_f64(n).unwrap_or(1.0)),
            Rx::Real(v) if self.r.pct(25) && v.fract() == 0.0 && v.abs() < 1e15 => int(*v as i64),
            Rx::Int(n) => match self.r.below(6) {
                0 => Rx::Int(n + 1),
                1 => Rx::Int(-n),
                2 => Rx::Int(n + (BigInt::from(1) << 32)),
                3 => Rx::Int(n + (BigInt::from(1) << 64)),
                4 => Rx::Int(n * 10),
                _ => Rx::Int(n - 1),
            },
            Rx::Real(v) => match self.r.below(3) {
                0 => Rx::Real(f64::from_bits(v.to_bits() + 1)),
                1 => Rx::Real(-v),
                _ => Rx::Real(v * 2.0),
            },
            Rx::Var(_) => match self.r.below(4) {
                0 => self.small(),
                _ => self.var(),
            },
            x => match self.r.below(3) {
                0 => mul(int(2), x.clone()),
                1 => add(x.clone(), int(1)),
                _ => self.var(),
            },
        }
    }
    /// integer polynomial
    pub fn poly(&mut self, cap: f64) -> Rx {
        if cap >= 12.0 && self.r.pct(8) {
            return self.wide(true);
        }
        if cap >= 16.0 && self.r.pct(3) {
            let most = if cap >= 40.0 { 8 } else { 6 };
            let (u, w) = (self.poly_leaf(), self.var());
            let k = self.r.range(4, most);
            let p = pow(if self.r.pct(50) { add(u, w) } else { sub(w, u) }, int(k));
            return match self.r.below(4) {
                0 => mul(self.small(), p),
                1 => add(p, self.poly_leaf()),
                _ => p,
            };
        }
        for _ in 0..40 {
            self.pool.clear();
            let d = 1 + self.r.below(4);
            let x = self.poly_d(d);
            if terms(&x) <= cap && x.size() <= 60 {
                return x;
            }
        }
        self.var()
    }
    fn poly_leaf(&mut self) -> Rx {
        match self.r.below(100) {
            0..=62 => self.var(),
            k if k < 63 + self.bigs / 2 => Rx::Int(self.bigint()),
            96 => int(0),
            _ => self.small(),
        }
    }
    pub fn poly_d(&mut self, d: usize) -> Rx {
        if d == 0 {
            return self.poly_leaf();
        }
        if let Some(x) = self.reused() {
            return match self.r.below(5) {
                0 => neg(x),
                1 => mul(self.small(), x),
                _ => x,
            };
        }
        let x = match self.r.below(20) {
            0 => self.poly_leaf(),
            1..=5 => add(self.poly_d(d - 1), self.poly_d(d - 1)),
            6..=9 => sub(self.poly_d(d - 1), self.poly_d(d - 1)),
            10..=13 => mul(self.poly_d(d - 1), self.poly_d(d - 1)),
            14 => neg(self.poly_d(d - 1)),
            15 | 16 => self.poly_pow(d),
            17 | 18 => {
                let n = 2 + self.r.below(4);
                Rx::Sum((0..n).map(|_| self.poly_d(d - 1)).collect())
            }
            _ => {
                let n = 2 + self.r.below(3);
                Rx::Prod((0..n).map(|_| self.poly_d(d - 1)).collect())
            }
        };
        self.remember(x)
    }
    fn poly_pow(&mut self, d: usize) -> Rx {
        match self.r.below(12) {
            // long powers of short sums
            0 | 1 => {
                let (u, w) = (self.var(), self.poly_leaf());
                let k = self.r.range(5, 6);
                let s = match self.r.below(3) {
                    0 => add(u, w),
                    1 => sub(u, w),
                    _ => add(mul(u.clone(), w), u),
                };
                pow(s, int(k))
            }
            // high powers of monomials
            2 | 3 => {
                let b = match self.r.below(4) {
                    0 => mul(self.var(), self.var()),
                    1 => pow(self.var(), int(self.r.range(2, 4))),
                    _ => self.var(),
                };
                let k = match self.r.below(4) {
                    0 if self.bigs > 0 => num::Signed::abs(&self.bigint()) + 2,
                    1 => BigInt::from(self.r.range(250, 260)),
                    2 => BigInt::from(self.r.range(60_000, 70_000)),
                    _ => BigInt::from(self.r.range(5, 300)),
                };
                pow(b, Rx::Int(k))
            }
            _ => pow(self.poly_d(d - 1), int(self.r.range(1, 4))),
        }
    }
    /// sums whose real constants meet only while like terms are collected
    pub fn real_merge(&mut self) -> Rx {
        if self.r.pct(20) {
            // real powers of few bases, among others
            let (u, w) = (self.var(), Rx::Real(*self.r.pick(REALS)));
            let n = 3 + self.r.below(12);
            let v = (0..n)
                .map(|i| {
                    let e = Rx::Real(*self.r.pick(REALS));
                    match self.r.below(5) {
                        0 => pow(w.clone(), mul(e, self.var())),
                        1 => Rx::Var(format!("v{}", i)),
                        2 => pow(self.var(), e),
                        _ => pow(u.clone(), e),
                    }
                })
                .collect();
            return Rx::Prod(v);
        }
        let n = 2 + self.r.below(4);
        let mut parts = vec![];
        for _ in 0..n {
            let x = *self.r.pick(REALS);
            let x = Rx::Real(self.scaled(x));
            let k = self.r.range(2, 5);
            let f = if self.r.pct(25) { Some(self.var()) } else { None };
            let w = |c: Rx| match &f {
                Some(v) => mul(c, v.clone()),
                None => c,
            };
            match self.r.below(4) {
                0 => {
                    parts.push(mul(int(k), w(x.clone())));
                    parts.push(neg(mul(int(k - 1), w(x))));
                }
                1 => {
                    parts.push(w(x.clone()));
                    parts.push(mul(int(k), w(x)));
                }
                2 => parts.push(mul(x.clone(), add(w(x), self.var()))),
                _ => parts.push(w(neg(x))),
            }
        }
        // shuffled, and grouped differently from run to run
        for i in (1..parts.len()).rev() {
            let j = self.r.below(i + 1);
            parts.swap(i, j);
        }
        if self.r.pct(50) {
            Rx::Sum(parts)
        } else {
            let mut it = parts.into_iter();
            let mut x = it.next().unwrap();
            for p in it {
                x = add(x, p);
            }
            x
        }
    }
    /// another way of writing the same polynomial or expression
    pub fn rewrite(&mut self, x: &Rx, depth: usize) -> Rx {
        use Rx::*;
        if depth == 0 {
            return x.clone();
        }
        let r = |g: &mut G, x: &Rx| g.rewrite(x, depth - 1);
        match x {
            Add(a, b) => {
                let (a, b) = (r(self, a), r(self, b));
                match self.r.below(4) {
                    0 => add(b, a),
                    1 => sub(b, neg(a)),
                    2 => Sum(vec![b, a]),
                    _ => add(a, b),
                }
            }
            Sub(a, b) => {
                let (a, b) = (r(self, a), r(self, b));
                match self.r.below(4) {
                    0 => add(a, neg(b)),
                    1 => neg(sub(b, a)),
                    2 => add(mul(int(-1), b), a),
                    _ => sub(a, b),
                }
            }
            Mul(a, b) => {
                // distribute or commute
                if let (Add(p, q), true) = (&**a, self.r.pct(50)) {
                    let b = r(self, b);
                    return add(mul(r(self, p), b.clone()), mul(b, r(self, q)));
                }
                if let (Sub(p, q), true) = (&**b, self.r.pct(50)) {
                    let a = r(self, a);
                    return sub(mul(r(self, p), a.clone()), mul(a, r(self, q)));
                }
                let (a, b) = (r(self, a), r(self, b));
                match self.r.below(3) {
                    0 => mul(b, a),
                    1 => Prod(vec![b, a]),
                    _ => mul(a, b),
                }
            }
            Neg(a) => {
                let a = r(self, a);
                match self.r.below(3) {
                    0 => mul(int(-1), a),
                    1 => sub(int(0), a),
                    _ => neg(a),
                }
            }
            Pow(a, e) => {
                if let (Int(n), true) = (&**e, self.r.pct(60)) {
                    if *n == BigInt::from(2) {
                        return mul(r(self, a), r(self, a));
                    }
                    if *n == BigInt::from(3) {
                        return mul(pow(r(self, a), int(2)), r(self, a));
                    }
                }
                Pow(Box::new(r(self, a)), e.clone())
            }
            Sum(v) | Prod(v) => {
                let mut w: Vec<Rx> = v.iter().map(|y| r(self, y)).collect();
                for i in (1..w.len()).rev() {
                    let j = self.r.below(i + 1);
                    w.swap(i, j);
                }
                if let Sum(_) = x { Sum(w) } else { Prod(w) }
            }
            Int(n) => {
                if self.r.pct(30) {
                    let k = self.r.range(-5, 5);
                    add(int(k), Int(n - k))
                } else {
                    x.clone()
                }
            }
            Var(_) => match self.r.below(8) {
                0 => sub(mul(int(2), x.clone()), x.clone()),
                1 => add(x.clone(), sub(int(3), int(3))),
                _ => x.clone(),
            },
            _ => x.clone(),
        }
    }
}
/// Cheap enough to expand: few terms, or many that are all written down.
pub fn affordable(x: &Rx, cap: f64) -> bool {
    let t = terms(x);
    t <= cap || t <= 200.0 && t <= x.size() as f64
}
/// No constant power with an absurd result, which only measures big-number arithmetic.
pub fn tame(x: &Rx) -> bool {
    fn ints(x: &Rx) -> f64 {
        match x {
            Rx::Int(n) => n.bits() as f64,
            Rx::Real(r) => r.abs().max(1.0).log2(),
            _ => x.kids().iter().map(|k| ints(k)).sum(),
        }
    }
    /// log2 of how large a constant can get
    fn mag(x: &Rx) -> f64 {
        match x {
            Rx::Int(n) => n.bits() as f64,
            Rx::Real(r) => r.abs().max(1.0).log2(),
            Rx::Var(_) => 1.0,
            Rx::Pow(a, b) => (mag(a) + 1.0) * 2f64.powf(mag(b).min(60.0)),
            Rx::Mul(a, b) | Rx::Div(a, b) => mag(a) + mag(b),
            Rx::Prod(v) => v.iter().map(mag).sum(),
            Rx::Sum(v) => v.iter().map(mag).fold(0.0, f64::max) + (v.len() as f64 + 1.0).log2(),
            Rx::Log(a, _) => mag(a).max(1.0).log2(),
            Rx::Sin(_) | Rx::Cos(_) => 0.0,
            _ => x.kids().iter().map(|k| mag(k)).fold(0.0, f64::max) + 1.0,
        }
    }
    fn bits(x: &Rx) -> f64 {
        match x {
            Rx::Int(n) => n.bits() as f64,
            Rx::Real(_) => 8.0,
            Rx::Var(_) => 8.0,
            Rx::Pow(a, b) => {
                let m = match &**b {
                    Rx::Int(n) => num::ToPrimitive::to_f64(n).unwrap_or(1e9).abs(),
                    b => 2f64.powf(ints(b)) * 2.0 + b.size() as f64 * 8.0 + 2f64.powf(mag(b).min(60.0)),
                };
                bits(a) * m.max(1.0)
            }
            Rx::Mul(a, b) | Rx::Div(a, b) => bits(a) + bits(b),
            Rx::Prod(v) => v.iter().map(bits).sum(),
            _ => x.kids().iter().map(|k| bits(k)).fold(1.0, f64::max) + 2.0,
        }
    }
    if !x.any(&|y| matches!(y, Rx::Pow(..)) && bits(y) > 3000.0) {
        return true;
    }
    // high powers of variables are only written down
    terms(x) <= 300.0 && poly(&t_of_rx(x)).map(|p: Poly| p.values().map(|c| c.bits() as u64).sum::<u64>() < 3000u64).unwrap_or(false)
}

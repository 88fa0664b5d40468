//! Operations a client may perform on shared expressions, and how results are written down.
use crate::rx::{dump, quote};
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::manipulation::expansion_rules as xr;
use ncas::manipulation::simplification_rules as sr;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// one operand
    One,
    /// two operands
    Two,
    /// one operand, takes a callback that may fail
    Cb,
}
/// name, kind, relative weight of being chosen, may expand (costly)
pub const OPS: &[(&str, Kind, usize)] = &[
    ("simplify", Kind::One, 30),
    ("expand", Kind::One, 12),
    ("display", Kind::One, 8),
    ("hash", Kind::Cb, 6),
    ("clone", Kind::One, 4),
    ("neg", Kind::One, 3),
    ("id", Kind::One, 1),
    ("cmp", Kind::Two, 5),
    ("partial_cmp", Kind::Two, 2),
    ("eq", Kind::Two, 5),
    ("add", Kind::Two, 4),
    ("sub", Kind::Two, 4),
    ("mul", Kind::Two, 4),
    ("div", Kind::Two, 4),
    ("pow", Kind::Two, 3),
    ("log", Kind::Two, 3),
    ("sum", Kind::Two, 3),
    ("product", Kind::Two, 3),
    ("comparable", Kind::Two, 4),
    ("equal", Kind::Two, 5),
    ("not_equal", Kind::Two, 3),
    ("greater", Kind::Two, 3),
    ("lesser", Kind::Two, 3),
    ("greater_equal", Kind::Two, 3),
    ("lesser_equal", Kind::Two, 3),
    ("items", Kind::One, 2),
    ("getters", Kind::One, 3),
    ("get", Kind::Cb, 6),
    ("get_one", Kind::Cb, 4),
    ("map", Kind::Cb, 8),
    ("rule_addend", Kind::One, 5),
    ("rule_factor", Kind::One, 5),
    ("rule_denominator", Kind::One, 3),
    ("rule_power_log", Kind::One, 2),
    ("rule_rationals_add", Kind::One, 3),
    ("rule_rationals_mul", Kind::One, 3),
    ("rule_distribute", Kind::One, 3),
    ("rule_power_sum", Kind::One, 3),
    ("rule_power_product", Kind::One, 2),
    ("rational", Kind::One, 3),
    ("map_insert", Kind::Two, 4),
];

pub enum Out {
    E(Expression),
    O(Option<Expression>),
    V(Vec<Expression>),
    B(bool),
    S(String),
    U(u64),
    C(Ordering),
}
/// Written down by the harness, outside the simulated machine.
pub fn write_out(o: &Out) -> String {
    match o {
        Out::E(e) => dump(e),
        Out::O(None) => "none".into(),
        Out::O(Some(e)) => format!("some {}", dump(e)),
        Out::V(v) => format!("[{}]", v.iter().map(dump).collect::<Vec<_>>().join(", ")),
        Out::B(b) => b.to_string(),
        Out::S(s) => quote(s),
        Out::U(n) => n.to_string(),
        Out::C(c) => format!("{:?}", c),
    }
}

/// Payload of a simulated failure in caller-supplied code.
pub struct SimCallback;

/// FNV-1a, so that hashes are comparable across processes; fails at the planned write.
pub struct Fnv {
    h: u64,
    left: i64,
}
impl Fnv {
    pub fn new(fail: Option<u32>) -> Fnv {
        Fnv { h: 0xcbf29ce484222325, left: fail.map(|k| k as i64).unwrap_or(i64::MAX) }
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.h
    }
    fn write(&mut self, b: &[u8]) {
        if self.left == 0 {
            crate::cnt!("callback_panics");
            self.left = i64::MAX;
            std::panic::panic_any(SimCallback);
        }
        self.left -= 1;
        for x in b {
            self.h = (self.h ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn fnv(e: &Expression) -> u64 {
    let mut h = Fnv::new(None);
    e.hash(&mut h);
    h.finish()
}

fn kind_matches(k: u64, e: &Expression) -> bool {
    match k % 8 {
        0 => matches!(e, Expression::Integer(_)),
        1 => matches!(e, Expression::Variable(_)),
        2 => matches!(e, Expression::Power(_)),
        3 => matches!(e, Expression::Multiplication(_)),
        4 => matches!(e, Expression::Addition(_)),
        5 => matches!(e, Expression::Real(_)),
        6 => true,
        _ => !matches!(e, Expression::Integer(_) | Expression::Real(_)),
    }
}
fn assoc(e: &Expression) -> CommutativeAssociation {
    match e {
        Expression::Addition(c) | Expression::Multiplication(c) => c.clone(),
        e => CommutativeAssociation::new(vec![e.clone()]),
    }
}

/// Performs one operation. `n` varies it; `fail` is the callback invocation that panics.
pub fn exec(op: &str, a: &Expression, b: &Expression, n: u64, fail: Option<u32>) -> Out {
    let calls = std::cell::Cell::new(0u32);
    let tick = || {
        let c = calls.get();
        calls.set(c + 1);
        if fail == Some(c) {
            crate::cnt!("callback_panics");
            std::panic::panic_any(SimCallback);
        }
    };
    match op {
        "simplify" => Out::E(a.clone().simplify()),
        "expand" => Out::E(a.clone().expand()),
        "display" => Out::S(format!("{}", a)),
        "hash" => {
            let mut h = Fnv::new(fail);
            a.hash(&mut h);
            Out::U(h.finish())
        }
        "clone" => Out::E(a.clone()),
        "neg" => Out::E(if n & 1 == 0 { -a } else { -a.clone() }),
        "id" => Out::U(a.id() as u64),
        "cmp" => Out::C(a.cmp(b)),
        "partial_cmp" => Out::B(if n & 1 == 0 { a < b } else { a >= b }),
        "eq" => Out::B(if n & 1 == 0 { a == b } else { !(a != b) }),
        "add" => Out::E(match n & 3 { 0 => a + b, 1 => a.clone() + b, 2 => a + b.clone(), _ => a.clone() + b.clone() }),
        "sub" => Out::E(match n & 3 { 0 => a - b, 1 => a.clone() - b, 2 => a - b.clone(), _ => a.clone() - b.clone() }),
        "mul" => Out::E(match n & 3 { 0 => a * b, 1 => a.clone() * b, 2 => a * b.clone(), _ => a.clone() * b.clone() }),
        "div" => Out::E(match n & 3 { 0 => a / b, 1 => a.clone() / b, 2 => a / b.clone(), _ => a.clone() / b.clone() }),
        "pow" => Out::E(a.clone().pow(b.clone())),
        "log" => Out::E(a.clone().log(b.clone())),
        "sum" => Out::E(Expression::addition(vec![a.clone(), b.clone(), a.clone()])),
        "product" => Out::E(Expression::multiplication(vec![a.clone(), b.clone(), a.clone()])),
        "comparable" => Out::B(a.comparable(b)),
        "equal" => Out::B(a.equal(b)),
        "not_equal" => Out::B(a.not_equal(b)),
        "greater" => Out::B(a.greater(b)),
        "lesser" => Out::B(a.lesser(b)),
        "greater_equal" => Out::B(a.greater_equal(b)),
        "lesser_equal" => Out::B(a.lesser_equal(b)),
        "items" => Out::V(assoc(a).items()),
        "getters" => {
            let c = assoc(a);
            Out::V(match n % 6 {
                0 => c.get_reals(),
                1 => c.get_rational_numerators(),
                2 => c.get_rational_denominators(),
                3 => c.get_rationals(),
                4 => c.get_non_rationals(),
                _ => c.get_symbolics(),
            })
        }
        "get" => {
            // the callback itself uses the library
            let r = assoc(a).get(&|e| {
                tick();
                if n & 16 != 0 {
                    crate::cnt!("nested_calls");
                    e.clone().simplify().id() == e.id()
                } else {
                    kind_matches(n, e)
                }
            });
            Out::V(r)
        }
        "get_one" => Out::O(assoc(a).get_one(&|e| {
            tick();
            kind_matches(n, e)
        })),
        "map" => Out::V(assoc(a).map(&|e| {
            tick();
            match n % 4 {
                0 => e * e,
                1 => -e,
                2 => {
                    crate::cnt!("nested_calls");
                    e.clone().simplify()
                }
                _ => e.clone(),
            }
        })),
        "rule_addend" => Out::E({
            use sr::rule::Rule;
            sr::factoring::additive_common_addend::AdditiveCommonAddend::apply(a)
        }),
        "rule_factor" => Out::E({
            use sr::rule::Rule;
            sr::factoring::multiplicative_common_factor::MultiplicativeCommonFactor::apply(a)
        }),
        "rule_denominator" => Out::E({
            use sr::rule::Rule;
            sr::factoring::single_algebraic_denominator::SingleAlgebraicDenominator::apply(a)
        }),
        "rule_power_log" => Out::E({
            use sr::rule::Rule;
            sr::identities::inverse_power_log::InversePowerLog::apply(a)
        }),
        "rule_rationals_add" => Out::E({
            use sr::rule::Rule;
            sr::rational::rationals_addition::RationalsAddition::apply(a)
        }),
        "rule_rationals_mul" => Out::E({
            use sr::rule::Rule;
            sr::rational::rationals_multiplication::RationalsMultiplication::apply(a)
        }),
        "rule_distribute" => Out::E({
            use xr::rule::Rule;
            xr::multiplicative_distributive::MultiplicativeDistributive::apply(a)
        }),
        "rule_power_sum" => Out::E({
            use xr::rule::Rule;
            xr::power_distributive_addition::PowerDistributiveAddition::apply(a)
        }),
        "rule_power_product" => Out::E({
            use xr::rule::Rule;
            xr::power_distributive_multiplication::PowerDistributiveMultiplication::apply(a)
        }),
        "rational" => Out::O(
            sr::rational::rationals::Rational::from_expression(a.clone()).map(|r| {
                if n & 1 == 1 {
                    (r.clone() + r.clone() * r).expr()
                } else {
                    r.expr()
                }
            }),
        ),
        "map_insert" => {
            let mut m: std::collections::HashMap<Expression, u64> = Default::default();
            *m.entry(a.clone()).or_insert(0) += 1;
            *m.entry(b.clone()).or_insert(0) += 2;
            *m.entry(a.clone()).or_insert(0) += 4;
            Out::U(m.len() as u64 * 100 + m[a])
        }
        _ => panic!("unknown operation {}", op),
    }
}

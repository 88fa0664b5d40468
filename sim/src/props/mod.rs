pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;

use crate::plan::Plan;
use crate::run::Report;

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(u64) -> Plan,
    pub run: fn(&Plan) -> Report,
    /// runs in the quick and thorough tiers
    pub runs: [u64; 2],
    pub rule: &'static str,
}
pub const PROPS: &[Prop] = &[
    Prop { id: "C01", gen: c01::gen, run: c01::run, runs: [70000, 2800000], rule: c01::RULE },
    Prop { id: "C02", gen: c02::gen, run: c02::run, runs: [200000, 8000000], rule: c02::RULE },
    Prop { id: "C03", gen: c03::gen, run: c03::run, runs: [50000, 2000000], rule: c03::RULE },
    Prop { id: "C04", gen: c04::gen, run: c04::run, runs: [60000, 2400000], rule: c04::RULE },
    Prop { id: "C05", gen: c05::gen, run: c05::run, runs: [50000, 2000000], rule: c05::RULE },
    Prop { id: "C06", gen: c06::gen, run: c06::run, runs: [400000, 16000000], rule: c06::RULE },
    Prop { id: "C07", gen: c07::gen, run: c07::run, runs: [150000, 6000000], rule: c07::RULE },
    Prop { id: "C08", gen: c08::gen, run: c08::run, runs: [200000, 8000000], rule: c08::RULE },
    Prop { id: "C09", gen: c09::gen, run: c09::run, runs: [100000, 4000000], rule: c09::RULE },
];

use crate::cx::*;
use crate::rng::Rng;

pub mod extra;
pub mod mac;
pub mod mem;
pub mod wolfram;
pub mod norm;
pub mod polyview;
pub mod query;
pub mod rat;
pub mod text;
pub mod value;

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Cx, &mut Rng) -> Res,
    pub rule: &'static str,
    pub fuel: u64,
    pub cpu_ms: u64,
    pub budget_is_violation: bool,
    pub assumptions: &'static [&'static str],
}
pub const DEF: Prop = Prop {
    id: "",
    title: "",
    quick: 10_000,
    thorough: 200_000,
    run: |_, _| Ok(()),
    rule: "",
    fuel: 4_000_000,
    cpu_ms: 15_000,
    budget_is_violation: false,
    assumptions: &[
        "inputs on which exact i128 arithmetic overflows are skipped (panic message says so), they are counted under skipped",
        "the value oracle is an outward-rounded interval evaluator over exact rationals; undecided points are counted, never judged",
        "exhausting the allocation, memory or cpu budget of a case is inconclusive unless the property is about termination",
    ],
};
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(rat::props());
    v.extend(norm::props());
    v.extend(value::props());
    v.extend(extra::props());
    v.extend(polyview::props());
    v.extend(query::props());
    v.extend(text::props());
    v.extend(mac::props());
    v.extend(mem::props());
    v.extend(wolfram::props());
    v
}
pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

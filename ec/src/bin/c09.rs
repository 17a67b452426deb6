//! C09: deposits
use eccheck::{ops::*, *};
fn one(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::Deposit, src, obs)
}
fn many(src: &mut Src, obs: &mut Obs) -> CaseResult {
    body_case(&[Kind::Deposit], src, obs)
}
fn main() {
    pbt::main(Check {
        property: "C09",
        rule: "A case is a fork, configuration, state with a deposit tree and one deposit (part single) or the deposits of a body (part body), as due or changed in a leaf or two, dropped, repeated or swapped. Non-trivial: the deposits reached the code under test; distinct by fork, slot and content.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "single", quick: 120000, thorough: 2000000, f: one },
            Sub { name: "body", quick: 48000, thorough: 800000, f: many },
        ],
    })
}

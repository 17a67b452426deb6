//! C10: voluntary exits
use eccheck::{ops::*, *};
fn one(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::Exit, src, obs)
}
fn many(src: &mut Src, obs: &mut Obs) -> CaseResult {
    body_case(&[Kind::Exit], src, obs)
}
fn main() {
    pbt::main(Check {
        property: "C10",
        rule: "A case is a fork, configuration, state and one voluntary exit (part single) or a body of exits (part body), valid or changed in a leaf or two or with the exiting validator's record moved across a boundary. Non-trivial: an exit reached the code under test; distinct by fork, slot and content.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "single", quick: 120000, thorough: 2000000, f: one },
            Sub { name: "body", quick: 48000, thorough: 800000, f: many },
        ],
    })
}

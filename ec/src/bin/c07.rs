//! C07: attestations
use eccheck::{ops::*, *};
fn one(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::Attestation, src, obs)
}
fn many(src: &mut Src, obs: &mut Obs) -> CaseResult {
    body_case(&[Kind::Attestation], src, obs)
}
fn main() {
    pbt::main(Check {
        property: "C07",
        rule: "A case is a fork, configuration, state and one attestation (part single) or a body of attestations (part body), valid or changed in a leaf or two. Non-trivial: an attestation reached the code under test; distinct by fork, slot and content.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "single", quick: 120000, thorough: 2000000, f: one },
            Sub { name: "body", quick: 48000, thorough: 800000, f: many },
        ],
    })
}

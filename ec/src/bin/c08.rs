//! C08: slashings
use eccheck::{ops::*, *};
fn proposer(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::ProposerSlashing, src, obs)
}
fn attester(src: &mut Src, obs: &mut Obs) -> CaseResult {
    op_case(Kind::AttesterSlashing, src, obs)
}
fn many(src: &mut Src, obs: &mut Obs) -> CaseResult {
    body_case(&[Kind::ProposerSlashing, Kind::AttesterSlashing], src, obs)
}
/// the slashing itself, with a whistleblower of its own
fn direct(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::OPS);
    let n = s.validators.len();
    let i = src.idx(n) as u64;
    if src.chance(1, 3) {
        tweak_validator(src, &sp, &mut s, i);
    }
    let who = match src.below(4) {
        0 => None,
        1 => Some(i),
        _ => Some(src.idx(n) as u64),
    };
    let want = model(|| {
        let mut m = s.clone();
        sp.slash(&mut m, i, who)?;
        Ok(m)
    });
    let ctx = context(&c);
    let got = all_forks!(f, spec => on_state::<spec::BeaconState>(fp, &s, |st| spec::slash_validator(st, i as usize, who.map(|w| w as usize), &ctx)))?;
    obs.hit(format!("{f:?} {} {i} {who:?} {:?}", s.slot, s.balances).as_bytes());
    let input = || format!("{}; slash {i} with whistleblower {who:?}", brief(&sp, &s));
    obs.sample(input);
    judge(fp, "slashing", want, got, obs, input)
}
fn main() {
    pbt::main(Check {
        property: "C08",
        rule: "A case is a fork, configuration, state and one slashing (parts proposer, attester), the slashing of a validator on its own (part direct) or a body of slashings, valid or changed in a leaf or two. Non-trivial: a slashing reached the code under test; distinct by fork, slot and content.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![
            Sub { name: "proposer", quick: 60000, thorough: 900000, f: proposer },
            Sub { name: "attester", quick: 60000, thorough: 900000, f: attester },
            Sub { name: "body", quick: 40000, thorough: 600000, f: many },
            Sub { name: "direct", quick: 48000, thorough: 600000, f: direct },
        ],
    })
}

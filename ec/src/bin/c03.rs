//! C03: attestation rewards, penalties and the inactivity leak
use eccheck::{steps::*, *};
fn tune(src: &mut Src, sp: &Spec, s: &mut State) {
    let e = sp.cur(s);
    // leak boundary
    if src.chance(1, 2) {
        let d = src.range(3, 7);
        s.finalized_checkpoint.epoch = sp.prev(s).saturating_sub(d);
    }
    if src.chance(1, 6) {
        for b in s.balances.iter_mut() {
            *b = src.below(60000);
        }
    }
    let _ = e;
    if src.chance(1, 2) {
        let p = gen::supermajority(src, sp, s, sp.prev(s)).0;
        let c = gen::supermajority(src, sp, s, sp.cur(s)).0;
        gen::set_targets(sp, s, [&p, &c]);
    }
}
/// nothing but this property's steps moves balances
fn only_rewards(src: &mut Src, sp: &Spec, s: &mut State) {
    tune(src, sp, s);
    s.slashings.iter_mut().for_each(|x| *x = 0);
    s.pending_balance_deposits.clear();
    s.pending_consolidations.clear();
}
fn rewards(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::Rewards, src, obs, tune)
}
fn scores(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::Inactivity, src, obs, tune)
}
fn epoch(src: &mut Src, obs: &mut Obs) -> CaseResult {
    epoch_view("balances and inactivity scores", src, obs, only_rewards, |_, s| format!("balances {:?} scores {:?}", s.balances, s.inactivity_scores))
}
fn main() {
    pbt::main(Check {
        property: "C03",
        rule: "A case is a fork, a configuration and a state at the end of an epoch with random participation, finality delay around the leak threshold and balances down to zero. Non-trivial: the step changes the state; distinct by content.",
        assumptions: &[],
        subs: vec![
            Sub { name: "rewards", quick: 32000, thorough: 320000, f: rewards },
            Sub { name: "scores", quick: 16000, thorough: 160000, f: scores },
            Sub { name: "epoch", quick: 12000, thorough: 120000, f: epoch },
        ],
    })
}

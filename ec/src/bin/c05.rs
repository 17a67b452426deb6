//! C05: the other steps of the end-of-epoch transition, and the transition as a whole
use eccheck::{steps::*, *};
/// the epoch's place in the periods of the steps matters
fn period(src: &mut Src, sp: &Spec, s: &mut State) {
    if src.chance(1, 2) {
        let k = &sp.c.k;
        let per = *src.pick(&[k.EPOCHS_PER_SYNC_COMMITTEE_PERIOD, k.SLOTS_PER_HISTORICAL_ROOT / k.SLOTS_PER_EPOCH, k.EPOCHS_PER_ETH1_VOTING_PERIOD, k.EPOCHS_PER_HISTORICAL_VECTOR, k.EPOCHS_PER_SLASHINGS_VECTOR]);
        let e = sp.cur(s);
        let t = ((e / per + 1) * per - 1).saturating_sub(src.weighted(&[8, 1]) as u64);
        let d = t.saturating_sub(e) * k.SLOTS_PER_EPOCH;
        // the same state, later
        s.slot += d;
        s.latest_block_header.slot += d;
        if src.chance(1, 2) {
            // validators due for the correlated penalty
            let half = k.EPOCHS_PER_SLASHINGS_VECTOR / 2;
            let e = sp.cur(s);
            for v in s.validators.iter_mut().filter(|v| v.slashed) {
                v.withdrawable_epoch = e + half + src.weighted(&[6, 1, 1]) as u64;
            }
        }
        if sp.f == Phase0 {
            s.previous_epoch_attestations.clear();
            s.current_epoch_attestations.clear();
        }
    }
}
fn none(_: &mut Src, _: &Spec, _: &mut State) {}
fn slashings(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::Slashings, src, obs, |src, sp, s| {
        period(src, sp, s);
        let half = sp.c.k.EPOCHS_PER_SLASHINGS_VECTOR / 2;
        let e = sp.cur(s);
        for v in s.validators.iter_mut().skip(4) {
            if src.chance(1, 8) {
                v.slashed = true;
                v.exit_epoch = v.exit_epoch.min(e + 6);
            }
            if v.slashed && src.chance(2, 3) {
                v.withdrawable_epoch = e + half;
            }
        }
        let total = sp.total_active(s);
        let top = src.range(0, total / GWEI + 3);
        let i = src.idx(s.slashings.len());
        s.slashings[i] = match src.below(3) {
            0 => top * GWEI,
            1 => total / 3,
            _ => total / 2 + src.below(GWEI),
        };
    })
}
fn resets(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let s = *src.pick(&[Step::Eth1Reset, Step::SlashingsReset, Step::RandaoReset, Step::Historical, Step::Participation]);
    obs.label(s.name());
    step_case(s, src, obs, period)
}
fn effective(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::EffectiveBalances, src, obs, none)
}
fn sync(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::SyncCommittee, src, obs, period)
}
fn pending(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let s = *src.pick(&[Step::PendingDeposits, Step::PendingConsolidations]);
    step_case(s, src, obs, |src, sp, s| {
        let e = sp.cur(s);
        let n = s.validators.len() as u64;
        if src.chance(1, 2) {
            // around the budget
            let mut left = sp.activation_exit_churn_limit(s) + s.deposit_balance_to_consume;
            s.pending_balance_deposits.clear();
            for _ in 0..src.below(6) {
                let a = src.range(0, left / 2 + 1);
                left -= a.min(left);
                s.pending_balance_deposits.push(PendingBalanceDeposit { index: src.below(n), amount: a });
            }
            s.pending_balance_deposits.push(PendingBalanceDeposit { index: src.below(n), amount: (left + src.below(3)).saturating_sub(1) });
        }
        if src.chance(1, 2) {
            s.pending_consolidations.clear();
            for _ in 0..src.range(1, 5) {
                let (a, b) = (src.below(n), src.below(n));
                s.pending_consolidations.push(PendingConsolidation { source_index: a, target_index: b });
                if a >= 4 && !src.chance(1, 5) {
                    let v = &mut s.validators[a as usize];
                    if src.chance(1, 5) {
                        v.slashed = true;
                    }
                    v.exit_epoch = e.saturating_sub(2);
                    v.withdrawable_epoch = (e + src.below(3)).saturating_sub(1);
                }
            }
        }
    })
}
fn whole(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::Epoch, src, obs, |src, sp, s| {
        if src.chance(1, 2) {
            period(src, sp, s)
        }
    })
}
fn main() {
    pbt::main(Check {
        property: "C05",
        rule: "A case is a fork, a configuration and a state at the end of an epoch, placed at the ends of the voting, sync committee, history and slashing periods as often as not. Non-trivial: the step changes the state; distinct by content.",
        assumptions: &[],
        subs: vec![
            Sub { name: "slashings", quick: 20000, thorough: 200000, f: slashings },
            Sub { name: "resets", quick: 30000, thorough: 300000, f: resets },
            Sub { name: "effective", quick: 15000, thorough: 150000, f: effective },
            Sub { name: "sync", quick: 7500, thorough: 75000, f: sync },
            Sub { name: "pending", quick: 20000, thorough: 200000, f: pending },
            Sub { name: "whole", quick: 25000, thorough: 250000, f: whole },
        ],
    })
}

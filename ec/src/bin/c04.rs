//! C04: validator lifecycle
use eccheck::{steps::*, *};
/// many validators waiting, at the same and different eligibility epochs, and many to eject
fn tune(src: &mut Src, sp: &Spec, s: &mut State) {
    let e = sp.cur(s);
    let fin = s.finalized_checkpoint.epoch;
    let n = s.validators.len();
    let wait = src.weighted(&[2, 3, 2]);
    let eject = src.weighted(&[3, 3, 1]);
    // attestations name committees of the old registry
    s.previous_epoch_attestations.clear();
    s.current_epoch_attestations.clear();
    for i in 4..n {
        let v = &mut s.validators[i];
        if wait > 0 && src.chance(wait as u64, 4) {
            v.activation_epoch = FAR_FUTURE;
            v.exit_epoch = FAR_FUTURE;
            v.withdrawable_epoch = FAR_FUTURE;
            v.slashed = false;
            v.activation_eligibility_epoch = match src.weighted(&[4, 2, 1]) {
                0 => fin.saturating_sub(src.below(4)),
                1 => fin + src.below(3),
                _ => FAR_FUTURE,
            };
            if src.chance(3, 4) {
                v.effective_balance = 32 * GWEI;
            }
        } else if eject > 0 && src.chance(eject as u64, 6) && v.activation_epoch <= e && v.exit_epoch == FAR_FUTURE {
            v.effective_balance = sp.c.EJECTION_BALANCE - src.below(2).min(sp.c.EJECTION_BALANCE / GWEI) * GWEI;
        }
        if src.chance(1, 12) && s.validators[i].activation_epoch <= e && s.validators[i].exit_epoch == FAR_FUTURE {
            // an exit queue with tail epochs at the delay boundary
            let v = &mut s.validators[i];
            v.exit_epoch = e + 1 + sp.c.k.MAX_SEED_LOOKAHEAD + src.below(3);
            v.withdrawable_epoch = v.exit_epoch + sp.c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY;
        }
    }
}
fn view(_: &Spec, s: &State) -> String {
    let l: Vec<String> = s
        .validators
        .iter()
        .enumerate()
        .map(|(i, v)| format!("{i}: eligible {} active {} exit {} withdrawable {} slashed {}", v.activation_eligibility_epoch, v.activation_epoch, v.exit_epoch, v.withdrawable_epoch, v.slashed))
        .collect();
    format!("{} earliest exit {} left {}", l.join("; "), s.earliest_exit_epoch, s.exit_balance_to_consume)
}
fn step(src: &mut Src, obs: &mut Obs) -> CaseResult {
    step_case(Step::Registry, src, obs, tune)
}
fn epoch(src: &mut Src, obs: &mut Obs) -> CaseResult {
    epoch_view("validator epochs", src, obs, tune, view)
}
/// starting a validator's exit directly
fn exit(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let (c, sp, mut s) = end_of_epoch(src, f);
    tune(src, &sp, &mut s);
    s.slot -= src.below(8);
    let ctx = context(&c);
    let fp = sp.fp();
    let mut list = vec![];
    for _ in 0..src.range(1, 12) {
        list.push(src.below(s.validators.len() as u64));
    }
    let want = model(|| {
        let mut m = s.clone();
        for i in &list {
            sp.initiate_exit(&mut m, *i);
        }
        Ok(m)
    });
    let got = match f {
        Electra => electra_on!(f, spec => on_state::<spec::BeaconState>(fp, &s, |st| { for i in &list { spec::initiate_validator_exit(st, *i as usize, &ctx).outcome()?; } Ok(()) }))?,
        _ => forks!(f, [Phase0 phase0, Altair altair, Bellatrix bellatrix, Capella capella, Deneb deneb], spec => on_state::<spec::BeaconState>(fp, &s, |st| { for i in &list { spec::initiate_validator_exit(st, *i as usize, &ctx).outcome()?; } Ok(()) }))?,
    };
    obs.hit(format!("{f:?} {} {list:?}", s.slot).as_bytes());
    obs.sample(|| format!("{}; exits of {list:?}", brief(&sp, &s)));
    judge(fp, "exit queue", want, got, obs, || format!("{}; exits of {list:?}", brief(&sp, &s)))
}
/// many epochs of queueing: what each validator's record does over time
fn history(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let c = gen::cfg_odds(src, 10 * gen::MAINNET);
    let sp = Spec::new(&c, f);
    let mut s = gen::state(src, &sp, gen::EPOCH_END);
    tune(src, &sp, &mut s);
    let fp = sp.fp();
    let ctx = context(&c);
    let n = src.range(2, 8);
    let mut acts = 0;
    for _ in 0..n {
        // finality keeps up
        s.finalized_checkpoint.epoch = s.finalized_checkpoint.epoch.max(sp.prev(&s).saturating_sub(src.below(3)));
        let to = s.slot + sp.c.k.SLOTS_PER_EPOCH;
        let before = s.clone();
        let want = model(|| {
            let mut m = s.clone();
            sp.process_slots(&mut m, to)?;
            Ok(m)
        });
        let got = all_forks!(f, spec => on_state::<spec::BeaconState>(fp, &s, |x| spec::process_slots(x, to, &ctx)))?;
        let (w, g) = match (want, got) {
            (Ok(w), Got::Ok(g)) => (w, g),
            _ => break,
        };
        // invariants over the history, independent of the model
        let mut activated = 0u64;
        for (i, (a, b)) in before.validators.iter().zip(&g.validators).enumerate() {
            if a.exit_epoch != FAR_FUTURE {
                ensure!(a.exit_epoch == b.exit_epoch && a.withdrawable_epoch == b.withdrawable_epoch, "exit-moved", "validator {i}: exit {} -> {}, withdrawable {} -> {}", a.exit_epoch, b.exit_epoch, a.withdrawable_epoch, b.withdrawable_epoch);
            } else if b.exit_epoch != FAR_FUTURE {
                ensure!(b.withdrawable_epoch == b.exit_epoch + c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY && b.exit_epoch >= sp.cur(&before) + 1 + c.k.MAX_SEED_LOOKAHEAD, "exit-delay", "validator {i} exits at {} withdrawable {}", b.exit_epoch, b.withdrawable_epoch);
            }
            if a.activation_epoch != b.activation_epoch {
                activated += 1;
                ensure!(a.activation_epoch == FAR_FUTURE && b.activation_epoch == sp.cur(&before) + 1 + c.k.MAX_SEED_LOOKAHEAD, "activation-delay", "validator {i} activation {} -> {}", a.activation_epoch, b.activation_epoch);
            }
        }
        if f < Electra {
            ensure!(activated <= sp.activation_churn_limit(&before), "activation-churn", "{activated} activations in one epoch, limit {}", sp.activation_churn_limit(&before));
        }
        acts += activated;
        ensure!(view(&sp, &w) == view(&sp, &g), format!("history-{}", f.name()), "{}: got {} expected {}", brief(&sp, &s), cut_diff(&view(&sp, &g), &view(&sp, &w)), cut_diff(&view(&sp, &w), &view(&sp, &g)));
        s = w;
    }
    if acts > 0 {
        obs.hit(format!("{f:?} {} {acts}", s.slot).as_bytes());
    }
    obs.label(format!("{} activations {}", f.name(), acts.min(10)));
    obs.sample(|| format!("{}: {acts} activations", brief(&sp, &s)));
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C04",
        rule: "A case is a fork, a configuration and a state with waiting, ejectable and exiting validators; parts: one registry update, the whole epoch transition seen through the validators' epochs, a list of exits, and several epochs in a row. Non-trivial: the registry changes; distinct by content.",
        assumptions: &[],
        subs: vec![
            Sub { name: "step", quick: 28000, thorough: 300000, f: step },
            Sub { name: "epoch", quick: 12000, thorough: 120000, f: epoch },
            Sub { name: "exit", quick: 20000, thorough: 200000, f: exit },
            Sub { name: "history", quick: 1600, thorough: 16000, f: history },
        ],
    })
}

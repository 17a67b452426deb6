//! The steps of the end-of-epoch transition, one by one and as a whole.
use crate::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Step {
    Justification,
    Inactivity,
    Rewards,
    Registry,
    Slashings,
    Eth1Reset,
    PendingDeposits,
    PendingConsolidations,
    EffectiveBalances,
    SlashingsReset,
    RandaoReset,
    Historical,
    Participation,
    SyncCommittee,
    Epoch,
}
/// functions with and without a result
pub trait Outcome {
    fn outcome(self) -> Result<(), Error>;
}
impl Outcome for () {
    fn outcome(self) -> Result<(), Error> {
        Ok(())
    }
}
impl Outcome for Result<(), Error> {
    fn outcome(self) -> Result<(), Error> {
        self
    }
}
impl Step {
    pub fn since(self) -> Fork {
        match self {
            Step::Inactivity | Step::SyncCommittee => Altair,
            Step::PendingDeposits | Step::PendingConsolidations => Electra,
            _ => Phase0,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Step::Justification => "justification",
            Step::Inactivity => "inactivity scores",
            Step::Rewards => "rewards",
            Step::Registry => "registry updates",
            Step::Slashings => "slashing penalties",
            Step::Eth1Reset => "eth1 vote reset",
            Step::PendingDeposits => "pending deposits",
            Step::PendingConsolidations => "pending consolidations",
            Step::EffectiveBalances => "effective balances",
            Step::SlashingsReset => "slashings reset",
            Step::RandaoReset => "randao reset",
            Step::Historical => "historical accumulator",
            Step::Participation => "participation rotation",
            Step::SyncCommittee => "sync committee rotation",
            Step::Epoch => "epoch transition",
        }
    }
    pub fn model(self, sp: &Spec, s: &mut State) -> R<()> {
        match self {
            Step::Justification => sp.justification(s)?,
            Step::Inactivity => sp.inactivity_updates(s)?,
            Step::Rewards => sp.rewards(s)?,
            Step::Registry => sp.registry(s)?,
            Step::Slashings => sp.slashings(s)?,
            Step::Eth1Reset => sp.eth1_reset(s),
            Step::PendingDeposits => sp.pending_deposits(s),
            Step::PendingConsolidations => sp.pending_consolidations(s),
            Step::EffectiveBalances => sp.effective_balances(s),
            Step::SlashingsReset => sp.slashings_reset(s),
            Step::RandaoReset => sp.randao_reset(s),
            Step::Historical => sp.historical(s),
            Step::Participation => sp.participation_rotate(s),
            Step::SyncCommittee => sp.sync_rotate(s)?,
            Step::Epoch => sp.process_epoch(s)?,
        }
        Ok(())
    }
    pub fn repo(self, c: &Cfg, fp: Fp, s: &State) -> Result<Got<State>, Failure> {
        let ctx = context(c);
        macro_rules! ap {
            ($on:ident, $f:ident) => {
                $on!(fp.f, spec => on_state::<spec::BeaconState>(fp, s, |st| spec::$f(st, &ctx).outcome()))
            };
        }
        macro_rules! plain {
            ([$($F:ident $m:ident),*], $f:ident $(, $c:expr)?) => {
                forks!(fp.f, [$($F $m),*], spec => on_state::<spec::BeaconState>(fp, s, |st| spec::$f(st $(, $c)?).outcome()))
            };
        }
        match self {
            Step::Justification => ap!(all_forks, process_justification_and_finalization),
            Step::Inactivity => ap!(altair_on, process_inactivity_updates),
            Step::Rewards => ap!(all_forks, process_rewards_and_penalties),
            Step::Registry => ap!(all_forks, process_registry_updates),
            Step::Slashings => ap!(all_forks, process_slashings),
            Step::Eth1Reset => ap!(all_forks, process_eth1_data_reset),
            Step::PendingDeposits => ap!(electra_on, process_pending_balance_deposits),
            Step::PendingConsolidations => ap!(electra_on, process_pending_consolidations),
            Step::EffectiveBalances => ap!(all_forks, process_effective_balance_updates),
            Step::SlashingsReset => ap!(all_forks, process_slashings_reset),
            Step::RandaoReset => ap!(all_forks, process_randao_mixes_reset),
            Step::Historical => match fp.f {
                Phase0 | Altair | Bellatrix => plain!([Phase0 phase0, Altair altair, Bellatrix bellatrix], process_historical_roots_update, &ctx),
                _ => ap!(capella_on, process_historical_summaries_update),
            },
            Step::Participation => match fp.f {
                Phase0 => plain!([Phase0 phase0], process_participation_record_updates),
                _ => plain!([Altair altair, Bellatrix bellatrix, Capella capella, Deneb deneb, Electra electra], process_participation_flag_updates),
            },
            Step::SyncCommittee => ap!(altair_on, process_sync_committee_updates),
            Step::Epoch => ap!(all_forks, process_epoch),
        }
    }
}
/// a state at the last slot of an epoch
pub fn end_of_epoch(src: &mut Src, f: Fork) -> (Cfg, Spec, State) {
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let s = gen::state(src, &sp, gen::EPOCH_END);
    (c, sp, s)
}
/// `steps` on one state, each from the model's state before it; then the whole transition, of which only what
/// `view` shows is compared
pub fn step_case(step: Step, src: &mut Src, obs: &mut Obs, prep: impl FnOnce(&mut Src, &Spec, &mut State)) -> CaseResult {
    let f = fork_from(src, step.since());
    let (c, sp, mut s) = end_of_epoch(src, f);
    prep(src, &sp, &mut s);
    let want = model(|| {
        let mut m = s.clone();
        step.model(&sp, &mut m)?;
        Ok(m)
    });
    let got = step.repo(&c, sp.fp(), &s)?;
    match &want {
        Ok(w) if *w != s => {
            obs.label(format!("{} changes the state", f.name()));
            obs.hit(format!("{f:?} {:?} {} {}", step, s.slot, pbt::hash_bytes(&sp.fp().enc("BeaconState", &s))).as_bytes());
        }
        _ => {}
    }
    obs.sample(|| brief(&sp, &s));
    judge(sp.fp(), step.name(), want, got, obs, || brief(&sp, &s))
}
/// the whole transition compared through a view
pub fn epoch_view(what: &str, src: &mut Src, obs: &mut Obs, prep: impl FnOnce(&mut Src, &Spec, &mut State), view: impl Fn(&Spec, &State) -> String) -> CaseResult {
    let f = fork(src);
    let (c, sp, mut s) = end_of_epoch(src, f);
    prep(src, &sp, &mut s);
    let want = model(|| {
        let mut m = s.clone();
        sp.process_epoch(&mut m)?;
        Ok(m)
    });
    let got = Step::Epoch.repo(&c, sp.fp(), &s)?;
    obs.sample(|| brief(&sp, &s));
    match (want, got) {
        (Ok(w), Got::Ok(g)) => {
            let (a, b) = (view(&sp, &w), view(&sp, &g));
            if view(&sp, &s) != a {
                obs.hit(format!("{f:?} {} {a}", s.slot).as_bytes());
                obs.label(format!("{} changes in the epoch transition", f.name()));
            }
            ensure!(a == b, format!("{what}-in-epoch-{}", f.name()), "{what} in the epoch transition of {}: got {} expected {}", brief(&sp, &s), cut_diff(&b, &a), cut_diff(&a, &b));
            Ok(())
        }
        _ => Ok(()),
    }
}
/// the part of `a` around its first difference from `b`
pub fn cut_diff(a: &str, b: &str) -> String {
    let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let lo = i.saturating_sub(80);
    let t: String = a.chars().skip(lo).take(240).collect();
    format!("…{t}…")
}

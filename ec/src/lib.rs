//! Bridge between the reference model and /repo's code: states and operations cross as SSZ bytes.
use ethereum_consensus::{state_transition::Context, Error};
pub use pbt::{ensure, ensure_eq, fail, guard, CaseResult, Check, Failure, Obs, Src, Sub};
pub use refmodel::{bls, cfg::*, gen, schema, spec, spec::*, ssz, ssz::{Value, H}, types::*};
pub use ethereum_consensus as ec;
pub mod containers;
pub mod electra;
pub mod ops;
pub mod published;
pub mod steps;
pub mod wrapped;
/// one module per fork, each with `minimal` and `mainnet`
pub mod forks_ec {
    pub use crate::electra;
    pub use ethereum_consensus::{altair, bellatrix, capella, deneb, phase0};
}

/// what the code under test did
#[derive(Debug, Clone)]
pub enum Got<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Got<T> {
    pub fn kind(&self) -> String {
        match self {
            Got::Ok(_) => "accepted".into(),
            Got::Err(e) => format!("error: {}", cut(e)),
            Got::Panic(e) => format!("panic: {}", cut(e)),
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Got<U> {
        match self {
            Got::Ok(x) => Got::Ok(f(x)),
            Got::Err(e) => Got::Err(e),
            Got::Panic(p) => Got::Panic(p),
        }
    }
}
pub fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
pub fn run<T, E: std::fmt::Debug>(f: impl FnOnce() -> Result<T, E>) -> Got<T> {
    match guard(f) {
        Ok(Ok(x)) => Got::Ok(x),
        Ok(Err(e)) => Got::Err(format!("{e:?}")),
        Err(p) => Got::Panic(p),
    }
}

pub fn context(c: &Cfg) -> Context {
    PRESET.set(c.preset);
    let mut x = match c.preset {
        Minimal => Context::for_minimal(),
        Mainnet => Context::for_mainnet(),
    };
    let k = &c.k;
    macro_rules! set { ($($f:ident = $e:expr;)*) => { $(x.$f = $e as _;)* } }
    set! {
        max_committees_per_slot = k.MAX_COMMITTEES_PER_SLOT;
        target_committee_size = k.TARGET_COMMITTEE_SIZE;
        max_effective_balance = k.MAX_EFFECTIVE_BALANCE;
        hysteresis_quotient = k.HYSTERESIS_QUOTIENT;
        hysteresis_downward_multiplier = k.HYSTERESIS_DOWNWARD_MULTIPLIER;
        hysteresis_upward_multiplier = k.HYSTERESIS_UPWARD_MULTIPLIER;
        min_attestation_inclusion_delay = k.MIN_ATTESTATION_INCLUSION_DELAY;
        min_seed_lookahead = k.MIN_SEED_LOOKAHEAD;
        max_seed_lookahead = k.MAX_SEED_LOOKAHEAD;
        min_epochs_to_inactivity_penalty = k.MIN_EPOCHS_TO_INACTIVITY_PENALTY;
        base_reward_factor = k.BASE_REWARD_FACTOR;
        whistleblower_reward_quotient = k.WHISTLEBLOWER_REWARD_QUOTIENT;
        proposer_reward_quotient = k.PROPOSER_REWARD_QUOTIENT;
        inactivity_penalty_quotient = k.INACTIVITY_PENALTY_QUOTIENT;
        min_slashing_penalty_quotient = k.MIN_SLASHING_PENALTY_QUOTIENT;
        proportional_slashing_multiplier = k.PROPORTIONAL_SLASHING_MULTIPLIER;
        inactivity_penalty_quotient_altair = k.INACTIVITY_PENALTY_QUOTIENT_ALTAIR;
        min_slashing_penalty_quotient_altair = k.MIN_SLASHING_PENALTY_QUOTIENT_ALTAIR;
        proportional_slashing_multiplier_altair = k.PROPORTIONAL_SLASHING_MULTIPLIER_ALTAIR;
        epochs_per_sync_committee_period = k.EPOCHS_PER_SYNC_COMMITTEE_PERIOD;
        inactivity_penalty_quotient_bellatrix = k.INACTIVITY_PENALTY_QUOTIENT_BELLATRIX;
        min_slashing_penalty_quotient_bellatrix = k.MIN_SLASHING_PENALTY_QUOTIENT_BELLATRIX;
        proportional_slashing_multiplier_bellatrix = k.PROPORTIONAL_SLASHING_MULTIPLIER_BELLATRIX;
        max_validators_per_withdrawals_sweep = k.MAX_VALIDATORS_PER_WITHDRAWALS_SWEEP;
        max_blobs_per_block = k.MAX_BLOBS_PER_BLOCK;
        min_slashing_penalty_quotient_electra = k.MIN_SLASHING_PENALTY_QUOTIENT_ELECTRA;
        whistleblower_reward_quotient_electra = k.WHISTLEBLOWER_REWARD_QUOTIENT_ELECTRA;
        max_pending_partials_per_withdrawals_sweep = k.MAX_PENDING_PARTIALS_PER_WITHDRAWALS_SWEEP;
        shuffle_round_count = k.SHUFFLE_ROUND_COUNT;
        min_genesis_active_validator_count = c.MIN_GENESIS_ACTIVE_VALIDATOR_COUNT;
        min_genesis_time = c.MIN_GENESIS_TIME;
        genesis_delay = c.GENESIS_DELAY;
        seconds_per_slot = c.SECONDS_PER_SLOT;
        min_validator_withdrawability_delay = c.MIN_VALIDATOR_WITHDRAWABILITY_DELAY;
        shard_committee_period = c.SHARD_COMMITTEE_PERIOD;
        inactivity_score_bias = c.INACTIVITY_SCORE_BIAS;
        inactivity_score_recovery_rate = c.INACTIVITY_SCORE_RECOVERY_RATE;
        ejection_balance = c.EJECTION_BALANCE;
        min_per_epoch_churn_limit = c.MIN_PER_EPOCH_CHURN_LIMIT;
        max_per_epoch_activation_churn_limit = c.MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT;
        min_per_epoch_churn_limit_electra = c.MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA;
        max_per_epoch_activation_exit_churn_limit = c.MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT;
        churn_limit_quotient = c.CHURN_LIMIT_QUOTIENT;
        execution_engine = c.engine;
        genesis_fork_version = c.FORK_VERSIONS[0];
        altair_fork_version = c.FORK_VERSIONS[1];
        bellatrix_fork_version = c.FORK_VERSIONS[2];
        capella_fork_version = c.FORK_VERSIONS[3];
        deneb_fork_version = c.FORK_VERSIONS[4];
        electra_fork_version = c.FORK_VERSIONS[5];
        altair_fork_epoch = c.FORK_EPOCHS[1];
        bellatrix_fork_epoch = c.FORK_EPOCHS[2];
        capella_fork_epoch = c.FORK_EPOCHS[3];
        deneb_fork_epoch = c.FORK_EPOCHS[4];
        electra_fork_epoch = c.FORK_EPOCHS[5];
    }
    x
}

thread_local! {
    static PRESET: std::cell::Cell<Preset> = const { std::cell::Cell::new(Preset::Minimal) };
}
/// the preset of the last `context`
pub fn preset_now() -> Preset {
    PRESET.get()
}
/// run `$body` with the module of the fork, for the preset of the last `context`, in scope as `$spec`
#[macro_export]
macro_rules! forks {
    ($f:expr, [$($F:ident $m:ident),*], $spec:ident => $body:expr) => {
        match ($f, $crate::preset_now()) {
            $( ($crate::Fork::$F, $crate::Preset::Minimal) => {
                #[allow(unused_imports)]
                use $crate::forks_ec::$m::minimal as $spec;
                $body
            }
            ($crate::Fork::$F, $crate::Preset::Mainnet) => {
                #[allow(unused_imports)]
                use $crate::forks_ec::$m::mainnet as $spec;
                $body
            } )*
            #[allow(unreachable_patterns)]
            _ => unreachable!(),
        }
    };
}
#[macro_export]
macro_rules! all_forks { ($f:expr, $spec:ident => $body:expr) => { $crate::forks!($f, [Phase0 phase0, Altair altair, Bellatrix bellatrix, Capella capella, Deneb deneb, Electra electra], $spec => $body) } }
#[macro_export]
macro_rules! altair_on { ($f:expr, $spec:ident => $body:expr) => { $crate::forks!($f, [Altair altair, Bellatrix bellatrix, Capella capella, Deneb deneb, Electra electra], $spec => $body) } }
#[macro_export]
macro_rules! bellatrix_on { ($f:expr, $spec:ident => $body:expr) => { $crate::forks!($f, [Bellatrix bellatrix, Capella capella, Deneb deneb, Electra electra], $spec => $body) } }
#[macro_export]
macro_rules! capella_on { ($f:expr, $spec:ident => $body:expr) => { $crate::forks!($f, [Capella capella, Deneb deneb, Electra electra], $spec => $body) } }
#[macro_export]
macro_rules! electra_on { ($f:expr, $spec:ident => $body:expr) => { $crate::forks!($f, [Electra electra], $spec => $body) } }

/// a /repo value from its model
pub fn to_repo<O: ssz_rs::Deserialize, T: Val>(fp: Fp, name: &str, x: &T) -> O {
    let b = fp.enc(name, x);
    match O::deserialize(&b) {
        Ok(o) => o,
        Err(e) => panic!("the model's {name} is not accepted as SSZ by /repo: {e:?}"),
    }
}
pub fn from_repo<O: ssz_rs::Serialize, T: Val>(fp: Fp, name: &str, o: &O) -> T {
    let mut b = vec![];
    o.serialize(&mut b).expect("serialize");
    fp.dec(name, &b).unwrap_or_else(|e| panic!("/repo's {name} does not decode: {e:?}"))
}
/// a /repo value from its model; a value /repo refuses to decode is an error of the case
pub fn try_repo<O: ssz_rs::Deserialize, T: Val>(fp: Fp, name: &str, x: &T) -> Result<O, Failure> {
    let b = fp.enc(name, x);
    match guard(|| O::deserialize(&b)) {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => fail("ssz-rejects", format!("{name} is refused as SSZ: {e:?}")),
        Err(p) => fail("ssz-panics", format!("{name}: {p}")),
    }
}
/// apply a /repo function to a state
pub fn on_state<S: ssz_rs::Deserialize + ssz_rs::Serialize>(fp: Fp, s: &State, f: impl FnOnce(&mut S) -> Result<(), Error>) -> Result<Got<State>, Failure> {
    let mut st: S = try_repo(fp, "BeaconState", s)?;
    Ok(match run(|| f(&mut st)) {
        Got::Ok(()) => Got::Ok(from_repo(fp, "BeaconState", &st)),
        Got::Err(e) => Got::Err(e),
        Got::Panic(p) => Got::Panic(p),
    })
}
thread_local! {
    /// outcome of the last model run with the known defects followed, when they make a difference
    static STALE: std::cell::RefCell<Option<Box<dyn std::any::Any>>> = const { std::cell::RefCell::new(None) };
}
/// model run; "arithmetic" when the specification itself overflows (the input is then invalid by definition)
pub fn model<T: 'static>(f: impl Fn() -> R<T>) -> Result<T, String> {
    let once = |follow: bool| {
        refmodel::spec::stale::start(follow);
        let r = match guard(&f) {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => Err(e.to_string()),
            Err(p) => {
                if p.contains("overflow") || p.contains("divide by zero") {
                    Err("arithmetic".into())
                } else {
                    panic!("model: {p}")
                }
            }
        };
        let seen = refmodel::spec::stale::seen();
        refmodel::spec::stale::start(false);
        (r, seen)
    };
    let (r, seen) = once(false);
    STALE.set(if seen { Some(Box::new(once(true).0)) } else { None });
    r
}
/// what the known defects of the generated copies make of the last model run
pub fn stale<T: Clone + 'static>() -> Option<Result<T, String>> {
    STALE.with_borrow(|s| s.as_ref().and_then(|b| b.downcast_ref::<Result<T, String>>().cloned()))
}
pub fn state_diff(fp: Fp, got: &State, want: &State) -> String {
    let t = fp.ty("BeaconState");
    let mut out = vec![];
    ssz::diff(&got.to_v(&t), &want.to_v(&t), &t, "state", &mut out);
    out.truncate(12);
    out.join("; ")
}
/// compare the outcome of /repo with that of the model
pub fn judge(fp: Fp, what: &str, want: Result<State, String>, got: Got<State>, obs: &mut Obs, input: impl Fn() -> String) -> CaseResult {
    let alt = stale::<State>();
    let r = judge_one(fp, what, &want, &got, obs, &input);
    if let (Err(e), Some(alt)) = (&r, alt) {
        if judge_one(fp, what, &alt, &got, &mut Obs::default(), &input).is_ok() {
            // exactly the defect of the generated copies: the finding of C08 and C10, and no matter of the others
            if ["C08", "C10"].contains(&pbt::property()) {
                return fail(format!("generated-copy-{what}-{}", fp.f.name()), e.detail.clone());
            }
            obs.label("known defect of a generated copy, see C08 and C10");
            return Ok(());
        }
    }
    r
}
fn judge_one(fp: Fp, what: &str, want: &Result<State, String>, got: &Got<State>, obs: &mut Obs, input: &impl Fn() -> String) -> CaseResult {
    let f = fp.f.name();
    match (want, got) {
        (Ok(w), Got::Ok(g)) => {
            let t = fp.ty("BeaconState");
            if w.to_v(&t) == g.to_v(&t) {
                obs.label(format!("{f} accepted"));
                return Ok(());
            }
            fail(format!("{what}-{f}-result"), format!("{what} on {f}: post-state differs (got vs expected): {}; input {}", state_diff(fp, g, w), input()))
        }
        (Ok(_), g) => fail(format!("{what}-{f}-refused"), format!("{what} on {f}: valid input not accepted: {}; input {}", g.kind(), input())),
        (Err(e), Got::Ok(_)) => fail(format!("{what}-{f}-admitted"), format!("{what} on {f}: input that must be rejected ({e}) was accepted; input {}", input())),
        (Err(e), Got::Panic(p)) if e != "arithmetic" => fail(format!("{what}-{f}-panic"), format!("{what} on {f}: input that must be rejected ({e}) made the code panic: {}; input {}", cut(p), input())),
        (Err(e), _) => {
            obs.label(format!("{f} rejected: {e}"));
            Ok(())
        }
    }
}
pub fn fork(src: &mut Src) -> Fork {
    *src.pick(&FORKS)
}
pub fn fork_from(src: &mut Src, from: Fork) -> Fork {
    *src.pick(&FORKS[from as usize..])
}
/// short description of a state for samples
pub fn brief(sp: &Spec, s: &State) -> String {
    let e = sp.cur(s);
    format!(
        "{} slot {} (epoch {e}), {} validators, {} active, {} slashed, finalized {}",
        sp.f.name(),
        s.slot,
        s.validators.len(),
        sp.active_indices(s, e).len(),
        s.validators.iter().filter(|v| v.slashed).count(),
        s.finalized_checkpoint.epoch
    )
}

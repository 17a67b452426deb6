//! C16: upgrades to the next fork
use eccheck::{ops::*, *};

fn repo(c: &Cfg, to: Fork, s: &State) -> Result<Got<State>, Failure> {
    let ctx = context(c);
    let from = Spec::new(c, FORKS[to as usize - 1]).fp();
    let fp = Spec::new(c, to).fp();
    macro_rules! up {
        ($p:ident, $a:ident, $b:ident, $f:ident) => {{
            use eccheck::forks_ec::{$a::$p as old, $b::$p as new};
            let st: old::BeaconState = try_repo(from, "BeaconState", s)?;
            match run(|| new::$f(&st, &ctx).outcome()) {
                Got::Ok(n) => {
                    let n: new::BeaconState = n;
                    Got::Ok(from_repo(fp, "BeaconState", &n))
                }
                Got::Err(e) => Got::Err(e),
                Got::Panic(p) => Got::Panic(p),
            }
        }};
    }
    macro_rules! arms { ($p:ident) => { match to {
        Altair => up!($p, phase0, altair, upgrade_to_altair),
        Bellatrix => up!($p, altair, bellatrix, upgrade_to_bellatrix),
        Capella => up!($p, bellatrix, capella, upgrade_to_capella),
        Deneb => up!($p, capella, deneb, upgrade_to_deneb),
        Electra => up!($p, deneb, electra, upgrade_to_electra),
        Phase0 => unreachable!(),
    } } }
    Ok(match c.preset {
        Minimal => arms!(minimal),
        Mainnet => arms!(mainnet),
    })
}
/// upgrades with and without a result
trait Outcome<T> {
    fn outcome(self) -> Result<T, ec::Error>;
}
impl<T> Outcome<T> for Result<T, ec::Error> {
    fn outcome(self) -> Result<T, ec::Error> {
        self
    }
}
macro_rules! plain {
    ($p:ident, $($f:ident),*) => { $(impl Outcome<eccheck::forks_ec::$f::$p::BeaconState> for eccheck::forks_ec::$f::$p::BeaconState {
        fn outcome(self) -> Result<Self, ec::Error> { Ok(self) }
    })* };
}
plain!(minimal, altair, bellatrix, capella, deneb, electra);
plain!(mainnet, altair, bellatrix, capella, deneb, electra);

fn setup(src: &mut Src) -> (Cfg, Spec, Spec, State) {
    let to = fork_from(src, Altair);
    let c = gen::cfg(src);
    let old = Spec::new(&c, FORKS[to as usize - 1]);
    let new = Spec::new(&c, to);
    // mostly at the first slot of an epoch, where upgrades happen
    let shape = if src.chance(3, 4) { gen::Shape { offset: Some(0), ..gen::ANY } } else { gen::ANY };
    let mut s = gen::state(src, &old, shape);
    for i in 0..s.validators.len() as u64 {
        // pending attestations fix the committees, so the active set stays
        if to > Altair && src.chance(1, 6) {
            tweak_validator(src, &old, &mut s, i);
        }
    }
    if to == Electra && src.chance(1, 2) {
        // validators waiting for activation, in any order of eligibility, with any balance
        let e = old.cur(&s);
        for i in 0..s.validators.len() {
            if src.chance(1, 3) {
                let v = &mut s.validators[i];
                v.activation_epoch = FAR_FUTURE;
                v.exit_epoch = FAR_FUTURE;
                v.withdrawable_epoch = FAR_FUTURE;
                v.slashed = false;
                v.activation_eligibility_epoch = if src.chance(1, 4) { FAR_FUTURE } else { e.saturating_sub(src.below(3)) };
                s.balances[i] = src.below(70) * GWEI;
            }
            if src.chance(1, 3) {
                // compounding, at, above and below the limit
                s.validators[i].withdrawal_credentials[0] = 2;
                s.balances[i] = 32 * GWEI - 1 + src.below(3) + if src.chance(1, 2) { src.below(40 * GWEI) } else { 0 };
            }
        }
    }
    (c, old, new, s)
}
fn one(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, old, new, s) = setup(src);
    let to = new.f;
    let want = model(|| new.upgrade(&s));
    let got = repo(&c, to, &s)?;
    obs.hit(format!("{to:?} {} {:?} {:?}", s.slot, s.balances, s.previous_epoch_attestations).as_bytes());
    if to == Altair {
        obs.label(format!("{} pending attestations", s.previous_epoch_attestations.len().min(10)));
    }
    let input = || format!("{} to {}", brief(&old, &s), to.name());
    obs.sample(input);
    if want.is_err() {
        obs.label("no valid state of the previous fork");
    }
    judge(new.fp(), "upgrade", want, got, obs, input)
}
/// the upgraded state goes on working: the chain after the upgrade is that of the model
fn after(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, old, new, s) = setup(src);
    let to = new.f;
    let fp = new.fp();
    let d = src.range(1, 10);
    let Ok(up) = model(|| new.upgrade(&s)) else { return Ok(()) };
    let want = model(|| {
        let mut m = up.clone();
        let slot = m.slot + d;
        new.process_slots(&mut m, slot)?;
        Ok(m)
    });
    let got = match repo(&c, to, &s)? {
        Got::Ok(g) => {
            let ctx = context(&c);
            altair_on!(to, spec => on_state::<spec::BeaconState>(fp, &g, |st| spec::process_slots(st, g.slot + d, &ctx)))?
        }
        g => return fail(format!("upgrade-{}-refused", to.name()), format!("{} to {}: {}", brief(&old, &s), to.name(), g.kind())),
    };
    obs.hit(format!("{to:?} {} {d} {:?}", s.slot, s.balances).as_bytes());
    let input = || format!("{} to {}, then {d} slots", brief(&old, &s), to.name());
    obs.sample(input);
    judge(fp, "after the upgrade", want, got, obs, input)
}
fn main() {
    pbt::main(Check {
        property: "C16",
        rule: "A case is a configuration, a state of a fork before Electra and its upgrade to the next fork, alone or followed by slots. Every case whose state the model can upgrade is non-trivial; distinct by slot, balances and pending attestations.",
        assumptions: &[],
        subs: vec![Sub { name: "upgrade", quick: 60000, thorough: 2400000, f: one }, Sub { name: "after", quick: 12000, thorough: 800000, f: after }],
    })
}

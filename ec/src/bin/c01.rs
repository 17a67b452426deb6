//! C01: slot advance records history and composes
use eccheck::*;

fn slots(f: Fork, c: &Cfg, s: &State, to: u64) -> Result<Got<State>, Failure> {
    let ctx = context(c);
    let fp = Fp { p: c.preset, f };
    all_forks!(f, spec => on_state::<spec::BeaconState>(fp, s, |x| spec::process_slots(x, to, &ctx)))
}
fn setup(src: &mut Src, f: Fork) -> (Cfg, Spec, State) {
    let c = gen::cfg(src);
    let sp = Spec::new(&c, f);
    let sh = gen::Shape { offset: if src.chance(1, 2) { Some(c.k.SLOTS_PER_EPOCH - 3 + src.below(3)) } else { None }, ..gen::ANY };
    let s = gen::state(src, &sp, sh);
    (c, sp, s)
}
fn distance(src: &mut Src) -> u64 {
    match src.weighted(&[3, 3, 1]) {
        0 => 1,
        1 => src.range(1, 12),
        _ => src.range(1, 80),
    }
}
/// one call against the reference specification
fn advance(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let (c, sp, s) = setup(src, f);
    let to = s.slot + distance(src);
    let want = model(|| {
        let mut m = s.clone();
        sp.process_slots(&mut m, to)?;
        Ok(m)
    });
    let got = slots(f, &c, &s, to)?;
    let crossed = sp.epoch_at(to) - sp.epoch_at(s.slot);
    obs.label(format!("{} boundaries {}", f.name(), crossed.min(3)));
    if want.is_ok() {
        obs.hit(format!("{f:?} {} {to} {}", s.slot, s.validators.len()).as_bytes());
    }
    obs.sample(|| format!("{} -> slot {to}", brief(&sp, &s)));
    judge(sp.fp(), "slot advance", want, got, obs, || format!("{} -> slot {to}", brief(&sp, &s)))
}
/// one slot of the mainnet preset, anywhere in the first turns of its histories
fn histories(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let c = gen::cfg_of(src, Preset::Mainnet);
    let sp = Spec::new(&c, f);
    let mut s = gen::state(src, &sp, gen::ANY);
    // not the last slot of an epoch: the epoch transition is for the other parts
    s.slot = src.range(0, 4 * c.k.SLOTS_PER_HISTORICAL_ROOT / c.k.SLOTS_PER_EPOCH) * c.k.SLOTS_PER_EPOCH + src.below(c.k.SLOTS_PER_EPOCH - 1);
    let to = s.slot + 1;
    let want = model(|| {
        let mut m = s.clone();
        sp.process_slots(&mut m, to)?;
        Ok(m)
    });
    let got = slots(f, &c, &s, to)?;
    obs.hit(format!("{f:?} {}", s.slot).as_bytes());
    obs.sample(|| format!("mainnet {} -> slot {to}", brief(&sp, &s)));
    judge(sp.fp(), "slot of mainnet", want, got, obs, || format!("mainnet {} -> slot {to}", brief(&sp, &s)))
}
/// a target that is not later is refused
fn backwards(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let (c, sp, s) = setup(src, f);
    let to = match src.below(3) {
        0 => s.slot,
        1 => s.slot.saturating_sub(1),
        _ => src.range(0, s.slot),
    };
    let got = slots(f, &c, &s, to)?;
    obs.hit(format!("{f:?} {} {to}", s.slot).as_bytes());
    obs.sample(|| format!("{} slot {} -> slot {to} (refused)", f.name(), s.slot));
    judge(sp.fp(), "backward slot advance", Err("slot not later".into()), got, obs, || format!("slot {} -> {to}", s.slot))
}
/// two calls give the state of one
fn composes(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let (c, sp, s) = setup(src, f);
    let a = s.slot + distance(src);
    let b = a + distance(src);
    let once = slots(f, &c, &s, b)?;
    let twice = match slots(f, &c, &s, a)? {
        Got::Ok(m) => slots(f, &c, &m, b)?,
        e => e,
    };
    obs.sample(|| format!("{} -> {a} -> {b}", brief(&sp, &s)));
    match (once, twice) {
        (Got::Ok(x), Got::Ok(y)) => {
            obs.hit(format!("{f:?} {} {a} {b}", s.slot).as_bytes());
            ensure!(x == y, format!("composition-{}", f.name()), "{} -> {b} differs from -> {a} -> {b}: {}", brief(&sp, &s), state_diff(sp.fp(), &y, &x));
            Ok(())
        }
        (Got::Ok(_), e) | (e, Got::Ok(_)) => fail(format!("composition-{}", f.name()), format!("{} -> {a} -> {b}: only one of the two ways succeeds: {}", brief(&sp, &s), e.kind())),
        _ => Ok(()),
    }
}
/// block roots read back for the recorded past, and for no other slot
fn lookup(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let (c, sp, mut s) = setup(src, f);
    if src.chance(1, 2) {
        // within or just past one turn of the history
        s.slot = src.range(1, 3 * c.k.SLOTS_PER_HISTORICAL_ROOT);
    }
    let h = c.k.SLOTS_PER_HISTORICAL_ROOT;
    if s.slot == 0 {
        return Ok(());
    }
    let slot = match src.below(5) {
        0 => s.slot - 1,
        1 => s.slot + src.below(3),
        2 => (s.slot + src.below(3)).saturating_sub(h + 1),
        3 => src.range(0, s.slot + h),
        _ => s.slot.saturating_sub(src.below(h)),
    };
    let want = if slot < s.slot && s.slot <= slot + h { Some(s.block_roots[(slot % h) as usize]) } else { None };
    context(&c);
    let got = all_forks!(f, spec => {
        let st: spec::BeaconState = try_repo(sp.fp(), "BeaconState", &s)?;
        run(|| spec::get_block_root_at_slot(&st, slot).map(|r| r.as_ref().to_vec()))
    });
    let e = slot / c.k.SLOTS_PER_EPOCH;
    let first = e * c.k.SLOTS_PER_EPOCH;
    let want_epoch = if first < s.slot && s.slot <= first + h { Some(s.block_roots[(first % h) as usize]) } else { None };
    let ctx = context(&c);
    let got_epoch = all_forks!(f, spec => {
        let st: spec::BeaconState = try_repo(sp.fp(), "BeaconState", &s)?;
        run(|| spec::get_block_root(&st, e, &ctx).map(|r| r.as_ref().to_vec()))
    });
    obs.hit(format!("{f:?} {} {slot} {:?}", s.slot, want).as_bytes());
    obs.sample(|| format!("{} slot {}: root of slot {slot} {}", f.name(), s.slot, if want.is_some() { "is read" } else { "is refused" }));
    for (what, want, got) in [("slot", want, got), ("epoch", want_epoch, got_epoch)] {
        match (want, got) {
            (Some(w), Got::Ok(g)) => ensure!(g == w, format!("lookup-{what}-{}", f.name()), "at slot {} the block root of {what} of {slot} is {}, recorded {}", s.slot, ssz::hex(&g), ssz::hex(&w)),
            (None, Got::Err(_)) => {}
            (w, g) => return fail(format!("lookup-{what}-{}", f.name()), format!("at slot {} the block root of {what} of {slot} is {} but {}", s.slot, if w.is_some() { "recorded" } else { "not recorded" }, g.kind())),
        }
    }
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C01",
        rule: "A case is a fork, a (possibly non-standard) configuration, a generated beacon state and target slots, or a slot to look up. Non-trivial: the advance is accepted (parts advance, composes) or made on the mainnet preset (histories) or is a refusal (backwards), or a root was looked up (lookup); distinct by fork, slots and registry size.",
        assumptions: &[],
        subs: vec![
            Sub { name: "advance", quick: 7500, thorough: 75000, f: advance },
            Sub { name: "histories", quick: 200, thorough: 4000, f: histories },
            Sub { name: "backwards", quick: 1500, thorough: 15000, f: backwards },
            Sub { name: "composes", quick: 2500, thorough: 25000, f: composes },
            Sub { name: "lookup", quick: 20000, thorough: 400000, f: lookup },
        ],
    })
}

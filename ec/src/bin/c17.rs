//! C17: the executor that follows a chain through its forks
use eccheck::*;
use ethereum_consensus::{
    state_transition::{mainnet, minimal, Validation},
    types,
};

/// the executor of either preset
enum Executor {
    Minimal(minimal::Executor),
    Mainnet(mainnet::Executor),
}

/// the state of the executor and its fork
fn read(c: &Cfg, x: &Executor) -> (Fork, State) {
    macro_rules! arms { ($x:ident, $($F:ident)*) => { match &$x.state {
        $( types::BeaconState::$F(s) => (Fork::$F, from_repo(Spec::new(c, Fork::$F).fp(), "BeaconState", s)), )*
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    } } }
    match x {
        Executor::Minimal(x) => arms!(x, Phase0 Altair Bellatrix Capella Deneb),
        Executor::Mainnet(x) => arms!(x, Phase0 Altair Bellatrix Capella Deneb),
    }
}
fn write(c: &Cfg, f: Fork, s: &State) -> Result<Executor, Failure> {
    let fp = Spec::new(c, f).fp();
    macro_rules! arms { ($($F:ident)*) => { match f {
        $( Fork::$F => types::BeaconState::$F(try_repo(fp, "BeaconState", s)?), )*
        _ => unreachable!(),
    } } }
    Ok(match c.preset {
        Minimal => Executor::Minimal(minimal::Executor::new(arms!(Phase0 Altair Bellatrix Capella Deneb), context(c))),
        Mainnet => Executor::Mainnet(mainnet::Executor::new(arms!(Phase0 Altair Bellatrix Capella Deneb), context(c))),
    })
}
fn apply(c: &Cfg, x: &mut Executor, f: Fork, b: &SignedBlock, validate: bool) -> Result<Got<()>, Failure> {
    let fp = Spec::new(c, f).fp();
    macro_rules! arms { ($($F:ident)*) => { match f {
        $( Fork::$F => types::SignedBeaconBlock::$F(try_repo(fp, "SignedBeaconBlock", b)?), )*
        _ => unreachable!(),
    } } }
    macro_rules! go { ($x:ident) => {{
        let b = arms!(Phase0 Altair Bellatrix Capella Deneb);
        let plain = validate && b.message().slot() % 2 == 0;
        let v = if validate { Validation::Enabled } else { Validation::Disabled };
        run(|| if plain { $x.apply_block(&b) } else { $x.apply_block_with_validation(&b, v) })
    }} }
    Ok(match x {
        Executor::Minimal(x) => go!(x),
        Executor::Mainnet(x) => go!(x),
    })
}
/// latest fork whose epoch has come
fn fork_of(c: &Cfg, slot: u64) -> Fork {
    let e = slot / c.k.SLOTS_PER_EPOCH;
    *FORKS.iter().rev().find(|f| **f == Phase0 || c.FORK_EPOCHS[**f as usize] <= e).unwrap()
}
/// bring a state to a slot through the upgrades on the way. The last flag tells that the slot was reached by an upgrade
fn follow(c: &Cfg, f: Fork, s: &State, slot: u64) -> R<(Fork, State, bool)> {
    let to = fork_of(c, slot);
    if f > to {
        return Err("state of a later fork");
    }
    let (mut f, mut s, mut there) = (f, s.clone(), false);
    while f < to {
        let next = FORKS[f as usize + 1];
        let at = c.FORK_EPOCHS[next as usize] * c.k.SLOTS_PER_EPOCH;
        if s.slot > at {
            return Err("state past its fork");
        }
        if s.slot < at {
            Spec::new(c, f).process_slots(&mut s, at)?;
        }
        s = Spec::new(c, next).upgrade(&s)?;
        f = next;
        there = true;
    }
    if !(there && s.slot == slot) {
        Spec::new(c, f).process_slots(&mut s, slot)?;
    }
    Ok((f, s, there))
}
fn expected(c: &Cfg, f: Fork, s: &State, bf: Fork, b: &SignedBlock, validate: bool) -> R<(Fork, State)> {
    if fork_of(c, b.message.slot) != bf {
        return Err("block of another fork than its slot's");
    }
    let (f, mut s, _) = follow(c, f, s, b.message.slot)?;
    Spec::new(c, f).transition_in_slot(&mut s, b, validate)?;
    Ok((f, s))
}
fn build(src: &mut Src, sp: &Spec, at: &State, ops: u64) -> Option<SignedBlock> {
    let mut at = at.clone();
    let mut b = guard(|| gen::block(src, sp, &mut at, gen::Plan { deposits: false, ops })).ok()?.ok()?;
    b.state_root = model(|| {
        let mut m = at.clone();
        sp.process_block(&mut m, &b)?;
        Ok(sp.state_root(&m))
    })
    .ok()?;
    Some(gen::sign_block(sp, &at, &b))
}

/// one chain in this many has the mainnet preset
const MAINNET: u64 = 300;
fn chain(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut c = gen::cfg_odds(src, MAINNET);
    let f = FORKS[src.weighted(&[4, 2, 2, 2, 1])];
    let sp = Spec::new(&c, f);
    let shape = gen::Shape { offset: if src.chance(1, 4) { Some(0) } else { None }, lo: 8, hi: 40, small_epoch: true, still: false };
    let mut s = gen::state(src, &sp, shape);
    let e = sp.cur(&s);
    if f == Phase0 && src.chance(1, 8) {
        // a chain that starts at genesis
        s.slot = 0;
        s.finalized_checkpoint.epoch = 0;
        s.current_justified_checkpoint.epoch = 0;
        s.previous_justified_checkpoint.epoch = 0;
        s.latest_block_header.slot = 0;
        s.previous_epoch_attestations.clear();
        s.current_epoch_attestations.clear();
    }
    let e = if s.slot == 0 { 0 } else { e };
    // the schedule
    let mut at = 0;
    for i in 1..6 {
        let lo = at;
        at = if i <= f as usize {
            src.range(lo, e)
        } else {
            let lo = lo.max(e);
            match src.weighted(&[4, 4, 2, 1, 1]) {
                _ if lo == FAR_FUTURE => FAR_FUTURE,
                0 => lo + 1,
                // in the epoch of the fork before it
                1 if lo > e || (i == f as usize + 1 && s.slot == e * sp.c.k.SLOTS_PER_EPOCH) => lo,
                1 => lo + 1,
                2 => lo + 2,
                3 => lo + src.range(1, 6),
                _ => FAR_FUTURE,
            }
        };
        c.FORK_EPOCHS[i] = at;
    }
    if src.chance(1, 30) && f < Deneb {
        // a state its fork should have left behind
        for i in f as usize + 1..6 {
            c.FORK_EPOCHS[i] = c.FORK_EPOCHS[i].min(e);
        }
    }
    let mut x = write(&c, f, &s)?;
    let mut trace = vec![];
    let schedule = c.FORK_EPOCHS;
    let mut upgrades = 0;
    for _ in 0..src.range(1, 6) {
        let (f, s) = read(&c, &x);
        let spe = c.k.SLOTS_PER_EPOCH;
        // where the next block goes
        let next_fork: Vec<u64> = c.FORK_EPOCHS[f as usize + 1..5].iter().filter(|e| **e != FAR_FUTURE).map(|e| e * spe).collect();
        let slot = match src.weighted(&[3, 2, 2, 5, 1, 1]) {
            0 => s.slot + 1,
            1 => s.slot + src.range(1, 10),
            2 => (s.slot / spe + src.range(1, 2)) * spe,
            3 if !next_fork.is_empty() => *src.pick(&next_fork) + src.below(4) + src.below(2) * spe - 1.min(next_fork[0]),
            4 => s.slot,
            _ => s.slot + src.range(1, 25),
        };
        let validate = src.chance(4, 5);
        let right = fork_of(&c, slot);
        let mut kind = src.weighted(&[8, 2, 2, 2]);
        if slot > s.slot + 12 * spe {
            kind = 0;
        }
        let (bf, mut b, note) = match kind {
            1 => {
                // valid for the fork the state has, had there been no upgrade
                let sp = Spec::new(&c, f);
                let Ok(at) = model(|| {
                    let mut m = s.clone();
                    if slot > m.slot {
                        sp.process_slots(&mut m, slot)?;
                    }
                    Ok(m)
                }) else { break };
                let Some(b) = build(src, &sp, &at, 1) else { continue };
                (f, b, "without upgrade")
            }
            2 if f < Deneb => {
                // valid had the upgrade come at once
                let sp = Spec::new(&c, FORKS[f as usize + 1]);
                let Ok(at) = model(|| {
                    let mut m = s.clone();
                    let old = Spec::new(&c, f);
                    let boundary = (m.slot / spe + 1) * spe;
                    if boundary <= slot {
                        old.process_slots(&mut m, boundary)?;
                    }
                    m = sp.upgrade(&m)?;
                    if slot > m.slot {
                        sp.process_slots(&mut m, slot)?;
                    }
                    Ok(m)
                }) else { break };
                let Some(b) = build(src, &sp, &at, 1) else { continue };
                (sp.f, b, "early upgrade")
            }
            _ => {
                if right == Electra {
                    continue;
                }
                let at = match model(|| follow(&c, f, &s, slot)) {
                    Ok((_, m, _)) => m,
                    Err(_) => match model(|| {
                        // no way there: a block for the state as it is
                        let mut m = s.clone();
                        if m.slot < slot {
                            Spec::new(&c, f).process_slots(&mut m, slot)?;
                        }
                        Ok(m)
                    }) {
                        Ok(m) => m,
                        Err(_) => break,
                    },
                };
                let sp = Spec::new(&c, right);
                let ops = 1 + src.below(2);
                let Some(b) = build(src, &sp, &at, ops) else { continue };
                (right, b, "")
            }
        };
        if bf == Electra {
            continue;
        }
        let mut note = note.to_string();
        if src.chance(1, 6) {
            note += match src.below(3) {
                0 => {
                    b.message.state_root[src.idx(32)] ^= 1;
                    b.signature = gen::sign_block(&Spec::new(&c, bf), &s, &b.message).signature;
                    " state root"
                }
                1 => {
                    b.signature[src.idx(96)] ^= 1;
                    " signature"
                }
                _ => {
                    b.message.parent_root[src.idx(32)] ^= 1;
                    " parent"
                }
            };
        }
        let want = model(|| expected(&c, f, &s, bf, &b, validate));
        let alt = stale::<(Fork, State)>();
        let got = apply(&c, &mut x, bf, &b, validate)?;
        let step = format!("{} state of slot {} given a {} block of slot {slot}{}{}", f.name(), s.slot, bf.name(), if note.is_empty() { String::new() } else { format!(" ({note})") }, if validate { "" } else { " unvalidated" });
        trace.push(step.clone());
        let told = || format!("fork epochs {:?}, {} validators; {}", &schedule[1..], s.validators.len(), trace.join("; "));
        let (gf, gs) = read(&c, &x);
        obs.hit(format!("{f:?} {bf:?} {slot} {:?} {:?}", c.FORK_EPOCHS, s.balances).as_bytes());
        let compare = |want: &Result<(Fork, State), String>| -> CaseResult {
            match (want, &got) {
                (Ok((wf, ws)), Got::Ok(())) => {
                    if *wf != gf {
                        return fail("fork", format!("the executor ends in {} rather than {}: {}", gf.name(), wf.name(), told()));
                    }
                    let fp = Spec::new(&c, gf).fp();
                    if *ws != gs {
                        return fail(format!("state-{}", gf.name()), format!("post-state differs (got vs expected): {}: {}", state_diff(fp, &gs, ws), told()));
                    }
                    Ok(())
                }
                (Ok(_), g) => fail(format!("refused-{}-{}", f.name(), bf.name()), format!("a valid block is refused: {}: {}", g.kind(), told())),
                (Err(e), Got::Ok(())) => fail(format!("admitted-{}-{}", f.name(), bf.name()), format!("a block that must be refused ({e}) is applied: {}", told())),
                (Err(e), Got::Panic(p)) if e != "arithmetic" => fail(format!("panic-{}-{}", f.name(), bf.name()), format!("a block that must be refused ({e}) makes the executor panic: {}: {}", cut(p), told())),
                (Err(_), _) => Ok(()),
            }
        };
        if let Err(e) = compare(&want) {
            match alt {
                Some(a) if compare(&a).is_ok() => obs.label("known defect of a generated copy, see C08 and C10"),
                _ => return Err(e),
            }
        }
        match (&want, &got) {
            (Ok((wf, _)), _) => {
                let n = *wf as usize - f as usize;
                upgrades += n;
                obs.label(format!("accepted through {n} upgrades"));
                if n > 0 {
                    obs.label(if slot == c.FORK_EPOCHS[bf as usize] * spe { "block in the first slot of its fork" } else { "block after an empty first slot" });
                    if n > 1 && (f as usize + 1..bf as usize).any(|i| c.FORK_EPOCHS[i] == c.FORK_EPOCHS[i + 1]) {
                        obs.label("forks that share an epoch");
                    }
                }
            }
            (Err(e), _) => {
                obs.label(format!("rejected: {e}"));
                // half the time the chain goes on from where the failure left it, as far as it is a state of its slot
                let lone = gf == f && gs.slot > s.slot && e == "block signature";
                if !(lone && src.bool()) {
                    x = write(&c, f, &s)?;
                } else {
                    obs.label("the chain goes on from a state left by a failure");
                }
            }
        }
    }
    if trace.is_empty() {
        obs.label("no block");
        return Ok(());
    }
    obs.label(format!("{upgrades} upgrades in the chain"));
    obs.sample(|| format!("fork epochs {:?}; {}", &c.FORK_EPOCHS[1..], trace.join("; ")));
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C17",
        rule: "A case is a fork schedule (forks one or more epochs apart, sharing an epoch, at genesis or never), a state of any fork before Electra and up to six blocks given to the executor: of the slot's fork, of the fork before or after it, valid or spoiled, in the first slot of a fork or after empty slots and epochs. A case in which at least one block could be built is non-trivial; distinct by block, schedule and balances.",
        assumptions: &["the executor knows the forks Phase0 to Deneb; blocks of Electra cannot be given to it"],
        subs: vec![Sub { name: "chain", quick: 3000, thorough: 200000, f: chain }],
    })
}

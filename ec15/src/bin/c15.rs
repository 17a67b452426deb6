//! C15: shuffling, committees and proposers, with both implementations of the shuffle
use eccheck::*;

/// what one build of the code under test says
#[derive(Debug, PartialEq, Clone)]
struct Assigned {
    count: u64,
    active: Vec<u64>,
    seed: [u8; 32],
    committees: Vec<Vec<Vec<u64>>>,
}
macro_rules! build {
    ($m:ident, $lib:ident) => {
        mod $m {
            use super::Assigned;
            use eccheck::{guard, Cfg, Fork, Got, Minimal};
            use $lib::{altair, bellatrix, capella, deneb, phase0, primitives::{Bytes32, DomainType}, state_transition::Context};
            mod electra {
                pub mod minimal {
                    use $lib::{deneb::minimal as d, electra::{minimal as e, spec}};
                    pub use $lib::electra::minimal::*;
                    pub type BeaconState = spec::BeaconState<{ d::SLOTS_PER_HISTORICAL_ROOT }, { d::HISTORICAL_ROOTS_LIMIT }, { d::ETH1_DATA_VOTES_BOUND }, { d::VALIDATOR_REGISTRY_LIMIT }, { d::EPOCHS_PER_HISTORICAL_VECTOR }, { d::EPOCHS_PER_SLASHINGS_VECTOR }, { d::MAX_VALIDATORS_PER_COMMITTEE }, { d::SYNC_COMMITTEE_SIZE }, { d::BYTES_PER_LOGS_BLOOM }, { d::MAX_EXTRA_DATA_BYTES }, { e::PENDING_BALANCE_DEPOSITS_LIMIT }, { e::PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { e::PENDING_CONSOLIDATIONS_LIMIT }>;
                }
            }
            fn ctx(c: &Cfg) -> Context {
                let mut x = if c.preset == Minimal { Context::for_minimal() } else { Context::for_mainnet() };
                x.max_committees_per_slot = c.k.MAX_COMMITTEES_PER_SLOT;
                x.target_committee_size = c.k.TARGET_COMMITTEE_SIZE;
                x.shuffle_round_count = c.k.SHUFFLE_ROUND_COUNT;
                x.min_seed_lookahead = c.k.MIN_SEED_LOOKAHEAD;
                x.max_effective_balance = c.k.MAX_EFFECTIVE_BALANCE;
                x
            }
            fn run<T>(f: impl FnOnce() -> Result<T, $lib::Error>) -> Got<T> {
                match guard(f) {
                    Ok(Ok(x)) => Got::Ok(x),
                    Ok(Err(e)) => Got::Err(format!("{e:?}")),
                    Err(p) => Got::Panic(p),
                }
            }
            fn b32(x: &[u8; 32]) -> Bytes32 {
                Bytes32::try_from(x.as_ref()).unwrap()
            }
            pub fn index(c: &Cfg, i: u64, n: u64, seed: &[u8; 32]) -> Got<u64> {
                run(|| Ok(phase0::compute_shuffled_index(i as usize, n as usize, &b32(seed), &ctx(c))? as u64))
            }
            pub fn list(c: &Cfg, l: &[u64], seed: &[u8; 32]) -> Got<Vec<u64>> {
                let v: Vec<usize> = l.iter().map(|x| *x as usize).collect();
                run(|| Ok(phase0::compute_shuffled_indices(&v, &b32(seed), &ctx(c)).into_iter().map(|x| x as u64).collect()))
            }
            pub fn committee(c: &Cfg, l: &[u64], seed: &[u8; 32], i: u64, n: u64) -> Got<Vec<u64>> {
                let v: Vec<usize> = l.iter().map(|x| *x as usize).collect();
                run(|| Ok(phase0::compute_committee(&v, &b32(seed), i as usize, n as usize, &ctx(c))?.into_iter().map(|x| x as u64).collect()))
            }
            macro_rules! on {
                ($f:expr, $spec:ident => $body:expr) => {
                    match $f {
                        Fork::Phase0 => { use phase0::minimal as $spec; $body }
                        Fork::Altair => { use altair::minimal as $spec; $body }
                        Fork::Bellatrix => { use bellatrix::minimal as $spec; $body }
                        Fork::Capella => { use capella::minimal as $spec; $body }
                        Fork::Deneb => { use deneb::minimal as $spec; $body }
                        Fork::Electra => { use electra::minimal as $spec; $body }
                    }
                };
            }
            /// committees of an epoch; slots in the order given
            pub fn assigned(c: &Cfg, f: Fork, st: &[u8], epoch: u64) -> Got<Assigned> {
                let ctx = ctx(c);
                on!(f, spec => run(|| {
                    let s = <spec::BeaconState as ssz_rs::Deserialize>::deserialize(st).expect("state");
                    let count = spec::get_committee_count_per_slot(&s, epoch, &ctx) as u64;
                    let active = spec::get_active_validator_indices(&s, epoch).into_iter().map(|x| x as u64).collect();
                    let seed = <[u8; 32]>::try_from(spec::get_seed(&s, epoch, DomainType::BeaconAttester, &ctx).as_ref()).unwrap();
                    let mut committees = vec![];
                    for o in 0..ctx.slots_per_epoch {
                        let mut l = vec![];
                        for i in 0..count {
                            l.push(spec::get_beacon_committee(&s, epoch * ctx.slots_per_epoch + o, i as usize, &ctx)?.into_iter().map(|x| x as u64).collect());
                        }
                        committees.push(l);
                    }
                    Ok(Assigned { count, active, seed, committees })
                }))
            }
            /// proposers of the slots from the state's on
            pub fn proposers(c: &Cfg, f: Fork, st: &[u8], slots: &[u64]) -> Got<Vec<u64>> {
                let ctx = ctx(c);
                on!(f, spec => run(|| {
                    let mut s = <spec::BeaconState as ssz_rs::Deserialize>::deserialize(st).expect("state");
                    let mut out = vec![];
                    for x in slots {
                        s.slot = *x;
                        out.push(spec::get_beacon_proposer_index(&s, &ctx)? as u64);
                    }
                    Ok(out)
                }))
            }
            /// the sampling on its own, from any list of candidates
            pub fn sample(c: &Cfg, f: Fork, st: &[u8], l: &[u64], seed: &[u8; 32]) -> Got<u64> {
                let ctx = ctx(c);
                let v: Vec<usize> = l.iter().map(|x| *x as usize).collect();
                on!(f, spec => run(|| {
                    let s = <spec::BeaconState as ssz_rs::Deserialize>::deserialize(st).expect("state");
                    Ok(spec::compute_proposer_index(&s, &v, &b32(seed), &ctx)? as u64)
                }))
            }
        }
    };
}
build!(whole, ethereum_consensus);
build!(single, ec_plain);
const BUILDS: [&str; 2] = ["list-shuffling build", "index-shuffling build"];

fn size(src: &mut Src) -> u64 {
    match src.weighted(&[4, 3, 2, 1]) {
        0 => src.range(1, 40),
        1 => src.range(1, 300),
        2 => *src.pick(&[255, 256, 257, 511, 512, 513, 767, 768, 1, 2, 3]),
        _ => src.range(300, 2500),
    }
}
fn shuffle(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = size(src);
    shuffle_of(src, obs, n)
}
/// a registry of mainnet size
fn large(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let n = match src.below(4) {
        0 => src.range(65530, 65545),
        1 => src.range(20000, 70000),
        _ => src.range(70000, 300000),
    };
    shuffle_of(src, obs, n)
}
fn shuffle_of(src: &mut Src, obs: &mut Obs, n: u64) -> CaseResult {
    let mut c = gen::cfg_of(src, Minimal);
    if src.chance(1, 4) {
        c = Cfg::mainnet();
    }
    let rounds = c.k.SHUFFLE_ROUND_COUNT;
    let seed: [u8; 32] = src.arr();
    let map = spec::shuffle_map(n, &seed, rounds);
    let mut seen = vec![false; n as usize];
    map.iter().for_each(|x| seen[*x as usize] = true);
    assert!(seen.iter().all(|x| *x));
    // arbitrary values in the list, so that positions and values cannot be mixed up
    let off = src.below(1000);
    let stride = src.range(1, 7);
    let l: Vec<u64> = (0..n).map(|i| off + i * stride).collect();
    let want: Vec<u64> = map.iter().map(|i| l[*i as usize]).collect();
    obs.hit(format!("{rounds} {n} {seed:?}").as_bytes());
    obs.sample(|| format!("{n} elements, {rounds} rounds, seed {:02x}{:02x}..", seed[0], seed[1]));
    for (b, got) in BUILDS.iter().zip([whole::list(&c, &l, &seed), single::list(&c, &l, &seed)]) {
        match got {
            Got::Ok(g) => ensure!(g == want, "shuffle-list", "{b}: list of {n} with {rounds} rounds, seed {seed:02x?}: {:?}, expected {:?}", &g[..g.len().min(20)], &want[..want.len().min(20)]),
            g => return fail("shuffle-list", format!("{b}: list of {n}: {}", g.kind())),
        }
    }
    for _ in 0..6 {
        let i = src.below(n);
        for (b, got) in BUILDS.iter().zip([whole::index(&c, i, n, &seed), single::index(&c, i, n, &seed)]) {
            match got {
                Got::Ok(g) => ensure!(g == map[i as usize], "shuffle-index", "{b}: index {i} of {n} goes to {g}, expected {}", map[i as usize]),
                g => return fail("shuffle-index", format!("{b}: index {i} of {n}: {}", g.kind())),
            }
        }
    }
    // outside the list
    let i = n + src.below(3);
    for (b, got) in BUILDS.iter().zip([whole::index(&c, i, n, &seed), single::index(&c, i, n, &seed)]) {
        ensure!(matches!(got, Got::Err(_)), "shuffle-outside", "{b}: index {i} of {n}: {}", got.kind());
    }
    // committees of any number
    let count = if n > 5000 { src.range(1, 2048) } else if src.chance(1, 3) { src.range(1, n) } else { src.range(1, 12) };
    let mut joined = [vec![], vec![]];
    for i in 0..count {
        let w = &want[(n * i / count) as usize..(n * (i + 1) / count) as usize];
        if n > 5000 && !src.chance(1, count) && i != count - 1 {
            continue;
        }
        if count > 40 && !src.chance(1, 8) && i != count - 1 {
            continue;
        }
        for (k, got) in [whole::committee(&c, &l, &seed, i, count), single::committee(&c, &l, &seed, i, count)].into_iter().enumerate() {
            match got {
                Got::Ok(g) => {
                    ensure!(g == w, "committee", "{}: committee {i} of {count} over {n}: {g:?}, expected {w:?}", BUILDS[k]);
                    joined[k].extend(g);
                }
                g => return fail("committee", format!("{}: committee {i} of {count} over {n}: {}", BUILDS[k], g.kind())),
            }
        }
    }
    if count <= 40 && n <= 5000 {
        for j in joined {
            let mut j = j;
            j.sort();
            ensure!(j == l, "partition", "the {count} committees do not partition the {n} members");
        }
    }
    Ok(())
}
fn assignments(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let c = gen::cfg_of(src, Minimal);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let shape = if src.chance(1, 5) { gen::Shape { lo: 150, hi: 700, ..gen::ANY } } else { gen::ANY };
    let mut s = gen::state(src, &sp, shape);
    let e = match src.below(3) {
        0 => sp.cur(&s),
        1 => sp.prev(&s),
        _ => sp.cur(&s) + 1,
    };
    if src.chance(1, 3) {
        // validators that come and go around that epoch
        for v in s.validators.iter_mut() {
            if src.chance(1, 4) {
                v.activation_epoch = gen::near(src, e);
                v.exit_epoch = if src.chance(1, 2) { FAR_FUTURE } else { v.activation_epoch + src.below(3) };
            }
        }
    }
    let active = sp.active_indices(&s, e);
    let want = Assigned { count: sp.committee_count(&s, e), seed: sp.seed(&s, e, DOMAIN_BEACON_ATTESTER), committees: sp.committees(&s, e), active: active.clone() };
    let bytes = fp.enc("BeaconState", &s);
    obs.hit(format!("{f:?} {e} {:?}", want.committees).as_bytes());
    obs.label(format!("{} committees per slot", want.count));
    obs.sample(|| format!("{}: epoch {e}, {} committees per slot", brief(&sp, &s), want.count));
    for (b, got) in BUILDS.iter().zip([whole::assigned(&c, f, &bytes, e), single::assigned(&c, f, &bytes, e)]) {
        match got {
            Got::Ok(g) => {
                let input = || format!("{b}: {}: epoch {e}", brief(&sp, &s));
                ensure!(g.active == want.active, format!("active-{}", f.name()), "{}: active set {:?}, expected {:?}", input(), g.active, want.active);
                ensure!(g.count == want.count, format!("count-{}", f.name()), "{}: {} committees per slot, expected {}", input(), g.count, want.count);
                ensure!(g.seed == want.seed, format!("seed-{}", f.name()), "{}: seed differs", input());
                let mut all: Vec<u64> = g.committees.iter().flatten().flatten().copied().collect();
                all.sort();
                ensure!(all == active, format!("partition-{}", f.name()), "{}: the committees hold {all:?}, active are {active:?}", input());
                let sizes: Vec<usize> = g.committees.iter().flatten().map(|c| c.len()).collect();
                ensure!(sizes.iter().max().unwrap() - sizes.iter().min().unwrap() <= 1, format!("sizes-{}", f.name()), "{}: committee sizes {sizes:?}", input());
                ensure!(g.committees == want.committees, format!("committees-{}", f.name()), "{}: committees {:?}, expected {:?}", input(), g.committees, want.committees);
            }
            g => return fail(format!("committees-{}", f.name()), format!("{b}: {}: epoch {e}: {}", brief(&sp, &s), g.kind())),
        }
    }
    // nothing but the seed and the active set matters
    let mut t = s.clone();
    t.slot = e * c.k.SLOTS_PER_EPOCH + src.below(c.k.SLOTS_PER_EPOCH);
    t.genesis_validators_root = src.arr();
    t.block_roots[0] = src.arr();
    for (v, b) in t.validators.iter_mut().zip(t.balances.iter_mut()) {
        *b = src.below(64 * GWEI);
        v.slashed ^= src.chance(1, 4);
        v.withdrawable_epoch = v.withdrawable_epoch.max(v.exit_epoch);
        v.pubkey = src.arr();
    }
    match whole::assigned(&c, f, &fp.enc("BeaconState", &t), e) {
        Got::Ok(g) => ensure!(g == want, format!("depends-{}", f.name()), "{}: committees of epoch {e} change with balances, keys, slashings or roots", brief(&sp, &s)),
        g => return fail(format!("committees-{}", f.name()), g.kind()),
    }
    Ok(())
}
fn proposers(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let f = fork(src);
    let c = gen::cfg_of(src, Minimal);
    let sp = Spec::new(&c, f);
    let fp = sp.fp();
    let mut s = gen::state(src, &sp, gen::ANY);
    if src.chance(1, 2) {
        let top = src.range(1, 40);
        for v in s.validators.iter_mut() {
            v.effective_balance = src.range(0, top) * GWEI;
        }
    }
    let e = sp.cur(&s);
    let slots: Vec<u64> = (0..c.k.SLOTS_PER_EPOCH).map(|o| e * c.k.SLOTS_PER_EPOCH + o).collect();
    let want = model(|| {
        let mut m = s.clone();
        let mut out = vec![];
        for x in &slots {
            m.slot = *x;
            out.push(sp.proposer(&m)?);
        }
        Ok(out)
    });
    let Ok(want) = want else {
        return Ok(());
    };
    let bytes = fp.enc("BeaconState", &s);
    obs.hit(format!("{f:?} {e} {want:?}").as_bytes());
    obs.sample(|| format!("{}: proposers {want:?}", brief(&sp, &s)));
    for (b, got) in BUILDS.iter().zip([whole::proposers(&c, f, &bytes, &slots), single::proposers(&c, f, &bytes, &slots)]) {
        match got {
            Got::Ok(g) => ensure!(g == want, format!("proposers-{}", f.name()), "{b}: {}: proposers {g:?}, expected {want:?}", brief(&sp, &s)),
            g => return fail(format!("proposers-{}", f.name()), format!("{b}: {}: {}", brief(&sp, &s), g.kind())),
        }
    }
    // the sampling over candidates that are not the active set
    let n = s.validators.len() as u64;
    let l: Vec<u64> = match src.below(4) {
        0 => vec![],
        1 => vec![src.below(n)],
        _ => (0..src.range(1, 12)).map(|_| src.below(n)).collect(),
    };
    let seed: [u8; 32] = src.arr();
    let want = model(|| sp.proposer_from(&s, &l, &seed));
    if want.as_ref().err().is_some_and(|e| e.contains("does not end")) {
        return Ok(());
    }
    for (b, got) in BUILDS.iter().zip([whole::sample(&c, f, &bytes, &l, &seed), single::sample(&c, f, &bytes, &l, &seed)]) {
        match (&want, got) {
            (Ok(w), Got::Ok(g)) => ensure!(*w == g, format!("sample-{}", f.name()), "{b}: from {l:?} came {g}, expected {w}"),
            (Err(_), Got::Err(_)) => {}
            (w, g) => return fail(format!("sample-{}", f.name()), format!("{b}: from {l:?}: {}, expected {w:?}", g.kind())),
        }
    }
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C15",
        rule: "A case is a list, seed and committee count (part shuffle), or a fork, configuration, state and epoch (parts assignments, proposers); each runs in two builds, with and without the whole-list shuffling feature. Every case is non-trivial; distinct by the resulting assignment.",
        assumptions: &["states have the minimal preset; the mainnet round count is used in part shuffle"],
        subs: vec![
            Sub { name: "shuffle", quick: 12000, thorough: 600000, f: shuffle },
            Sub { name: "large", quick: 64, thorough: 4000, f: large },
            Sub { name: "assignments", quick: 12000, thorough: 600000, f: assignments },
            Sub { name: "proposers", quick: 15000, thorough: 800000, f: proposers },
        ],
    })
}

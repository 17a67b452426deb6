//! C21: networks, presets, configurations, fork schedule
use ec::{
    clock::{Clock, TimeProvider},
    networks::{typical_genesis_time, Network},
    state_transition::Context,
};
use eccheck::{published::*, *};

fn network(i: usize) -> Network {
    match NETWORKS[i] {
        "mainnet" => Network::Mainnet,
        "goerli" => Network::Goerli,
        "sepolia" => Network::Sepolia,
        "holesky" => Network::Holesky,
        "hoodi" => Network::Hoodi,
        n => Network::Custom(n.into()),
    }
}
fn built_in(i: usize, direct: bool) -> Result<Context, String> {
    if !direct && NETWORKS[i] != "minimal" {
        return Context::try_from(network(i)).map_err(|e| format!("{e:?}"));
    }
    Ok(match NETWORKS[i] {
        "mainnet" => Context::for_mainnet(),
        "minimal" => Context::for_minimal(),
        "goerli" => Context::for_goerli(),
        "sepolia" => Context::for_sepolia(),
        "holesky" => Context::for_holesky(),
        _ => Context::for_hoodi(),
    })
}
fn want(net: usize) -> Vec<(&'static str, String)> {
    let mut w = preset(NETWORKS[net] == "minimal");
    w.extend(config(net).into_iter().map(|(n, _, v)| (n, v)));
    w
}
fn same(sig: &str, who: &str, got: &[(&'static str, String)], want: &[(&'static str, String)]) -> CaseResult {
    assert_eq!(got.len(), want.len());
    for (g, w) in got.iter().zip(want) {
        assert_eq!(g.0, w.0);
        if g.1 != w.1 {
            return fail(format!("{sig}-{}", g.0), format!("{who}: {} is {} and must be {}", g.0, g.1, w.1));
        }
    }
    Ok(())
}
fn secs_per_slot(net: usize) -> u64 {
    if NETWORKS[net] == "minimal" { 6 } else { 12 }
}
fn check_clock<T: TimeProvider + Send + Sync>(who: &str, c: &Clock<T>, genesis: u64, sps: u64, spe: u64, slot: u64) -> CaseResult {
    ensure_eq!(c.timestamp_at_slot(slot), genesis + slot * sps, "clock-time", "{who}: time of slot {slot}");
    ensure_eq!(c.epoch_for(slot), slot / spe, "clock-epoch", "{who}: epoch of slot {slot}");
    ensure_eq!(c.slot_at_time((genesis as u128 + (slot * sps) as u128) * 1_000_000_000), Some(slot), "clock-slot", "{who}: slot at the start of slot {slot}");
    ensure_eq!(c.slot_at_time(genesis as u128 * 1_000_000_000 - 1), None, "clock-genesis", "{who}: slot just before genesis");
    Ok(())
}
/// the networks known by name
fn networks(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let i = src.idx(NETWORKS.len());
    let direct = src.bool();
    let slot = match src.below(3) {
        0 => src.below(64),
        1 => src.below(400000 * 32),
        _ => src.below(1 << 40),
    };
    let who = format!("network {}{}", NETWORKS[i], if direct { "" } else { " by its name" });
    obs.hit(format!("{i} {direct} {slot}").as_bytes());
    obs.label(NETWORKS[i]);
    obs.sample(|| format!("{who}, slot {slot}"));
    let ctx = match guard(|| built_in(i, direct)) {
        Ok(Ok(c)) => c,
        x => return fail("context", format!("{who}: no context ({:?})", x.map(|x| x.err()))),
    };
    same(&format!("value-{}", NETWORKS[i]), &who, &fields(&ctx), &want(i))?;
    ensure!(*ctx.network() == network(i) || (NETWORKS[i] == "minimal" && matches!(ctx.network(), Network::Custom(_))), "network-name", "{who}: the context says it is {:?}", ctx.network());
    // forks
    let cfg: std::collections::HashMap<_, _> = config(i).into_iter().map(|(n, _, v)| (n, v)).collect();
    let spe = if NETWORKS[i] == "minimal" { 8 } else { 32 };
    check_forks(&who, &ctx, &|n| if n == "phase0" { 0 } else { cfg[format!("{n}_fork_epoch").as_str()].parse().unwrap() }, &|n| cfg[format!("{}_fork_version", if n == "phase0" { "genesis" } else { n }).as_str()].clone(), spe, slot)?;
    // genesis
    match (ctx.genesis_time(), GENESIS[i]) {
        (Ok(t), Some(w)) => ensure_eq!(t, w, "genesis-time", "{who}: genesis time"),
        (Err(_), None) => {}
        (r, w) => return fail(format!("genesis-{}", NETWORKS[i]), format!("{who}: genesis time {r:?}, must be {w:?}")),
    }
    match (ctx.clock(), GENESIS[i]) {
        (Some(c), Some(g)) => check_clock(&who, &c, g, secs_per_slot(i), spe, slot)?,
        (None, None) => {}
        (c, _) => return fail(format!("clock-{}", NETWORKS[i]), format!("{who}: a clock is {}", if c.is_some() { "given" } else { "not given" })),
    }
    let g = src.range(1, 1 << 33);
    check_clock(&format!("{who} at {g}"), &ctx.clock_at(g), g, secs_per_slot(i), spe, slot)?;
    let typical: u64 = cfg["min_genesis_time"].parse::<u64>().unwrap() + cfg["genesis_delay"].parse::<u64>().unwrap();
    ensure_eq!(typical_genesis_time(&ctx), typical, "typical", "{who}: typical genesis time");
    // the names
    if NETWORKS[i] != "minimal" {
        let n = network(i);
        ensure_eq!(n.to_string(), NETWORKS[i], "name", "{who}: printed name");
        ensure_eq!(String::from(n.clone()), NETWORKS[i], "name", "{who}: name as text");
        ensure_eq!(Network::from(NETWORKS[i].to_string()), n, "name", "{who}: from the name");
        ensure_eq!(serde_json::to_string(&n).unwrap(), format!("{:?}", NETWORKS[i]), "name", "{who}: as JSON");
        ensure_eq!(serde_json::from_str::<Network>(&format!("{:?}", NETWORKS[i])).ok(), Some(n), "name", "{who}: from JSON");
    }
    Ok(())
}
fn check_forks(who: &str, ctx: &Context, epoch_of: &dyn Fn(&str) -> u64, version_of: &dyn Fn(&str) -> String, spe: u64, slot: u64) -> CaseResult {
    let mut slots = vec![slot, 0, u64::MAX];
    for f in FORKS {
        if let Some(s) = epoch_of(f.name()).checked_mul(spe) {
            slots.extend([s, s.wrapping_sub(1), s + spe - 1, s + spe]);
        }
    }
    for s in slots {
        let want = FORKS.into_iter().filter(|f| epoch_of(f.name()) <= s / spe).max().unwrap();
        let got = ctx.fork_for(s);
        ensure!(format!("{got:?}") == format!("{want:?}"), "fork-for", "{who}: the fork of slot {s} is {got:?} and must be {want:?}");
    }
    for f in FORKS {
        let k = fork_of(f);
        let got = ctx.fork_version_for(k);
        let got = format!("0x{}", got.iter().map(|b| format!("{b:02x}")).collect::<String>());
        ensure_eq!(got, version_of(f.name()), "fork-version", "{who}: version of {f:?}");
    }
    Ok(())
}
fn fork_of(f: Fork) -> ec::Fork {
    match f {
        Phase0 => ec::Fork::Phase0,
        Altair => ec::Fork::Altair,
        Bellatrix => ec::Fork::Bellatrix,
        Capella => ec::Fork::Capella,
        Deneb => ec::Fork::Deneb,
        Electra => ec::Fork::Electra,
    }
}
/// any schedule of forks
fn schedule(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut ctx = if src.bool() { Context::for_minimal() } else { Context::for_mainnet() };
    let spe = ctx.slots_per_epoch;
    let mut e = [0u64; 6];
    let mut at = 0u64;
    for x in e.iter_mut().skip(1) {
        at = match src.below(4) {
            0 => at,
            1 => at.saturating_add(src.range(1, 3)),
            2 => at.saturating_add(src.below(100000)),
            _ => {
                if src.chance(1, 3) {
                    u64::MAX
                } else {
                    at.saturating_add(1)
                }
            }
        };
        *x = at;
    }
    ctx.altair_fork_epoch = e[1];
    ctx.bellatrix_fork_epoch = e[2];
    ctx.capella_fork_epoch = e[3];
    ctx.deneb_fork_epoch = e[4];
    ctx.electra_fork_epoch = e[5];
    let v: [[u8; 4]; 6] = std::array::from_fn(|_| src.arr());
    ctx.genesis_fork_version = v[0];
    ctx.altair_fork_version = v[1];
    ctx.bellatrix_fork_version = v[2];
    ctx.capella_fork_version = v[3];
    ctx.deneb_fork_version = v[4];
    ctx.electra_fork_version = v[5];
    let slot = src.edgy();
    obs.hit(format!("{e:?} {v:?} {slot}").as_bytes());
    obs.label(format!("{} distinct activation epochs", e.iter().collect::<std::collections::BTreeSet<_>>().len()));
    obs.sample(|| format!("activation epochs {e:?}, {spe} slots per epoch"));
    let n = |n: &str| FORKS.iter().position(|f| f.name() == n).unwrap();
    check_forks(&format!("activation epochs {e:?}"), &ctx, &|f| e[n(f)], &|f| format!("0x{}", v[n(f)].iter().map(|b| format!("{b:02x}")).collect::<String>()), spe, slot)
}

struct Dir(std::path::PathBuf);
impl Dir {
    fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("c21-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.0.join("config.yaml"));
        let _ = std::fs::remove_dir(&self.0);
    }
}
fn hexed(src: &mut Src, n: usize) -> String {
    format!("0x{}", src.bytes(n).iter().map(|b| format!("{b:02x}")).collect::<String>())
}
/// configuration files
fn files(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let minimal = src.bool();
    let name = *src.pick(&["mainnet", "minimal", "goerli", "sepolia", "holesky", "hoodi", "devnet-7", "my net"]);
    let mut rows = vec![];
    for (n, kind, v) in config(0) {
        let v = match kind {
            "u64" => match src.below(4) {
                0 => v,
                1 => src.below(1000).to_string(),
                _ => src.edgy().to_string(),
            },
            "u256" => src.edgy().to_string(),
            "h4" => hexed(src, 4),
            "h20" => hexed(src, 20),
            _ => hexed(src, 32),
        };
        rows.push((n, kind, v));
    }
    let want: Vec<(&'static str, String)> = preset(minimal).into_iter().chain(rows.iter().map(|(n, _, v)| (*n, v.clone()))).collect();
    // the file
    let mut lines: Vec<String> = vec![];
    let q = *src.pick(&["'", "\"", ""]);
    lines.push(format!("PRESET_BASE: {q}{}{q}", if minimal { "minimal" } else { "mainnet" }));
    lines.push(format!("CONFIG_NAME: {q}{name}{q}"));
    for (n, kind, v) in &rows {
        let quoted = kind.starts_with('h') && src.chance(1, 4);
        let v = if kind.starts_with('h') && src.chance(1, 4) { format!("0x{}", v[2..].to_uppercase()) } else { v.clone() };
        lines.push(if quoted { format!("{}: \"{v}\"", n.to_uppercase()) } else { format!("{}: {v}", n.to_uppercase()) });
    }
    if src.bool() {
        lines.push("DEPOSIT_REQUEST_TYPE: 0".into());
        lines.push("REORG_HEAD_WEIGHT_THRESHOLD: 20".into());
        lines.push("SOMETHING_ELSE: 'text'".into());
    }
    if src.bool() {
        for i in (1..lines.len()).rev() {
            lines.swap(i, src.idx(i + 1));
        }
    }
    // break it
    let broken = if src.chance(1, 3) {
        let i = src.idx(rows.len());
        let (n, kind, v) = &rows[i];
        let at = lines.iter().position(|l| l.starts_with(&format!("{}:", n.to_uppercase()))).unwrap();
        let p = lines.iter().position(|l| l.starts_with("PRESET_BASE")).unwrap();
        Some(match src.below(5) {
            0 => {
                lines.remove(at);
                format!("without {n}")
            }
            1 => {
                let base = *src.pick(&["Mainnet", "main", "minimal2", "gnosis", "sepolia", "hoodi"]);
                lines[p] = format!("PRESET_BASE: '{base}'");
                format!("preset {base}")
            }
            2 => {
                lines.remove(p);
                "without a preset".into()
            }
            3 => {
                let bad = if kind.starts_with('h') { src.pick(&[&v[..v.len() - 2], &v[..v.len() - 1], "zz", "0x"]).to_string() } else { src.pick(&["-1", "one", "[1]", "1.5"]).to_string() };
                lines[at] = format!("{}: {bad}", n.to_uppercase());
                format!("{n}: {bad}")
            }
            _ => {
                let bad = match *kind {
                    "u64" => "18446744073709551616".to_string(),
                    "u256" => "ten".to_string(),
                    _ => format!("{v}00"),
                };
                lines[at] = format!("{}: {bad}", n.to_uppercase());
                format!("{n}: {bad}")
            }
        })
    } else {
        None
    };
    let mut text = String::new();
    if src.bool() {
        text += "# a network\n\n";
    }
    for l in &lines {
        if src.chance(1, 8) {
            text += "# ----\n";
        }
        text += l;
        text += *src.pick(&["\n", "\n", "\n\n", "  \n"]);
    }
    let dir = Dir::new();
    let file = dir.0.join("config.yaml");
    std::fs::write(&file, &text).unwrap();
    let by_dir = src.bool();
    obs.hit(text.as_bytes());
    obs.label(broken.as_ref().map_or("good file", |_| "broken file"));
    obs.sample(|| format!("{} lines, preset {}, {}", lines.len(), if minimal { "minimal" } else { "mainnet" }, broken.clone().unwrap_or("well formed".into())));
    let got = guard(|| if by_dir { Context::try_from(Network::Custom(dir.0.to_str().unwrap().into())) } else { Context::try_from_file(&file) });
    let who = format!("configuration file ({})", broken.clone().unwrap_or("well formed".into()));
    match (got, broken) {
        (Err(p), _) => fail("file-panic", format!("{who}: panic {p}; file: {text}")),
        (Ok(Ok(_)), Some(b)) => fail("file-accepted", format!("{who}: accepted ({b}); file: {text}")),
        (Ok(Err(_)), Some(_)) => Ok(()),
        (Ok(Err(e)), None) => fail("file-refused", format!("{who}: refused {e:?}; file: {text}")),
        (Ok(Ok(c)), None) => {
            same("file", &who, &fields(&c), &want)?;
            ensure_eq!(c.network().clone(), Network::from(name.to_string()), "file-name", "{who}: CONFIG_NAME {name}");
            // a directory without a configuration
            ensure!(guard(|| Context::try_from(Network::Custom(dir.0.join("no").to_str().unwrap().into()))).is_ok_and(|r| r.is_err()), "no-file", "a directory that does not exist gives a context");
            // the same network, told by text
            let n = Network::Custom(dir.0.to_str().unwrap().into());
            let back: Network = Network::from(String::from(n.clone()));
            ensure!(back == n, "custom-text", "{n:?} as text reads back as {back:?}");
            let js = serde_json::to_string(&n).unwrap();
            let back: Network = serde_json::from_str(&js).unwrap();
            ensure!(back == n, "custom-json", "{n:?} as JSON {js} reads back as {back:?}");
            Ok(())
        }
    }
}
/// constants of the specification that are not part of a preset or configuration
fn constants(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let mut t: Vec<(&str, u128, u128)> = vec![];
    macro_rules! c { ($($p:path = $v:expr),* $(,)?) => { $( t.push((stringify!($p), $p as u128, $v as u128)); )* } }
    use ec::{altair, bellatrix, deneb, electra, phase0, primitives};
    c! {
        phase0::BASE_REWARDS_PER_EPOCH = 4,
        phase0::DEPOSIT_CONTRACT_TREE_DEPTH = 32,
        phase0::JUSTIFICATION_BITS_LENGTH = 4,
        phase0::mainnet::SLOTS_PER_EPOCH = 32,
        phase0::minimal::SLOTS_PER_EPOCH = 8,
        phase0::mainnet::TARGET_AGGREGATORS_PER_COMMITTEE = 16,
        phase0::minimal::TARGET_AGGREGATORS_PER_COMMITTEE = 16,
        phase0::networking::ATTESTATION_SUBNET_COUNT = 64,
        phase0::networking::MAX_REQUEST_BLOCKS = 1024,
        phase0::networking::GOSSIP_MAX_SIZE = 1 << 20,
        phase0::networking::MAX_CHUNK_SIZE = 1 << 20,
        phase0::networking::MIN_EPOCHS_FOR_BLOCK_REQUESTS = 33024,
        phase0::networking::ATTESTATION_PROPAGATION_SLOT_RANGE = 32,
        bellatrix::networking::GOSSIP_MAX_SIZE_BELLATRIX = 10 << 20,
        bellatrix::networking::MAX_CHUNK_SIZE_BELLATRIX = 10 << 20,
        altair::mainnet::TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE = 16,
        altair::minimal::TARGET_AGGREGATORS_PER_SYNC_SUBCOMMITTEE = 16,
        altair::mainnet::SYNC_SUBCOMMITTEE_SIZE = 128,
        altair::minimal::SYNC_SUBCOMMITTEE_SIZE = 8,
        altair::SYNC_COMMITTEE_SUBNET_COUNT = 4,
        altair::TIMELY_SOURCE_FLAG_INDEX = 0,
        altair::TIMELY_TARGET_FLAG_INDEX = 1,
        altair::TIMELY_HEAD_FLAG_INDEX = 2,
        altair::TIMELY_SOURCE_WEIGHT = 14,
        altair::TIMELY_TARGET_WEIGHT = 26,
        altair::TIMELY_HEAD_WEIGHT = 14,
        altair::SYNC_REWARD_WEIGHT = 2,
        altair::PROPOSER_WEIGHT = 8,
        altair::WEIGHT_DENOMINATOR = 64,
        deneb::mainnet::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH = 17,
        deneb::minimal::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH = 9,
        deneb::networking::MAX_REQUEST_BLOCKS_DENEB = 128,
        deneb::networking::MAX_REQUEST_BLOB_SIDECARS = 768,
        deneb::networking::MIN_EPOCHS_FOR_BLOB_SIDECARS_REQUESTS = 4096,
        deneb::networking::BLOB_SIDECAR_SUBNET_COUNT = 6,
        deneb::VERSIONED_HASH_VERSION_KZG = 1,
        electra::UNSET_DEPOSIT_RECEIPTS_START_INDEX = u64::MAX,
        electra::FULL_EXIT_REQUEST_AMOUNT = 0,
        primitives::GENESIS_SLOT = 0,
        primitives::GENESIS_EPOCH = 0,
        primitives::FAR_FUTURE_EPOCH = u64::MAX,
        primitives::BLS_WITHDRAWAL_PREFIX = 0,
        primitives::ETH1_ADDRESS_WITHDRAWAL_PREFIX = 1,
        primitives::COMPOUNDING_WITHDRAWAL_PREFIX = 2,
    }
    let (n, g, w) = t[src.idx(t.len())];
    obs.hit(n.as_bytes());
    obs.label("constant");
    obs.sample(|| n.to_string());
    ensure!(g == w, format!("constant-{n}"), "{n} is {g} and must be {w}");
    ensure!(phase0::networking::TTFB_TIMEOUT.as_secs() == 5 && phase0::networking::RESP_TIMEOUT.as_secs() == 10 && phase0::networking::MAXIMUM_GOSSIP_CLOCK_DISPARITY.as_millis() == 500, "constant-time", "networking time limits");
    ensure!(altair::PARTICIPATION_FLAG_WEIGHTS == [14, 26, 14], "constant-weights", "participation flag weights {:?}", altair::PARTICIPATION_FLAG_WEIGHTS);
    Ok(())
}
fn main() {
    pbt::main(Check {
        property: "C21",
        rule: "A case is a supported network and a slot, a random fork schedule, a generated configuration file (any values, several spellings, or broken in one place), or one constant. Every case is non-trivial: it reaches the comparison of all fields, the fork schedule at all its boundaries, or the required error. Distinct by content.",
        assumptions: &["configuration files are the flat `KEY: scalar` YAML the networks publish; serde_yaml itself is a stand-in"],
        subs: vec![
            Sub { name: "networks", quick: 30000, thorough: 600000, f: networks },
            Sub { name: "schedule", quick: 60000, thorough: 3000000, f: schedule },
            Sub { name: "files", quick: 40000, thorough: 1500000, f: files },
            Sub { name: "constants", quick: 1000, thorough: 3000, f: constants },
        ],
    })
}

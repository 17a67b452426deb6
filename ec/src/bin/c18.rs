//! C18: genesis from the deposits
use eccheck::*;

fn repo(c: &Cfg, fp: Fp, hash: H, time: u64, deposits: &[Deposit], header: Option<&PayloadHeader>) -> Result<Got<State>, Failure> {
    let ctx = context(c);
    let hash: ec::primitives::Hash32 = ssz_rs::Deserialize::deserialize(&hash[..]).unwrap();
    macro_rules! go {
        ($spec:path, [$($k:ident)*], [$($x:expr)?]) => {{
            use $spec as spec;
            let ds: Vec<spec::Deposit> = deposits.iter().map(|d| try_repo(fp, "Deposit", d)).collect::<Result<_, _>>()?;
            $( let h = $x; )?
            match run(|| spec::initialize_beacon_state_from_eth1::<$({ spec::$k }),*>(hash, time, &ds, $({ let _ = stringify!($x); h.as_ref() },)? &ctx)) {
                Got::Ok(s) => {
                    let s: spec::BeaconState = s;
                    Got::Ok(from_repo(fp, "BeaconState", &s))
                }
                Got::Err(e) => Got::Err(e),
                Got::Panic(p) => Got::Panic(p),
            }
        }};
    }
    macro_rules! header { ($spec:path) => {{
        use $spec as spec;
        match header { Some(h) => Some(try_repo::<spec::ExecutionPayloadHeader, _>(fp, "ExecutionPayloadHeader", h)?), None => None }
    }} }
    macro_rules! arms { ($p:ident, $n:expr) => { match fp.f {
        Phase0 => go!(ec::phase0::$p, [SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR MAX_VALIDATORS_PER_COMMITTEE PENDING_ATTESTATIONS_BOUND MAX_PROPOSER_SLASHINGS MAX_ATTESTER_SLASHINGS MAX_ATTESTATIONS MAX_DEPOSITS MAX_VOLUNTARY_EXITS], []),
        Altair => go!(ec::altair::$p, [SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR MAX_VALIDATORS_PER_COMMITTEE SYNC_COMMITTEE_SIZE MAX_PROPOSER_SLASHINGS MAX_ATTESTER_SLASHINGS MAX_ATTESTATIONS MAX_DEPOSITS MAX_VOLUNTARY_EXITS], []),
        Bellatrix => go!(ec::bellatrix::$p, [SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR MAX_VALIDATORS_PER_COMMITTEE SYNC_COMMITTEE_SIZE MAX_PROPOSER_SLASHINGS MAX_ATTESTER_SLASHINGS MAX_ATTESTATIONS MAX_DEPOSITS MAX_VOLUNTARY_EXITS BYTES_PER_LOGS_BLOOM MAX_EXTRA_DATA_BYTES MAX_BYTES_PER_TRANSACTION MAX_TRANSACTIONS_PER_PAYLOAD], [header!(ec::bellatrix::$p)]),
        Capella => go!(ec::capella::$p, [SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR MAX_VALIDATORS_PER_COMMITTEE SYNC_COMMITTEE_SIZE MAX_PROPOSER_SLASHINGS MAX_ATTESTER_SLASHINGS MAX_ATTESTATIONS MAX_DEPOSITS MAX_VOLUNTARY_EXITS BYTES_PER_LOGS_BLOOM MAX_EXTRA_DATA_BYTES MAX_BYTES_PER_TRANSACTION MAX_TRANSACTIONS_PER_PAYLOAD MAX_WITHDRAWALS_PER_PAYLOAD MAX_BLS_TO_EXECUTION_CHANGES], [header!(ec::capella::$p)]),
        Deneb => go!(ec::deneb::$p, [SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR MAX_VALIDATORS_PER_COMMITTEE SYNC_COMMITTEE_SIZE MAX_PROPOSER_SLASHINGS MAX_ATTESTER_SLASHINGS MAX_ATTESTATIONS MAX_DEPOSITS MAX_VOLUNTARY_EXITS BYTES_PER_LOGS_BLOOM MAX_EXTRA_DATA_BYTES MAX_BYTES_PER_TRANSACTION MAX_TRANSACTIONS_PER_PAYLOAD MAX_WITHDRAWALS_PER_PAYLOAD MAX_BLS_TO_EXECUTION_CHANGES MAX_BLOB_COMMITMENTS_PER_BLOCK], [header!(ec::deneb::$p)]),
        Electra => {
            mod m {
                pub use eccheck::electra::$p::*;
                pub use eccheck::ec::deneb::$p::{SLOTS_PER_HISTORICAL_ROOT, HISTORICAL_ROOTS_LIMIT, ETH1_DATA_VOTES_BOUND, VALIDATOR_REGISTRY_LIMIT, EPOCHS_PER_HISTORICAL_VECTOR, EPOCHS_PER_SLASHINGS_VECTOR, MAX_VALIDATORS_PER_COMMITTEE, SYNC_COMMITTEE_SIZE, MAX_PROPOSER_SLASHINGS, MAX_DEPOSITS, MAX_VOLUNTARY_EXITS, BYTES_PER_LOGS_BLOOM, MAX_EXTRA_DATA_BYTES, MAX_BYTES_PER_TRANSACTION, MAX_TRANSACTIONS_PER_PAYLOAD, MAX_WITHDRAWALS_PER_PAYLOAD, MAX_BLS_TO_EXECUTION_CHANGES, MAX_BLOB_COMMITMENTS_PER_BLOCK};
                pub use eccheck::ec::electra::spec::initialize_beacon_state_from_eth1;
                pub const PER_SLOT: usize = MAX_VALIDATORS_PER_COMMITTEE * COMMITTEES;
                pub const COMMITTEES: usize = $n;
            }
            go!(m, [SLOTS_PER_HISTORICAL_ROOT HISTORICAL_ROOTS_LIMIT ETH1_DATA_VOTES_BOUND VALIDATOR_REGISTRY_LIMIT EPOCHS_PER_HISTORICAL_VECTOR EPOCHS_PER_SLASHINGS_VECTOR MAX_VALIDATORS_PER_COMMITTEE SYNC_COMMITTEE_SIZE PENDING_BALANCE_DEPOSITS_LIMIT PENDING_PARTIAL_WITHDRAWALS_LIMIT PENDING_CONSOLIDATIONS_LIMIT MAX_PROPOSER_SLASHINGS PER_SLOT COMMITTEES MAX_ATTESTER_SLASHINGS_ELECTRA MAX_ATTESTATIONS_ELECTRA MAX_DEPOSITS MAX_VOLUNTARY_EXITS BYTES_PER_LOGS_BLOOM MAX_EXTRA_DATA_BYTES MAX_BYTES_PER_TRANSACTION MAX_TRANSACTIONS_PER_PAYLOAD MAX_WITHDRAWALS_PER_PAYLOAD MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD MAX_BLS_TO_EXECUTION_CHANGES MAX_BLOB_COMMITMENTS_PER_BLOCK MAX_CONSOLIDATIONS], [header!(m)])
        }
    } } }
    Ok(match c.preset {
        Minimal => arms!(minimal, 4),
        Mainnet => arms!(mainnet, 64),
    })
}
/// a list of deposits with their proofs
fn deposits(src: &mut Src, sp: &Spec, n: usize) -> Vec<Deposit> {
    let inc = sp.c.k.EFFECTIVE_BALANCE_INCREMENT;
    let pool = match src.weighted(&[3, 2, 1]) {
        0 => n as u64 * 4,
        1 => n as u64,
        _ => 1 + n as u64 / 3,
    };
    let full = src.chance(2, 3);
    let mut datas: Vec<DepositData> = vec![];
    for i in 0..n as u64 {
        let key = if src.chance(3, 4) { i } else { src.below(pool.max(1)) };
        let pubkey = bls::pk(key);
        let mut d = DepositData {
            pubkey,
            withdrawal_credentials: gen::creds(src, sp.f, &pubkey),
            amount: match if full && src.chance(4, 5) { 0 } else { src.weighted(&[3, 2, 2, 2, 1]) } {
                0 => 32 * inc,
                1 => src.range(1, 40) * inc,
                2 => 32 * inc + src.below(3) - 1,
                3 => src.below(40 * inc),
                _ => src.range(30, 3000) * inc + src.below(3),
            },
            signature: [0; 96],
        };
        gen::sign_deposit(sp, key, &mut d);
        if src.chance(1, 8) {
            match src.below(4) {
                0 => d.signature = src.arr(),
                1 => d.amount += 1,
                2 => gen::sign_deposit(sp, key + 1, &mut d),
                _ => d.signature = bls::INF_SIG,
            }
        }
        datas.push(d);
    }
    let leaves: Vec<H> = datas.iter().map(|d| sp.fp().root("DepositData", d)).collect();
    datas
        .into_iter()
        .enumerate()
        .map(|(i, data)| {
            let mut proof = branch(&leaves[..=i], i);
            let mut l = [0u8; 32];
            l[..8].copy_from_slice(&(i as u64 + 1).to_le_bytes());
            proof.push(l);
            Deposit { proof, data }
        })
        .collect()
}
fn branch(leaves: &[H], i: usize) -> Vec<H> {
    ssz::branch(leaves, 32, i)
}
fn setup(src: &mut Src) -> (Cfg, Spec, H, u64, Vec<Deposit>, Option<PayloadHeader>, Vec<String>) {
    let f = fork(src);
    let mut c = gen::cfg(src);
    c.GENESIS_DELAY = *src.pick(&[300, 0, 1, 604800]);
    let sp = Spec::new(&c, f);
    let n = match src.weighted(&[1, 4, 4, 1]) {
        0 => src.below(3) as usize,
        1 => src.range(3, 12) as usize,
        2 => src.range(12, 40) as usize,
        _ => src.range(40, 80) as usize,
    };
    let mut ds = deposits(src, &sp, n);
    let mut notes = vec![];
    if src.chance(1, 6) && n > 0 {
        // one deposit is not what its proof proves
        let i = src.idx(n);
        match src.below(3) {
            0 if n > 1 => {
                let j = src.idx(n);
                ds.swap(i, j);
                notes.push(format!("deposits {i} and {j} swapped"));
            }
            1 => {
                ds.remove(i);
                notes.push(format!("deposit {i} missing"));
            }
            _ => {
                let (d, p) = gen::mutate_as(src, sp.fp(), "Deposit", &ds[i]);
                ds[i] = d;
                notes.push(format!("deposit {i} changed at {p}"));
            }
        }
    }
    let header = if f >= Bellatrix && src.chance(2, 3) { Some(gen::payload_header(src, f)) } else { None };
    let time = if src.chance(1, 2) { src.below(1 << 40) } else { 1578009600 - src.below(700) };
    (c, sp, src.arr(), time, ds, header, notes)
}
fn one(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (c, sp, hash, time, ds, header, notes) = setup(src);
    let want = model(|| sp.genesis(hash, time, &ds, header.as_ref()));
    let got = repo(&c, sp.fp(), hash, time, &ds, header.as_ref())?;
    obs.hit(format!("{:?} {hash:?} {time} {:?}", sp.f, ds).as_bytes());
    let input = || format!("{} deposits for {} with genesis time {time}, {} header {notes:?}", ds.len(), sp.f.name(), if header.is_some() { "a" } else { "no" });
    obs.sample(input);
    if let Ok(s) = &want {
        obs.label(format!("{} deposits in tens", ds.len() / 10));
        let a = sp.active_indices(s, 0).len();
        obs.label(if a == s.validators.len() { "all validators active" } else if a == 0 { "no validator active" } else { "some validators active" });
        if s.validators.len() < ds.len() {
            obs.label("top-ups or deposits without a valid signature");
        }
    }
    if matches!(&want, Err(e) if e == "no active validator") && !matches!(got, Got::Ok(_)) {
        // the specification has no sync committee for nobody
        obs.label("nobody active: no genesis");
        return Ok(());
    }
    judge(sp.fp(), "genesis", want, got, obs, input)
}
/// validity of a genesis state at and around both minimums, and the block that roots the chain
fn valid(src: &mut Src, obs: &mut Obs) -> CaseResult {
    let (mut c, sp, hash, time, ds, header, _) = setup(src);
    let s = if src.chance(1, 2) {
        match model(|| sp.genesis(hash, time, &ds, header.as_ref())) {
            Ok(s) => s,
            Err(_) => {
                obs.label("no genesis state");
                return Ok(());
            }
        }
    } else {
        // any registry, with validators of every status at the genesis epoch
        let mut s = gen::state(src, &sp, gen::Shape { small_epoch: true, ..gen::ANY });
        for v in s.validators.iter_mut() {
            if src.chance(1, 2) {
                v.activation_epoch = src.below(3);
                v.exit_epoch = if src.chance(1, 2) { FAR_FUTURE } else { src.below(3) };
            } else if src.chance(1, 2) {
                v.activation_epoch = 0;
            }
        }
        s
    };
    let a = sp.active_indices(&s, 0).len() as u64;
    c.MIN_GENESIS_TIME = match src.below(4) {
        0 => s.genesis_time,
        1 => s.genesis_time + 1,
        2 => s.genesis_time.saturating_sub(1),
        _ => src.below(1 << 40),
    };
    c.MIN_GENESIS_ACTIVE_VALIDATOR_COUNT = match src.below(4) {
        0 => a,
        1 => a + 1,
        2 => a.saturating_sub(1),
        _ => src.below(100),
    };
    let m = Spec::new(&c, sp.f);
    let ctx = context(&c);
    let want = m.valid_genesis(&s);
    let fp = sp.fp();
    let told = format!("{} with {a} active validators at genesis time {}, minimums {} and {}", fp.f.name(), s.genesis_time, c.MIN_GENESIS_ACTIVE_VALIDATOR_COUNT, c.MIN_GENESIS_TIME);
    obs.hit(told.as_bytes());
    obs.sample(|| told.clone());
    obs.label(format!("valid: {want}"));
    let wb = Block { state_root: sp.state_root(&s), body: Body { execution_payload: sp.default_payload(), sync_aggregate: SyncAggregate { sync_committee_bits: Bits(vec![false; c.k.SYNC_COMMITTEE_SIZE as usize]), sync_committee_signature: [0; 96] }, ..Default::default() }, ..Default::default() };
    let (got, gb): (Got<bool>, Got<Block>) = altair_or_phase0(fp, &s, &ctx)?;
    match got {
        Got::Ok(g) if g == want => {}
        g => return fail(format!("validity-{}", fp.f.name()), format!("reported {g:?}, expected {want}: {told}")),
    }
    match gb {
        Got::Ok(b) if fp.enc("BeaconBlock", &b) == fp.enc("BeaconBlock", &wb) => Ok(()),
        g => fail(format!("genesis-block-{}", fp.f.name()), format!("genesis block {}: {told}", match g { Got::Ok(b) => format!("{b:?}"), g => g.kind() })),
    }
}
fn altair_or_phase0(fp: Fp, s: &State, ctx: &ec::state_transition::Context) -> Result<(Got<bool>, Got<Block>), Failure> {
    Ok(all_forks!(fp.f, spec => {
        let st: spec::BeaconState = try_repo(fp, "BeaconState", s)?;
        let v = run(|| Ok::<_, String>(spec::is_valid_genesis_state(&st, ctx)));
        let b = match run(|| spec::get_genesis_block(&st)) {
            Got::Ok(b) => {
                let b: spec::BeaconBlock = b;
                Got::Ok(from_repo(fp, "BeaconBlock", &b))
            }
            Got::Err(e) => Got::Err(e),
            Got::Panic(p) => Got::Panic(p),
        };
        (v, b)
    }))
}
fn main() {
    pbt::main(Check {
        property: "C18",
        rule: "A case is a configuration, a list of deposits (valid, with invalid signatures, top-ups, partial balances, or changed so that a proof fails), an eth1 block and perhaps an execution header; or a state and minimums at and around its time and active count. Every case is non-trivial; distinct by inputs.",
        assumptions: &["bls signatures are modelled by a stand-in with the same algebra (see DESIGN.md)"],
        subs: vec![Sub { name: "genesis", quick: 14000, thorough: 600000, f: one }, Sub { name: "valid", quick: 14000, thorough: 600000, f: valid }],
    })
}
